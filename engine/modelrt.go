package main

import (
	"go/types"
)

const modelrt = "go.dedis.ch/onet/v3/modelrt."

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func derefAll(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

// chanElem: the element struct of the channel variable, and whether it is a slice of them.
func chanElem(t types.Type) (types.Type, *types.Struct, bool) {
	et := deref(t).Underlying().(*types.Chan).Elem()
	agg := false
	if s, ok := et.Underlying().(*types.Slice); ok {
		agg = true
		et = s.Elem()
	}
	return et, et.Underlying().(*types.Struct), agg
}

func registerModelrt(x map[string]extFunc) {
	x[modelrt+"MakeChan"] = func(fr *frame, a []value) value {
		p := fr.p
		c := a[0].(iface).v.(*value)
		p.nchan++
		*c = &Chan{cap: int(a[1].(int64)), id: p.nchan}
		return nil
	}
	x[modelrt+"ChanInfo"] = func(fr *frame, a []value) value {
		_, st, agg := chanElem(a[0].(iface).t)
		return tuple{shortType(st.Field(1).Type()), agg}
	}
	x[modelrt+"Send"] = func(fr *frame, a []value) value {
		p := fr.p
		c := (*a[0].(iface).v.(*value)).(*Chan)
		from, msgs := cells(a[2]), cells(a[3])
		mk := func(i int) value {
			return structure{from[i].(iface).v, copyVal(*(msgs[i].(iface).v.(*value)))}
		}
		if !a[1].(bool) {
			p.chanSend(fr, c, mk(0))
			return nil
		}
		var s []value
		for i := range msgs {
			s = append(s, mk(i))
		}
		p.chanSend(fr, c, s)
		return nil
	}
	x[modelrt+"TypeName"] = func(fr *frame, a []value) value {
		it := a[0].(iface)
		if it.t == nil {
			return "nil"
		}
		return shortType(derefAll(it.t))
	}
	x[modelrt+"Copy"] = func(fr *frame, a []value) value {
		it := a[0].(iface)
		if _, ok := it.t.Underlying().(*types.Pointer); ok {
			return iface{it.t, fr.p.deepCopy(fr, it.t, it.v, map[*value]*value{}, true)}
		}
		v := fr.p.deepCopy(fr, it.t, it.v, map[*value]*value{}, true)
		return iface{types.NewPointer(it.t), &v}
	}
	x[modelrt+"HandlerType"] = func(fr *frame, a []value) value {
		sig := a[0].(iface).t.Underlying().(*types.Signature)
		return shortType(derefAll(sig.Params().At(0).Type()))
	}
	x[modelrt+"CallHandler"] = func(fr *frame, a []value) value {
		it := a[0].(iface)
		sig := it.t.Underlying().(*types.Signature)
		r := fr.call(it.v, []value{a[1].(iface).v}).(tuple)
		return tuple{wrapIface(sig.Results().At(0).Type(), r[0]), r[1]}
	}
	x[modelrt+"Assign"] = func(fr *frame, a []value) value {
		*a[0].(iface).v.(*value) = copyVal(*a[1].(iface).v.(*value))
		return nil
	}
	x[modelrt+"Exit"] = func(fr *frame, a []value) value { fr.p.exit(fr, int(a[0].(int64))); return nil }
}
