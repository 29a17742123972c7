package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"
)

var externals map[string]extFunc

// preFuncs run before the interpreted code and may decline.
var preFuncs map[string]func(fr *frame, args []value) (value, bool)

func nop(fr *frame, args []value) value { return nil }

func nilErr() value { return iface{} }

func init() {
	externals = map[string]extFunc{}
	preFuncs = map[string]func(fr *frame, args []value) (value, bool){}
	x := externals

	for name, f := range bridged {
		f := f
		preFuncs[name] = func(fr *frame, args []value) (value, bool) { return fr.p.bridge(f, args) }
	}

	// ---- sym: the harness interface
	reg := func(p *Path, kind, name string, t *Term) {
		p.inputs = append(p.inputs, inputRec{Name: name, Kind: kind, T: t})
	}
	intIn := func(fr *frame, args []value) value {
		p := fr.p
		name := p.inputName(fr.harnessStr(args[0]))
		lo, hi := args[1].(int64), args[2].(int64)
		if lo > hi {
			panic(pathEnd{"infeasible"})
		}
		t := p.tc.Var("in_"+name, big.NewInt(lo), big.NewInt(hi))
		reg(p, "int", name, t)
		return fromTerm(t)
	}
	x[symPkg+"Int64"] = intIn
	x[symPkg+"Int"] = intIn
	x[symPkg+"Byte"] = func(fr *frame, args []value) value {
		return intIn(fr, []value{args[0], int64(0), int64(255)})
	}
	x[symPkg+"Bool"] = func(fr *frame, args []value) value {
		p := fr.p
		name := p.inputName(fr.harnessStr(args[0]))
		t := p.tc.Var("in_"+name, big.NewInt(0), big.NewInt(1))
		reg(p, "int", name, t)
		return fromTerm(p.tc.Eq(t, p.tc.Int(1)))
	}
	x[symPkg+"Choice"] = func(fr *frame, args []value) value {
		p := fr.p
		name := p.inputName(fr.harnessStr(args[0]))
		k := p.choose(int(args[1].(int64)), name)
		p.inputs = append(p.inputs, inputRec{Name: name, Kind: "int", Val: fmt.Sprint(k)})
		return int64(k)
	}
	x[symPkg+"Bytes"] = func(fr *frame, args []value) value {
		p := fr.p
		name := p.inputName(fr.harnessStr(args[0]))
		n := int(args[1].(int64))
		out := make([]value, n)
		for i := range out {
			nm := fmt.Sprintf("%s.%d", name, i)
			t := p.tc.Var("in_"+nm, big.NewInt(0), big.NewInt(255))
			reg(p, "int", nm, t)
			out[i] = t
		}
		return out
	}
	x[symPkg+"Concretize"] = func(fr *frame, args []value) value {
		return fr.p.concInt(args[0], "harness concretisation")
	}
	x[symPkg+"Assume"] = func(fr *frame, args []value) value {
		p := fr.p
		t := p.toTerm(args[0], bkind{})
		if t == p.tc.F {
			panic(pathEnd{"assume"})
		}
		if t != p.tc.T {
			r, _ := p.sol.check([]*Term{t}, nil)
			if r == "unsat" {
				panic(pathEnd{"assume"})
			}
			p.assume(t)
		}
		return nil
	}
	x[symPkg+"Assert"] = func(fr *frame, args []value) value {
		msg, ok := args[1].(string)
		if !ok {
			msg = "assertion"
		}
		fr.p.assert(fr.caller, fr.p.toTerm(args[0], bkind{}), msg)
		return nil
	}
	x[symPkg+"Reach"] = func(fr *frame, args []value) value {
		fr.p.reached[fr.harnessStr(args[0])]++
		return nil
	}
	x[symPkg+"Tier"] = func(fr *frame, args []value) value { return int64(fr.p.run.tier) }
	x[symPkg+"MapOrder"] = func(fr *frame, args []value) value { fr.p.mapOrder = int(args[0].(int64)); return nil }
	x[symPkg+"SchedForks"] = func(fr *frame, args []value) value { fr.p.schedForks = int(args[0].(int64)); return nil }
	x[symPkg+"RandForks"] = func(fr *frame, args []value) value {
		fr.p.randFixed, fr.p.randLeft = true, int(args[0].(int64))
		return nil
	}
	x[symPkg+"RandMin"] = func(fr *frame, args []value) value { fr.p.randMin = args[0].(int64); return nil }
	x[symPkg+"Preempt"] = func(fr *frame, args []value) value { fr.p.preempts = int(args[0].(int64)); return nil }
	x[symPkg+"SelectForks"] = func(fr *frame, args []value) value { fr.p.selForks = args[0].(bool); return nil }
	x[symPkg+"RaceDetect"] = func(fr *frame, args []value) value {
		if args[0].(bool) {
			fr.p.race = newRace(fr.p)
		} else if fr.p.race != nil {
			fr.p.race.on = false
		}
		return nil
	}
	x[symPkg+"WaitQuiescent"] = func(fr *frame, args []value) value {
		fr.p.waitQuiescent(fr, int(args[0].(int64)))
		return nil
	}
	x[symPkg+"Symbolic"] = func(fr *frame, args []value) value { return true }
	x[symPkg+"Debug"] = func(fr *frame, args []value) value {
		if dbg {
			fmt.Println("DEBUG", fr.p.sprint(fr, args[0].([]value), true))
		}
		return nil
	}

	// ---- symgrp: group elements
	e2 := func(f func(c *EltCtx, a, b *Elt) *Elt) extFunc {
		return func(fr *frame, args []value) value { return f(fr.p.ec, elt(args[0]), elt(args[1])) }
	}
	x[symgrp+"eltAdd"] = e2((*EltCtx).Add)
	x[symgrp+"eltSub"] = e2((*EltCtx).Sub)
	x[symgrp+"eltMul"] = e2((*EltCtx).Mul)
	x[symgrp+"eltNeg"] = func(fr *frame, args []value) value { return fr.p.ec.Neg(elt(args[0])) }
	x[symgrp+"eltInv"] = func(fr *frame, args []value) value { return fr.p.ec.Inv(elt(args[0])) }
	x[symgrp+"eltEq"] = func(fr *frame, args []value) value { return fromTerm(fr.p.ec.EqTerm(elt(args[0]), elt(args[1]))) }
	x[symgrp+"eltInt"] = func(fr *frame, args []value) value { return fr.p.ec.Embed(fr.p.termOf(args[0])) }
	x[symgrp+"eltBot"] = func(fr *frame, args []value) value { return fr.p.ec.Bot() }
	x[symgrp+"eltIsBot"] = func(fr *frame, args []value) value { return elt(args[0]).bot }
	x[symgrp+"eltFresh"] = func(fr *frame, args []value) value {
		p := fr.p
		p.randRead++
		return p.ec.Fresh(p.fresh(fr.harnessStr(args[0]) + "!"))
	}
	x[symgrp+"eltNamed"] = func(fr *frame, args []value) value {
		var k string
		switch a := args[0].(type) {
		case string:
			k = a
		default:
			k = fr.p.canon(a, new(bool))
		}
		return fr.p.ec.Fresh("n:" + k)
	}
	x[symgrp+"contentKey"] = func(fr *frame, args []value) value { return fr.p.contentKey(cells(args[0])) }
	x[symgrp+"eltBytes"] = func(fr *frame, args []value) value {
		return append([]value(nil), fr.p.eltOpq(elt(args[0]), byte(args[1].(int64)))...)
	}
	x[symgrp+"eltHex"] = func(fr *frame, args []value) value {
		return mkStr(fr.p.eltOpq(elt(args[0]), byte(args[1].(int64))))
	}
	// eltFromBytes: (elt, 0 ok | 1 unknown content of the right length | 2 wrong length)
	x[symgrp+"eltFromBytes"] = func(fr *frame, args []value) value {
		p := fr.p
		b := cells(args[0])
		k := byte(args[1].(int64))
		if len(b) != 32 {
			return tuple{p.ec.Zero(), int64(2)}
		}
		if s := wholeRun(b, k); s != nil {
			return tuple{s.elt, int64(0)}
		}
		return tuple{p.ec.Zero(), int64(1)}
	}
	// validPoint: whether concrete bytes encode a point: 0 unknown, 1 yes, 2 no, 3 the neutral element
	x[symgrp+"validPoint"] = func(fr *frame, args []value) value {
		bs, ok := concreteBytes(cells(args[0]))
		if !ok {
			return int64(0)
		}
		return int64(edPoint(bs))
	}
	x[symgrp+"choose"] = func(fr *frame, args []value) value {
		p := fr.p
		k := fr.harnessStr(args[0])
		if v, ok := p.hostMap["choose:"+k]; ok {
			return v
		}
		v := int64(p.choose(int(args[1].(int64)), k))
		p.hostMap["choose:"+k] = v
		return v
	}
	x[symgrp+"token"] = func(fr *frame, args []value) value {
		p := fr.p
		s := p.newOpq('h', int(args[1].(int64)))
		s.key = fmt.Sprintf("tok%d", args[0].(int64))
		return append([]value(nil), s.all()...)
	}
	x[symgrp+"tokenID"] = func(fr *frame, args []value) value {
		s := wholeRun(cells(args[0]), 'h')
		if s == nil || !strings.HasPrefix(s.key, "tok") {
			return int64(-1)
		}
		var n int64
		fmt.Sscanf(s.key, "tok%d", &n)
		return n
	}
	// hashBytes: an opaque digest determined by the content
	x[symgrp+"hashBytes"] = func(fr *frame, args []value) value {
		p := fr.p
		key := p.contentKey(cells(args[0]))
		n := int(args[1].(int64))
		k := fmt.Sprintf("h%d:%s", n, key)
		s, ok := p.opqs[k]
		if !ok {
			s = p.newOpq('h', n)
			s.key = "hash:" + key
			p.opqs[k] = s
		}
		return append([]value(nil), s.all()...)
	}
	x[symgrp+"nondetInt"] = func(fr *frame, args []value) value {
		p := fr.p
		t := p.freshInt("nd_"+fr.harnessStr(args[0]), args[1].(int64), args[2].(int64))
		return fromTerm(t)
	}
	x[symgrp+"nondetBig"] = func(fr *frame, args []value) value {
		p := fr.p
		m := p.bigGet(args[0])
		if p.randFixed && m.op == OpConst {
			if p.randLeft == 0 || m.k.Cmp(big.NewInt(p.randMin)) < 0 {
				// a fixed sequence
				p.randDraws++
				k := new(big.Int).SetInt64(p.randDraws * 5 / 3)
				return p.bigNew(p.tc.Big(k.Mod(k, m.k)))
			}
			p.randLeft--
		}
		t := p.tc.Var(p.fresh("rnd!"), bigZero, nil)
		if m.op == OpConst {
			t = p.tc.Var(p.fresh("rnd!"), bigZero, new(big.Int).Sub(m.k, bigOne))
		} else {
			p.assume(p.tc.Lt(t, m))
		}
		return p.bigNew(t)
	}
	x[symgrp+"exit"] = func(fr *frame, args []value) value { fr.p.exit(fr, int(args[0].(int64))); return nil }
	x[symgrp+"deepCopy"] = func(fr *frame, args []value) value {
		it := args[0].(iface)
		if it.t == nil {
			return it
		}
		return iface{it.t, fr.p.deepCopy(fr, it.t, it.v, map[*value]*value{}, true)}
	}
	x[symgrp+"typeName"] = func(fr *frame, args []value) value {
		it := args[0].(iface)
		if it.t == nil {
			return "nil"
		}
		return it.t.String()
	}
	x[symgrp+"call"] = func(fr *frame, args []value) value { // call(f interface{}, arg...) []interface{}
		it := args[0].(iface)
		sig := it.t.Underlying().(*types.Signature)
		var as []value
		in := cells(args[1])
		for i, a := range in {
			pt := sig.Params().At(i).Type()
			if types.IsInterface(pt) {
				as = append(as, a)
			} else {
				as = append(as, copyVal(a.(iface).v))
			}
		}
		r := fr.call(it.v, as)
		return fr.p.resultSlice(sig, r)
	}
	registerReflectLite(x)
	registerStd(x)
	registerOS(x)
	registerSync(x)
	registerModelrt(x)
}

func (p *Path) resultSlice(sig *types.Signature, r value) value {
	var out []value
	rs := sig.Results()
	switch rs.Len() {
	case 0:
	case 1:
		out = append(out, wrapIface(rs.At(0).Type(), r))
	default:
		for i, x := range r.(tuple) {
			out = append(out, wrapIface(rs.At(i).Type(), x))
		}
	}
	return out
}

func (p *Path) inputName(n string) string {
	k := "input:" + n
	c := p.nfresh[k]
	p.nfresh[k] = c + 1
	if c == 0 {
		return n
	}
	return fmt.Sprintf("%s~%d", n, c)
}

// deepCopy copies a value graph; emptyNil turns empty slices into nil, as the
// wire encoding does.
func (p *Path) deepCopy(fr *frame, t types.Type, v value, memo map[*value]*value, emptyNil bool) value {
	switch x := v.(type) {
	case structure:
		st := t.Underlying().(*types.Struct)
		out := make(structure, len(x))
		for i := range x {
			out[i] = p.deepCopy(fr, st.Field(i).Type(), x[i], memo, emptyNil)
		}
		return out
	case array:
		et := t.Underlying().(*types.Array).Elem()
		out := make(array, len(x))
		for i := range x {
			out[i] = p.deepCopy(fr, et, x[i], memo, emptyNil)
		}
		return out
	case []value:
		if x == nil || len(x) == 0 && emptyNil {
			return []value(nil)
		}
		et := t.Underlying().(*types.Slice).Elem()
		if p.race != nil && fr != nil {
			p.race.rangeAccess(fr, x, false)
		}
		out := make([]value, len(x))
		for i := range x {
			out[i] = p.deepCopy(fr, et, x[i], memo, emptyNil)
		}
		return out
	case *Map:
		if x == nil || x.count == 0 && emptyNil {
			return (*Map)(nil)
		}
		mt := t.Underlying().(*types.Map)
		out := newMap(mt.Key())
		for _, e := range x.ents {
			if !e.dead {
				p.mapSet(out, p.deepCopy(fr, mt.Key(), e.k, memo, emptyNil), p.deepCopy(fr, mt.Elem(), e.v, memo, emptyNil))
			}
		}
		return out
	case iface:
		if x.t == nil {
			return x
		}
		return iface{x.t, p.deepCopy(fr, x.t, x.v, memo, emptyNil)}
	case *value:
		if x == nil {
			return x
		}
		if o, ok := memo[x]; ok {
			return o
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return x
		}
		var nv value
		c := &nv
		memo[x] = c
		nv = p.deepCopy(fr, pt.Elem(), *x, memo, emptyNil)
		return c
	}
	return v
}

func registerStd(x map[string]extFunc) {
	pre := preFuncs
	// errors / fmt
	x["fmt.Sprintf"] = func(fr *frame, a []value) value { return fr.p.sprintf(fr, a[0], cells(a[1])) }
	x["fmt.Errorf"] = func(fr *frame, a []value) value {
		f, _ := a[0].(string)
		args := cells(a[1])
		msg := fr.p.sprintf(fr, a[0], args)
		e := fr.p.mkError(msg)
		if strings.Contains(f, "%w") {
			for _, z := range args {
				if it, ok := z.(iface); ok && it.t != nil && fr.p.eng.methodByName(it.t, "Error") != nil {
					fr.p.hostMap[fmt.Sprintf("wrap%p", e.(iface).v)] = it
				}
			}
		}
		return e
	}
	x["fmt.Sprint"] = func(fr *frame, a []value) value { return fr.p.sprint(fr, cells(a[0]), false) }
	x["fmt.Sprintln"] = func(fr *frame, a []value) value { return fr.p.sprint(fr, cells(a[0]), true) }
	for _, n := range []string{"Print", "Println", "Printf"} {
		x["fmt."+n] = func(fr *frame, a []value) value { return tuple{int64(0), nilErr()} }
	}
	fp := func(ln int) extFunc {
		return func(fr *frame, a []value) value {
			var s value
			switch ln {
			case 0:
				s = fr.p.sprint(fr, cells(a[1]), false)
			case 1:
				s = fr.p.sprint(fr, cells(a[1]), true)
			case 2:
				s = fr.p.sprintf(fr, a[1], cells(a[2]))
			}
			b := fr.p.strBytes(s)
			e := fr.p.writeAll(fr, a[0], b)
			return tuple{int64(len(b)), e}
		}
	}
	x["fmt.Fprint"], x["fmt.Fprintln"], x["fmt.Fprintf"] = fp(0), fp(1), fp(2)
	x["errors.Is"] = func(fr *frame, a []value) value {
		e := a[0].(iface)
		for {
			if e.t == nil {
				return a[1].(iface).t == nil
			}
			if fr.p.equal(nil, e, a[1]) == fr.p.tc.T {
				return true
			}
			w, ok := fr.p.hostMap[fmt.Sprintf("wrap%p", e.v)].(iface)
			if !ok {
				return false
			}
			e = w
		}
	}
	// xerrors
	x["golang.org/x/xerrors.Errorf"] = x["fmt.Errorf"]
	x["golang.org/x/xerrors.New"] = func(fr *frame, a []value) value { return fr.p.mkError(a[0]) }

	// strings.Builder
	sb := func(v value) structure {
		c := v.(*value)
		return (*c).(structure)
	}
	addb := func(fr *frame, v value, b []value) {
		s := sb(v)
		o, _ := s[1].([]value)
		s[1] = append(o[:len(o):len(o)], b...)
	}
	x["(*strings.Builder).WriteString"] = func(fr *frame, a []value) value {
		b := strParts(a[1])
		addb(fr, a[0], b)
		return tuple{int64(fr.p.strLen(a[1])), nilErr()}
	}
	x["(*strings.Builder).Write"] = func(fr *frame, a []value) value {
		b := cells(a[1])
		addb(fr, a[0], b)
		return tuple{int64(len(b)), nilErr()}
	}
	x["(*strings.Builder).WriteByte"] = func(fr *frame, a []value) value { addb(fr, a[0], []value{a[1]}); return nilErr() }
	x["(*strings.Builder).WriteRune"] = func(fr *frame, a []value) value {
		if k, ok := a[1].(int64); ok {
			addb(fr, a[0], []value{string(rune(k))})
		} else {
			addb(fr, a[0], fr.p.runeStr(a[1]))
		}
		return tuple{int64(1), nilErr()}
	}
	x["(*strings.Builder).String"] = func(fr *frame, a []value) value {
		o, _ := sb(a[0])[1].([]value)
		return mkStr(o)
	}
	x["(*strings.Builder).Len"] = func(fr *frame, a []value) value {
		o, _ := sb(a[0])[1].([]value)
		return int64(fr.p.strLen(mkStr(o)))
	}
	x["(*strings.Builder).Reset"] = func(fr *frame, a []value) value { sb(a[0])[1] = []value(nil); return nil }
	x["(*strings.Builder).Grow"] = nop

	symStr := func(v value) bool { _, ok := v.(*SymStr); return ok }
	wrapPre := func(name string, f func(fr *frame, a []value) (value, bool)) {
		old := pre[name]
		pre[name] = func(fr *frame, a []value) (value, bool) {
			if old != nil {
				if r, ok := old(fr, a); ok {
					return r, true
				}
			}
			return f(fr, a)
		}
	}
	wrapPre("strings.Split", func(fr *frame, a []value) (value, bool) {
		sep, ok := a[1].(string)
		if !ok {
			return nil, false
		}
		return fr.p.split(a[0], sep, -1), true
	})
	wrapPre("strings.SplitN", func(fr *frame, a []value) (value, bool) {
		sep, ok := a[1].(string)
		n, ok2 := a[2].(int64)
		if !ok || !ok2 || n == 0 {
			return nil, false
		}
		return fr.p.split(a[0], sep, int(n)), true
	})
	wrapPre("strings.Join", func(fr *frame, a []value) (value, bool) {
		var out []value
		for i, s := range cells(a[0]) {
			if i > 0 {
				out = append(out, strParts(a[1])...)
			}
			out = append(out, strParts(s)...)
		}
		return mkStr(out), true
	})
	wrapPre("strings.Index", func(fr *frame, a []value) (value, bool) {
		sep, ok := a[1].(string)
		if !ok {
			return nil, false
		}
		return int64(fr.p.indexBytes(fr.p.strBytes(a[0]), sep, 0)), true
	})
	wrapPre("strings.Contains", func(fr *frame, a []value) (value, bool) {
		sep, ok := a[1].(string)
		if !ok {
			return nil, false
		}
		return fr.p.indexBytes(fr.p.strBytes(a[0]), sep, 0) >= 0, true
	})
	wrapPre("strings.IndexByte", func(fr *frame, a []value) (value, bool) {
		c, ok := a[1].(int64)
		if !ok {
			return nil, false
		}
		return int64(fr.p.indexBytes(fr.p.strBytes(a[0]), string([]byte{byte(c)}), 0)), true
	})
	replace := func(fr *frame, s value, old, nw value, n int64) (value, bool) {
		o, ok := old.(string)
		if !ok || o == "" {
			return nil, false
		}
		parts := fr.p.split(s, o, int(n)+1)
		if n < 0 {
			parts = fr.p.split(s, o, -1)
		}
		var out []value
		for i, q := range parts {
			if i > 0 {
				out = append(out, strParts(nw)...)
			}
			out = append(out, strParts(q)...)
		}
		return mkStr(out), true
	}
	wrapPre("strings.Replace", func(fr *frame, a []value) (value, bool) {
		n, ok := a[3].(int64)
		if !ok {
			return nil, false
		}
		if n == 0 {
			return a[0], true
		}
		return replace(fr, a[0], a[1], a[2], n)
	})
	wrapPre("strings.ReplaceAll", func(fr *frame, a []value) (value, bool) { return replace(fr, a[0], a[1], a[2], -1) })
	wrapPre("strings.HasPrefix", func(fr *frame, a []value) (value, bool) {
		b, c := fr.p.strBytes(a[0]), fr.p.strBytes(a[1])
		if len(b) < len(c) {
			return false, true
		}
		return fromTerm(fr.p.bytesEq(b[:len(c)], c)), true
	})
	wrapPre("strings.HasSuffix", func(fr *frame, a []value) (value, bool) {
		b, c := fr.p.strBytes(a[0]), fr.p.strBytes(a[1])
		if len(b) < len(c) {
			return false, true
		}
		return fromTerm(fr.p.bytesEq(b[len(b)-len(c):], c)), true
	})
	wrapPre("strings.Compare", func(fr *frame, a []value) (value, bool) {
		if fr.p.branch(fr.p.strEq(a[0], a[1])) {
			return int64(0), true
		}
		if fr.p.strLess(a[0], a[1], false) {
			return int64(-1), true
		}
		return int64(1), true
	})
	trim := func(fr *frame, s value, cut func(b value) *Term, left, right bool) value {
		b := fr.p.strBytes(s)
		if left {
			for len(b) > 0 && fr.p.branch(cut(b[0])) {
				b = b[1:]
			}
		}
		if right {
			for len(b) > 0 && fr.p.branch(cut(b[len(b)-1])) {
				b = b[:len(b)-1]
			}
		}
		return bytesToStr(b)
	}
	wrapPre("strings.TrimSpace", func(fr *frame, a []value) (value, bool) {
		p := fr.p
		return trim(fr, a[0], func(b value) *Term {
			if o, ok := b.(*Opq); ok && o.src.kind != 'h' {
				return p.tc.F
			}
			t := p.toTerm(b, bkind{kInt, 8, false})
			return p.tc.Or(p.tc.Eq(t, p.tc.Int(' ')), p.tc.And(p.tc.Le(p.tc.Int(9), t), p.tc.Le(t, p.tc.Int(13))))
		}, true, true), true
	})
	lower := func(from, to, d int64) func(fr *frame, a []value) (value, bool) {
		return func(fr *frame, a []value) (value, bool) {
			p := fr.p
			var out []value
			for _, b := range p.strBytes(a[0]) {
				t := p.toTerm(b, bkind{kInt, 8, false})
				c := p.tc.And(p.tc.Le(p.tc.Int(from), t), p.tc.Le(t, p.tc.Int(to)))
				out = append(out, fromTerm(p.tc.Ite(c, p.tc.Add(t, p.tc.Int(d)), t)))
			}
			return bytesToStr(out), true
		}
	}
	wrapPre("strings.ToLower", lower('A', 'Z', 32))
	wrapPre("strings.ToUpper", lower('a', 'z', -32))

	// strconv
	wrapPre("strconv.Itoa", func(fr *frame, a []value) (value, bool) {
		return mkStr([]value{&decSeg{fr.p.termOf(a[0])}}), true
	})
	wrapPre("strconv.FormatInt", func(fr *frame, a []value) (value, bool) {
		if a[1] != value(int64(10)) {
			return nil, false
		}
		return mkStr([]value{&decSeg{fr.p.termOf(a[0])}}), true
	})
	oneSeg := func(p *Path, s value) *Term {
		if ss, ok := s.(*SymStr); ok && len(ss.parts) == 1 {
			if d, ok := ss.parts[0].(*decSeg); ok {
				return d.t
			}
		}
		return nil
	}
	// parseDec reads a decimal text of symbolic characters; err tells that it is no
	// decimal integer of 64 bits
	parseDec := func(p *Path, s value, base int64) (t *Term, bad, ok bool) {
		if t := oneSeg(p, s); t != nil {
			return t, false, true
		}
		if _, sy := s.(*SymStr); !sy {
			return nil, false, false
		}
		bs := p.strBytes(s)
		for t, o := range p.decMemo {
			if len(o) == len(bs) && (base == 10 || base == 0) {
				same := true
				for i := range o {
					if o[i] != bs[i] {
						same = false
						break
					}
				}
				if same {
					return t, false, true
				}
			}
		}
		i, neg := 0, false
		for _, b := range bs {
			if _, opq := b.(*Opq); opq {
				return nil, false, false
			}
		}
		if len(bs) > 0 {
			c := p.toTerm(bs[0], bkind{kInt, 8, false})
			if p.branch(p.tc.Eq(c, p.tc.Int('-'))) {
				neg, i = true, 1
			} else if p.branch(p.tc.Eq(c, p.tc.Int('+'))) {
				i = 1
			}
		}
		if i == len(bs) {
			return nil, true, true
		}
		v := p.tc.Int(0)
		if base == 0 {
			// the prefix gives the base; without one a leading zero means octal
			base = 10
			if p.branch(p.tc.Eq(p.toTerm(bs[i], bkind{kInt, 8, false}), p.tc.Int('0'))) && i+1 < len(bs) {
				c := p.toTerm(bs[i+1], bkind{kInt, 8, false})
				if p.branch(p.tc.Or(p.tc.Eq(c, p.tc.Int('_')), p.tc.Lt(p.tc.Int('9'), c))) {
					return nil, false, false
				}
				base, i = 8, i+1
			}
		}
		for ; i < len(bs); i++ {
			c := p.toTerm(bs[i], bkind{kInt, 8, false})
			if !p.branch(p.tc.And(p.tc.Le(p.tc.Int('0'), c), p.tc.Le(c, p.tc.Int('0'+base-1)))) {
				return nil, true, true
			}
			v = p.tc.Add(p.tc.Mul(v, p.tc.Int(base)), p.tc.Sub(c, p.tc.Int('0')))
		}
		if neg {
			v = p.tc.Neg(v)
		}
		lo, hi := new(big.Int).Lsh(big.NewInt(-1), 63), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
		if !p.branch(p.tc.And(p.tc.Le(p.tc.Big(lo), v), p.tc.Le(v, p.tc.Big(hi)))) {
			return nil, true, true
		}
		return v, false, true
	}
	parsed := func(fr *frame, s value, base int64, bits uint) (value, bool) {
		t, bad, ok := parseDec(fr.p, s, base)
		if !ok {
			return nil, false
		}
		if bad {
			return tuple{int64(0), fr.p.mkError("strconv.ParseInt: invalid syntax")}, true
		}
		if bits < 64 {
			lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
			if fr.p.branch(fr.p.tc.Lt(t, fr.p.tc.Int(lo))) {
				return tuple{lo, fr.p.mkError("strconv.ParseInt: value out of range")}, true
			}
			if fr.p.branch(fr.p.tc.Lt(fr.p.tc.Int(hi), t)) {
				return tuple{hi, fr.p.mkError("strconv.ParseInt: value out of range")}, true
			}
		}
		return tuple{fromTerm(t), nilErr()}, true
	}
	wrapPre("strconv.Atoi", func(fr *frame, a []value) (value, bool) { return parsed(fr, a[0], 10, 64) })
	wrapPre("strconv.ParseInt", func(fr *frame, a []value) (value, bool) {
		if base, ok := a[1].(int64); ok && (base == 10 || base == 0 || base >= 2 && base < 10 && oneSeg(fr.p, a[0]) == nil) {
			switch a[2] {
			case int64(64), int64(0):
				return parsed(fr, a[0], base, 64)
			case int64(32), int64(16), int64(8):
				return parsed(fr, a[0], base, uint(a[2].(int64)))
			}
		}
		return nil, false
	})
	_ = symStr
	x["internal/bytealg.IndexByteString"] = func(fr *frame, a []value) value {
		return int64(fr.p.indexBytes(fr.p.strBytes(a[0]), string([]byte{byte(fr.p.concInt(a[1], "byte"))}), 0))
	}
	x["internal/bytealg.IndexByte"] = func(fr *frame, a []value) value {
		return int64(fr.p.indexBytes(cells(a[0]), string([]byte{byte(fr.p.concInt(a[1], "byte"))}), 0))
	}
	x["internal/bytealg.CountString"] = func(fr *frame, a []value) value {
		n := 0
		c := string([]byte{byte(fr.p.concInt(a[1], "byte"))})
		bs := fr.p.strBytes(a[0])
		for i := 0; ; {
			j := fr.p.indexBytes(bs, c, i)
			if j < 0 {
				return int64(n)
			}
			n++
			i = j + 1
		}
	}
	x["bytes.Equal"] = func(fr *frame, a []value) value { return fromTerm(fr.p.bytesEq(cells(a[0]), cells(a[1]))) }
	x["internal/bytealg.Equal"] = x["bytes.Equal"]
	x["bytes.Compare"] = func(fr *frame, a []value) value {
		s, t := bytesToStr(cells(a[0])), bytesToStr(cells(a[1]))
		if fr.p.branch(fr.p.strEq(s, t)) {
			return int64(0)
		}
		if fr.p.strLess(s, t, false) {
			return int64(-1)
		}
		return int64(1)
	}
	x["bytes.IndexByte"] = x["internal/bytealg.IndexByte"]
	// encodings
	for _, m := range []string{"EncodeToString", "DecodeString"} {
		m := m
		x["(*encoding/base64.Encoding)."+m] = func(fr *frame, a []value) value { return fr.p.b64(m, a[1]) }
	}
	x["encoding/hex.EncodeToString"] = func(fr *frame, a []value) value { return fr.p.hexStr(cells(a[0])) }
	x["encoding/hex.DecodeString"] = func(fr *frame, a []value) value {
		p := fr.p
		if s, ok := a[0].(string); ok {
			b, err := hex.DecodeString(s)
			if err != nil {
				return tuple{[]value(nil), p.mkError(err.Error())}
			}
			return tuple{p.strBytes(string(b)), nilErr()}
		}
		b := p.strBytes(a[0])
		if s := wholeRun(b, 'P'); s != nil {
			return tuple{append([]value(nil), p.eltOpq(s.elt, 'p')...), nilErr()}
		}
		if s := wholeRun(b, 'S'); s != nil {
			return tuple{append([]value(nil), p.eltOpq(s.elt, 's')...), nilErr()}
		}
		unsup("hex decoding of symbolic text")
		return nil
	}
	// regexp
	x["regexp.MustCompile"] = func(fr *frame, a []value) value {
		s, ok := a[0].(string)
		if !ok {
			unsup("symbolic regular expression")
		}
		re, err := regexp.Compile(s)
		if err != nil {
			fr.p.rtPanic("regexp: Compile: " + err.Error())
		}
		var v value = &Host{re}
		return &v
	}
	x["regexp.Compile"] = func(fr *frame, a []value) value {
		re, err := regexp.Compile(fr.harnessStr(a[0]))
		if err != nil {
			return tuple{(*value)(nil), fr.p.mkError(err.Error())}
		}
		var v value = &Host{re}
		return tuple{&v, nilErr()}
	}
	re := func(v value) *regexp.Regexp { return (*(v.(*value))).(*Host).v.(*regexp.Regexp) }
	x["(*regexp.Regexp).MatchString"] = func(fr *frame, a []value) value {
		if s, ok := a[1].(string); ok {
			return re(a[0]).MatchString(s)
		}
		return fromTerm(fr.p.regexMatch(re(a[0]), fr.p.strBytes(a[1])))
	}
	x["(*regexp.Regexp).Match"] = func(fr *frame, a []value) value {
		return fromTerm(fr.p.regexMatch(re(a[0]), cells(a[1])))
	}
	x["(*regexp.Regexp).String"] = func(fr *frame, a []value) value { return re(a[0]).String() }
	conc := func(fr *frame, v value) string { // concretise a symbolic string
		if s, ok := v.(string); ok {
			return s
		}
		var b []byte
		for _, c := range fr.p.strBytes(v) {
			b = append(b, byte(fr.p.concInt(c, "string byte")))
		}
		return string(b)
	}
	x["(*regexp.Regexp).FindAllString"] = func(fr *frame, a []value) value {
		r := re(a[0]).FindAllString(conc(fr, a[1]), int(a[2].(int64)))
		if r == nil {
			return []value(nil)
		}
		out := []value{}
		for _, s := range r {
			out = append(out, s)
		}
		return out
	}
	x["(*regexp.Regexp).FindString"] = func(fr *frame, a []value) value { return re(a[0]).FindString(conc(fr, a[1])) }
	x["(*regexp.Regexp).FindStringSubmatch"] = func(fr *frame, a []value) value {
		r := re(a[0]).FindStringSubmatch(conc(fr, a[1]))
		if r == nil {
			return []value(nil)
		}
		out := []value{}
		for _, s := range r {
			out = append(out, s)
		}
		return out
	}
	x["(*regexp.Regexp).ReplaceAllString"] = func(fr *frame, a []value) value {
		return re(a[0]).ReplaceAllString(conc(fr, a[1]), conc(fr, a[2]))
	}
	x["regexp.MatchString"] = func(fr *frame, a []value) value {
		r, err := regexp.Compile(fr.harnessStr(a[0]))
		if err != nil {
			return tuple{false, fr.p.mkError(err.Error())}
		}
		if s, ok := a[1].(string); ok {
			return tuple{r.MatchString(s), nilErr()}
		}
		return tuple{fromTerm(fr.p.regexMatch(r, fr.p.strBytes(a[1]))), nilErr()}
	}
	// math/big
	x["math/big.NewInt"] = func(fr *frame, a []value) value { return fr.p.bigNew(fr.p.termOf(a[0])) }
	x["(*math/big.Int).Int64"] = func(fr *frame, a []value) value { return fr.p.wrap(fr.p.bigGet(a[0]), bkind{kInt, 64, true}) }
	x["(*math/big.Int).IsInt64"] = func(fr *frame, a []value) value {
		lo, hi := bkind{kInt, 64, true}.bounds()
		t := fr.p.bigGet(a[0])
		return fromTerm(fr.p.tc.And(fr.p.tc.Le(fr.p.tc.Big(lo), t), fr.p.tc.Le(t, fr.p.tc.Big(hi))))
	}
	x["(*math/big.Int).SetInt64"] = func(fr *frame, a []value) value { return fr.p.bigSet(a[0], fr.p.termOf(a[1])) }
	x["(*math/big.Int).Uint64"] = func(fr *frame, a []value) value { return fr.p.wrap(fr.p.bigGet(a[0]), bkind{kInt, 64, false}) }
	x["(*math/big.Int).Sign"] = func(fr *frame, a []value) value {
		t := fr.p.bigGet(a[0])
		z := fr.p.tc.Int(0)
		return fromTerm(fr.p.tc.Ite(fr.p.tc.Eq(t, z), z, fr.p.tc.Ite(fr.p.tc.Lt(t, z), fr.p.tc.Int(-1), fr.p.tc.Int(1))))
	}
	x["(*math/big.Int).Cmp"] = func(fr *frame, a []value) value {
		t := fr.p.tc.Sub(fr.p.bigGet(a[0]), fr.p.bigGet(a[1]))
		z := fr.p.tc.Int(0)
		return fromTerm(fr.p.tc.Ite(fr.p.tc.Eq(t, z), z, fr.p.tc.Ite(fr.p.tc.Lt(t, z), fr.p.tc.Int(-1), fr.p.tc.Int(1))))
	}
	b3 := func(f func(tc *TermCtx, a, b *Term) *Term) extFunc {
		return func(fr *frame, a []value) value {
			return fr.p.bigSet(a[0], f(fr.p.tc, fr.p.bigGet(a[1]), fr.p.bigGet(a[2])))
		}
	}
	x["(*math/big.Int).Add"] = b3((*TermCtx).Add)
	x["(*math/big.Int).Sub"] = b3((*TermCtx).Sub)
	x["(*math/big.Int).Mul"] = b3((*TermCtx).Mul)
	x["(*math/big.Int).Mod"] = b3(func(tc *TermCtx, a, b *Term) *Term {
		if b.op != OpConst || b.k.Sign() <= 0 {
			unsup("big.Int.Mod by a non-constant")
		}
		return tc.Mod(a, b.k)
	})
	// sort natives keep the interpreted comparison function
	x["sort.Slice"] = func(fr *frame, a []value) value {
		it := a[0].(iface)
		s := cells(it.v)
		// insertion sort: correct for any consistent order, few comparisons
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !fr.p.truth(fr.call(a[1], []value{int64(j), int64(j - 1)})) {
					break
				}
				t := copyVal(s[j])
				storeTo(&s[j], copyVal(s[j-1]))
				storeTo(&s[j-1], t)
			}
		}
		return nil
	}
	x["sort.SliceStable"] = x["sort.Slice"]
	sortBasic := func(t types.BasicKind) extFunc {
		return func(fr *frame, a []value) value {
			s := cells(a[0])
			less := func(i, j int) bool {
				switch p := s[i].(type) {
				case int64:
					if q, ok := s[j].(int64); ok {
						return p < q
					}
				case float64:
					if q, ok := s[j].(float64); ok {
						return p < q
					}
				}
				if t == types.String {
					return fr.p.strLess(s[i], s[j], false)
				}
				return fr.p.branch(fr.p.tc.Lt(fr.p.termOf(s[i]), fr.p.termOf(s[j])))
			}
			for i := 1; i < len(s); i++ {
				for j := i; j > 0 && less(j, j-1); j-- {
					s[j], s[j-1] = s[j-1], s[j]
				}
			}
			return nil
		}
	}
	x["sort.Strings"], x["sort.Ints"], x["sort.Float64s"] = sortBasic(types.String), sortBasic(types.Int), sortBasic(types.Float64)
	_ = sort.Ints
	// randomness
	ri := func(fr *frame, a []value) value {
		n := fr.p.concInt(a[0], "rand bound")
		if n <= 0 {
			fr.p.rtPanic("invalid argument to Intn")
		}
		return fromTerm(fr.p.freshInt("rand", 0, n-1))
	}
	for _, n := range []string{"Intn", "Int63n", "Int31n"} {
		x["math/rand."+n] = ri
	}
	x["math/rand.Int63"] = func(fr *frame, a []value) value { return fromTerm(fr.p.freshInt("rand", 0, 1<<62)) }
	x["math/rand.Int"] = x["math/rand.Int63"]
	x["math/rand.Seed"] = nop
	x["math/rand.Perm"] = func(fr *frame, a []value) value {
		n := int(fr.p.concInt(a[0], "perm"))
		rest := make([]int, n)
		for i := range rest {
			rest[i] = i
		}
		out := make([]value, 0, n)
		for len(rest) > 0 {
			k := fr.p.choose(len(rest), "perm")
			out = append(out, int64(rest[k]))
			rest = append(append([]int(nil), rest[:k]...), rest[k+1:]...)
		}
		return out
	}
	// deep equality
	x["reflect.DeepEqual"] = func(fr *frame, a []value) value {
		return fromTerm(fr.p.deepEqual(a[0], a[1], map[[2]*value]bool{}))
	}
	x["runtime.GC"], x["runtime.KeepAlive"], x["runtime/debug.PrintStack"] = nop, nop, nop
	x["runtime.NumCPU"] = func(fr *frame, a []value) value { return int64(4) }
	x["runtime.GOMAXPROCS"] = x["runtime.NumCPU"]
	x["runtime.NumGoroutine"] = func(fr *frame, a []value) value { return int64(fr.p.alive) }
	x["runtime.SetFinalizer"] = nop
	x["runtime/debug.Stack"] = func(fr *frame, a []value) value { return []value(nil) }
	x["internal/godebug.New"] = func(fr *frame, a []value) value { var v value = structure{}; return &v }
	x["internal/race.Enable"], x["internal/race.Disable"] = nop, nop
}

func (p *Path) b64(m string, v value) value {
	if m == "EncodeToString" {
		b := cells(v)
		if s, ok := bytesToStr(b).(string); ok {
			return base64.URLEncoding.EncodeToString([]byte(s))
		}
		if len(b) == 0 {
			return ""
		}
		k := "b64" + p.contentKey(b)
		s, ok := p.opqs[k]
		if !ok {
			s = p.newOpq('b', (len(b)+2)/3*4)
			s.under = append([]value(nil), b...)
			p.opqs[k] = s
		}
		return mkStr(s.all())
	}
	if s, ok := v.(string); ok {
		b, err := base64.URLEncoding.DecodeString(s)
		if err != nil {
			return tuple{p.strBytes(string(b)), p.mkError(err.Error())}
		}
		return tuple{p.strBytes(string(b)), nilErr()}
	}
	b := p.strBytes(v)
	if s := wholeRun(b, 'b'); s != nil {
		return tuple{append([]value(nil), s.under...), nilErr()}
	}
	unsup("base64 decoding of symbolic text")
	return nil
}

// deepEqual mirrors reflect.DeepEqual; a group element compares by the
// expression it was computed with (representation), as projective coordinates do.
func (p *Path) deepEqual(a, b value, seen map[[2]*value]bool) *Term {
	switch x := a.(type) {
	case iface:
		y, ok := b.(iface)
		if !ok || x.t == nil || y.t == nil {
			return p.tc.Bool(ok && x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return p.tc.F
		}
		return p.deepEqual(x.v, y.v, seen)
	case structure:
		y := b.(structure)
		var c []*Term
		for i := range x {
			c = append(c, p.deepEqual(x[i], y[i], seen))
		}
		return p.tc.And(c...)
	case array:
		y := b.(array)
		var c []*Term
		for i := range x {
			c = append(c, p.deepEqual(x[i], y[i], seen))
		}
		return p.tc.And(c...)
	case []value:
		y, ok := b.([]value)
		if !ok || (x == nil) != (y == nil) || len(x) != len(y) {
			return p.tc.F
		}
		var c []*Term
		for i := range x {
			c = append(c, p.deepEqual(x[i], y[i], seen))
		}
		return p.tc.And(c...)
	case *value:
		y := b.(*value)
		if x == y {
			return p.tc.T
		}
		if x == nil || y == nil {
			return p.tc.F
		}
		if seen[[2]*value{x, y}] {
			return p.tc.T
		}
		seen[[2]*value{x, y}] = true
		return p.deepEqual(*x, *y, seen)
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return p.tc.F
		}
		if x == nil || x == y {
			return p.tc.T
		}
		if x.count != y.count {
			return p.tc.F
		}
		var c []*Term
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := p.mapFind(y, e.k)
			if f == nil {
				return p.tc.F
			}
			c = append(c, p.deepEqual(e.v, f.v, seen))
		}
		return p.tc.And(c...)
	case *Elt:
		y, ok := b.(*Elt)
		return p.tc.Bool(ok && (x == y || x.bot && y.bot))
	case nil:
		return p.tc.Bool(b == nil)
	}
	return p.equal(types.Typ[types.Int], a, b)
}
