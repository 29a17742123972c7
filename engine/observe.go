package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Observation of messages, and linear relations among group elements: the
// means to say what somebody who sees certain messages can compute.

func init() {
	externals[symPkg+"Observe"] = func(fr *frame, a []value) value {
		p := fr.p
		o := &observer{p: p, seen: map[*value]bool{}}
		if it, ok := a[0].(iface); ok && it.t != nil {
			o.walk(it.t, it.v)
		}
		return tuple{byteSlices(o.points), byteSlices(o.scalars)}
	}
	externals[symPkg+"Relation"] = func(fr *frame, a []value) value {
		p := fr.p
		var els []*Elt
		known := cells(a[0])
		secrets := cells(a[1])
		for _, l := range [][]value{known, secrets} {
			for _, v := range l {
				e := elt((*(v.(iface).v.(*value))).(structure)[0])
				if e.bot {
					e = p.ec.Zero()
				}
				els = append(els, e)
			}
		}
		return p.relation(els, len(known))
	}
}

func byteSlices(l [][]value) value {
	out := []value{}
	for _, b := range l {
		out = append(out, append([]value(nil), b...))
	}
	return out
}

type observer struct {
	p               *Path
	seen            map[*value]bool
	points, scalars [][]value
}

func (o *observer) leaf(rec []string) {
	name := o.p.inputName("obs")
	if len(rec) > 0 {
		o.p.inputs = append(o.p.inputs, inputRec{Name: name, Kind: "observed", Val: strings.Join(rec, ";")})
	}
}

func skipType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "onet")
}

func (o *observer) walk(t types.Type, v value) {
	if skipType(t) {
		return
	}
	p := o.p
	switch x := v.(type) {
	case structure:
		st := t.Underlying().(*types.Struct)
		for i := range x {
			o.walk(st.Field(i).Type(), x[i])
		}
	case array:
		for i := range x {
			o.walk(t.Underlying().(*types.Array).Elem(), x[i])
		}
	case []value:
		if len(x) == 0 {
			return
		}
		et := t.Underlying().(*types.Slice).Elem()
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			var rec []string
			for i := 0; i < len(x); i++ {
				op, ok := x[i].(*Opq)
				if !ok || op.i != 0 || op.src.kind != 'p' && op.src.kind != 's' || i+op.src.n > len(x) {
					continue
				}
				if s := wholeRun(x[i:i+op.src.n], op.src.kind); s != nil {
					rec = append(rec, fmt.Sprintf("%c%d", s.kind, i))
					if s.kind == 'p' {
						o.points = append(o.points, s.all())
					} else {
						o.scalars = append(o.scalars, s.all())
					}
					i += s.n - 1
				}
			}
			o.leaf(rec)
			return
		}
		for i := range x {
			o.walk(et, x[i])
		}
	case *Map:
		if x == nil {
			return
		}
		type kv struct {
			k string
			v value
		}
		var l []kv
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			s, ok := e.k.(string)
			if !ok {
				return
			}
			l = append(l, kv{s, e.v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		for _, e := range l {
			o.walk(t.Underlying().(*types.Map).Elem(), e.v)
		}
	case iface:
		if x.t == nil {
			return
		}
		if n := x.t.String(); strings.HasSuffix(n, "symgrp.point") || strings.HasSuffix(n, "symgrp.scalar") {
			e := elt((*(x.v.(*value))).(structure)[0])
			if strings.HasSuffix(n, "point") {
				o.points = append(o.points, p.eltOpq(e, 'p'))
			} else {
				o.scalars = append(o.scalars, p.eltOpq(e, 's'))
			}
			return
		}
		o.walk(x.t, x.v)
	case *value:
		if x == nil || o.seen[x] {
			return
		}
		o.seen[x] = true
		if pt, ok := t.Underlying().(*types.Pointer); ok && !skipType(pt.Elem()) {
			o.walk(pt.Elem(), *x)
		}
	default:
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return
		}
		tm, sym := v.(*Term)
		if !sym {
			o.leaf(nil)
			return
		}
		o.scalars = append(o.scalars, p.eltOpq(p.ec.Embed(tm), 's'))
		o.leaf([]string{"i"})
	}
}

// relation decides whether some linear combination of the known elements (the
// first n) and the secret ones (the others), with a coefficient of a secret
// that is not zero, vanishes identically. The coefficients become inputs, for
// the replay.
func (p *Path) relation(els []*Elt, n int) bool {
	rows := map[string][]int{}
	var order []string
	for i, e := range els {
		for m := range e.p {
			if _, ok := rows[m]; !ok {
				order = append(order, m)
			}
			rows[m] = append(rows[m], i)
		}
	}
	sort.Strings(order)
	var b strings.Builder
	for i := range els {
		fmt.Fprintf(&b, "(declare-const l%d Real)\n", i)
	}
	done := map[string]bool{}
	for _, m := range order {
		var t []string
		for _, i := range rows[m] {
			k := els[i].p[m]
			if k.CmpAbs(bigOne) == 0 && k.Sign() > 0 {
				t = append(t, fmt.Sprintf("l%d", i))
			} else {
				t = append(t, fmt.Sprintf("(* %s l%d)", smtReal(k), i))
			}
		}
		s := strings.Join(t, " ")
		if done[s] {
			continue
		}
		done[s] = true
		if len(t) > 1 {
			s = "(+ " + s + ")"
		}
		fmt.Fprintf(&b, "(assert (= %s 0.0))\n", s)
	}
	b.WriteString("(assert (or false")
	for i := n; i < len(els); i++ {
		fmt.Fprintf(&b, " (= l%d 1.0)", i)
	}
	b.WriteString("))\n")
	var names []string
	for i := range els {
		names = append(names, fmt.Sprintf("l%d", i))
	}
	r, vals := p.sol.rawModel(b.String(), names)
	if r == "unsat" {
		p.relQ++
		return false
	}
	if r != "sat" {
		unsup("the solver gave no answer for a linear relation")
	}
	// integer coefficients
	l := big.NewInt(1)
	for _, v := range vals {
		g := new(big.Int).GCD(nil, nil, l, v.Denom())
		l.Mul(l, new(big.Int).Div(v.Denom(), g))
	}
	name := p.inputName("relation")
	for i, v := range vals {
		if v.Sign() == 0 {
			continue
		}
		k := new(big.Int).Mul(v.Num(), new(big.Int).Div(l, v.Denom()))
		p.inputs = append(p.inputs, inputRec{Name: fmt.Sprintf("%s.%d", name, i), Kind: "coefficient", Val: k.String()})
	}
	return true
}

func smtReal(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ".0)"
	}
	return k.String() + ".0"
}

// parseRat reads an SMT real: 1.0, (- 1.0), (/ 1.0 3.0), (- (/ 1.0 3.0)).
func parseRat(s string) *big.Rat {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(- ") {
		r := parseRat(s[3 : len(s)-1])
		return r.Neg(r)
	}
	if strings.HasPrefix(s, "(/ ") {
		in := strings.TrimSpace(s[3 : len(s)-1])
		i := 0
		if in[0] == '(' {
			i = strings.IndexByte(in, ')')
		}
		j := strings.IndexByte(in[i:], ' ') + i
		a, b := parseRat(in[:j]), parseRat(in[j+1:])
		return a.Quo(a, b)
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		unsup("cannot read the number %q", s)
	}
	return r
}

// rawModel is rawCheck with the values of some real constants.
func (s *Solver) rawModel(text string, names []string) (string, []*big.Rat) {
	if s.dead {
		return "unknown", nil
	}
	s.rawKeep = true
	r := s.rawCheck(text)
	s.rawKeep = false
	var out []*big.Rat
	if r == "sat" {
		for _, n := range names {
			s.buf.WriteString("(get-value (" + n + "))\n")
			s.flush()
			l := strings.TrimSpace(s.readLine())
			l = strings.TrimSuffix(strings.TrimPrefix(l, "(("), "))")
			out = append(out, parseRat(strings.TrimPrefix(l, n+" ")))
		}
	}
	s.buf.WriteString("(pop)\n")
	return r, out
}
