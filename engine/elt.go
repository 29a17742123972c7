package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Group/field elements: Laurent polynomials with integer coefficients over
// "random" indeterminates (fresh scalars, keys) and embedded integer terms.

var groupOrder, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

type PVar struct {
	name string
	in   *Term // embedded integer term (an input), or nil for an indeterminate
	inv  *Elt  // this variable is 1/inv
}

type Poly map[string]*big.Int

// Elt is an immutable element. bot is the "uninitialised point" that absorbs everything.
type Elt struct {
	p    Poly
	bot  bool
	op   byte // 'k' const 'v' var 'i' embedded int '+' '-' '*' 'n'
	a, b *Elt
	k    *big.Int
	v    int
	id   int
	gnd  int8
	key  string
	srcs map[byte]*OpqSrc
}

type EltCtx struct {
	tc    *TermCtx
	vars  []*PVar
	byIn  map[*Term]int
	names map[string]int
	n     int
	pairs [][2]*Elt // equalities decided by normalisation, to be confirmed by the solver
	invs  map[string]*Elt
	cons  map[string]*Elt
}

func newEltCtx(tc *TermCtx) *EltCtx {
	return &EltCtx{tc: tc, byIn: map[*Term]int{}, names: map[string]int{}, invs: map[string]*Elt{}, cons: map[string]*Elt{}}
}

func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	// each factor: 2 bytes var, 1 byte exp (signed)
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i:i+2] < b[j:j+2]:
			out = append(out, a[i:i+3]...)
			i += 3
		case i >= len(a) || b[j:j+2] < a[i:i+2]:
			out = append(out, b[j:j+3]...)
			j += 3
		default:
			e := int8(a[i+2]) + int8(b[j+2])
			if e != 0 {
				out = append(out, a[i], a[i+1], byte(e))
			}
			i += 3
			j += 3
		}
	}
	return string(out)
}

func monoVar(v int, e int8) string {
	var b [3]byte
	binary.BigEndian.PutUint16(b[:2], uint16(v))
	b[2] = byte(e)
	return string(b[:])
}

func polyAdd(a, b Poly, sign int64) Poly {
	if len(a) < len(b) && sign == 1 {
		a, b = b, a
	}
	r := make(Poly, len(a)+len(b))
	for m, c := range a {
		r[m] = c
	}
	for m, c := range b {
		o, ok := r[m]
		var s *big.Int
		if sign < 0 {
			s = new(big.Int).Neg(c)
		} else {
			s = c
		}
		if ok {
			s = new(big.Int).Add(o, s)
		}
		if s.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = s
		}
	}
	return r
}

func polyMul(a, b Poly) Poly {
	if len(a)*len(b) > 200000 {
		panic(unsupported{"group expression too large"})
	}
	r := make(Poly, len(a)*len(b))
	for m, c := range a {
		for n, d := range b {
			k := monoMul(m, n)
			p := new(big.Int).Mul(c, d)
			if o, ok := r[k]; ok {
				p.Add(p, o)
			}
			if p.Sign() == 0 {
				delete(r, k)
			} else {
				r[k] = p
			}
		}
	}
	return r
}

func (p Poly) String() string {
	keys := make([]string, 0, len(p))
	for m := range p {
		keys = append(keys, m)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, m := range keys {
		b.WriteString(p[m].String())
		b.WriteByte('*')
		b.WriteString(m)
		b.WriteByte('+')
	}
	return b.String()
}

func (e *Elt) Key() string {
	if e.key == "" {
		if e.bot {
			e.key = "BOT"
		} else {
			e.key = "P" + e.p.String()
		}
	}
	return e.key
}

func (c *EltCtx) cell(e *Elt) *Elt {
	// hash-consing of the expression graph
	var k string
	switch e.op {
	case 'k':
		k = "k" + e.k.String()
	case 'v', 'i':
		k = fmt.Sprintf("v%d", e.v)
	default:
		k = fmt.Sprintf("%c%d,", e.op, e.a.id)
		if e.b != nil {
			k += fmt.Sprint(e.b.id)
		}
	}
	if o, ok := c.cons[k]; ok {
		return o
	}
	c.n++
	e.id = c.n
	c.cons[k] = e
	return e
}

func (c *EltCtx) Const(k *big.Int) *Elt {
	p := Poly{}
	kk := new(big.Int).Mod(k, groupOrder)
	half := new(big.Int).Rsh(groupOrder, 1)
	if kk.Cmp(half) > 0 {
		kk.Sub(kk, groupOrder)
	}
	if kk.Sign() != 0 {
		p[""] = kk
	}
	return c.cell(&Elt{p: p, op: 'k', k: kk})
}
func (c *EltCtx) Zero() *Elt { return c.Const(bigZero) }
func (c *EltCtx) Bot() *Elt  { return &Elt{bot: true} }

func (c *EltCtx) newVar(v *PVar) int {
	c.vars = append(c.vars, v)
	if len(c.vars) > 65000 {
		panic(unsupported{"too many group variables"})
	}
	return len(c.vars) - 1
}

// Fresh returns a new indeterminate.
func (c *EltCtx) Fresh(name string) *Elt {
	if v, ok := c.names[name]; ok {
		return c.varElt(v)
	}
	v := c.newVar(&PVar{name: name})
	c.names[name] = v
	return c.varElt(v)
}
func (c *EltCtx) varElt(v int) *Elt {
	op := byte('v')
	if c.vars[v].in != nil {
		op = 'i'
	}
	return c.cell(&Elt{p: Poly{monoVar(v, 1): bigOne}, op: op, v: v})
}

// Embed maps an integer term to an element.
func (c *EltCtx) Embed(t *Term) *Elt {
	switch t.op {
	case OpConst:
		return c.Const(t.k)
	case OpLin:
		r := c.Const(t.k)
		for i, a := range t.args {
			r = c.Add(r, c.Mul(c.Const(t.coefs[i]), c.Embed(a)))
		}
		return r
	case OpMul:
		return c.Mul(c.Embed(t.args[0]), c.Embed(t.args[1]))
	}
	if v, ok := c.byIn[t]; ok {
		return c.varElt(v)
	}
	v := c.newVar(&PVar{name: fmt.Sprintf("in%d", t.id), in: t})
	c.byIn[t] = v
	return c.varElt(v)
}

func (c *EltCtx) Add(a, b *Elt) *Elt {
	if a.bot || b.bot {
		return c.Bot()
	}
	if len(a.p) == 0 && a.op == 'k' {
		return b
	}
	if len(b.p) == 0 && b.op == 'k' {
		return a
	}
	return c.cell(&Elt{p: polyAdd(a.p, b.p, 1), op: '+', a: a, b: b})
}
func (c *EltCtx) Sub(a, b *Elt) *Elt {
	if a.bot || b.bot {
		return c.Bot()
	}
	if len(b.p) == 0 && b.op == 'k' {
		return a
	}
	return c.cell(&Elt{p: polyAdd(a.p, b.p, -1), op: '-', a: a, b: b})
}
func (c *EltCtx) Neg(a *Elt) *Elt {
	if a.bot {
		return a
	}
	return c.cell(&Elt{p: polyAdd(Poly{}, a.p, -1), op: 'n', a: a})
}
func (c *EltCtx) Mul(a, b *Elt) *Elt {
	if a.bot || b.bot {
		return c.Bot()
	}
	if a.op == 'k' && a.k.Cmp(bigOne) == 0 {
		return b
	}
	if b.op == 'k' && b.k.Cmp(bigOne) == 0 {
		return a
	}
	return c.cell(&Elt{p: polyMul(a.p, b.p), op: '*', a: a, b: b})
}
func (c *EltCtx) Inv(a *Elt) *Elt {
	if a.bot {
		return a
	}
	if len(a.p) == 1 {
		for m, k := range a.p {
			if m == "" {
				return c.Const(new(big.Int).ModInverse(k, groupOrder))
			}
			if k.CmpAbs(bigOne) == 0 {
				var b []byte
				for i := 0; i < len(m); i += 3 {
					b = append(b, m[i], m[i+1], byte(-int8(m[i+2])))
				}
				return c.cell(&Elt{p: Poly{string(b): k}, op: '/', a: a})
			}
		}
	}
	if len(a.p) == 0 {
		return c.Zero()
	}
	if o, ok := c.invs[a.Key()]; ok {
		return o
	}
	v := c.newVar(&PVar{name: fmt.Sprintf("inv%d", a.id), inv: a})
	r := c.cell(&Elt{p: Poly{monoVar(v, 1): bigOne}, op: '/', a: a})
	c.invs[a.Key()] = r
	return r
}

// EqTerm returns the condition under which a and b are the same element.
var halfOrder = new(big.Int).Rsh(groupOrder, 1)

// ground elements are equal exactly when their normal forms are: no embedded
// integer, no inverse and small coefficients.
func (c *EltCtx) ground(a *Elt) bool {
	if a.gnd != 0 {
		return a.gnd > 0
	}
	a.gnd = 1
	for m, k := range a.p {
		if k.CmpAbs(halfOrder) >= 0 {
			a.gnd = -1
		}
		for i := 0; i < len(m); i += 3 {
			v := c.vars[int(binary.BigEndian.Uint16([]byte(m[i:i+2])))]
			if v.in != nil || v.inv != nil {
				a.gnd = -1
			}
		}
	}
	return a.gnd > 0
}

func (c *EltCtx) EqTerm(a, b *Elt) *Term {
	if a.bot || b.bot {
		return c.tc.Bool(a.bot && b.bot)
	}
	if a == b {
		return c.tc.T
	}
	d := polyAdd(a.p, b.p, -1)
	if len(d) == 0 {
		c.pairs = append(c.pairs, [2]*Elt{a, b})
		return c.tc.T
	}
	// group by indeterminate part
	groups := map[string]*Term{}
	var order []string
	keys := make([]string, 0, len(d))
	for m := range d {
		keys = append(keys, m)
	}
	sort.Strings(keys)
	for _, m := range keys {
		var rp []byte
		t := c.tc.Big(d[m])
		for i := 0; i < len(m); i += 3 {
			v := int(binary.BigEndian.Uint16([]byte(m[i : i+2])))
			e := int8(m[i+2])
			in := c.vars[v].in
			if in == nil || e < 0 {
				rp = append(rp, m[i:i+3]...)
				continue
			}
			for ; e > 0; e-- {
				t = c.tc.Mul(t, in)
			}
		}
		k := string(rp)
		if o, ok := groups[k]; ok {
			groups[k] = c.tc.Add(o, t)
		} else {
			groups[k] = t
			order = append(order, k)
		}
	}
	var conj []*Term
	for _, k := range order {
		t := groups[k]
		if t.lo != nil && t.hi != nil && t.lo.CmpAbs(groupOrder) < 0 && t.hi.CmpAbs(groupOrder) < 0 {
			conj = append(conj, c.tc.eq0(t))
		} else {
			conj = append(conj, c.tc.eq0(c.tc.Mod(t, groupOrder)))
		}
	}
	return c.tc.And(conj...)
}

// confirmQueries renders solver queries stating that the recorded equal pairs
// differ (expected unsat), over the un-normalised expression graphs.
func (c *EltCtx) confirmQueries(max int) []string {
	var qs []string
	pairs := c.pairs
	if len(pairs) > max {
		// spread
		var sel [][2]*Elt
		for i := 0; i < max; i++ {
			sel = append(sel, pairs[i*len(pairs)/max])
		}
		pairs = sel
	}
	for _, pr := range pairs {
		var b strings.Builder
		done := map[*Elt]bool{}
		vars := map[int]bool{}
		ok := true
		var emit func(e *Elt)
		ref := func(e *Elt) string {
			switch e.op {
			case 'k':
				return smtInt(e.k)
			case 'v', 'i':
				return fmt.Sprintf("g%d", e.v)
			}
			return fmt.Sprintf("e%d", e.id)
		}
		emit = func(e *Elt) {
			if done[e] || !ok {
				return
			}
			done[e] = true
			switch e.op {
			case 'k':
				return
			case 'v', 'i':
				if !vars[e.v] {
					vars[e.v] = true
					fmt.Fprintf(&b, "(declare-const g%d Int)\n", e.v)
				}
				return
			case '/':
				ok = false // inverses are not integers: leave to the normal form
				return
			}
			emit(e.a)
			if e.b != nil {
				emit(e.b)
			}
			if !ok {
				return
			}
			switch e.op {
			case '+', '-', '*':
				fmt.Fprintf(&b, "(define-fun e%d () Int (%c %s %s))\n", e.id, e.op, ref(e.a), ref(e.b))
			case 'n':
				fmt.Fprintf(&b, "(define-fun e%d () Int (- %s))\n", e.id, ref(e.a))
			}
		}
		emit(pr[0])
		emit(pr[1])
		if !ok {
			continue
		}
		fmt.Fprintf(&b, "(assert (not (= %s %s)))\n", ref(pr[0]), ref(pr[1]))
		qs = append(qs, b.String())
	}
	return qs
}
