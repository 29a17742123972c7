package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value = any

type tuple []value
type structure []value
type array []value

type iface struct {
	t types.Type
	v value
}

type Closure struct {
	Fn  *ssa.Function
	Env []value
}

// Native is a host function used as a func value.
type Native struct {
	name string
	f    func(fr *frame, args []value) value
}

// Host wraps an opaque host object.
type Host struct{ v any }

type Chan struct {
	buf    []value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     int
	id     int
}

type entry struct {
	k, v value
	dead bool
	ck   string
	sym  bool
}
type Map struct {
	kt    types.Type
	ents  []*entry
	idx   map[string]*entry
	nsym  int
	count int
	cell  value // pseudo cell for race tracking
}

// symbolic strings: parts are string | *decSeg | *Term (byte) | *Opq (byte)
type SymStr struct{ parts []value }
type decSeg struct{ t *Term }

// Opq is byte i of an opaque byte string.
type Opq struct {
	src *OpqSrc
	i   int
}
type OpqSrc struct {
	kind  byte // 'p' point encoding, 's' scalar encoding, 'P' hex of point, 'S' hex of scalar, 'b' base64, 'h' hash/token
	elt   *Elt
	n     int
	under []value // base64: underlying bytes
	id    int
	key   string
	bytes []value // cached []*Opq
	fin   string
}

func (s *OpqSrc) all() []value {
	if s.bytes == nil {
		s.bytes = make([]value, s.n)
		for i := range s.bytes {
			s.bytes[i] = &Opq{s, i}
		}
	}
	return s.bytes
}

type unsupported struct{ msg string }
type engineError struct{ msg string }
type pathEnd struct{ reason string } // assume failed, killed, ...
type targetPanic struct {
	v   value
	rt  string
	pos string
}
type exitPanic struct{ code int }

func (u unsupported) Error() string { return u.msg }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type kind uint8

const (
	kNone kind = iota
	kBool
	kInt
	kFloat32
	kFloat64
	kString
	kOther
)

type bkind struct {
	k      kind
	w      uint // width for ints
	signed bool
}

func basicKind(t types.Type) bkind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return bkind{k: kOther}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return bkind{k: kBool}
	case types.Int, types.Int64, types.UntypedInt:
		return bkind{kInt, 64, true}
	case types.Int32, types.UntypedRune:
		return bkind{kInt, 32, true}
	case types.Int16:
		return bkind{kInt, 16, true}
	case types.Int8:
		return bkind{kInt, 8, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return bkind{kInt, 64, false}
	case types.Uint32:
		return bkind{kInt, 32, false}
	case types.Uint16:
		return bkind{kInt, 16, false}
	case types.Uint8:
		return bkind{kInt, 8, false}
	case types.Float32:
		return bkind{k: kFloat32}
	case types.Float64, types.UntypedFloat:
		return bkind{k: kFloat64}
	case types.String, types.UntypedString:
		return bkind{k: kString}
	}
	return bkind{k: kOther}
}

// norm truncates a concrete integer to the kind's width.
func (b bkind) norm(x int64) int64 {
	switch b.w {
	case 64:
		return x
	case 32:
		if b.signed {
			return int64(int32(x))
		}
		return int64(uint32(x))
	case 16:
		if b.signed {
			return int64(int16(x))
		}
		return int64(uint16(x))
	case 8:
		if b.signed {
			return int64(int8(x))
		}
		return int64(uint8(x))
	}
	return x
}

func (b bkind) bounds() (lo, hi *big.Int) {
	if b.signed {
		h := new(big.Int).Lsh(bigOne, b.w-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)
	}
	return bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, b.w), bigOne)
}

var eltTypeName = "go.dedis.ch/kyber/v3/symgrp.Elt"

func isEltType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Elt" && o.Pkg() != nil && o.Pkg().Path() == "go.dedis.ch/kyber/v3/symgrp"
}

func (p *Path) zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch bk := basicKind(t); bk.k {
		case kBool:
			return false
		case kInt:
			return int64(0)
		case kFloat32, kFloat64:
			return float64(0)
		case kString:
			return ""
		}
		if t.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		if t.Kind() == types.Complex128 || t.Kind() == types.Complex64 {
			return complex128(0)
		}
		if t.Kind() == types.UntypedNil {
			return iface{}
		}
		panic(engineError{"zero of " + t.String()})
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		n := int(t.Len())
		a := make(array, n)
		et := t.Elem()
		if n > 0 {
			if isScalarType(et) {
				z := p.zero(et)
				for i := range a {
					a[i] = z
				}
			} else {
				for i := range a {
					a[i] = p.zero(et)
				}
			}
		}
		return a
	case *types.Named:
		if isEltType(t) {
			return p.ec.Zero()
		}
		return p.zero(t.Underlying())
	case *types.Alias:
		return p.zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = p.zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return p.zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = p.zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	}
	panic(engineError{fmt.Sprintf("zero: unexpected %T %v", t, t)})
}

func isScalarType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

// copyVal makes an unaliased copy of a struct or array value.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		s := make(structure, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				s[i] = copyVal(x)
			default:
				s[i] = x
			}
		}
		return s
	case array:
		s := make(array, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				s[i] = copyVal(x)
			default:
				s[i] = x
			}
		}
		return s
	}
	return v
}

// storeTo writes v to *addr keeping the addresses of fields/elements.
func storeTo(addr *value, v value) {
	switch v := v.(type) {
	case structure:
		if lhs, ok := (*addr).(structure); ok && len(lhs) == len(v) {
			for i := range lhs {
				switch v[i].(type) {
				case structure, array:
					storeTo(&lhs[i], v[i])
				default:
					lhs[i] = v[i]
				}
			}
			return
		}
		*addr = copyVal(v)
	case array:
		if lhs, ok := (*addr).(array); ok && len(lhs) == len(v) {
			for i := range lhs {
				switch v[i].(type) {
				case structure, array:
					storeTo(&lhs[i], v[i])
				default:
					lhs[i] = v[i]
				}
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func isSym(v value) bool {
	switch v.(type) {
	case *Term, *SymStr, *Opq:
		return true
	}
	return false
}

// ---- integers as terms

func (p *Path) toTerm(v value, b bkind) *Term {
	switch v := v.(type) {
	case *Term:
		if k, ok := p.known[v]; ok {
			return p.tc.Int(k)
		}
		return v
	case *Opq:
		return p.opqTerm(v)
	case int64:
		if !b.signed && b.w == 64 && v < 0 {
			return p.tc.Big(new(big.Int).SetUint64(uint64(v)))
		}
		return p.tc.Int(v)
	case bool:
		return p.tc.Bool(v)
	}
	panic(engineError{fmt.Sprintf("toTerm %T", v)})
}

func (p *Path) opqTerm(o *Opq) *Term {
	lo, hi := int64(0), int64(255)
	switch o.src.kind {
	case 'P', 'S':
		lo, hi = 48, 102
	case 'b':
		lo, hi = 45, 122
	}
	return p.tc.Var(fmt.Sprintf("opq%d_%d", o.src.id, o.i), big.NewInt(lo), big.NewInt(hi))
}

func (p *Path) wrap(t *Term, b bkind) value {
	lo, hi := b.bounds()
	if t.lo == nil || t.hi == nil || t.lo.Cmp(lo) < 0 || t.hi.Cmp(hi) > 0 {
		m := new(big.Int).Lsh(bigOne, b.w)
		if b.signed {
			h := new(big.Int).Lsh(bigOne, b.w-1)
			t = p.tc.Sub(p.tc.Mod(p.tc.Add(t, p.tc.Big(h)), m), p.tc.Big(h))
		} else {
			t = p.tc.Mod(t, m)
		}
	}
	return fromTerm(t)
}

func fromTerm(t *Term) value {
	switch t.op {
	case OpConst:
		if t.k.IsInt64() {
			return t.k.Int64()
		}
		return int64(t.k.Uint64())
	case OpTrue:
		return true
	case OpFalse:
		return false
	}
	return t
}

// ---- strings

func str(v value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

func mkStr(parts []value) value {
	// merge literals; turn constant byte terms into literals
	var out []value
	var lit []byte
	flush := func() {
		if len(lit) > 0 {
			out = append(out, string(lit))
			lit = nil
		}
	}
	for _, x := range parts {
		switch x := x.(type) {
		case string:
			lit = append(lit, x...)
		case int64:
			lit = append(lit, byte(x))
		case *Term:
			if x.op == OpConst {
				lit = append(lit, byte(x.k.Int64()))
			} else {
				flush()
				out = append(out, x)
			}
		default:
			flush()
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return string(lit)
	}
	flush()
	return &SymStr{out}
}

func strParts(v value) []value {
	switch v := v.(type) {
	case string:
		if v == "" {
			return nil
		}
		return []value{v}
	case *SymStr:
		return v.parts
	}
	panic(engineError{fmt.Sprintf("not a string: %T", v)})
}

func concat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	pa, pb := strParts(a), strParts(b)
	n := make([]value, 0, len(pa)+len(pb))
	n = append(n, pa...)
	n = append(n, pb...)
	return mkStr(n)
}

// expand turns decimal segments into digit bytes (forking on sign and length)
// and returns the byte values of the string.
func (p *Path) strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		out := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			out[i] = int64(v[i])
		}
		return out
	case *SymStr:
		var out []value
		for _, x := range v.parts {
			switch x := x.(type) {
			case string:
				for i := 0; i < len(x); i++ {
					out = append(out, int64(x[i]))
				}
			case *decSeg:
				out = append(out, p.decBytes(x.t)...)
			default:
				out = append(out, x)
			}
		}
		return out
	}
	panic(engineError{fmt.Sprintf("not a string: %T", v)})
}

func (p *Path) decBytes(t *Term) []value {
	if o, ok := p.decMemo[t]; ok {
		return o
	}
	var out []value
	abs := t
	if p.branch(p.tc.Lt(t, p.tc.Int(0))) {
		out = append(out, int64('-'))
		abs = p.tc.Neg(t)
	}
	n := 1
	lim := big.NewInt(10)
	for n < 20 {
		if p.branch(p.tc.Lt(abs, p.tc.Big(lim))) {
			break
		}
		n++
		lim = new(big.Int).Mul(lim, big.NewInt(10))
	}
	for i := n - 1; i >= 0; i-- {
		pw := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(i)), nil)
		d := p.tc.Div(abs, pw)
		if i < n-1 {
			d = p.tc.Mod(d, big.NewInt(10))
		}
		if d.lo == nil || d.lo.Sign() < 0 || d.hi == nil || d.hi.Cmp(big.NewInt(9)) > 0 {
			// give the digit its (implied) range
			dv := p.freshInt("digit", 0, 9)
			p.assume(p.tc.Eq(dv, d))
			d = dv
		}
		out = append(out, fromTerm(p.tc.Add(d, p.tc.Int(48))))
	}
	p.decMemo[t] = out
	return out
}

func (p *Path) strLen(v value) int {
	if s, ok := v.(string); ok {
		return len(s)
	}
	n := 0
	for _, x := range v.(*SymStr).parts {
		switch x := x.(type) {
		case string:
			n += len(x)
		case *decSeg:
			n += len(p.decBytes(x.t))
		default:
			n++
		}
	}
	return n
}

func bytesToStr(b []value) value {
	allc := true
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			allc = false
			break
		}
	}
	if allc {
		s := make([]byte, len(b))
		for i, x := range b {
			s[i] = byte(x.(int64))
		}
		return string(s)
	}
	return mkStr(b)
}

func isDigitOrMinus(c byte) bool { return c >= '0' && c <= '9' || c == '-' }

// strEq returns the condition that two strings are equal.
func (p *Path) strEq(a, b value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return p.tc.Bool(x == y)
		}
	}
	pa := append([]value(nil), strParts(a)...)
	pb := append([]value(nil), strParts(b)...)
	conj := []*Term{}
	// lemma: a decimal segment is followed by the end or by a non-digit literal on both sides => aligned
	delim := func(ps []value) bool {
		if len(ps) == 1 {
			return true
		}
		if s, ok := ps[1].(string); ok {
			return !isDigitOrMinus(s[0])
		}
		return false
	}
	for len(pa) > 0 && len(pb) > 0 {
		if x, ok := pa[0].(*decSeg); ok {
			if y, ok := pb[0].(*decSeg); ok && delim(pa) && delim(pb) {
				conj = append(conj, p.tc.Eq(x.t, y.t))
				pa, pb = pa[1:], pb[1:]
				continue
			}
			if y, ok := pb[0].(string); ok && delim(pa) {
				// compare with a literal number
				j := 0
				for j < len(y) && isDigitOrMinus(y[j]) {
					j++
				}
				if j < len(y) || len(pb) == 1 {
					k, ok := new(big.Int).SetString(y[:j], 10)
					if !ok || k.String() != y[:j] {
						return p.tc.F
					}
					conj = append(conj, p.tc.Eq(x.t, p.tc.Big(k)))
					pa = pa[1:]
					if j == len(y) {
						pb = pb[1:]
					} else {
						pb[0] = y[j:]
					}
					continue
				}
			}
			pa = append(append([]value(nil), bytesParts(p.decBytes(x.t))...), pa[1:]...)
			continue
		}
		if _, ok := pb[0].(*decSeg); ok {
			pa, pb = pb, pa
			continue
		}
		sa, oka := pa[0].(string)
		sb, okb := pb[0].(string)
		if oka && okb {
			n := len(sa)
			if len(sb) < n {
				n = len(sb)
			}
			if sa[:n] != sb[:n] {
				return p.tc.F
			}
			if n == len(sa) {
				pa = pa[1:]
			} else {
				pa[0] = sa[n:]
			}
			if n == len(sb) {
				pb = pb[1:]
			} else {
				pb[0] = sb[n:]
			}
			continue
		}
		if x, ok := pa[0].(*Opq); ok {
			if y, ok := pb[0].(*Opq); ok {
				if n := runLen(pa); n > 0 && x.i == 0 && y.i == 0 && runLen(pb) == n && x.src.kind == y.src.kind && n == x.src.n {
					e := p.opqEq(x.src, y.src)
					if e == p.tc.F {
						return e
					}
					conj = append(conj, e)
					pa, pb = pa[n:], pb[n:]
					continue
				}
			}
		}
		var ba, bb value
		if oka {
			ba = int64(sa[0])
			if len(sa) == 1 {
				pa = pa[1:]
			} else {
				pa[0] = sa[1:]
			}
		} else {
			ba = pa[0]
			pa = pa[1:]
		}
		if okb {
			bb = int64(sb[0])
			if len(sb) == 1 {
				pb = pb[1:]
			} else {
				pb[0] = sb[1:]
			}
		} else {
			bb = pb[0]
			pb = pb[1:]
		}
		e := p.byteEq(ba, bb)
		if e == p.tc.F {
			return e
		}
		conj = append(conj, e)
	}
	rest := pa
	if len(rest) == 0 {
		rest = pb
	}
	if len(rest) != 0 {
		return p.tc.F // every part has at least one byte
	}
	return p.tc.And(conj...)
}

func bytesParts(b []value) []value {
	s := bytesToStr(b)
	return strParts(s)
}

func runLen(ps []value) int {
	x, ok := ps[0].(*Opq)
	if !ok {
		return 0
	}
	n := 0
	for n < len(ps) {
		y, ok := ps[n].(*Opq)
		if !ok || y.src != x.src || y.i != x.i+n {
			break
		}
		n++
	}
	return n
}

func (p *Path) byteEq(a, b value) *Term {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			return p.tc.Bool(x == y)
		}
	}
	if x, ok := a.(*Opq); ok {
		if y, ok := b.(*Opq); ok && x.i == y.i && x.src.kind == y.src.kind {
			if p.opqEq(x.src, y.src) == p.tc.T {
				return p.tc.T
			}
		}
	}
	bk := bkind{kInt, 8, false}
	return p.tc.Eq(p.toTerm(a, bk), p.toTerm(b, bk))
}

func (p *Path) opqEq(x, y *OpqSrc) *Term {
	if x == y {
		return p.tc.T
	}
	if x.kind != y.kind || x.n != y.n {
		return p.tc.F
	}
	switch x.kind {
	case 'p', 's', 'P', 'S':
		return p.ec.EqTerm(x.elt, y.elt)
	case 'b':
		return p.bytesEq(x.under, y.under)
	case 'h':
		return p.tc.Bool(x.key == y.key)
	}
	return p.tc.F
}

func (p *Path) bytesEq(a, b []value) *Term {
	if len(a) != len(b) {
		return p.tc.F
	}
	return p.strEq(bytesToStr(a), bytesToStr(b))
}

// canonical key of a value for map indexing: equal keys => surely equal values.
// sym reports whether the value could also equal a value with another key.
func (p *Path) canon(v value, sym *bool) string {
	var b strings.Builder
	p.canonTo(&b, v, sym)
	return b.String()
}

func (p *Path) canonTo(b *strings.Builder, v value, sym *bool) {
	switch v := v.(type) {
	case int64:
		fmt.Fprintf(b, "i%d;", v)
	case bool:
		fmt.Fprintf(b, "b%v;", v)
	case float64:
		fmt.Fprintf(b, "f%v;", v)
	case string:
		fmt.Fprintf(b, "s%d:%s;", len(v), v)
	case *SymStr:
		b.WriteString("S")
		for _, x := range v.parts {
			switch x := x.(type) {
			case string:
				fmt.Fprintf(b, "s%d:%s;", len(x), x)
			case *decSeg:
				*sym = true
				fmt.Fprintf(b, "d%d;", x.t.id)
			default:
				p.canonTo(b, x, sym)
			}
		}
	case *Term:
		*sym = true
		fmt.Fprintf(b, "t%d;", v.id)
	case *Opq:
		if v.src.elt != nil {
			if !p.ec.ground(v.src.elt) {
				*sym = true
			}
			if v.src.fin == "" {
				k := string(v.src.kind) + v.src.elt.Key()
				id, ok := p.finIDs[k]
				if !ok {
					if p.finIDs == nil {
						p.finIDs = map[string]int{}
					}
					id = len(p.finIDs) + 1
					p.finIDs[k] = id
				}
				v.src.fin = "o" + strconv.Itoa(id) + "."
			}
			b.WriteString(v.src.fin)
			b.WriteString(strconv.Itoa(v.i))
			b.WriteByte(';')
			return
		}
		*sym = true
		if v.src.kind == 'h' {
			fmt.Fprintf(b, "h%s.%d;", v.src.key, v.i)
		} else {
			fmt.Fprintf(b, "q%d.%d;", v.src.id, v.i)
		}
	case iface:
		if v.t == nil {
			b.WriteString("nil;")
		} else {
			fmt.Fprintf(b, "I%s:", v.t.String())
			p.canonTo(b, v.v, sym)
		}
	case structure:
		b.WriteString("{")
		for _, x := range v {
			p.canonTo(b, x, sym)
		}
		b.WriteString("}")
	case array:
		b.WriteString("[")
		for _, x := range v {
			p.canonTo(b, x, sym)
		}
		b.WriteString("]")
	case *value:
		fmt.Fprintf(b, "p%p;", v)
	case *Chan:
		fmt.Fprintf(b, "c%p;", v)
	case *Elt:
		if !p.ec.ground(v) {
			*sym = true
		}
		b.WriteString(v.Key())
	case *Host:
		fmt.Fprintf(b, "H%p;", v)
	default:
		panic(unsupported{fmt.Sprintf("map key of kind %T", v)})
	}
}

// equal returns the condition x == y for values of static type t.
func (p *Path) equal(t types.Type, x, y value) *Term {
	switch x := x.(type) {
	case bool:
		if y, ok := y.(bool); ok {
			return p.tc.Bool(x == y)
		}
		return p.tc.Eq(p.tc.Bool(x), y.(*Term))
	case int64:
		if y, ok := y.(int64); ok {
			return p.tc.Bool(x == y)
		}
		bk := basicKind(t)
		return p.tc.Eq(p.toTerm(x, bk), p.toTerm(y, bk))
	case *Term:
		if x.bool_ {
			return p.tc.Eq(x, p.toTerm(y, bkind{}))
		}
		return p.tc.Eq(x, p.toTerm(y, basicKind(t)))
	case *Opq:
		return p.byteEq(x, y)
	case float64:
		return p.tc.Bool(x == y.(float64))
	case complex128:
		return p.tc.Bool(x == y.(complex128))
	case string, *SymStr:
		return p.strEq(x, y)
	case *value:
		return p.tc.Bool(x == y.(*value))
	case *Chan:
		return p.tc.Bool(x == y.(*Chan))
	case *Map:
		return p.tc.Bool(x == y.(*Map))
	case *Elt:
		return p.ec.EqTerm(x, y.(*Elt))
	case *Host:
		o, ok := y.(*Host)
		return p.tc.Bool(ok && x == o)
	case []value:
		y := y.([]value)
		return p.tc.Bool(x == nil && y == nil)
	case *ssa.Function, *Closure, *ssa.Builtin, *Native:
		return p.tc.Bool(isNilFunc(x) && isNilFunc(y))
	case iface:
		y, ok := y.(iface)
		if !ok {
			panic(engineError{"iface compared with non-iface"})
		}
		if x.t == nil || y.t == nil {
			return p.tc.Bool(x.t == nil && y.t == nil)
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return p.tc.F
		}
		if !types.Comparable(x.t) {
			p.rtPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return p.equal(x.t, x.v, y.v)
	case structure:
		y := y.(structure)
		st := t.Underlying().(*types.Struct)
		var conj []*Term
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			conj = append(conj, p.equal(st.Field(i).Type(), x[i], y[i]))
		}
		return p.tc.And(conj...)
	case array:
		y := y.(array)
		et := t.Underlying().(*types.Array).Elem()
		var conj []*Term
		for i := range x {
			conj = append(conj, p.equal(et, x[i], y[i]))
		}
		return p.tc.And(conj...)
	}
	panic(unsupported{fmt.Sprintf("comparison of %T", x)})
}

func isNilFunc(v value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case *Closure:
		return f == nil
	case *ssa.Builtin:
		return f == nil
	case *Native:
		return f == nil
	}
	return false
}

// ---- maps

func newMap(kt types.Type) *Map { return &Map{kt: kt, idx: map[string]*entry{}} }

func (p *Path) mapFind(m *Map, k value) *entry {
	if m == nil {
		return nil
	}
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		p.rtPanic("runtime error: hash of unhashable type " + i.t.String())
	}
	sym := false
	ck := p.canon(k, &sym)
	if e, ok := m.idx[ck]; ok {
		return e
	}
	if !sym && m.nsym == 0 {
		return nil
	}
	for _, e := range m.ents {
		if e.dead || !sym && !e.sym {
			continue
		}
		if p.branch(p.equal(m.kt, k, e.k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *Map, k, v value) {
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	sym := false
	ck := p.canon(k, &sym)
	e := &entry{k: k, v: v, ck: ck, sym: sym}
	m.ents = append(m.ents, e)
	m.idx[ck] = e
	m.count++
	if sym {
		m.nsym++
	}
}

func (p *Path) mapDelete(m *Map, k value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	delete(m.idx, e.ck)
	m.count--
	if e.sym {
		m.nsym--
	}
	out := m.ents[:0:0]
	for _, x := range m.ents {
		if !x.dead {
			out = append(out, x)
		}
	}
	m.ents = out
}
