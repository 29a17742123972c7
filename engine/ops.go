package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func binopFn(op token.Token, t types.Type, ty types.Type) func(p *Path, x, y value) value {
	bk := basicKind(t)
	switch op {
	case token.EQL:
		return func(p *Path, x, y value) value { return fromTerm(p.equal(t, x, y)) }
	case token.NEQ:
		return func(p *Path, x, y value) value { return fromTerm(p.tc.Not(p.equal(t, x, y))) }
	}
	switch bk.k {
	case kInt:
		switch op {
		case token.SHL, token.SHR:
			yk := basicKind(ty)
			return func(p *Path, x, y value) value { return p.shift(op, bk, yk, x, y) }
		}
		return func(p *Path, x, y value) value {
			a, ok1 := x.(int64)
			b, ok2 := y.(int64)
			if ok1 && ok2 {
				return concIntOp(p, op, bk, a, b)
			}
			return p.symIntOp(op, bk, x, y)
		}
	case kFloat32, kFloat64:
		return func(p *Path, x, y value) value {
			a, ok1 := x.(float64)
			b, ok2 := y.(float64)
			if !ok1 || !ok2 {
				unsup("symbolic float")
			}
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			default:
				unsup("float op %s", op)
			}
			if bk.k == kFloat32 {
				r = float64(float32(r))
			}
			return r
		}
	case kString:
		switch op {
		case token.ADD:
			return func(p *Path, x, y value) value { return concat(x, y) }
		case token.LSS:
			return func(p *Path, x, y value) value { return p.strLess(x, y, false) }
		case token.LEQ:
			return func(p *Path, x, y value) value { return !p.strLess(y, x, false) }
		case token.GTR:
			return func(p *Path, x, y value) value { return p.strLess(y, x, false) }
		case token.GEQ:
			return func(p *Path, x, y value) value { return !p.strLess(x, y, false) }
		}
	case kBool:
		return func(p *Path, x, y value) value {
			a, b := p.toTerm(x, bk), p.toTerm(y, bk)
			switch op {
			case token.AND, token.LAND:
				return fromTerm(p.tc.And(a, b))
			case token.OR, token.LOR:
				return fromTerm(p.tc.Or(a, b))
			}
			panic(engineError{"bool op"})
		}
	}
	return func(p *Path, x, y value) value {
		if a, ok := x.(complex128); ok {
			b := y.(complex128)
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			}
		}
		unsup("binary %s on %v", op, t)
		return nil
	}
}

func (p *Path) strLess(x, y value, _ bool) bool {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a < b
		}
	}
	a, b := p.strBytes(x), p.strBytes(y)
	bk := bkind{kInt, 8, false}
	for i := 0; i < len(a) && i < len(b); i++ {
		ta, tb := p.toTerm(a[i], bk), p.toTerm(b[i], bk)
		if p.branch(p.tc.Eq(ta, tb)) {
			continue
		}
		return p.branch(p.tc.Lt(ta, tb))
	}
	return len(a) < len(b)
}

func concIntOp(p *Path, op token.Token, bk bkind, a, b int64) value {
	switch op {
	case token.ADD:
		return bk.norm(a + b)
	case token.SUB:
		return bk.norm(a - b)
	case token.MUL:
		return bk.norm(a * b)
	case token.QUO:
		if b == 0 {
			p.rtPanic("runtime error: integer divide by zero")
		}
		if !bk.signed {
			return bk.norm(int64(uint64(a) / uint64(b)))
		}
		if b == -1 {
			return bk.norm(-a)
		}
		return bk.norm(a / b)
	case token.REM:
		if b == 0 {
			p.rtPanic("runtime error: integer divide by zero")
		}
		if !bk.signed {
			return bk.norm(int64(uint64(a) % uint64(b)))
		}
		if b == -1 {
			return int64(0)
		}
		return bk.norm(a % b)
	case token.AND:
		return bk.norm(a & b)
	case token.OR:
		return bk.norm(a | b)
	case token.XOR:
		return bk.norm(a ^ b)
	case token.AND_NOT:
		return bk.norm(a &^ b)
	case token.LSS:
		if !bk.signed {
			return uint64(a) < uint64(b)
		}
		return a < b
	case token.LEQ:
		if !bk.signed {
			return uint64(a) <= uint64(b)
		}
		return a <= b
	case token.GTR:
		if !bk.signed {
			return uint64(a) > uint64(b)
		}
		return a > b
	case token.GEQ:
		if !bk.signed {
			return uint64(a) >= uint64(b)
		}
		return a >= b
	}
	panic(engineError{"int op " + op.String()})
}

func (p *Path) shift(op token.Token, bk, yk bkind, x, y value) value {
	n := p.concInt(y, "shift count")
	if yk.signed && n < 0 {
		p.rtPanic("runtime error: negative shift amount")
	}
	un := uint64(n)
	if a, ok := x.(int64); ok {
		if op == token.SHL {
			if un >= 64 {
				return int64(0)
			}
			return bk.norm(a << un)
		}
		if bk.signed {
			if un >= 64 {
				un = 63
			}
			return bk.norm(a >> un)
		}
		if un >= 64 {
			return int64(0)
		}
		return bk.norm(int64(uint64(a) >> un))
	}
	t := p.toTerm(x, bk)
	if un >= 64 {
		unsup("symbolic shift by %d", un)
	}
	k := new(big.Int).Lsh(bigOne, uint(un))
	if op == token.SHL {
		return p.wrap(p.tc.Scale(t, k), bk)
	}
	return p.wrap(p.tc.Div(t, k), bk)
}

func pow2m1(k *big.Int) (int, bool) { // k = 2^n-1
	n := k.BitLen()
	if k.Sign() < 0 {
		return 0, false
	}
	return n, new(big.Int).Add(k, bigOne).Cmp(new(big.Int).Lsh(bigOne, uint(n))) == 0
}

// constDiv divides a small constant by a symbolic positive number: the quotient
// has few values, and for each the remainder is linear in the divisor.
func (p *Path) constDiv(a, b *Term) (q, r *Term, ok bool) {
	tc := p.tc
	if a.op != OpConst || a.k.Sign() < 0 || !a.k.IsInt64() || a.k.Int64() > 10000 {
		return nil, nil, false
	}
	if (b.lo == nil || b.lo.Sign() < 0) && p.branch(tc.Lt(b, tc.Int(0))) {
		return nil, nil, false
	}
	n := a.k.Int64()
	q, r = tc.Int(n), tc.Int(0) // for the divisor 1
	for d := int64(2); d <= n+1; {
		// the divisors from d on have at most the quotient n/d
		k := n / d
		c := tc.Le(tc.Int(d), b)
		q = tc.Ite(c, tc.Int(k), q)
		r = tc.Ite(c, tc.Sub(a, tc.Mul(tc.Int(k), b)), r)
		if k == 0 {
			break
		}
		d = n/k + 1
	}
	return q, r, true
}

func (p *Path) symIntOp(op token.Token, bk bkind, x, y value) value {
	a, b := p.toTerm(x, bk), p.toTerm(y, bk)
	tc := p.tc
	switch op {
	case token.ADD:
		return p.wrap(tc.Add(a, b), bk)
	case token.SUB:
		return p.wrap(tc.Sub(a, b), bk)
	case token.MUL:
		return p.wrap(tc.Mul(a, b), bk)
	case token.LSS:
		return fromTerm(tc.Lt(a, b))
	case token.LEQ:
		return fromTerm(tc.Le(a, b))
	case token.GTR:
		return fromTerm(tc.Lt(b, a))
	case token.GEQ:
		return fromTerm(tc.Le(b, a))
	case token.QUO, token.REM:
		if b.op != OpConst {
			if p.branch(tc.Eq(b, tc.Int(0))) {
				p.rtPanic("runtime error: integer divide by zero")
			}
			if q, r, ok := p.constDiv(a, b); ok {
				if op == token.REM {
					return p.wrap(r, bk)
				}
				return p.wrap(q, bk)
			}
			b = tc.Int(p.concretize(b, "divisor"))
		}
		if b.k.Sign() == 0 {
			p.rtPanic("runtime error: integer divide by zero")
		}
		k := new(big.Int).Abs(b.k)
		neg := a.lo == nil || a.lo.Sign() < 0
		q, r := tc.Div(a, k), tc.Mod(a, k)
		if neg {
			if a.hi != nil && a.hi.Sign() <= 0 || p.branch(tc.Lt(a, tc.Int(0))) {
				na := tc.Neg(a)
				q, r = tc.Neg(tc.Div(na, k)), tc.Neg(tc.Mod(na, k))
			}
		}
		if op == token.REM {
			return p.wrap(r, bk)
		}
		if b.k.Sign() < 0 {
			q = tc.Neg(q)
		}
		return p.wrap(q, bk)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.op == OpConst {
			if op == token.AND_NOT {
				// a &^ b
			} else {
				a, b = b, a
			}
		}
		if b.op == OpConst && op == token.AND {
			if b.k.Sign() == 0 {
				return int64(0)
			}
			if n, ok := pow2m1(b.k); ok {
				return p.wrap(tc.Mod(a, new(big.Int).Lsh(bigOne, uint(n))), bk)
			}
		}
		if b.op == OpConst && b.k.Sign() == 0 {
			return fromTerm(a)
		}
		if op == token.OR || op == token.XOR {
			// disjoint bits: addition
			if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil {
				if b.tz() >= uint(a.hi.BitLen()) || a.tz() >= uint(b.hi.BitLen()) {
					return p.wrap(tc.Add(a, b), bk)
				}
			}
		}
		// general case through bit vectors of the operand width
		m := new(big.Int).Lsh(bigOne, bk.w)
		ua, ub := a, b
		if bk.signed {
			ua, ub = tc.Mod(a, m), tc.Mod(b, m)
		}
		name := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.AND_NOT: "bvand"}[op]
		if op == token.AND_NOT {
			ub = tc.Sub(tc.Big(new(big.Int).Sub(m, bigOne)), ub)
		}
		return p.wrap(tc.Bv(name, int(bk.w), ua, ub), bk)
	}
	unsup("symbolic integer op %s", op)
	return nil
}

func (p *Path) conv(dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	if tp, ok := ud.(*types.TypeParam); ok {
		_ = tp
		unsup("conversion to type parameter")
	}
	switch d := ud.(type) {
	case *types.Slice:
		if bs, ok := us.(*types.Basic); ok && bs.Info()&types.IsString != 0 {
			ek := basicKind(d.Elem())
			if ek.w == 8 {
				b := p.strBytes(x)
				out := make([]value, len(b), roundupsize(len(b)))
				copy(out, b)
				for i := len(b); i < cap(out); i++ {
					out[:cap(out)][i] = int64(0)
				}
				return out
			}
			// []rune
			if s, ok := x.(string); ok {
				var out []value
				for _, r := range s {
					out = append(out, int64(r))
				}
				if out == nil {
					out = []value{}
				}
				return out
			}
			b := p.strBytes(x)
			for i, c := range b {
				if k, ok := c.(int64); ok && k >= 0x80 {
					unsup("multi-byte rune in symbolic string")
				}
				if o, ok := c.(*Opq); ok {
					b[i] = p.opqTerm(o)
				}
			}
			return append([]value(nil), b...)
		}
		return x
	case *types.Basic:
		dk := basicKind(dst)
		sk := basicKind(src)
		if d.Info()&types.IsString != 0 {
			switch s := us.(type) {
			case *types.Slice:
				if basicKind(s.Elem()).w == 8 {
					return bytesToStr(x.([]value))
				}
				var out []value
				for _, r := range x.([]value) {
					if k, ok := r.(int64); ok {
						out = append(out, string(rune(k)))
					} else {
						out = append(out, p.runeStr(r)...)
					}
				}
				return mkStr(out)
			case *types.Basic:
				if s.Info()&types.IsString != 0 {
					return x
				}
				if k, ok := x.(int64); ok {
					if k < 0 || k > utf8.MaxRune {
						return string(utf8.RuneError)
					}
					return string(rune(k))
				}
				return mkStr(p.runeStr(x))
			}
		}
		switch dk.k {
		case kInt:
			switch v := x.(type) {
			case int64:
				return dk.norm(v)
			case *Term:
				return p.wrap(v, dk)
			case *Opq:
				if dk.w == 8 && !dk.signed {
					return v
				}
				return p.wrap(p.opqTerm(v), dk)
			case float64:
				if dk.signed {
					return dk.norm(int64(v))
				}
				return dk.norm(int64(uint64(v)))
			case *value:
				unsup("pointer to integer conversion")
			}
		case kFloat32, kFloat64:
			var f float64
			switch v := x.(type) {
			case int64:
				if sk.signed {
					f = float64(v)
				} else {
					f = float64(uint64(v))
				}
			case float64:
				f = v
			default:
				f = float64(p.concInt(x, "int to float"))
			}
			if dk.k == kFloat32 {
				f = float64(float32(f))
			}
			return f
		case kBool, kString:
			return x
		}
		if d.Kind() == types.UnsafePointer || d.Kind() == types.Complex128 {
			return x
		}
	case *types.Pointer:
		if b, ok := us.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if v, ok := x.(*value); ok {
				return v
			}
			unsup("unsafe conversion")
		}
		return x
	default:
		return x
	}
	unsup("conversion %v -> %v", src, dst)
	return nil
}

func (p *Path) runeStr(r value) []value {
	if o, ok := r.(*Opq); ok {
		return []value{o}
	}
	t := r.(*Term)
	if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.Cmp(big.NewInt(127)) <= 0 {
		return []value{t}
	}
	if !p.branch(p.tc.And(p.tc.Le(p.tc.Int(0), t), p.tc.Lt(t, p.tc.Int(128)))) {
		unsup("non-ASCII symbolic rune")
	}
	return []value{t}
}

// ---- append growth as in the Go runtime

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func roundupAlloc(n int, noscan bool) int {
	if !noscan && n > 512 {
		if n+8 <= 32768 {
			return roundupsize(n+8) - 8
		}
	}
	return roundupsize(n)
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func growCap(oldCap, newLen, esize int, noscan bool) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			nc = dbl
		} else {
			for nc < newLen {
				nc += (nc + 3*threshold) >> 2
			}
		}
	}
	if esize == 0 {
		return nc
	}
	return roundupAlloc(nc*esize, noscan) / esize
}

func (p *Path) appendSlice(et types.Type, a, b []value) []value {
	if len(b) == 0 {
		return a
	}
	n := len(a) + len(b)
	if n <= cap(a) {
		r := a[:n]
		tmp := make([]value, len(b))
		for i, x := range b {
			tmp[i] = copyVal(x)
		}
		for i := range tmp {
			storeElem(&r[len(a)+i], tmp[i])
		}
		return r
	}
	es := int(p.eng.sizeof(et))
	nc := growCap(cap(a), n, es, !hasPointers(et))
	if nc < n {
		nc = n
	}
	r := make([]value, nc)
	for i, x := range a {
		r[i] = copyVal(x)
	}
	for i, x := range b {
		r[len(a)+i] = copyVal(x)
	}
	if nc > n {
		if isScalarType(et) && !isEltType(et) {
			z := p.zero(et)
			for i := n; i < nc; i++ {
				r[i] = z
			}
		} else {
			for i := n; i < nc; i++ {
				r[i] = p.zero(et)
			}
		}
	}
	return r[:n]
}

func storeElem(addr *value, v value) {
	storeTo(addr, v)
}

func (e *Engine) sizeof(t types.Type) int64 {
	k := methKey{t, "%size"}
	if s, ok := e.methods.Load(k); ok {
		return s.(int64)
	}
	e.buildMu.Lock()
	s := e.sizes.Sizeof(t)
	e.buildMu.Unlock()
	e.methods.Store(k, s)
	return s
}

func (p *Path) builtin(fr *frame, fn *ssa.Builtin, args []value) value {
	switch fn.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		a, ok := args[0].([]value)
		if !ok {
			unsup("append to %T", args[0])
		}
		et := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		var r []value
		switch s := args[1].(type) {
		case []value:
			if p.race != nil {
				p.race.rangeAccess(fr, s, false)
				if len(a)+len(s) <= cap(a) {
					p.race.rangeAccess(fr, a[len(a):len(a)+len(s)], true)
				} else {
					p.race.rangeAccess(fr, a, false)
				}
			}
			r = p.appendSlice(et, a, s)
		default:
			r = p.appendSlice(et, a, p.strBytes(s))
		}
		return r
	case "copy":
		d := args[0].([]value)
		var s []value
		if sv, ok := args[1].([]value); ok {
			s = sv
		} else {
			s = p.strBytes(args[1])
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		if p.race != nil {
			p.race.rangeAccess(fr, s[:n], false)
			p.race.rangeAccess(fr, d[:n], true)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			storeElem(&d[i], tmp[i])
		}
		return int64(n)
	case "close":
		p.chanClose(fr, args[0].(*Chan))
		return nil
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			if p.race != nil {
				p.race.access(fr, &m.cell, true)
			}
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				x.ents, x.idx, x.count, x.nsym = nil, map[string]*entry{}, 0, 0
			}
		case []value:
			et := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				storeTo(&x[i], p.zero(et))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *SymStr:
			return int64(p.strLen(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case []value:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(x.count)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case []value:
			return int64(cap(x))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
	case "min", "max":
		t := fn.Type().(*types.Signature).Params().At(0).Type()
		lt := binopFn(token.LSS, t, t)
		r := args[0]
		for _, a := range args[1:] {
			if f, ok := a.(float64); ok {
				if fn.Name() == "min" {
					r = math.Min(r.(float64), f)
				} else {
					r = math.Max(r.(float64), f)
				}
				continue
			}
			less := p.truth(lt(p, a, r))
			if less == (fn.Name() == "min") {
				r = a
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "panic":
		panic(targetPanic{v: args[0], pos: p.where(fr)})
	case "recover":
		return fr.doRecover()
	case "ssa:wrapnilchk":
		if v, ok := args[0].(*value); ok && v == nil {
			p.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return &Host{&fr.defers}
	}
	panic(unsupported{fmt.Sprintf("builtin %s(%T)", fn.Name(), args[0])})
}
