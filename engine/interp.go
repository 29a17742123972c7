package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"runtime"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- compilation of ssa functions to closures over a register file

type opnd struct {
	slot int // >=0: register
	c    value
	g    *ssa.Global
	typ  types.Type // non-nil: zero constant of aggregate type, rebuilt at each use
}

type cinstr func(fr *frame)

type cblock struct {
	idx    int
	phis   []phi
	code   []cinstr
	pos    []token.Pos
	succs  []*cblock
	npreds int
}
type phi struct {
	dst   int
	edges []opnd
}

type fnInfo struct {
	fn       *ssa.Function
	nslots   int
	blocks   []*cblock
	recover_ *cblock
	params   []int
	freevars []int
	locals   []struct {
		slot int
		t    types.Type
	}
	hasDefer bool
	isRepo   bool
	ext      extFunc
	pre      func(fr *frame, args []value) (value, bool)
	noCode   string
	pkgPath  string
	name     string
}

type extFunc func(fr *frame, args []value) value

type Engine struct {
	prog     *ssa.Program
	infos    sync.Map // *ssa.Function -> *fnInfo
	methods  sync.Map // methKey -> *ssa.Function
	buildMu  sync.Mutex
	repoPath string
	sizes    types.Sizes
	cfg      *Config
	encoded  sync.Map // repo function name -> true
	errT     types.Type
	srcHash  string
}

type methKey struct {
	t  types.Type
	id string
}

type frame struct {
	p         *Path
	g         *G
	caller    *frame
	info      *fnInfo
	regs      []value
	block     *cblock
	prev      int // index in preds
	jump      *cblock
	pi        int
	defers    *deferred
	result    value
	done      bool
	panicking bool
	panic     any
	inRecover bool
}

type deferred struct {
	fn   value
	args []value
	tail *deferred
}

func (fr *frame) get(o *opnd) value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.g != nil {
		return fr.p.global(o.g)
	}
	if o.typ != nil {
		return fr.p.zero(o.typ)
	}
	return o.c
}

func constValue(c *ssa.Const) (value, types.Type) {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Tuple:
			return nil, c.Type()
		}
		return (*Path)(nil).zero(c.Type()), nil
	}
	bk := basicKind(c.Type())
	switch bk.k {
	case kBool:
		return constant.BoolVal(c.Value), nil
	case kInt:
		if bk.signed {
			return c.Int64(), nil
		}
		return int64(c.Uint64()), nil
	case kFloat32:
		return float64(float32(c.Float64())), nil
	case kFloat64:
		return c.Float64(), nil
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value), nil
		}
		return string(rune(c.Int64())), nil
	}
	if c.Value.Kind() == constant.Complex || bk.k == kOther {
		return c.Complex128(), nil
	}
	panic(engineError{"const " + c.String()})
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos.Load(fn); ok {
		return i.(*fnInfo)
	}
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	if i, ok := e.infos.Load(fn); ok {
		return i.(*fnInfo)
	}
	i := e.compile(fn)
	e.infos.Store(fn, i)
	return i
}

func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
		if f.Origin() != nil && f.Origin() != f {
			return pkgOf(f.Origin())
		}
	}
	return nil
}

func (e *Engine) compile(fn *ssa.Function) *fnInfo {
	inf := &fnInfo{fn: fn, name: fn.String()}
	if pk := pkgOf(fn); pk != nil {
		inf.pkgPath = pk.Path()
		inf.isRepo = strings.HasPrefix(pk.Path(), "github.com/ldsec/unlynx") && !strings.Contains(pk.Path(), "/zz_verif")
	}
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if ext, ok := externals[name]; ok {
		inf.ext = ext
		return inf
	}
	inf.pre = preFuncs[name]
	if fn.Synthetic == "" && deniedPkg(inf.pkgPath) {
		inf.noCode = "call to " + name
		return inf
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
	if fn.Blocks == nil {
		inf.noCode = "no code for " + name
		return inf
	}
	slots := map[ssa.Value]int{}
	n := 0
	newSlot := func(v ssa.Value) int {
		s := n
		slots[v] = s
		n++
		return s
	}
	for _, p := range fn.Params {
		inf.params = append(inf.params, newSlot(p))
	}
	for _, p := range fn.FreeVars {
		inf.freevars = append(inf.freevars, newSlot(p))
	}
	for _, l := range fn.Locals {
		s := newSlot(l)
		inf.locals = append(inf.locals, struct {
			slot int
			t    types.Type
		}{s, deref(l.Type())})
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if a, ok := v.(*ssa.Alloc); ok && !a.Heap {
					continue
				}
				newSlot(v)
			}
			if _, ok := ins.(*ssa.Defer); ok {
				inf.hasDefer = true
			}
			if _, ok := ins.(*ssa.RunDefers); ok {
				inf.hasDefer = true
			}
		}
	}
	inf.nslots = n
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{slot: -1}
		case *ssa.Const:
			c, t := constValue(v)
			return opnd{slot: -1, c: c, typ: t}
		case *ssa.Global:
			return opnd{slot: -1, g: v}
		case *ssa.Function:
			return opnd{slot: -1, c: v}
		case *ssa.Builtin:
			return opnd{slot: -1, c: v}
		}
		s, ok := slots[v]
		if !ok {
			panic(engineError{"no slot for " + v.Name() + " in " + fn.String()})
		}
		return opnd{slot: s}
	}
	blocks := make([]*cblock, len(fn.Blocks))
	for i := range blocks {
		blocks[i] = &cblock{idx: i}
	}
	for i, b := range fn.Blocks {
		cb := blocks[i]
		cb.npreds = len(b.Preds)
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, blocks[s.Index])
		}
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				p := phi{dst: slots[ph]}
				for _, ed := range ph.Edges {
					p.edges = append(p.edges, op(ed))
				}
				cb.phis = append(cb.phis, p)
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			dst := -1
			if v, ok := ins.(ssa.Value); ok {
				if s, ok := slots[v]; ok {
					dst = s
				}
			}
			cb.code = append(cb.code, e.compileInstr(inf, b, ins, dst, op, blocks))
			cb.pos = append(cb.pos, ins.Pos())
		}
	}
	inf.blocks = blocks
	if fn.Recover != nil {
		inf.recover_ = blocks[fn.Recover.Index]
	}
	return inf
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("pred")
}

func (e *Engine) compileInstr(inf *fnInfo, b *ssa.BasicBlock, ins ssa.Instruction, dst int, op func(ssa.Value) opnd, blocks []*cblock) cinstr {
	switch ins := ins.(type) {
	case *ssa.UnOp:
		return e.compileUnOp(ins, dst, op)
	case *ssa.BinOp:
		x, y := op(ins.X), op(ins.Y)
		f := binopFn(ins.Op, ins.X.Type(), ins.Y.Type())
		return func(fr *frame) { fr.regs[dst] = f(fr.p, fr.get(&x), fr.get(&y)) }
	case *ssa.Call:
		pc := e.compileCall(&ins.Call, op)
		return func(fr *frame) {
			fn, args := pc(fr)
			fr.regs[dst] = fr.call(fn, args)
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		x := op((*ins.Operands(nil)[0]))
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.Convert:
		x := op(ins.X)
		src, d := ins.X.Type(), ins.Type()
		return func(fr *frame) { fr.regs[dst] = fr.p.conv(d, src, fr.get(&x)) }
	case *ssa.MultiConvert:
		x := op(ins.X)
		src, d := ins.X.Type(), ins.Type()
		return func(fr *frame) { fr.regs[dst] = fr.p.conv(d, src, fr.get(&x)) }
	case *ssa.SliceToArrayPointer:
		x := op(ins.X)
		n := int(deref(ins.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := fr.get(&x).([]value)
			if len(s) < n {
				fr.p.rtPanic(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			if s == nil {
				fr.regs[dst] = (*value)(nil)
				return
			}
			var v value = array(s[:n:n])
			fr.regs[dst] = &v
		}
	case *ssa.MakeInterface:
		x := op(ins.X)
		t := ins.X.Type()
		return func(fr *frame) { fr.regs[dst] = iface{t, copyVal(fr.get(&x))} }
	case *ssa.Extract:
		x := op(ins.Tuple)
		i := ins.Index
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).(tuple)[i] }
	case *ssa.Slice:
		x, lo, hi, mx := op(ins.X), op(ins.Low), op(ins.High), op(ins.Max)
		return func(fr *frame) {
			fr.regs[dst] = fr.p.slice(fr.get(&x), fr.get(&lo), fr.get(&hi), fr.get(&mx))
		}
	case *ssa.Return:
		var rs []opnd
		for _, r := range ins.Results {
			rs = append(rs, op(r))
		}
		return func(fr *frame) {
			switch len(rs) {
			case 0:
			case 1:
				fr.result = fr.get(&rs[0])
			default:
				t := make(tuple, len(rs))
				for i := range rs {
					t[i] = fr.get(&rs[i])
				}
				fr.result = t
			}
			fr.done = true
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Panic:
		x := op(ins.X)
		return func(fr *frame) {
			panic(targetPanic{v: fr.get(&x), pos: fr.p.where(fr)})
		}
	case *ssa.Send:
		c, x := op(ins.Chan), op(ins.X)
		return func(fr *frame) { fr.p.chanSend(fr, fr.get(&c).(*Chan), copyVal(fr.get(&x))) }
	case *ssa.Store:
		a, v := op(ins.Addr), op(ins.Val)
		return func(fr *frame) {
			addr, ok := fr.get(&a).(*value)
			if !ok {
				unsup("store through %T", fr.get(&a))
			}
			if addr == nil {
				fr.p.nilDeref()
			}
			if fr.p.race != nil {
				fr.p.race.access(fr, addr, true)
			}
			storeTo(addr, fr.get(&v))
		}
	case *ssa.If:
		c := op(ins.Cond)
		t, f := blocks[b.Succs[0].Index], blocks[b.Succs[1].Index]
		pt := predIndex(b, b.Succs[0], 0)
		pf := predIndex(b, b.Succs[1], 0)
		if b.Succs[0] == b.Succs[1] {
			pf = predIndex(b, b.Succs[1], 1)
		}
		return func(fr *frame) {
			if fr.p.truth(fr.get(&c)) {
				fr.jump, fr.pi = t, pt
			} else {
				fr.jump, fr.pi = f, pf
			}
		}
	case *ssa.Jump:
		t := blocks[b.Succs[0].Index]
		pi := predIndex(b, b.Succs[0], 0)
		return func(fr *frame) { fr.jump, fr.pi = t, pi }
	case *ssa.Defer:
		pc := e.compileCall(&ins.Call, op)
		ds := op(ins.DeferStack)
		return func(fr *frame) {
			fn, args := pc(fr)
			defers := &fr.defers
			if into := fr.get(&ds); into != nil {
				defers = into.(*Host).v.(**deferred)
			}
			*defers = &deferred{fn: fn, args: args, tail: *defers}
		}
	case *ssa.Go:
		pc := e.compileCall(&ins.Call, op)
		return func(fr *frame) {
			fn, args := pc(fr)
			fr.p.spawn(fr, fn, args)
		}
	case *ssa.MakeChan:
		s := op(ins.Size)
		return func(fr *frame) {
			n := fr.p.concInt(fr.get(&s), "chan size")
			fr.p.nchan++
			fr.regs[dst] = &Chan{cap: int(n), id: fr.p.nchan}
		}
	case *ssa.Alloc:
		t := deref(ins.Type())
		if ins.Heap {
			return func(fr *frame) {
				v := fr.p.zero(t)
				fr.regs[dst] = &v
			}
		}
		s := -1
		for i, l := range inf.fn.Locals {
			if l == ins {
				s = inf.locals[i].slot
			}
		}
		return func(fr *frame) {
			v := fr.p.zero(t)
			fr.regs[s] = &v
		}
	case *ssa.MakeSlice:
		l, c := op(ins.Len), op(ins.Cap)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			n := fr.p.concInt(fr.get(&l), "slice length")
			cp := fr.p.concInt(fr.get(&c), "slice capacity")
			if n < 0 || n > 1<<40 {
				fr.p.rtPanic("runtime error: makeslice: len out of range")
			}
			if cp < n {
				fr.p.rtPanic("runtime error: makeslice: cap out of range")
			}
			if cp > 1<<22 {
				unsup("slice of %d elements", cp)
			}
			fr.regs[dst] = fr.p.makeSlice(et, int(n), int(cp))
		}
	case *ssa.MakeMap:
		kt := ins.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.regs[dst] = newMap(kt) }
	case *ssa.Range:
		x := op(ins.X)
		return func(fr *frame) { fr.regs[dst] = fr.p.rangeIter(fr, fr.get(&x)) }
	case *ssa.Next:
		x := op(ins.Iter)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).(*Host).v.(func() tuple)() }
	case *ssa.FieldAddr:
		x := op(ins.X)
		f := ins.Field
		return func(fr *frame) {
			a, ok := fr.get(&x).(*value)
			if !ok {
				unsup("field of %T", fr.get(&x))
			}
			if a == nil {
				fr.p.nilDeref()
			}
			s, ok := (*a).(structure)
			if !ok {
				unsup("field address of %T", *a)
			}
			fr.regs[dst] = &s[f]
		}
	case *ssa.Field:
		x := op(ins.X)
		f := ins.Field
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).(structure)[f] }
	case *ssa.IndexAddr:
		x, ix := op(ins.X), op(ins.Index)
		return func(fr *frame) {
			switch s := fr.get(&x).(type) {
			case []value:
				i := fr.p.index(fr.get(&ix), len(s))
				fr.regs[dst] = &s[i]
			case *value:
				if s == nil {
					fr.p.nilDeref()
				}
				a := (*s).(array)
				i := fr.p.index(fr.get(&ix), len(a))
				fr.regs[dst] = &a[i]
			default:
				unsup("index of %T", s)
			}
		}
	case *ssa.Index:
		x, ix := op(ins.X), op(ins.Index)
		return func(fr *frame) {
			switch s := fr.get(&x).(type) {
			case array:
				fr.regs[dst] = s[fr.p.index(fr.get(&ix), len(s))]
			case string:
				fr.regs[dst] = int64(s[fr.p.index(fr.get(&ix), len(s))])
			case *SymStr:
				bs := fr.p.strBytes(s)
				fr.regs[dst] = bs[fr.p.index(fr.get(&ix), len(bs))]
			default:
				unsup("index of %T", s)
			}
		}
	case *ssa.Lookup:
		x, ix := op(ins.X), op(ins.Index)
		if _, ok := ins.X.Type().Underlying().(*types.Map); !ok {
			return func(fr *frame) {
				switch s := fr.get(&x).(type) {
				case string:
					fr.regs[dst] = int64(s[fr.p.index(fr.get(&ix), len(s))])
				default:
					bs := fr.p.strBytes(s)
					fr.regs[dst] = bs[fr.p.index(fr.get(&ix), len(bs))]
				}
			}
		}
		vt := ins.X.Type().Underlying().(*types.Map).Elem()
		co := ins.CommaOk
		return func(fr *frame) {
			m := fr.get(&x).(*Map)
			if fr.p.race != nil && m != nil {
				fr.p.race.access(fr, &m.cell, false)
			}
			en := fr.p.mapFind(m, fr.get(&ix))
			var v value
			if en != nil {
				v = copyVal(en.v)
			} else {
				v = fr.p.zero(vt)
			}
			if co {
				fr.regs[dst] = tuple{v, en != nil}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := op(ins.Map), op(ins.Key), op(ins.Value)
		return func(fr *frame) {
			mm := fr.get(&m).(*Map)
			if mm == nil {
				fr.p.rtPanic("assignment to entry in nil map")
			}
			if fr.p.race != nil {
				fr.p.race.access(fr, &mm.cell, true)
			}
			fr.p.mapSet(mm, copyVal(fr.get(&k)), copyVal(fr.get(&v)))
		}
	case *ssa.TypeAssert:
		x := op(ins.X)
		return func(fr *frame) { fr.regs[dst] = fr.p.typeAssert(ins, fr.get(&x)) }
	case *ssa.MakeClosure:
		var bs []opnd
		for _, x := range ins.Bindings {
			bs = append(bs, op(x))
		}
		f := ins.Fn.(*ssa.Function)
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.regs[dst] = &Closure{f, env}
		}
	case *ssa.Select:
		type st struct {
			send bool
			c, v opnd
			et   types.Type
		}
		var sts []st
		for _, s := range ins.States {
			x := st{send: s.Dir == types.SendOnly, c: op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
			if s.Send != nil {
				x.v = op(s.Send)
			}
			sts = append(sts, x)
		}
		blocking := ins.Blocking
		return func(fr *frame) {
			cs := make([]selCase, len(sts))
			for i := range sts {
				cs[i] = selCase{send: sts[i].send, c: fr.get(&sts[i].c).(*Chan)}
				if sts[i].send {
					cs[i].v = copyVal(fr.get(&sts[i].v))
				}
			}
			chosen, rv, ok := fr.p.selectOp(fr, cs, blocking)
			r := tuple{int64(chosen), ok}
			for i := range sts {
				if !sts[i].send {
					if i == chosen && ok {
						r = append(r, rv)
					} else {
						r = append(r, fr.p.zero(sts[i].et))
					}
				}
			}
			fr.regs[dst] = r
		}
	}
	panic(engineError{fmt.Sprintf("instruction %T", ins)})
}

func (e *Engine) compileUnOp(ins *ssa.UnOp, dst int, op func(ssa.Value) opnd) cinstr {
	x := op(ins.X)
	switch ins.Op {
	case token.MUL:
		return func(fr *frame) {
			a, ok := fr.get(&x).(*value)
			if !ok {
				unsup("load through %T", fr.get(&x))
			}
			if a == nil {
				fr.p.nilDeref()
			}
			if fr.p.race != nil {
				fr.p.race.access(fr, a, false)
			}
			fr.regs[dst] = copyVal(*a)
		}
	case token.ARROW:
		et := ins.X.Type().Underlying().(*types.Chan).Elem()
		co := ins.CommaOk
		return func(fr *frame) {
			v, ok := fr.p.chanRecv(fr, fr.get(&x).(*Chan))
			if !ok {
				v = fr.p.zero(et)
			}
			if co {
				fr.regs[dst] = tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case bool:
				fr.regs[dst] = !v
			case *Term:
				fr.regs[dst] = fromTerm(fr.p.tc.Not(v))
			}
		}
	case token.SUB:
		bk := basicKind(ins.X.Type())
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case int64:
				fr.regs[dst] = bk.norm(-v)
			case float64:
				fr.regs[dst] = -v
			case *Term:
				fr.regs[dst] = fr.p.wrap(fr.p.tc.Neg(v), bk)
			case complex128:
				fr.regs[dst] = -v
			default:
				unsup("negation of %T", v)
			}
		}
	case token.XOR:
		bk := basicKind(ins.X.Type())
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case int64:
				fr.regs[dst] = bk.norm(^v)
			case *Term:
				// ^x = -x-1 (signed) or max-x (unsigned)
				if bk.signed {
					fr.regs[dst] = fr.p.wrap(fr.p.tc.Sub(fr.p.tc.Neg(v), fr.p.tc.Int(1)), bk)
				} else {
					_, hi := bk.bounds()
					fr.regs[dst] = fr.p.wrap(fr.p.tc.Sub(fr.p.tc.Big(hi), v), bk)
				}
			default:
				unsup("complement of %T", v)
			}
		}
	}
	panic(engineError{"unop " + ins.Op.String()})
}

func (e *Engine) compileCall(c *ssa.CallCommon, op func(ssa.Value) opnd) func(fr *frame) (value, []value) {
	v := op(c.Value)
	var as []opnd
	for _, a := range c.Args {
		as = append(as, op(a))
	}
	if c.Method == nil {
		return func(fr *frame) (value, []value) {
			args := make([]value, len(as))
			for i := range as {
				args[i] = fr.get(&as[i])
			}
			return fr.get(&v), args
		}
	}
	m := c.Method
	return func(fr *frame) (value, []value) {
		recv := fr.get(&v).(iface)
		if recv.t == nil {
			fr.p.nilDeref()
		}
		args := make([]value, 1, len(as)+1)
		args[0] = recv.v
		for i := range as {
			args = append(args, fr.get(&as[i]))
		}
		fn := fr.p.eng.method(recv.t, m)
		if fn == nil {
			unsup("method %s on %v", m.Name(), recv.t)
		}
		return fn, args
	}
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := e.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	e.buildMu.Lock()
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.buildMu.Unlock()
	e.methods.Store(k, f)
	return f
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	k := methKey{t, "@" + name}
	if f, ok := e.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	e.buildMu.Lock()
	var f *ssa.Function
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = e.prog.MethodValue(ms.At(i))
		}
	}
	e.buildMu.Unlock()
	e.methods.Store(k, f)
	return f
}

// ---- execution

func (fr *frame) call(fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			fr.p.nilDeref()
		}
		return fr.p.callSSA(fr.g, fr, fn, args, nil)
	case *Closure:
		return fr.p.callSSA(fr.g, fr, fn.Fn, args, fn.Env)
	case *ssa.Builtin:
		return fr.p.builtin(fr, fn, args)
	case *Native:
		return fn.f(fr, args)
	}
	panic(engineError{fmt.Sprintf("cannot call %T", fn)})
}

func (p *Path) callSSA(g *G, caller *frame, fn *ssa.Function, args []value, env []value) value {
	inf := p.eng.info(fn)
	if inf.ext != nil {
		fr := &frame{p: p, g: g, caller: caller, info: inf}
		return inf.ext(fr, args)
	}
	if inf.pre != nil {
		if r, ok := inf.pre(&frame{p: p, g: g, caller: caller, info: inf}, args); ok {
			return r
		}
	}
	if inf.noCode != "" {
		if r, ok := p.genericNative(inf, args); ok {
			return r
		}
		unsup("%s", inf.noCode)
	}
	if fn.Synthetic == "package initializer" && !p.eng.initByPath(inf.pkgPath) {
		return nil // standard library: initialised on demand
	}
	if inf.isRepo && !p.seenFn[inf] {
		p.seenFn[inf] = true
		p.eng.encoded.Store(inf.name, true)
	}
	g.depth++
	if g.depth > 2000 {
		unsup("call depth (recursion bound) in %s", inf.name)
	}
	fr := &frame{p: p, g: g, caller: caller, info: inf, regs: make([]value, inf.nslots)}
	for i, l := range inf.locals {
		_ = i
		v := p.zero(l.t)
		fr.regs[l.slot] = &v
	}
	for i, s := range inf.params {
		fr.regs[s] = args[i]
	}
	for i, s := range inf.freevars {
		fr.regs[s] = env[i]
	}
	fr.block = inf.blocks[0]
	if inf.hasDefer || inf.recover_ != nil {
		for !fr.done {
			fr.runProtected()
		}
	} else {
		fr.run()
	}
	g.depth--
	return fr.result
}

func (fr *frame) run() {
	p := fr.p
	for {
		b := fr.block
		if len(b.phis) > 0 {
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(&b.phis[0].edges[fr.pi])
			} else {
				tmp := make([]value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].edges[fr.pi])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		p.steps += len(b.code)
		if p.steps > p.maxSteps {
			panic(pathEnd{stepBound})
		}
		if p.nblk++; p.nblk&1023 == 0 && p.run.expired() {
			panic(pathEnd{"time budget"})
		}
		for i, c := range b.code {
			fr.prev = i
			c(fr)
		}
		if fr.done {
			return
		}
		if fr.jump == nil {
			panic(engineError{"block without jump in " + fr.info.name})
		}
		fr.block, fr.jump = fr.jump, nil
	}
}

func (fr *frame) runProtected() {
	depth := fr.g.depth
	defer func() {
		if fr.done {
			return
		}
		if fr.g.killed {
			return // host Goexit in progress
		}
		r := recover()
		switch r.(type) {
		case targetPanic, exitPanic:
		case runtime.Error:
			panic(r)
		default:
			panic(r)
		}
		if _, ok := r.(exitPanic); ok {
			panic(r)
		}
		fr.g.depth = depth
		fr.panicking = true
		fr.panic = r
		fr.runDefers()
		// recovered
		if fr.info.recover_ == nil {
			// result is the zero value
			res := fr.info.fn.Signature.Results()
			if res.Len() > 0 {
				fr.result = fr.p.zero(res)
			}
			fr.done = true
			return
		}
		fr.block = fr.info.recover_
		fr.jump = nil
		fr.inRecover = true
	}()
	fr.run()
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		fr.runDefer(d)
	}
	fr.defers = nil
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok && !fr.g.killed {
			r := recover()
			if tp, is := r.(targetPanic); is {
				fr.panicking = true
				fr.panic = tp
				return
			}
			panic(r)
		}
	}()
	fr.call(d.fn, d.args)
	ok = true
}

func (fr *frame) doRecover() value {
	// fr is the frame of the deferred function calling recover()
	c := fr.caller
	if c != nil && c.panicking && !fr.panicking {
		c.panicking = false
		tp := c.panic.(targetPanic)
		c.panic = nil
		if tp.rt != "" {
			return fr.p.mkError(tp.rt)
		}
		return tp.v
	}
	return iface{}
}

// rtPanic raises a Go run-time panic in the target.
func (p *Path) rtPanic(msg string) {
	panic(targetPanic{rt: msg, pos: p.whereCur()})
}
func (p *Path) nilDeref() {
	p.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (p *Path) index(v value, n int) int {
	switch i := v.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			p.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		in := p.tc.And(p.tc.Le(p.tc.Int(0), i), p.tc.Lt(i, p.tc.Int(int64(n))))
		if !p.branch(in) {
			p.rtPanic(fmt.Sprintf("runtime error: index out of range [symbolic] with length %d", n))
		}
		return int(p.concretize(i, "index"))
	}
	unsup("index of kind %T", v)
	return 0
}

func (p *Path) concInt(v value, what string) int64 {
	switch i := v.(type) {
	case int64:
		return i
	case *Term:
		return p.concretize(i, what)
	case *Opq:
		return p.concretize(p.opqTerm(i), what)
	}
	unsup("%s of kind %T", what, v)
	return 0
}

func (p *Path) slice(x, lo, hi, mx value) value {
	var ln, cp int
	switch s := x.(type) {
	case string:
		ln = len(s)
		cp = ln
	case *SymStr:
		ln = p.strLen(s)
		cp = ln
	case []value:
		ln, cp = len(s), cap(s)
	case *value:
		if s == nil {
			p.nilDeref()
		}
		ln = len((*s).(array))
		cp = ln
	default:
		unsup("slice of %T", x)
	}
	l, h, m := int64(0), int64(ln), int64(cp)
	if lo != nil {
		l = p.boundInt(lo, cp)
	}
	if hi != nil {
		h = p.boundInt(hi, cp)
	}
	if mx != nil {
		m = p.boundInt(mx, cp)
	}
	if m < 0 || m > int64(cp) {
		p.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [::%d] with capacity %d", m, cp))
	}
	if h < 0 || h > m {
		p.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", h, m))
	}
	if l < 0 || l > h {
		p.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", l, h))
	}
	switch s := x.(type) {
	case string:
		return s[l:h]
	case *SymStr:
		return bytesToStr(p.strBytes(s)[l:h])
	case []value:
		return s[l:h:m]
	case *value:
		return []value((*s).(array))[l:h:m]
	}
	return nil
}

// boundInt concretises a slice bound; values outside [0,cap] are one case.
func (p *Path) boundInt(v value, cp int) int64 {
	t, ok := v.(*Term)
	if !ok {
		return p.concInt(v, "slice bound")
	}
	in := p.tc.And(p.tc.Le(p.tc.Int(0), t), p.tc.Le(t, p.tc.Int(int64(cp))))
	if !p.branch(in) {
		return -1
	}
	return p.concretize(t, "slice bound")
}

func (p *Path) makeSlice(et types.Type, n, c int) []value {
	s := make([]value, c)
	if c > 0 {
		if isScalarType(et) && !isEltType(et) {
			z := p.zero(et)
			for i := range s {
				s[i] = z
			}
		} else {
			for i := range s {
				s[i] = p.zero(et)
			}
		}
	}
	return s[:n]
}

func (p *Path) typeAssert(ins *ssa.TypeAssert, x value) value {
	itf := x.(iface)
	ok := false
	var v value
	if it, is := ins.AssertedType.Underlying().(*types.Interface); is {
		if itf.t != nil {
			ok = p.eng.implements(itf.t, it)
		}
		v = itf
	} else if itf.t != nil && types.Identical(itf.t, ins.AssertedType) {
		ok = true
		v = copyVal(itf.v)
	}
	if !ok {
		if ins.CommaOk {
			return tuple{p.zero(ins.AssertedType), false}
		}
		tn := "nil"
		if itf.t != nil {
			tn = itf.t.String()
		}
		p.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", tn, ins.AssertedType))
	}
	if ins.CommaOk {
		return tuple{v, true}
	}
	return v
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := methKey{t, "#" + it.String()}
	if f, ok := e.methods.Load(k); ok {
		return f.(bool)
	}
	r := types.Implements(t, it)
	e.methods.Store(k, r)
	return r
}

func (p *Path) rangeIter(fr *frame, x value) value {
	switch x := x.(type) {
	case *Map:
		if x == nil {
			return &Host{func() tuple { return tuple{false, nil, nil} }}
		}
		if p.race != nil {
			p.race.access(fr, &x.cell, false)
		}
		ents := append([]*entry(nil), x.ents...)
		if p.mapOrder > 0 && len(ents) > 1 && fr.info.isRepo {
			ents = p.permuteEntries(ents)
		}
		i := 0
		seen := map[*entry]bool{}
		return &Host{func() tuple {
			for i < len(ents) {
				e := ents[i]
				i++
				if e.dead {
					continue
				}
				seen[e] = true
				return tuple{true, e.k, copyVal(e.v)}
			}
			// entries added during iteration may or may not be visited: visit none
			return tuple{false, nil, nil}
		}}
	case string:
		i := 0
		return &Host{func() tuple {
			if i >= len(x) {
				return tuple{false, int64(0), int64(0)}
			}
			at := i
			for n, r := range x[i:] {
				if n > 0 {
					i = at + n
					return tuple{true, int64(at), int64(firstRune(x[at:]))}
				}
				_ = r
			}
			i = len(x)
			return tuple{true, int64(at), int64(firstRune(x[at:]))}
		}}
	case *SymStr:
		bs := p.strBytes(x)
		i := 0
		return &Host{func() tuple {
			if i >= len(bs) {
				return tuple{false, int64(0), int64(0)}
			}
			at := i
			i++
			b := bs[at]
			if c, ok := b.(int64); ok && c >= 0x80 {
				unsup("multi-byte rune in symbolic string")
			}
			if t, ok := b.(*Term); ok && (t.hi == nil || t.hi.Cmp(big.NewInt(127)) > 0) {
				if !p.branch(p.tc.Lt(t, p.tc.Int(128))) {
					unsup("non-ASCII symbolic byte")
				}
			}
			if o, ok := b.(*Opq); ok {
				b = p.opqTerm(o)
			}
			return tuple{true, int64(at), b}
		}}
	}
	unsup("range over %T", x)
	return nil
}

func firstRune(s string) rune {
	for _, r := range s {
		return r
	}
	return 0
}

func (p *Path) permuteEntries(ents []*entry) []*entry {
	n := len(ents)
	if p.mapOrder == 1 || n > 4 {
		// one symbolic choice: keep or reverse
		if p.choose(2, "maporder") == 1 {
			out := make([]*entry, n)
			for i := range ents {
				out[n-1-i] = ents[i]
			}
			return out
		}
		return ents
	}
	var out []*entry
	rest := append([]*entry(nil), ents...)
	for len(rest) > 1 {
		k := p.choose(len(rest), "maporder")
		out = append(out, rest[k])
		rest = append(append([]*entry(nil), rest[:k]...), rest[k+1:]...)
	}
	return append(out, rest[0])
}

func (p *Path) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return p.branch(v)
	}
	panic(engineError{fmt.Sprintf("condition of kind %T", v)})
}

func (p *Path) where(fr *frame) string {
	var out []string
	for f := fr; f != nil && len(out) < 8; f = f.caller {
		if f.info == nil || f.info.fn == nil {
			continue
		}
		s := f.info.name
		if f.block != nil && f.prev < len(f.block.pos) && f.block.pos[f.prev].IsValid() {
			ps := p.eng.prog.Fset.Position(f.block.pos[f.prev])
			fn := ps.Filename
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			s += fmt.Sprintf(" (%s:%d)", fn, ps.Line)
		}
		out = append(out, s)
	}
	return strings.Join(out, " <- ")
}

func (p *Path) whereCur() string {
	return "" // filled by the path runner from the goroutine's frames when known
}
