package main

import (
	"fmt"
	"go/types"
	"strings"
)

func registerSync(x map[string]extFunc) {
	x["(*sync.Mutex).Lock"] = func(fr *frame, a []value) value { fr.p.lockM(fr, a[0]); return nil }
	x["(*sync.Mutex).Unlock"] = func(fr *frame, a []value) value { fr.p.unlockM(fr, a[0]); return nil }
	x["(*sync.Mutex).TryLock"] = func(fr *frame, a []value) value {
		s := fr.p.mu(a[0])
		if s.locked || s.readers > 0 {
			return false
		}
		fr.p.lockM(fr, a[0])
		return true
	}
	x["(*sync.RWMutex).Lock"] = x["(*sync.Mutex).Lock"]
	x["(*sync.RWMutex).Unlock"] = x["(*sync.Mutex).Unlock"]
	x["(*sync.RWMutex).RLock"] = func(fr *frame, a []value) value {
		s := fr.p.mu(a[0])
		for s.locked {
			fr.p.block(fr, "rwmutex rlock", func() bool { return !s.locked })
		}
		s.readers++
		if fr.p.race != nil {
			fr.p.race.lock(fr.g, a[0].(*value), true)
		}
		return nil
	}
	x["(*sync.RWMutex).RUnlock"] = func(fr *frame, a []value) value {
		s := fr.p.mu(a[0])
		if s.readers == 0 {
			panic(targetPanic{rt: "fatal error: sync: RUnlock of unlocked RWMutex", pos: fr.p.where(fr)})
		}
		s.readers--
		if fr.p.race != nil {
			fr.p.race.unlock(fr.g, a[0].(*value), true)
		}
		return nil
	}
	x["(*sync.WaitGroup).Add"] = func(fr *frame, a []value) value {
		s := fr.p.wg(a[0])
		d := fr.p.concInt(a[1], "waitgroup delta")
		if d < 0 && fr.p.race != nil {
			fr.p.race.release(fr.g, a[0].(*value))
		}
		s.n += d
		if s.n < 0 {
			panic(targetPanic{rt: "sync: negative WaitGroup counter", pos: fr.p.where(fr)})
		}
		return nil
	}
	x["(*sync.WaitGroup).Done"] = func(fr *frame, a []value) value {
		return x["(*sync.WaitGroup).Add"](fr, []value{a[0], int64(-1)})
	}
	x["(*sync.WaitGroup).Wait"] = func(fr *frame, a []value) value {
		s := fr.p.wg(a[0])
		fr.p.block(fr, "waitgroup wait", func() bool { return s.n == 0 })
		if fr.p.race != nil {
			fr.p.race.acquire(fr.g, a[0].(*value))
		}
		return nil
	}
	x["(*sync.Once).Do"] = func(fr *frame, a []value) value {
		c := a[0].(*value)
		st, _ := fr.p.syncState[c].(*int)
		if st == nil {
			st = new(int)
			fr.p.syncState[c] = st
		}
		if *st == 2 {
			if fr.p.race != nil {
				fr.p.race.acquire(fr.g, c)
			}
			return nil
		}
		if *st == 1 {
			fr.p.block(fr, "once", func() bool { return *st == 2 })
			return nil
		}
		*st = 1
		defer func() { *st = 2 }()
		fr.call(a[1], nil)
		if fr.p.race != nil {
			fr.p.race.release(fr.g, c)
		}
		return nil
	}
	// sync.Map as a plain map guarded by itself
	x["(*sync.Map).Load"] = func(fr *frame, a []value) value {
		m := fr.p.smap(a[0])
		if e := fr.p.mapFind(m, a[1]); e != nil {
			return tuple{e.v, true}
		}
		return tuple{iface{}, false}
	}
	x["(*sync.Map).Store"] = func(fr *frame, a []value) value { fr.p.mapSet(fr.p.smap(a[0]), a[1], a[2]); return nil }
	x["(*sync.Map).Delete"] = func(fr *frame, a []value) value { fr.p.mapDelete(fr.p.smap(a[0]), a[1]); return nil }
	x["(*sync.Map).LoadOrStore"] = func(fr *frame, a []value) value {
		m := fr.p.smap(a[0])
		if e := fr.p.mapFind(m, a[1]); e != nil {
			return tuple{e.v, true}
		}
		fr.p.mapSet(m, a[1], a[2])
		return tuple{a[2], false}
	}
	// sync.Cond
	x["sync.NewCond"] = func(fr *frame, a []value) value {
		// Cond{noCopy, L, notify, checker}
		t := fr.p.eng.typeByName("sync", "Cond")
		v := fr.p.zero(t)
		v.(structure)[1] = a[0]
		return &v
	}
	x["(*sync.Cond).Wait"] = func(fr *frame, a []value) value {
		p := fr.p
		c := a[0].(*value)
		st := p.condSt(c)
		l := (*c).(structure)[1].(iface)
		fr.call(p.eng.methodByName(l.t, "Unlock"), []value{l.v})
		me := new(bool)
		st.waiters = append(st.waiters, me)
		p.block(fr, "cond wait", func() bool { return *me })
		fr.call(p.eng.methodByName(l.t, "Lock"), []value{l.v})
		return nil
	}
	x["(*sync.Cond).Signal"] = func(fr *frame, a []value) value {
		st := fr.p.condSt(a[0].(*value))
		if len(st.waiters) > 0 {
			*st.waiters[0] = true
			st.waiters = st.waiters[1:]
		}
		return nil
	}
	x["(*sync.Cond).Broadcast"] = func(fr *frame, a []value) value {
		st := fr.p.condSt(a[0].(*value))
		for _, w := range st.waiters {
			*w = true
		}
		st.waiters = nil
		return nil
	}
	x["(*sync.Pool).Get"] = func(fr *frame, a []value) value {
		c := a[0].(*value)
		s := (*c).(structure)
		f := s[len(s)-1]
		if isNilFunc(f) {
			return iface{}
		}
		return fr.call(f, nil)
	}
	x["(*sync.Pool).Put"] = nop

	// atomics (sequentially consistent; modelled as release+acquire)
	ld := func(fr *frame, a []value) value {
		c := a[0].(*value)
		if c == nil {
			fr.p.nilDeref()
		}
		if fr.p.race != nil {
			fr.p.race.acquire(fr.g, c)
		}
		return *c
	}
	st := func(fr *frame, a []value) value {
		c := a[0].(*value)
		if fr.p.race != nil {
			fr.p.race.release(fr.g, c)
		}
		*c = a[1]
		return nil
	}
	bkOf := map[string]bkind{"Int32": {kInt, 32, true}, "Int64": {kInt, 64, true}, "Uint32": {kInt, 32, false}, "Uint64": {kInt, 64, false}, "Uintptr": {kInt, 64, false}}
	for ty, bk := range bkOf {
		bk := bk
		x["sync/atomic.Load"+ty], x["sync/atomic.Store"+ty] = ld, st
		x["sync/atomic.Add"+ty] = func(fr *frame, a []value) value {
			c := a[0].(*value)
			if fr.p.race != nil {
				fr.p.race.acquire(fr.g, c)
				fr.p.race.release(fr.g, c)
			}
			*c = fr.p.wrap(fr.p.tc.Add(fr.p.toTerm(*c, bk), fr.p.toTerm(a[1], bk)), bk)
			return *c
		}
		x["sync/atomic.CompareAndSwap"+ty] = func(fr *frame, a []value) value {
			c := a[0].(*value)
			if fr.p.race != nil {
				fr.p.race.acquire(fr.g, c)
				fr.p.race.release(fr.g, c)
			}
			if fr.p.branch(fr.p.tc.Eq(fr.p.toTerm(*c, bk), fr.p.toTerm(a[1], bk))) {
				*c = a[2]
				return true
			}
			return false
		}
	}
	x["sync/atomic.LoadPointer"], x["sync/atomic.StorePointer"] = ld, st
	field := func(v value) *value { // atomic.Int64{_, _, v} : last field
		c := v.(*value)
		s := (*c).(structure)
		return &s[len(s)-1]
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		ty := ty
		for _, op := range []string{"Load", "Store", "Add", "CompareAndSwap"} {
			op := op
			x["(*sync/atomic."+ty+")."+op] = func(fr *frame, a []value) value {
				b := append([]value{field(a[0])}, a[1:]...)
				return x["sync/atomic."+op+ty](fr, b)
			}
		}
	}
	x["(*sync/atomic.Bool).Load"] = func(fr *frame, a []value) value { return *field(a[0]) != value(int64(0)) }
	x["(*sync/atomic.Bool).Store"] = func(fr *frame, a []value) value {
		if a[1].(bool) {
			*field(a[0]) = int64(1)
		} else {
			*field(a[0]) = int64(0)
		}
		return nil
	}
	x["(*sync/atomic.Value).Load"] = func(fr *frame, a []value) value {
		if fr.p.race != nil {
			fr.p.race.acquire(fr.g, a[0].(*value))
		}
		return *field(a[0])
	}
	x["(*sync/atomic.Value).Store"] = func(fr *frame, a []value) value {
		if fr.p.race != nil {
			fr.p.race.release(fr.g, a[0].(*value))
		}
		*field(a[0]) = a[1]
		return nil
	}

	// other goroutines may run before each of these operations
	for _, n := range []string{"Mutex).Lock", "Mutex).TryLock", "RWMutex).Lock", "RWMutex).RLock", "WaitGroup).Done", "Once).Do", "Map).Load", "Map).Store", "Map).Delete", "Map).LoadOrStore"} {
		if f, ok := x["(*sync."+n]; ok {
			x["(*sync."+n] = func(fr *frame, a []value) value {
				fr.p.preempt(fr)
				return f(fr, a)
			}
		}
	}
	for n, f := range x {
		if strings.HasPrefix(n, "(*sync/atomic.") || strings.HasPrefix(n, "sync/atomic.") {
			f := f
			x[n] = func(fr *frame, a []value) value {
				fr.p.preempt(fr)
				return f(fr, a)
			}
		}
	}

	// time
	x["time.Now"] = func(fr *frame, a []value) value {
		fr.p.now++
		return structure{int64(0), fr.p.now, (*value)(nil)}
	}
	x["time.Since"] = func(fr *frame, a []value) value { return int64(1000) }
	x["(time.Time).Sub"] = func(fr *frame, a []value) value { return int64(1000) }
	x["(time.Time).UnixNano"] = func(fr *frame, a []value) value { return a[0].(structure)[1] }
	x["(time.Time).Unix"] = x["(time.Time).UnixNano"]
	x["(time.Time).UTC"] = func(fr *frame, a []value) value { return a[0] }
	x["(time.Time).String"] = func(fr *frame, a []value) value { return "time" }
	x["(time.Time).Format"] = x["(time.Time).String"]
	x["(time.Time).IsZero"] = func(fr *frame, a []value) value { return a[0].(structure)[1] == value(int64(0)) }
	x["(time.Time).Nanosecond"] = func(fr *frame, a []value) value { return int64(0) }
	x["(time.Duration).String"] = func(fr *frame, a []value) value { return "duration" }
	x["(time.Duration).Seconds"] = func(fr *frame, a []value) value { return float64(a[0].(int64)) / 1e9 }
	x["(time.Duration).Nanoseconds"] = func(fr *frame, a []value) value { return a[0] }
	x["(time.Duration).Milliseconds"] = func(fr *frame, a []value) value { return a[0].(int64) / 1e6 }
	x["time.ParseDuration"] = func(fr *frame, a []value) value { return hostDuration(fr, a) }
	x["time.Parse"] = func(fr *frame, a []value) value {
		return tuple{structure{int64(0), int64(0), (*value)(nil)}, fr.p.mkError("parsing time: no match")}
	}
	x["time.ParseInLocation"] = x["time.Parse"]
	after := func(fr *frame, d value) *Chan {
		p := fr.p
		p.nchan++
		c := &Chan{cap: 1, id: p.nchan}
		dd, ok := d.(int64)
		if !ok {
			dd = 1e9
		}
		p.timers = append(p.timers, &timer{at: p.now + dd, order: len(p.timers), f: func() {
			gfr := &frame{p: p, g: p.gs[0]}
			p.chanSendNB(gfr, c, structure{int64(0), p.now, (*value)(nil)})
		}})
		return c
	}
	x["time.After"] = func(fr *frame, a []value) value { return after(fr, a[0]) }
	x["time.Sleep"] = func(fr *frame, a []value) value {
		p := fr.p
		done := false
		dd, ok := a[0].(int64)
		if !ok {
			dd = 1e6
		}
		p.timers = append(p.timers, &timer{at: p.now + dd, order: len(p.timers), f: func() { done = true }})
		p.block(fr, "sleep", func() bool { return done })
		return nil
	}
	x["runtime.Gosched"] = func(fr *frame, a []value) value { fr.p.gosched(fr); return nil }
}

type condState struct{ waiters []*bool }

func (p *Path) condSt(c *value) *condState {
	s, ok := p.syncState[c].(*condState)
	if !ok {
		s = &condState{}
		p.syncState[c] = s
	}
	return s
}

func (p *Path) smap(v value) *Map {
	c := v.(*value)
	m, ok := p.syncState[c].(*Map)
	if !ok {
		m = newMap(types.NewInterfaceType(nil, nil))
		p.syncState[c] = m
	}
	return m
}

// chanSendNB delivers into a buffered channel without blocking (timers).
func (p *Path) chanSendNB(fr *frame, c *Chan, v value) {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.sel.done {
			continue
		}
		w.sel.done, w.sel.which, w.sel.v, w.sel.ok = true, w.idx, v, true
		return
	}
	c.buf = append(c.buf, v)
}

func (e *Engine) typeByName(pkg, name string) types.Type {
	pk := e.prog.ImportedPackage(pkg)
	if pk == nil {
		unsup("package %s not loaded", pkg)
	}
	return pk.Type(name).Type()
}

func registerOS(x map[string]extFunc) {
	h := func(fr *frame, v value) *fileH {
		c, ok := v.(*value)
		if !ok || c == nil {
			fr.p.nilDeref()
		}
		hh, ok := (*c).(*Host)
		if !ok {
			unsup("os.File representation")
		}
		return hh.v.(*fileH)
	}
	mk := func(f *fileH) value {
		var v value = &Host{f}
		return &v
	}
	open := func(fr *frame, name string, create, trunc, app bool) value {
		p := fr.p
		f, ok := p.files[name]
		if !ok {
			if !create {
				return tuple{(*value)(nil), osNotExist(p, name)}
			}
			f = &memFile{}
			p.files[name] = f
		}
		if trunc {
			f.data = nil
		}
		fh := &fileH{name: name, f: f}
		if app {
			fh.pos = len(f.data)
		}
		return tuple{mk(fh), nilErr()}
	}
	x["os.Create"] = func(fr *frame, a []value) value { return open(fr, fileName(fr.p, a[0]), true, true, false) }
	x["os.Open"] = func(fr *frame, a []value) value { return open(fr, fileName(fr.p, a[0]), false, false, false) }
	x["os.OpenFile"] = func(fr *frame, a []value) value {
		fl := a[1].(int64)
		return open(fr, fileName(fr.p, a[0]), fl&0x40 != 0, fl&0x200 != 0, fl&0x400 != 0)
	}
	x["os.Remove"] = func(fr *frame, a []value) value {
		n := fileName(fr.p, a[0])
		if _, ok := fr.p.files[n]; !ok {
			return osNotExist(fr.p, n)
		}
		delete(fr.p.files, n)
		return nilErr()
	}
	x["os.RemoveAll"] = func(fr *frame, a []value) value {
		n := fileName(fr.p, a[0])
		for k := range fr.p.files {
			if k == n || strings.HasPrefix(k, n+"/") {
				delete(fr.p.files, k)
			}
		}
		return nilErr()
	}
	x["os.MkdirTemp"] = func(fr *frame, a []value) value {
		fr.p.tmpDirs++
		return tuple{fmt.Sprintf("/tmp/sym%s%d", fileName(fr.p, a[1]), fr.p.tmpDirs), nilErr()}
	}
	x["io/ioutil.TempDir"] = x["os.MkdirTemp"]
	x["os.MkdirAll"] = func(fr *frame, a []value) value { return nilErr() }
	x["os.Mkdir"] = x["os.MkdirAll"]
	x["os.Stat"] = func(fr *frame, a []value) value {
		n := fileName(fr.p, a[0])
		if _, ok := fr.p.files[n]; !ok {
			return tuple{iface{}, osNotExist(fr.p, n)}
		}
		return tuple{iface{}, nilErr()}
	}
	x["os.IsNotExist"] = func(fr *frame, a []value) value {
		e := a[0].(iface)
		if e.t == nil {
			return false
		}
		_, ok := fr.p.hostMap["notexist"+fmt.Sprintf("%p", e.v)]
		return ok
	}
	x["os.Getenv"] = func(fr *frame, a []value) value {
		if v, ok := fr.p.hostMap["env:"+fileName(fr.p, a[0])]; ok {
			return v
		}
		return ""
	}
	x["os.Setenv"] = func(fr *frame, a []value) value { fr.p.hostMap["env:"+fileName(fr.p, a[0])] = a[1]; return nilErr() }
	x["os.LookupEnv"] = func(fr *frame, a []value) value {
		v, ok := fr.p.hostMap["env:"+fileName(fr.p, a[0])]
		if !ok {
			return tuple{"", false}
		}
		return tuple{v, true}
	}
	x["os.Exit"] = func(fr *frame, a []value) value { fr.p.exit(fr, int(fr.p.concInt(a[0], "exit code"))); return nil }
	x["os.Getpid"] = func(fr *frame, a []value) value { return int64(1) }
	write := func(fr *frame, f *fileH, b []value) {
		if f.std {
			return
		}
		d := f.f.data
		if f.pos > len(d) {
			f.pos = len(d)
		}
		n := append(append([]value(nil), d[:f.pos]...), b...)
		if len(n) < len(d) {
			n = append(n, d[len(n):]...)
		}
		f.f.data = n
		f.pos += len(b)
	}
	x["(*os.File).Write"] = func(fr *frame, a []value) value {
		f := h(fr, a[0])
		if f.clos {
			return tuple{int64(0), fr.p.mkError("file already closed")}
		}
		b := cells(a[1])
		write(fr, f, b)
		return tuple{int64(len(b)), nilErr()}
	}
	x["(*os.File).WriteString"] = func(fr *frame, a []value) value {
		f := h(fr, a[0])
		b := fr.p.strBytes(a[1])
		write(fr, f, b)
		return tuple{int64(len(b)), nilErr()}
	}
	x["(*os.File).Read"] = func(fr *frame, a []value) value {
		f := h(fr, a[0])
		b := cells(a[1])
		if len(b) == 0 {
			return tuple{int64(0), nilErr()}
		}
		if f.pos >= len(f.f.data) {
			return tuple{int64(0), fr.p.ioEOF()}
		}
		n := copy(b, f.f.data[f.pos:])
		f.pos += n
		return tuple{int64(n), nilErr()}
	}
	x["(*os.File).Close"] = func(fr *frame, a []value) value {
		if c, ok := a[0].(*value); ok && c == nil {
			return fr.p.mkError("invalid argument")
		}
		f := h(fr, a[0])
		if f.clos {
			return fr.p.mkError("file already closed")
		}
		f.clos = true
		return nilErr()
	}
	x["(*os.File).Sync"] = func(fr *frame, a []value) value { return nilErr() }
	x["(*os.File).Name"] = func(fr *frame, a []value) value { return h(fr, a[0]).name }
	x["os.ReadFile"] = func(fr *frame, a []value) value {
		n := fileName(fr.p, a[0])
		f, ok := fr.p.files[n]
		if !ok {
			return tuple{[]value(nil), osNotExist(fr.p, n)}
		}
		return tuple{append([]value{}, f.data...), nilErr()}
	}
	x["os.WriteFile"] = func(fr *frame, a []value) value {
		fr.p.files[fileName(fr.p, a[0])] = &memFile{data: append([]value(nil), cells(a[1])...)}
		return nilErr()
	}
	x["io/ioutil.ReadFile"], x["io/ioutil.WriteFile"] = x["os.ReadFile"], x["os.WriteFile"]

	// gob: an encoded value is an opaque token naming a deep copy
	encDec := func(name string) extFunc {
		return func(fr *frame, a []value) value {
			var v value = &Host{a[0]}
			return &v
		}
	}
	x["encoding/gob.NewEncoder"], x["encoding/gob.NewDecoder"] = encDec("e"), encDec("d")
	x["encoding/gob.Register"] = nop
	x["(*encoding/gob.Encoder).Encode"] = func(fr *frame, a []value) value {
		p := fr.p
		w := (*(a[0].(*value))).(*Host).v
		it := a[1].(iface)
		t, v := it.t, it.v
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			c := v.(*value)
			if c == nil {
				return p.mkError("gob: cannot encode nil pointer")
			}
			t, v = pt.Elem(), *c
		}
		if why := gobBad(t, 0); why != "" {
			unsup("gob encoding of %s", why)
		}
		s := p.newOpq('h', 16)
		s.key = fmt.Sprintf("gob%d", s.id)
		p.hostMap[s.key] = iface{t, p.deepCopy(fr, t, v, map[*value]*value{}, true)}
		return p.writeAll(fr, w, append([]value(nil), s.all()...))
	}
	x["(*encoding/gob.Decoder).Decode"] = func(fr *frame, a []value) value {
		p := fr.p
		r := (*(a[0].(*value))).(*Host).v.(iface)
		if r.t == nil {
			p.nilDeref()
		}
		rd := p.eng.methodByName(r.t, "Read")
		if rd == nil {
			unsup("gob reader")
		}
		buf := make([]value, 16)
		for i := range buf {
			buf[i] = int64(0)
		}
		got := 0
		for got < 16 {
			res := fr.call(rd, []value{r.v, buf[got:]}).(tuple)
			n := int(p.concInt(res[0], "read count"))
			got += n
			if n == 0 {
				if got == 0 {
					return p.ioEOF()
				}
				return p.mkError("gob: unexpected EOF")
			}
		}
		s := wholeRun(buf, 'h')
		if s == nil || !strings.HasPrefix(s.key, "gob") {
			return p.mkError("gob: malformed data")
		}
		st := p.hostMap[s.key].(iface)
		dst := a[1].(iface)
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			return p.mkError("gob: attempt to decode into a non-pointer")
		}
		if !types.Identical(pt.Elem().Underlying(), st.t.Underlying()) {
			return p.mkError("gob: type mismatch")
		}
		// zero-valued fields are not transmitted: a fresh destination is assumed
		storeTo(dst.v.(*value), p.deepCopy(fr, st.t, st.v, map[*value]*value{}, true))
		return nilErr()
	}
}

func gobBad(t types.Type, d int) string {
	if d > 8 {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Interface, *types.Signature, *types.Chan:
		return t.String()
	case *types.Slice:
		return gobBad(u.Elem(), d+1)
	case *types.Array:
		return gobBad(u.Elem(), d+1)
	case *types.Map:
		return gobBad(u.Elem(), d+1)
	case *types.Pointer:
		return gobBad(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				if s := gobBad(u.Field(i).Type(), d+1); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

func (p *Path) ioEOF() value {
	pk := p.eng.prog.ImportedPackage("io")
	if pk == nil {
		unsup("package io not loaded")
	}
	g := pk.Var("EOF")
	c := p.global(g).(*value)
	return *c
}

func registerReflectLite(x map[string]extFunc) {}
