package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const symgrp = "go.dedis.ch/kyber/v3/symgrp."
const symPkg = "github.com/ldsec/unlynx/zz_verif/sym."

type memFile struct{ data []value }
type fileH struct {
	name string
	f    *memFile
	pos  int
	clos bool
	std  bool
}

var specialInit = map[string]func(p *Path, pkg *ssa.Package){
	"os": func(p *Path, pkg *ssa.Package) {
		set := func(name string, v value) {
			if g, ok := pkg.Members[name].(*ssa.Global); ok {
				c := p.globals[g]
				if c == nil {
					var z value
					c = &z
					p.globals[g] = c
				}
				*c = v
			}
		}
		for _, n := range []string{"ErrNotExist", "ErrExist", "ErrInvalid", "ErrPermission", "ErrClosed"} {
			set(n, p.mkError("os: "+n))
		}
		for _, n := range []string{"Stdout", "Stderr", "Stdin"} {
			var v value = &Host{&fileH{name: n, f: &memFile{}, std: true}}
			set(n, &v)
		}
		set("Args", []value{"harness"})
	},
	"time": func(p *Path, pkg *ssa.Package) {},
	"reflect": func(p *Path, pkg *ssa.Package) {},
	"unicode/utf8": nil,
}

func init() { delete(specialInit, "unicode/utf8") }

var denied = map[string]bool{"runtime": true, "net": true, "os": true, "syscall": true, "reflect": true, "unsafe": true, "sync": true, "sync/atomic": true,
	"time": true, "fmt": true, "log": true, "encoding/gob": true, "encoding/json": true, "testing": true, "math/rand": true, "crypto/rand": true, "runtime/debug": true,
	"math/big": true, "regexp": true, "regexp/syntax": true, "net/http": true, "encoding/base64": true, "os/exec": true, "os/signal": true, "encoding/hex": true,
	"crypto/sha256": true, "crypto/sha512": true, "crypto/aes": true, "compress/gzip": true, "math": true}

func deniedPkg(path string) bool {
	return denied[path] || strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "vendor/") ||
		strings.HasPrefix(path, "crypto/")
}

func (e *Engine) runtimeErrorType() types.Type {
	return types.Universe.Lookup("error").Type()
}

func (p *Path) genericNative(inf *fnInfo, args []value) (value, bool) { return nil, false }

// ---- helpers

func elt(v value) *Elt {
	e, ok := v.(*Elt)
	if !ok {
		panic(engineError{fmt.Sprintf("not a group element: %T", v)})
	}
	return e
}

func (p *Path) newOpq(kind byte, n int) *OpqSrc {
	p.nopq++
	return &OpqSrc{kind: kind, n: n, id: p.nopq}
}

func (p *Path) eltOpq(e *Elt, kind byte) []value {
	n := 32
	if kind == 'P' || kind == 'S' {
		n = 64
	}
	k := string(kind) + e.Key()
	s, ok := p.opqs[k]
	if !ok {
		s = p.newOpq(kind, n)
		s.elt = e
		p.opqs[k] = s
	}
	return s.all()
}

// wholeRun reports the source if b is exactly one complete run of kind.
func wholeRun(b []value, kind byte) *OpqSrc {
	if len(b) == 0 {
		return nil
	}
	o, ok := b[0].(*Opq)
	if !ok || o.src.kind != kind || o.i != 0 || o.src.n != len(b) {
		return nil
	}
	if runLen(b) != len(b) {
		return nil
	}
	return o.src
}

func (p *Path) contentKey(b []value) string {
	var sb strings.Builder
	sym := false
	for _, x := range b {
		p.canonTo(&sb, x, &sym)
	}
	return sb.String()
}

func cells(v value) []value {
	s, ok := v.([]value)
	if !ok {
		unsup("expected a slice, got %T", v)
	}
	return s
}

func (fr *frame) harnessStr(v value) string {
	s, ok := v.(string)
	if !ok {
		unsup("symbolic string used as a label")
	}
	return s
}

func (p *Path) termOf(v value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case int64:
		return p.tc.Int(v)
	case bool:
		return p.tc.Bool(v)
	case *Opq:
		return p.opqTerm(v)
	}
	unsup("not an integer: %T", v)
	return nil
}

func bigOf(p *Path, v value) (*value, value) {
	c, ok := v.(*value)
	if !ok || c == nil {
		p.nilDeref()
	}
	s := (*c).(structure)
	return c, s
}

// math/big.Int is structure{neg bool, abs nat}; the model keeps a *Term or *Host(*big.Int) in field 1.
func (p *Path) bigGet(v value) *Term {
	_, s := bigOf(p, v)
	switch x := s.(structure)[1].(type) {
	case *Host:
		return x.v.(*Term)
	case []value:
		return p.tc.Int(0)
	}
	unsup("big.Int representation")
	return nil
}
func (p *Path) bigSet(v value, t *Term) value {
	_, s := bigOf(p, v)
	s.(structure)[1] = &Host{t}
	return v
}
func (p *Path) bigNew(t *Term) value {
	var v value = structure{false, &Host{t}}
	return &v
}

// ---- symbolic regular expression matching (no forking)

type runeSet struct{ lo, hi rune }

func (p *Path) regexMatch(re *regexp.Regexp, bs []value) *Term {
	rx, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		unsup("regexp %s", re)
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		unsup("regexp %s", re)
	}
	tc := p.tc
	bk := bkind{kInt, 8, false}
	terms := make([]*Term, len(bs))
	for i, b := range bs {
		terms[i] = p.toTerm(b, bk)
	}
	// an isolated byte above 127 is read as one invalid character; longer
	// sequences of such bytes are not supported
	high := make([]bool, len(terms))
	for i, t := range terms {
		if t.op == OpConst {
			high[i] = t.k.Int64() > 127
		} else if t.hi == nil || t.hi.Cmp(big.NewInt(127)) > 0 {
			high[i] = !p.branch(tc.Le(t, tc.Int(127)))
		}
		if i > 0 && high[i] && high[i-1] {
			unsup("regexp on several bytes above 127")
		}
	}
	matched := tc.F
	cur := map[uint32]*Term{}
	word := func(i int) *Term {
		if i < 0 || i >= len(terms) {
			return tc.F
		}
		t := terms[i]
		in := func(lo, hi int64) *Term { return tc.And(tc.Le(tc.Int(lo), t), tc.Le(t, tc.Int(hi))) }
		return tc.Or(in('0', '9'), in('a', 'z'), in('A', 'Z'), tc.Eq(t, tc.Int('_')))
	}
	for i := 0; i <= len(terms); i++ {
		// unanchored: a new thread at every position
		set := map[uint32]*Term{}
		var add func(pc uint32, c *Term, depth int)
		add = func(pc uint32, c *Term, depth int) {
			if c == tc.F {
				return
			}
			if depth > 200 {
				return
			}
			in := prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(in.Out, c, depth+1)
				add(in.Arg, c, depth+1)
			case syntax.InstCapture, syntax.InstNop:
				add(in.Out, c, depth+1)
			case syntax.InstEmptyWidth:
				e := syntax.EmptyOp(in.Arg)
				cond := c
				if e&syntax.EmptyBeginText != 0 && i != 0 {
					return
				}
				if e&syntax.EmptyEndText != 0 && i != len(terms) {
					return
				}
				if e&syntax.EmptyBeginLine != 0 && i != 0 {
					cond = tc.And(cond, tc.Eq(terms[i-1], tc.Int('\n')))
				}
				if e&syntax.EmptyEndLine != 0 && i != len(terms) {
					cond = tc.And(cond, tc.Eq(terms[i], tc.Int('\n')))
				}
				if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					a, b := word(i-1), word(i)
					same := tc.Or(tc.And(a, b), tc.And(tc.Not(a), tc.Not(b)))
					if e&syntax.EmptyWordBoundary != 0 {
						same = tc.Not(same)
					}
					cond = tc.And(cond, same)
				}
				add(in.Out, cond, depth+1)
			case syntax.InstMatch:
				matched = tc.Or(matched, c)
			case syntax.InstFail:
			default:
				if o, ok := set[pc]; ok {
					set[pc] = tc.Or(o, c)
				} else {
					set[pc] = c
				}
			}
		}
		// deterministic order
		keys := make([]int, 0, len(cur))
		for k := range cur {
			keys = append(keys, int(k))
		}
		sort.Ints(keys)
		for _, k := range keys {
			add(uint32(k), cur[uint32(k)], 0)
		}
		add(uint32(prog.Start), tc.T, 0)
		if i == len(terms) {
			break
		}
		cur = map[uint32]*Term{}
		t := terms[i]
		ks := make([]int, 0, len(set))
		for k := range set {
			ks = append(ks, int(k))
		}
		sort.Ints(ks)
		for _, k := range ks {
			c := set[uint32(k)]
			in := prog.Inst[k]
			var m *Term
			if high[i] {
				m = tc.Bool(in.MatchRune(utf8.RuneError))
			} else if t.op == OpConst {
				m = tc.Bool(in.MatchRune(rune(t.k.Int64())))
			} else {
				// ranges over the ASCII bytes
				m = tc.F
				for lo := rune(0); lo < 128; {
					if !in.MatchRune(lo) {
						lo++
						continue
					}
					hi := lo
					for hi+1 < 128 && in.MatchRune(hi+1) {
						hi++
					}
					m = tc.Or(m, tc.And(tc.Le(tc.Int(int64(lo)), t), tc.Le(t, tc.Int(int64(hi)))))
					lo = hi + 1
				}
			}
			nc := tc.And(c, m)
			if o, ok := cur[in.Out]; ok {
				cur[in.Out] = tc.Or(o, nc)
			} else {
				cur[in.Out] = nc
			}
		}
	}
	return matched
}

// ---- string helpers on symbolic strings

// indexSym finds the first occurrence of the concrete sep at or after from.
func (p *Path) indexBytes(bs []value, sep string, from int) int {
	bk := bkind{kInt, 8, false}
	for i := from; i+len(sep) <= len(bs); i++ {
		conj := []*Term{}
		for j := 0; j < len(sep); j++ {
			conj = append(conj, p.byteEqAlpha(bs[i+j], sep[j], bk))
		}
		if p.branch(p.tc.And(conj...)) {
			return i
		}
	}
	return -1
}

// byteEqAlpha compares a byte with a constant, using the alphabet of opaque
// strings (hex, base64) when the byte belongs to one.
func (p *Path) byteEqAlpha(b value, c byte, bk bkind) *Term {
	if o, ok := b.(*Opq); ok {
		switch o.src.kind {
		case 'P', 'S':
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f') {
				return p.tc.F
			}
		case 'b':
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-' || c == '_' || c == '=' || c == '+' || c == '/') {
				return p.tc.F
			}
		}
	}
	return p.tc.Eq(p.toTerm(b, bk), p.tc.Int(int64(c)))
}

// splitFast splits without expanding decimal segments when sep cannot occur in them.
func (p *Path) split(s value, sep string, n int) []value {
	if sep == "" {
		unsup("split of a symbolic string by the empty separator")
	}
	needBytes := false
	if len(sep) != 1 || isDigitOrMinus(sep[0]) {
		needBytes = true
	}
	var parts []value
	if needBytes {
		parts = p.strBytes(s)
	} else {
		for _, x := range strParts(s) {
			if lit, ok := x.(string); ok {
				for i := 0; i < len(lit); i++ {
					parts = append(parts, int64(lit[i]))
				}
			} else {
				parts = append(parts, x)
			}
		}
	}
	var out []value
	start := 0
	bk := bkind{kInt, 8, false}
	for i := 0; i+len(sep) <= len(parts); i++ {
		if n > 0 && len(out) == n-1 {
			break
		}
		hit := p.tc.T
		for j := 0; j < len(sep); j++ {
			if _, ok := parts[i+j].(*decSeg); ok {
				hit = p.tc.F
				break
			}
			hit = p.tc.And(hit, p.byteEqAlpha(parts[i+j], sep[j], bk))
		}
		if p.branch(hit) {
			out = append(out, mkStr(parts[start:i]))
			start = i + len(sep)
			i = start - 1
		}
	}
	return append(out, mkStr(parts[start:]))
}

// format a value for fmt.
func (p *Path) fmtVal(fr *frame, verb byte, v value, flags string) value {
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			if verb == 'v' || verb == 's' || verb == 'd' {
				if verb == 'v' {
					return "<nil>"
				}
				return "%!" + string(verb) + "(<nil>)"
			}
			return "<nil>"
		}
		if verb == 'T' {
			return x.t.String()
		}
		if verb == 'v' || verb == 's' || verb == 'q' {
			if x.t == p.eng.runtimeErrorType() {
				return x.v
			}
			for _, m := range []string{"Error", "String"} {
				if _, isElt := x.v.(*Elt); isElt {
					break
				}
				f := p.eng.methodByName(x.t, m)
				if f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
					if c, ok := x.v.(*value); ok && c == nil {
						return "<nil>"
					}
					return fr.call(f, []value{x.v})
				}
			}
		}
		return p.fmtTyped(fr, verb, x.t, x.v, flags)
	}
	return "?"
}

func (p *Path) fmtTyped(fr *frame, verb byte, t types.Type, v value, flags string) value {
	switch x := v.(type) {
	case int64:
		bk := basicKind(t)
		switch verb {
		case 'x':
			return fmt.Sprintf("%"+flags+"x", x)
		case 'c':
			return string(rune(x))
		case 'q':
			return strconv.QuoteRune(rune(x))
		}
		if !bk.signed {
			return fmt.Sprintf("%"+flags+"d", uint64(x))
		}
		return fmt.Sprintf("%"+flags+"d", x)
	case *Term:
		if x.bool_ {
			if p.branch(x) {
				return "true"
			}
			return "false"
		}
		if verb == 'c' {
			return mkStr(p.runeStr(x))
		}
		if verb != 'd' && verb != 'v' && verb != 's' || flags != "" {
			return fmt.Sprintf("%"+flags+string(verb), p.concretize(x, "formatted integer"))
		}
		return mkStr([]value{&decSeg{x}})
	case bool:
		return fmt.Sprintf("%v", x)
	case float64:
		if verb == 'd' {
			return "%!d(float64)"
		}
		return fmt.Sprintf("%"+flags+string(verb), x)
	case string:
		if verb == 'q' || verb == 'x' {
			return fmt.Sprintf("%"+flags+string(verb), x)
		}
		return fmt.Sprintf("%"+flags+"s", x)
	case *SymStr:
		return x
	case []value:
		et := t.Underlying().(*types.Slice).Elem()
		if verb == 'x' || verb == 's' {
			if basicKind(et).w == 8 {
				if verb == 's' {
					return bytesToStr(x)
				}
				return p.hexStr(x)
			}
		}
		return p.fmtSeq(fr, verb, et, x, flags)
	case array:
		return p.fmtSeq(fr, verb, t.Underlying().(*types.Array).Elem(), x, flags)
	case structure:
		st := t.Underlying().(*types.Struct)
		out := []value{"{"}
		for i, f := range x {
			if i > 0 {
				out = append(out, " ")
			}
			if strings.Contains(flags, "+") {
				out = append(out, st.Field(i).Name()+":")
			}
			out = append(out, strParts(p.fmtVal(fr, verb, wrapIface(st.Field(i).Type(), f), flags))...)
		}
		return mkStr(append(out, "}"))
	case *Map:
		if x == nil {
			return "map[]"
		}
		mt := t.Underlying().(*types.Map)
		out := []value{"map["}
		ents := append([]*entry(nil), x.ents...)
		sort.SliceStable(ents, func(i, j int) bool {
			a, ok1 := ents[i].k.(string)
			b, ok2 := ents[j].k.(string)
			if ok1 && ok2 {
				return a < b
			}
			c, ok1 := ents[i].k.(int64)
			d, ok2 := ents[j].k.(int64)
			return ok1 && ok2 && c < d
		})
		for i, en := range ents {
			if i > 0 {
				out = append(out, " ")
			}
			out = append(out, strParts(p.fmtVal(fr, verb, wrapIface(mt.Key(), en.k), flags))...)
			out = append(out, ":")
			out = append(out, strParts(p.fmtVal(fr, verb, wrapIface(mt.Elem(), en.v), flags))...)
		}
		return mkStr(append(out, "]"))
	case *value:
		if x == nil {
			return "<nil>"
		}
		if s, ok := (*x).(structure); ok && fr != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				return concat("&", p.fmtTyped(nil, verb, pt.Elem(), s, flags))
			}
		}
		return "0xc000000000"
	case iface:
		return p.fmtVal(fr, verb, x, flags)
	case *Elt:
		return "elt"
	}
	return fmt.Sprintf("<%T>", v)
}

func wrapIface(t types.Type, v value) value {
	if i, ok := v.(iface); ok {
		return i
	}
	return iface{t, v}
}

func (p *Path) fmtSeq(fr *frame, verb byte, et types.Type, xs []value, flags string) value {
	out := []value{"["}
	for i, f := range xs {
		if i > 0 {
			out = append(out, " ")
		}
		out = append(out, strParts(p.fmtVal(fr, verb, wrapIface(et, f), flags))...)
	}
	return mkStr(append(out, "]"))
}

func (p *Path) hexStr(b []value) value {
	if s := wholeRun(b, 'p'); s != nil {
		return mkStr(p.eltOpq(s.elt, 'P'))
	}
	if s := wholeRun(b, 's'); s != nil {
		return mkStr(p.eltOpq(s.elt, 'S'))
	}
	h, ok := bytesToStr(b).(string)
	if !ok {
		unsup("hex of symbolic bytes")
	}
	return hex.EncodeToString([]byte(h))
}

func (p *Path) sprintf(fr *frame, format value, args []value) value {
	f, ok := format.(string)
	if !ok {
		// format without verbs is returned as is
		return format
	}
	var out []value
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = append(out, f[i:j])
			i = j - 1
			continue
		}
		i++
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			out = append(out, "%!(NOVERB)")
			break
		}
		flags := f[st:i]
		verb := f[i]
		if verb == '%' {
			out = append(out, "%")
			continue
		}
		if ai >= len(args) {
			out = append(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		v := args[ai]
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		out = append(out, strParts(p.fmtVal(fr, verb, v, flags))...)
	}
	if ai < len(args) {
		out = append(out, "%!(EXTRA)")
	}
	return mkStr(out)
}

func (p *Path) sprint(fr *frame, args []value, ln bool) value {
	var out []value
	prevStr := true
	for i, a := range args {
		isStr := false
		if it, ok := a.(iface); ok && it.t != nil {
			if b, ok := it.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			out = append(out, " ")
		}
		out = append(out, strParts(p.fmtVal(fr, 'v', a, ""))...)
		prevStr = isStr
	}
	if ln {
		out = append(out, "\n")
	}
	return mkStr(out)
}

// ---- locks

type mutexState struct {
	locked  bool
	readers int
	n       int
}

func (p *Path) mu(v value) *mutexState {
	c, ok := v.(*value)
	if !ok || c == nil {
		p.nilDeref()
	}
	s, ok := p.syncState[c].(*mutexState)
	if !ok {
		s = &mutexState{}
		p.syncState[c] = s
	}
	return s
}

type wgState struct{ n int64 }

func (p *Path) wg(v value) *wgState {
	c, ok := v.(*value)
	if !ok || c == nil {
		p.nilDeref()
	}
	s, ok := p.syncState[c].(*wgState)
	if !ok {
		s = &wgState{}
		p.syncState[c] = s
	}
	return s
}

func (p *Path) lockM(fr *frame, v value) {
	s := p.mu(v)
	for s.locked || s.readers > 0 {
		p.block(fr, "mutex lock", func() bool { return !s.locked && s.readers == 0 })
	}
	s.locked = true
	if p.race != nil {
		p.race.lock(fr.g, v.(*value), false)
	}
}

func (p *Path) unlockM(fr *frame, v value) {
	s := p.mu(v)
	if !s.locked {
		panic(targetPanic{rt: "fatal error: sync: unlock of unlocked mutex", pos: p.where(fr)})
	}
	s.locked = false
	if p.race != nil {
		p.race.unlock(fr.g, v.(*value), false)
	}
}

func (p *Path) writeAll(fr *frame, w value, b []value) value {
	it := w.(iface)
	if it.t == nil {
		p.nilDeref()
	}
	f := p.eng.methodByName(it.t, "Write")
	if f == nil {
		unsup("writer %v", it.t)
	}
	r := fr.call(f, []value{it.v, b})
	return r.(tuple)[1]
}

// exitIf ends the target process.
func (p *Path) exit(fr *frame, code int) {
	panic(exitPanic{code})
}

func osNotExist(p *Path, name value) value {
	return p.mkErrorKind("notexist", concat(concat("open ", name), ": no such file or directory"))
}

func (p *Path) mkErrorKind(kind string, msg value) value {
	e := p.mkError(msg)
	p.hostMap[kind+fmt.Sprintf("%p", e.(iface).v)] = true
	return e
}

func fileName(p *Path, v value) string {
	s, ok := v.(string)
	if !ok {
		unsup("symbolic file name")
	}
	return s
}

var dbg = os.Getenv("SYMGO_DEBUG") != ""
