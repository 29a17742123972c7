package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A counterexample that depends on the schedule is replayed against a build of
// the real code in which goroutines may pause between any two statements. The
// pauses are the only difference; which places pause is drawn anew for every
// attempt.

const jitSource = `package jit

import (
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

var seed uint64
var mu sync.Mutex
var hits = map[uintptr]int{}

func init() {
	n, _ := strconv.ParseUint(os.Getenv("SYM_JITTER"), 10, 64)
	seed = n
}

// J pauses at some places, the first times they are reached.
func J() {
	if seed == 0 {
		return
	}
	pc, _, _, _ := runtime.Caller(1)
	h := uint64(pc)*0x9E3779B97F4A7C15 ^ seed*0xBF58476D1CE4E5B9
	h ^= h >> 31
	h *= 0x94D049BB133111EB
	h ^= h >> 29
	if h%8 != 0 {
		return
	}
	mu.Lock()
	hits[pc]++
	n := hits[pc]
	mu.Unlock()
	if n > 6 || (h>>8>>uint(n))&1 == 0 {
		return
	}
	time.Sleep(time.Duration(2+(h>>20)%14) * time.Millisecond)
}
`

// jitterFiles writes instrumented copies of the repository's packages.
func jitterFiles(dir string, have map[string]string) (map[string]string, error) {
	out := map[string]string{}
	jit := filepath.Join(dir, "jit.go")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	if err := os.WriteFile(jit, []byte(jitSource), 0o644); err != nil {
		return nil, err
	}
	out[filepath.Join(repoDir, "zz_verif", "jit", "jit.go")] = jit
	n := 0
	for _, top := range []string{"lib", "protocols", "services", "data", "cmd"} {
		err := filepath.Walk(filepath.Join(repoDir, top), func(path string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			src := path
			if h, ok := have[path]; ok {
				src = h
			}
			b, err := os.ReadFile(src)
			if err != nil {
				return nil
			}
			t, ok := jitter(b)
			if !ok {
				return nil
			}
			n++
			f := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(path, repoDir+"/"), "/", "__"))
			if err := os.WriteFile(f, t, 0o644); err != nil {
				return err
			}
			out[path] = f
			return nil
		})
		if err != nil {
			return nil, err
		}
	}
	return out, nil
}

// jitter inserts a call before every statement of a function.
func jitter(src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	var at []int
	add := func(l []ast.Stmt) {
		for _, s := range l {
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, false
	}
	sort.Ints(at)
	pk := fset.Position(f.Name.End()).Offset
	var b strings.Builder
	b.Write(src[:pk])
	b.WriteString("; import zz_jit \"" + modPath + "/zz_verif/jit\"")
	last := pk
	for _, o := range at {
		b.Write(src[last:o])
		b.WriteString("zz_jit.J(); ")
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}
