package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Config describes the harnesses of one property: /verif/harness/<id>/prop.json
type Config struct {
	ID       string            `json:"-"`
	InPkg    map[string]string `json:"inpkg"`  // file in the harness dir -> package dir (relative to the repository) it is compiled into
	Native   string            `json:"native"` // "" real dependencies, "model-onet" onet replaced by the model, "none"
	Replace  map[string]string `json:"replace"`
	MaxSteps int               `json:"max_steps"`
	Quick    int               `json:"quick_s"`
	Thorough int               `json:"thorough_s"`
	NoTrace  bool              `json:"no_trace_validation"`
	Solver   int               `json:"solver_ms"`
	Level    string            `json:"level"`
	Assume   []string          `json:"assumptions"`
	Bounds   map[string]string `json:"bounds"`
	Shared   []string          `json:"shared"` // other harness directories whose entries also belong to this property
	Entries  string            `json:"entries"`
}

const repoDir = "/repo"
const modPath = "github.com/ldsec/unlynx"

func verifDir() string {
	if d := os.Getenv("SYMGO_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func loadConfig(id string) (*Config, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "harness", strings.ToLower(id), "prop.json"))
	if err != nil {
		return nil, err
	}
	c := &Config{}
	if err := json.Unmarshal(b, c); err != nil {
		return nil, err
	}
	c.ID = id
	if c.MaxSteps == 0 {
		c.MaxSteps = 40_000_000
	}
	if c.Quick == 0 {
		c.Quick = 240
	}
	if c.Thorough == 0 {
		c.Thorough = 600
	}
	if c.Solver == 0 {
		c.Solver = 20000
	}
	if c.Level == "" {
		c.Level = "model_checking"
	}
	return c, nil
}

type entryPoint struct {
	Name string
	Dir  string // package dir relative to the repository
	Pkg  string
	Main bool // in a package main
	Doc  string
}

// overlayFiles maps virtual files in /repo to real files in /verif.
func overlayFiles(c *Config) (map[string]string, []entryPoint, error) {
	ov := map[string]string{}
	var eps []entryPoint
	h := filepath.Join(verifDir(), "harness")
	addDir := func(src, dst string) error {
		es, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				ov[filepath.Join(dst, e.Name())] = filepath.Join(src, e.Name())
			}
		}
		return nil
	}
	for _, lib := range []string{"sym", "hx"} {
		if _, err := os.Stat(filepath.Join(h, lib)); err == nil {
			if err := addDir(filepath.Join(h, lib), filepath.Join(repoDir, "zz_verif", lib)); err != nil {
				return nil, nil, err
			}
		}
	}
	dirs := append([]string{strings.ToLower(c.ID)}, c.Shared...)
	for _, d := range dirs {
		src := filepath.Join(h, d)
		es, err := os.ReadDir(src)
		if err != nil {
			return nil, nil, err
		}
		for _, e := range es {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			rel := "zz_verif/" + d
			name := e.Name()
			if p, ok := c.InPkg[name]; ok {
				rel = p
				name = "zz_verif_" + name
			}
			full := filepath.Join(src, e.Name())
			ov[filepath.Join(repoDir, rel, name)] = full
			es, err := entriesIn(full, rel)
			if err != nil {
				return nil, nil, err
			}
			if c.Entries != "" && d != strings.ToLower(c.ID) {
				var keep []entryPoint
				for _, x := range es {
					if strings.HasPrefix(x.Name, c.Entries) {
						keep = append(keep, x)
					}
				}
				es = keep
			}
			eps = append(eps, es...)
		}
	}
	sort.Slice(eps, func(i, j int) bool { return eps[i].Name < eps[j].Name })
	return ov, eps, nil
}

func entriesIn(file, rel string) ([]entryPoint, error) {
	f, err := parser.ParseFile(token.NewFileSet(), file, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var out []entryPoint
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
			continue
		}
		out = append(out, entryPoint{Name: fd.Name.Name, Dir: rel, Main: f.Name.Name == "main", Doc: strings.TrimSpace(fd.Doc.Text())})
	}
	return out, nil
}

func goEnv(extra ...string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOWORK", "GO111MODULE", "GOTOOLCHAIN", "HOME", "GOROOT":
			continue
		}
		env = append(env, e)
	}
	home := "/root"
	env = append(env, "HOME="+home, "PATH=/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off",
		"GO111MODULE=on", "GOTOOLCHAIN=local", "GOMODCACHE=/root/go/pkg/mod", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
	if os.Getenv("GOCACHE") == "" {
		env = append(env, "GOCACHE=/root/.cache/go-build")
	}
	return append(env, extra...)
}

// modelMod writes a go.mod for the symbolic run: the repository's own requirements
// with the modelled modules replaced.
func modelMod(dir string, modelled []string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return "", err
	}
	s := string(b)
	s += "\n"
	for _, m := range modelled {
		s += fmt.Sprintf("replace %s => %s\n", m, filepath.Join(verifDir(), "models", filepath.Base(strings.TrimSuffix(m, "/v3"))))
	}
	p := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return "", err
	}
	return p, os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
}

var modelledMods = []string{"go.dedis.ch/kyber/v3", "go.dedis.ch/onet/v3", "github.com/fanliao/go-concurrentMap", "github.com/satori/go.uuid", "github.com/urfave/cli", "github.com/BurntSushi/toml", "golang.org/x/xerrors"}

func load(c *Config, tmp string) (*Engine, []entryPoint, map[string]*ssa.Function, error) {
	ov, eps, err := overlayFiles(c)
	if err != nil {
		return nil, nil, nil, err
	}
	overlay := map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, nil, nil, err
		}
		overlay[v] = b
	}
	mf, err := modelMod(tmp, modelledMods)
	if err != nil {
		return nil, nil, nil, err
	}
	pats := map[string]bool{}
	for _, e := range eps {
		pats["./"+e.Dir] = true
	}
	var patterns []string
	for p := range pats {
		patterns = append(patterns, p)
	}
	sort.Strings(patterns)
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv("CGO_ENABLED=0"), Fset: fset, Overlay: overlay,
		BuildFlags: []string{"-modfile=" + mf}}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, nil, err
	}
	nerr := 0
	var msgs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 10 {
				msgs = append(msgs, e.Error())
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, nil, nil, fmt.Errorf("loading: %s", strings.Join(msgs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	eng := &Engine{prog: prog, repoPath: modPath, cfg: c, sizes: types.SizesFor("gc", "amd64")}
	// build the code of the repository, its models and the harnesses now; the standard library on demand
	for _, p := range prog.AllPackages() {
		if eng.initByPath(p.Pkg.Path()) {
			p.Build()
		}
	}
	fns := map[string]*ssa.Function{}
	for i := range eps {
		path := modPath + "/" + eps[i].Dir
		pk := prog.ImportedPackage(path)
		if pk == nil {
			return nil, nil, nil, fmt.Errorf("package %s not loaded", path)
		}
		f := pk.Func(eps[i].Name)
		if f == nil {
			return nil, nil, nil, fmt.Errorf("no function %s in %s", eps[i].Name, path)
		}
		fns[eps[i].Name] = f
	}
	return eng, eps, fns, nil
}
