package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// thoroughTier tells native runs which tier's bounds the inputs were found with.
var thoroughTier bool

// native builds the harness against the real code and its real dependencies.
type native struct {
	cfg   *Config
	tmp   string
	bins  map[string]string // entry -> binary
	race  map[string]string
	slow  map[string]string // with pauses between statements
	rep   map[string]string
	ov    string
	mf    string
	err   error
	eps   []entryPoint
	trials int
	mu    sync.Mutex
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"message"`
	Where    string            `json:"where"`
	Inputs   map[string]string `json:"inputs"`
	Native   string            `json:"native_result"`
	Schedule int               `json:"schedule,omitempty"`
	Decisions []string         `json:"decisions,omitempty"`
}

func writeReplay(path, id string, v violation, detail string) {
	r := replayFile{Property: id, Harness: v.Harness, Kind: v.Kind, Msg: v.Msg, Where: v.Where, Schedule: v.Sched, Inputs: map[string]string{}, Native: detail}
	for _, in := range v.Inputs {
		r.Inputs[in.Name] = in.Val
	}
	for _, d := range v.Trace {
		r.Decisions = append(r.Decisions, fmt.Sprintf("%c%d:%d", d.k, d.b, d.v))
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, b, 0o644)
}

func newNative(c *Config, eps []entryPoint, tmp string) *native {
	n := &native{cfg: c, tmp: tmp, bins: map[string]string{}, race: map[string]string{}, slow: map[string]string{}, eps: eps}
	ov, _, err := overlayFiles(c)
	if err != nil {
		n.err = err
		return n
	}
	byDir := map[string][]string{}
	isMain := map[string]bool{}
	for _, e := range eps {
		byDir[e.Dir] = append(byDir[e.Dir], e.Name)
		isMain[e.Dir] = e.Main
	}
	rep := map[string]string{}
	for k, v := range ov {
		rep[k] = v
	}
	for dir, names := range byDir {
		sort.Strings(names)
		var b strings.Builder
		imp := modPath + "/" + dir
		symp := modPath + "/zz_verif/sym"
		var at string
		if isMain[dir] {
			fmt.Fprintf(&b, "package main\n\nimport sym %q\n\nfunc init() {\n\tsym.RunIfAsked(map[string]func(){\n", symp)
			for _, x := range names {
				fmt.Fprintf(&b, "\t\t%q: %s,\n", x, x)
			}
			b.WriteString("\t})\n}\n")
			at = filepath.Join(repoDir, dir, "zz_verif_main.go")
		} else {
			fmt.Fprintf(&b, "package main\n\nimport (\n\tsym %q\n\th %q\n)\n\nfunc main() {\n\tsym.RunIfAsked(map[string]func(){\n", symp, imp)
			for _, x := range names {
				fmt.Fprintf(&b, "\t\t%q: h.%s,\n", x, x)
			}
			b.WriteString("\t})\n}\n")
			at = filepath.Join(repoDir, "zz_verif", "run_"+strings.ReplaceAll(dir, "/", "_"), "main.go")
		}
		f := filepath.Join(tmp, "main_"+strings.ReplaceAll(dir, "/", "_")+".go")
		if err := os.WriteFile(f, []byte(b.String()), 0o644); err != nil {
			n.err = err
			return n
		}
		rep[at] = f
	}
	n.rep = rep
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	n.ov = filepath.Join(tmp, "overlay.json")
	if n.err = os.WriteFile(n.ov, j, 0o644); n.err != nil {
		return n
	}
	md := filepath.Join(tmp, "nativemod")
	os.MkdirAll(md, 0o755)
	var repl []string
	if c.Native == "model-onet" {
		repl = []string{"go.dedis.ch/onet/v3"}
	}
	n.mf, n.err = modelMod(md, repl)
	if n.err != nil {
		return n
	}
	n.build("")
	return n
}

func (n *native) build(kind string) {
	race := kind == "race"
	ov := n.ov
	if kind == "slow" {
		rep, err := jitterFiles(filepath.Join(n.tmp, "jitter"), n.rep)
		if err != nil {
			n.err = err
			return
		}
		for k, v := range n.rep {
			if _, ok := rep[k]; !ok {
				rep[k] = v
			}
		}
		j, _ := json.Marshal(map[string]any{"Replace": rep})
		ov = filepath.Join(n.tmp, "overlay_slow.json")
		if n.err = os.WriteFile(ov, j, 0o644); n.err != nil {
			return
		}
	}
	dirs := map[string]bool{}
	for _, e := range n.eps {
		dirs[e.Dir] = e.Main
	}
	for dir, main := range dirs {
		pkg := "./zz_verif/run_" + strings.ReplaceAll(dir, "/", "_")
		if main {
			pkg = "./" + dir
		}
		bin := filepath.Join(n.tmp, "bin_"+strings.ReplaceAll(dir, "/", "_"))
		args := []string{"build", "-overlay", ov, "-modfile", n.mf}
		if kind == "slow" {
			bin += "_slow"
		}
		if race {
			bin += "_race"
			args = append(args, "-race")
		}
		args = append(args, "-o", bin, pkg)
		ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
		cmd := exec.CommandContext(ctx, "/opt/veriftools/go1.23.12/bin/go", args...)
		cmd.Dir = repoDir
		if race {
			cmd.Env = goEnv("CGO_ENABLED=1")
		} else {
			cmd.Env = goEnv()
		}
		out, err := cmd.CombinedOutput()
		cancel()
		if err != nil {
			n.err = fmt.Errorf("%v: %s", err, tail(string(out), 1500))
			return
		}
		for _, e := range n.eps {
			if e.Dir == dir {
				switch kind {
				case "race":
					n.race[e.Name] = bin
				case "slow":
					n.slow[e.Name] = bin
				default:
					n.bins[e.Name] = bin
				}
			}
		}
	}
}

func tail(s string, k int) string {
	if len(s) > k {
		return s[len(s)-k:]
	}
	return s
}

// run executes one harness natively: "" pass, "assume", or a failure description.
func (n *native) run(bin, entry string, inputs []inputRec, timeout time.Duration, env ...string) (string, string) {
	m := map[string]string{}
	for _, in := range inputs {
		if in.Val != "" {
			m[in.Name] = in.Val
		}
	}
	j, _ := json.Marshal(map[string]any{"entry": entry, "inputs": m})
	n.mu.Lock()
	n.trials++
	f := filepath.Join(n.tmp, fmt.Sprintf("assign%d.json", n.trials))
	scratch := filepath.Join(n.tmp, fmt.Sprintf("scratch%d", n.trials))
	n.mu.Unlock()
	os.WriteFile(f, j, 0o644)
	os.MkdirAll(scratch, 0o755)
	defer os.RemoveAll(scratch)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	if len(env) > 0 && env[0] == "SYM_ULIMIT=1" {
		// an endless loop may allocate without end
		cmd = exec.CommandContext(ctx, "/bin/bash", "-c", `ulimit -v 8000000; exec "$0"`, bin)
	}
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "SYM_ASSIGN="+f, "DEBUG_LVL=0")
	cmd.Env = append(cmd.Env, env...)
	if thoroughTier {
		cmd.Env = append(cmd.Env, "SYM_TIER=thorough")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	txt := out.String()
	if ctx.Err() != nil {
		return "timeout", "did not finish within " + timeout.String()
	}
	if err == nil {
		return "", ""
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return "error", err.Error()
	}
	switch ee.ExitCode() {
	case 3:
		return "assert", lineWith(txt, "SYM-VIOLATION")
	case 4:
		return "assume", lineWith(txt, "SYM-ASSUME")
	case 66:
		return "race", raceText(txt)
	case 2:
		if strings.Contains(txt, "all goroutines are asleep") {
			return "deadlock", lineWith(txt, "all goroutines are asleep")
		}
		return "panic", lineWith(txt, "panic:") + lineWith(txt, "fatal error:")
	}
	return "exit", fmt.Sprintf("exit code %d: %s", ee.ExitCode(), tail(txt, 300))
}

func raceText(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return "race detector: " + strings.Join(out, "; ")
}

func lineWith(s, sub string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, sub) {
			return l
		}
	}
	return ""
}

// reproduce replays a counterexample against the real code.
func (n *native) reproduce(v violation) (bool, string) {
	bin := n.bins[v.Harness]
	env := []string{}
	if v.Kind == "race" {
		if len(n.race) == 0 {
			n.build("race")
			if n.err != nil {
				return false, n.err.Error()
			}
		}
		bin = n.race[v.Harness]
		env = append(env, "GORACE=halt_on_error=1 exitcode=66")
	}
	attempts, par := 64, 8
	if v.Kind == "hang" {
		attempts, par = 1, 1
		env = append(env, "SYM_ULIMIT=1")
	}
	to := 40 * time.Second
	type res struct{ k, d string }
	var mu sync.Mutex
	var hit *res
	var last res
	left := attempts
	var wg sync.WaitGroup
	deadline := time.Now().Add(90 * time.Second)
	paused := false
	again := v.Sched > 0 && v.Kind != "race" && v.Kind != "hang"
	if again && v.Sched > 1 {
		left = 16
	}
rerun:
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if hit != nil || left <= 0 || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				left--
				at := left
				mu.Unlock()
				b, e := bin, env
				if paused {
					b = n.slow[v.Harness]
					e = append([]string{fmt.Sprintf("SYM_JITTER=%d", at+1)}, env...)
				}
				k, d := n.run(b, v.Harness, v.Inputs, to, e...)
				mu.Lock()
				last = res{k, d}
				good := k != "" && k != "assume" && k != "error"
				if k == "timeout" && v.Kind != "deadlock" && v.Kind != "hang" {
					good = false
				}
				if v.Kind == "race" && k != "race" {
					good = false
				}
				if good {
					hit = &res{k, d}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if hit != nil {
		s := hit.k + ": " + hit.d
		if paused {
			s += " (with pauses between statements)"
		}
		return true, s
	}
	if again {
		// it depends on the schedule: pause between statements
		again, paused = false, true
		if len(n.slow) == 0 {
			n.build("slow")
			if n.err != nil {
				return false, n.err.Error()
			}
		}
		left, deadline = 600, time.Now().Add(90*time.Second)
		goto rerun
	}
	return false, "not reproduced natively (" + last.k + " " + last.d + ")"
}

// validate runs samples of the explored paths natively; a real failure of the
// harness assertions on the real code is a violation the model missed.
func (n *native) validate(r *Run, names []string, ev *evidence, report func(violation, string), deep bool) {
	type item struct {
		name string
		in   []inputRec
	}
	var items []item
	per := 3
	if deep {
		per = 12
	}
	for _, nm := range names {
		s := r.stats[nm].samples
		for i := 0; i < len(s) && i < per; i++ {
			items = append(items, item{nm, s[len(s)-1-i]})
		}
	}
	deadline := time.Now().Add(100 * time.Second)
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 8)
	for _, it := range items {
		if time.Now().After(deadline) {
			break
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(it item) {
			defer wg.Done()
			defer func() { <-sem }()
			k, d := n.run(n.bins[it.name], it.name, it.in, 60*time.Second)
			mu.Lock()
			defer mu.Unlock()
			switch k {
			case "":
				ev.validated++
			case "assume":
				ev.mismatch = append(ev.mismatch, it.name+": "+d)
			case "timeout", "error":
				ev.mismatch = append(ev.mismatch, it.name+": "+k+" "+d)
			default:
				k2, d2 := n.run(n.bins[it.name], it.name, it.in, 60*time.Second)
				k3, _ := n.run(n.bins[it.name], it.name, it.in, 60*time.Second)
				if k2 == k && k3 == k {
					report(violation{Harness: it.name, Kind: k, Msg: "on the real code: " + d2, Inputs: it.in}, k2+": "+d2)
				} else {
					ev.mismatch = append(ev.mismatch, it.name+": native "+k+" "+d+" (not repeatable)")
				}
			}
		}(it)
	}
	wg.Wait()
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 0
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 0
	}
	cfg, err := loadConfig(r.Property)
	if err != nil {
		fmt.Println(err)
		return 0
	}
	tmp, _ := os.MkdirTemp("", "symgo-")
	defer os.RemoveAll(tmp)
	_, eps, err := overlayFiles(cfg)
	if err != nil {
		fmt.Println(err)
		return 0
	}
	n := newNative(cfg, eps, tmp)
	if n.err != nil {
		fmt.Println(n.err)
		return 0
	}
	v := violation{Harness: r.Harness, Kind: r.Kind, Msg: r.Msg, Sched: r.Schedule}
	for k, x := range r.Inputs {
		v.Inputs = append(v.Inputs, inputRec{Name: k, Val: x})
	}
	ok, d := n.reproduce(v)
	fmt.Println(r.Harness, ok, d)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	return 0
}
