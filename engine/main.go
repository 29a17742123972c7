package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"` // prefix of the reported message
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: symgo check ID | replay FILE")
		os.Exit(0)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2]))
	}
}

func check(args []string) int {
	id := args[0]
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	only := fs.String("only", "", "entries with this prefix only")
	tierF := fs.String("tier", "", "quick or thorough")
	workers := fs.Int("workers", 8, "")
	noNative := fs.Bool("no-native", false, "")
	budget := fs.Int("budget", 0, "")
	fs.Parse(args[1:])
	if f := os.Getenv("SYMGO_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	t0 := time.Now()
	ev := &evidence{Property: id, Tier: tier, Seed: seed, Level: "model_checking", start: t0}
	cfg, err := loadConfig(id)
	if err != nil {
		fmt.Println("no harness:", err)
		return 0
	}
	ev.Level = cfg.Level
	ev.cfg = cfg
	tmp, err := os.MkdirTemp("", "symgo-")
	if err != nil {
		fmt.Println(err)
		return 0
	}
	defer os.RemoveAll(tmp)
	eng, eps, fns, err := load(cfg, tmp)
	if err != nil {
		ev.note("could not load the code: " + err.Error())
		fmt.Println("INCONCLUSIVE: could not load the code:", err)
		ev.write()
		return 0
	}
	loadT := time.Since(t0)
	var names []string
	for _, e := range eps {
		if strings.HasPrefix(e.Name, *only) {
			names = append(names, e.Name)
		}
	}
	run := &Run{eng: eng, maxSteps: cfg.MaxSteps, workers: *workers}
	if tier == "thorough" {
		run.tier = 1
		thoroughTier = true
	}
	b := cfg.Quick
	if run.tier == 1 {
		b = cfg.Thorough
	}
	if *budget > 0 {
		b = *budget
	}
	run.deadline = time.Now().Add(time.Duration(b) * time.Second)
	// the native build proceeds alongside
	var nat *native
	natReady := make(chan struct{})
	go func() {
		defer close(natReady)
		if !*noNative && cfg.Native != "none" {
			nat = newNative(cfg, eps, tmp)
		}
	}()
	run.explore(fns, names)
	exploreT := time.Since(t0) - loadT
	<-natReady

	known := loadKnown()
	nviol := 0
	seenKnown := map[string]bool{}
	rep := 0
	reported := map[string]bool{}
	report := func(v violation, detail string) {
		for _, k := range known {
			if k.Property == id && k.Status == "known" && k.Harness == v.Harness && strings.HasPrefix(v.Msg, k.Msg) {
				if !seenKnown[k.What] {
					seenKnown[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
					ev.known = append(ev.known, k.What)
				}
				return
			}
		}
		key := v.Harness + "|" + v.Msg
		if reported[key] {
			return
		}
		reported[key] = true
		nviol++
		rep++
		path := filepath.Join(verifDir(), "evidence", fmt.Sprintf("%s.replay-%d.json", id, rep))
		writeReplay(path, id, v, detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  harness %s: %s\n", v.Harness, v.Msg)
		if v.Where != "" {
			fmt.Printf("  at %s\n", v.Where)
		}
		for k, in := range v.Inputs {
			if k >= 30 {
				fmt.Println("  ...")
				break
			}
			fmt.Printf("  input %s = %s\n", in.Name, in.Val)
		}
		if detail != "" {
			fmt.Printf("  native replay: %s\n", detail)
		}
	}
	for _, n := range names {
		st := run.stats[n]
		perMsg := map[string]int{}
		done := map[string]bool{}
		for _, v := range st.viols {
			key := v.Kind + v.Msg
			if done[key] || perMsg[key] >= 3 {
				continue
			}
			perMsg[key]++
			if nat == nil || nat.err != nil {
				why := "no native build"
				if nat != nil {
					why = nat.err.Error()
				}
				if cfg.Native == "none" {
					report(v, "not replayed (no native form of this harness)")
					done[key] = true
					continue
				}
				ev.unrep = append(ev.unrep, n+": "+v.Msg+" ("+why+")")
				continue
			}
			ok, detail := nat.reproduce(v)
			if ok {
				report(v, detail)
				done[key] = true
			} else {
				ev.unrep = append(ev.unrep, n+": "+v.Msg+" ("+detail+")")
				if dbg {
					fmt.Println("UNREPRODUCED", n, v.Msg, v.Where, v.Inputs, detail)
				}
			}
		}
	}
	// model traces against the real code
	if nat != nil && nat.err == nil && !cfg.NoTrace {
		nat.validate(run, names, ev, report, tier == "thorough")
	}
	if nat != nil && nat.err != nil {
		ev.note("native build failed: " + nat.err.Error())
		fmt.Println("NOTE native build failed:", nat.err)
	}
	ev.violations = nviol
	ev.fill(run, names, eps, loadT, exploreT)
	ev.write()
	ev.summary(run, names)
	if nviol > 0 {
		return 1
	}
	return 0
}
