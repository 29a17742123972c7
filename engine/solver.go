package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver is one z3 process driven over a pipe. Assertions of a path live in
// one push scope; queries use a nested one.
type Solver struct {
	rawKeep bool
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	em      *Emitter
	buf     *strings.Builder
	queries int
	nsat    int
	nunsat  int
	nunk    int
	time    time.Duration
	dead    bool
	timeout int
	log     io.Writer
}

func newSolver(timeoutMs int) *Solver {
	s := &Solver{timeout: timeoutMs}
	if f := os.Getenv("SYMGO_SMTLOG"); f != "" {
		w, _ := os.Create(fmt.Sprintf("%s.%p.smt2", f, s))
		s.log = w
	}
	s.start()
	return s
}

func (s *Solver) start() {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(engineError{"cannot start solver: " + err.Error()})
	}
	s.dead = false
	s.buf = &strings.Builder{}
	s.em = &Emitter{done: map[*Term]bool{}, out: s.buf}
	fmt.Fprintf(s.buf, "(set-option :timeout %d)\n(set-option :smt.random_seed 1)\n", s.timeout)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// reset starts a new path.
func (s *Solver) reset() {
	if s.dead {
		s.close()
		s.start()
		return
	}
	s.buf.Reset()
	s.em.done = map[*Term]bool{}
	fmt.Fprintf(s.buf, "(reset)\n(set-option :timeout %d)\n", s.timeout)
}

func (s *Solver) assert(t *Term) {
	s.em.emit(t)
	fmt.Fprintf(s.buf, "(assert %s)\n", t.ref())
}

func (s *Solver) flush() {
	str := s.buf.String()
	s.buf.Reset()
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	if _, err := io.WriteString(s.in, str); err != nil {
		s.dead = true
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "unknown"
	}
	return strings.TrimSpace(l)
}

// check decides satisfiability of the asserted facts plus extra. model lists
// variables whose values are wanted when the answer is sat.
func (s *Solver) check(extra []*Term, model []*Term) (string, map[string]*big.Int) {
	if s.dead {
		return "unknown", nil
	}
	t0 := time.Now()
	for _, e := range extra {
		s.em.emit(e)
	}
	for _, m := range model {
		s.em.emit(m)
	}
	if len(extra) > 0 {
		s.buf.WriteString("(push)\n")
		for _, e := range extra {
			fmt.Fprintf(s.buf, "(assert %s)\n", e.ref())
		}
	}
	s.buf.WriteString("(check-sat)\n")
	s.flush()
	// guard against a hung solver
	timer := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+20*time.Second, func() {
		if s.cmd != nil && s.cmd.Process != nil {
			s.cmd.Process.Kill()
		}
	})
	r := s.readLine()
	var res map[string]*big.Int
	for strings.HasPrefix(r, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", r)
		s.nunk++
		s.dead = true
		r = "unknown"
	}
	if r == "sat" && len(model) > 0 {
		res = map[string]*big.Int{}
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, m := range model {
			b.WriteString(m.ref() + " ")
		}
		b.WriteString("))\n(echo \"@@\")\n")
		s.buf.WriteString(b.String())
		s.flush()
		var txt strings.Builder
		for {
			l := s.readLine()
			if l == "@@" || s.dead {
				break
			}
			txt.WriteString(l + "\n")
		}
		vals := parseValues(txt.String())
		for i, m := range model {
			if i < len(vals) && vals[i] != nil {
				res[m.name] = vals[i]
			}
		}
	}
	timer.Stop()
	if len(extra) > 0 {
		s.buf.WriteString("(pop)\n")
	}
	s.queries++
	s.time += time.Since(t0)
	switch r {
	case "sat":
		s.nsat++
	case "unsat":
		s.nunsat++
	default:
		s.nunk++
		r = "unknown"
	}
	return r, res
}

// rawCheck runs a self-contained query text in its own scope.
func (s *Solver) rawCheck(text string) string {
	if s.dead {
		return "unknown"
	}
	t0 := time.Now()
	s.buf.WriteString("(push)\n" + text + "(check-sat)\n")
	s.flush()
	r := s.readLine()
	if strings.HasPrefix(r, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", r)
		s.dead = true
		r = "unknown"
	}
	if !s.rawKeep {
		s.buf.WriteString("(pop)\n")
	}
	s.queries++
	s.time += time.Since(t0)
	switch r {
	case "sat":
		s.nsat++
	case "unsat":
		s.nunsat++
	default:
		s.nunk++
	}
	return r
}

// parseValues reads ((name val) (name val) ...) and returns the values in order
// (Bool true = 1).
func parseValues(txt string) []*big.Int {
	var out []*big.Int
	depth := 0
	i := 0
	for i < len(txt) {
		ch := txt[i]
		switch {
		case ch == '(':
			depth++
			i++
			if depth == 2 {
				// name
				for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
					i++
				}
				if txt[i] == '|' {
					j := strings.IndexByte(txt[i+1:], '|')
					i += j + 2
				} else {
					for i < len(txt) && txt[i] != ' ' && txt[i] != '\n' {
						i++
					}
				}
				// value
				for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
					i++
				}
				st := i
				d := 0
				for i < len(txt) {
					if txt[i] == '(' {
						d++
					} else if txt[i] == ')' {
						if d == 0 {
							break
						}
						d--
					}
					i++
				}
				out = append(out, parseVal(strings.TrimSpace(txt[st:i])))
			}
		case ch == ')':
			depth--
			i++
		default:
			i++
		}
	}
	return out
}

func parseVal(v string) *big.Int {
	switch v {
	case "true":
		return big.NewInt(1)
	case "false":
		return big.NewInt(0)
	}
	neg := false
	if strings.HasPrefix(v, "(-") {
		neg = true
		v = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(v, "(-"), ")"))
	}
	b, ok := new(big.Int).SetString(v, 10)
	if !ok {
		return nil
	}
	if neg {
		b.Neg(b)
	}
	return b
}
