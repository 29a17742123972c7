// Package sym is the harness interface of the symbolic executor. Its functions
// are replaced during symbolic execution; the bodies below give them their
// meaning when a harness is replayed natively against the real code.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"
)

type assign struct {
	Entry  string            `json:"entry"`
	Inputs map[string]string `json:"inputs"`
}

var inputs map[string]string
var used = map[string]int{}

// RunIfAsked runs the harness named in the SYM_ASSIGN file and exits.
func RunIfAsked(m map[string]func()) {
	f := os.Getenv("SYM_ASSIGN")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		os.Exit(5)
	}
	var a assign
	if err := json.Unmarshal(b, &a); err != nil {
		fmt.Println(err)
		os.Exit(5)
	}
	inputs = a.Inputs
	h := m[a.Entry]
	if h == nil {
		fmt.Println("no harness", a.Entry)
		os.Exit(5)
	}
	h()
	os.Exit(0)
}

func name(n string) string {
	c := used[n]
	used[n] = c + 1
	if c == 0 {
		return n
	}
	return fmt.Sprintf("%s~%d", n, c)
}

func get(n string, lo, hi int64) int64 {
	s, ok := inputs[n]
	if !ok {
		if lo <= 0 && 0 <= hi {
			return 0
		}
		return lo
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		fmt.Println("bad input", n, s)
		os.Exit(5)
	}
	return v
}

// Int64 is an arbitrary integer in [lo, hi].
func Int64(n string, lo, hi int64) int64 { return get(name(n), lo, hi) }

// Int is an arbitrary integer in [lo, hi].
func Int(n string, lo, hi int) int { return int(get(name(n), int64(lo), int64(hi))) }

// Byte is an arbitrary byte.
func Byte(n string) byte { return byte(get(name(n), 0, 255)) }

// Bool is an arbitrary boolean.
func Bool(n string) bool { return get(name(n), 0, 1) == 1 }

// Choice is an arbitrary integer in [0, n), explored one value per path.
func Choice(nm string, n int) int { return int(get(name(nm), 0, int64(n-1))) }

// Bytes is an arbitrary byte string of the given length.
func Bytes(nm string, n int) []byte {
	k := name(nm)
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(get(fmt.Sprintf("%s.%d", k, i), 0, 255))
	}
	return out
}

// Concretize explores each value of v on its own path.
func Concretize(v int64) int64 { return v }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		fmt.Println("SYM-ASSUME: assumption does not hold")
		os.Exit(4)
	}
}

// Assert is the property.
func Assert(b bool, msg string) {
	if !b {
		fmt.Println("SYM-VIOLATION: " + msg)
		os.Exit(3)
	}
}

// Reach marks a point that some path must reach.
func Reach(n string) {}

// Tier is 0 for the quick check and 1 for the thorough one.
func Tier() int {
	if os.Getenv("SYM_TIER") == "thorough" {
		return 1
	}
	return 0
}

// MapOrder selects the map iteration orders explored: 0 insertion, 1 insertion or reverse, 2 all.
func MapOrder(mode int) {}

// SchedForks bounds the number of scheduling decisions explored.
func SchedForks(n int) {}

// Preempt bounds the number of times a goroutine of the code under test is
// interrupted at an operation that synchronises (besides those at which it
// has to wait).
func Preempt(n int) {}

// RandForks bounds the number of random integer draws that are explored; the
// values of the others are fixed.
func RandForks(n int) {}

// RandMin restricts the explored draws to those out of at least n values.
func RandMin(n int) {}

// SelectForks explores every ready case of a select.
func SelectForks(b bool) {}

// RaceDetect records memory accesses and looks for unordered conflicting ones.
func RaceDetect(b bool) {}

// Symbolic tells whether the harness runs symbolically.
func Symbolic() bool { return false }

// Debug prints while debugging.
func Debug(a ...interface{}) {}

// WaitQuiescent waits until every other goroutine is blocked.
func WaitQuiescent(level int) {
	quiet := 0
	deadline := time.Now().Add(30 * time.Second)
	for quiet < 3 && time.Now().Before(deadline) {
		time.Sleep(300 * time.Microsecond)
		if othersBlocked() {
			quiet++
		} else {
			quiet = 0
		}
	}
}

func othersBlocked() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // the caller
		}
		l := g
		if k := strings.IndexByte(g, '\n'); k >= 0 {
			l = g[:k]
		}
		a, b := strings.IndexByte(l, '['), strings.IndexByte(l, ']')
		if a < 0 || b < a {
			continue
		}
		st := l[a+1 : b]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		switch st {
		case "running", "runnable", "syscall":
			if strings.Contains(g, "os/signal.") {
				continue
			}
			return false
		}
	}
	return true
}
