// Package verifkit is the common part of the property-based harnesses: running
// rapid under a time budget, counting what was covered, reporting.
package verifkit

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Stats is what one test function covered. It is written to
// $VERIF_OUT/<test>.json when the test ends.
type Stats struct {
	mu          sync.Mutex
	Test        string   `json:"test"`
	Rule        string   `json:"rule"`
	Evaluations int      `json:"evaluations"`
	Keys        []string `json:"keys"` // hashes of the distinct non-trivial cases
	Samples     []string `json:"samples"`
	Known       []string `json:"known"`
	Classes     map[string]int `json:"classes"`
	seen        map[string]bool
	frozen      atomic.Bool
}

var (
	start   = time.Now()
	outDir  = os.Getenv("VERIF_OUT")
	budget  = envSeconds("VERIF_BUDGET", 10)
	maxKeys = 20000
)

// Thorough says whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed returns the seed of this process.
func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_PROC_SEED"), 10, 64)
	return n
}

func envSeconds(name string, def float64) time.Duration {
	if v, err := strconv.ParseFloat(os.Getenv(name), 64); err == nil {
		def = v
	}
	return time.Duration(def * float64(time.Second))
}

func newStats(name, rule string) *Stats {
	return &Stats{Test: name, Rule: rule, seen: map[string]bool{}, Classes: map[string]int{}}
}

// Case records one evaluation of the property. key identifies the case when
// it is not trivial, and is empty when it is.
func (s *Stats) Case(key string, sample func() string) {
	if s.frozen.Load() {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Evaluations++
	if key == "" {
		return
	}
	h := sha256.Sum256([]byte(key))
	k := hex.EncodeToString(h[:8])
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	if len(s.Keys) < maxKeys {
		s.Keys = append(s.Keys, k)
	}
	// Samples: the first ones, then sparser ones.
	n := len(s.seen)
	if n <= 2 || (n&(n-1)) == 0 {
		if len(s.Samples) < 12 && sample != nil {
			v := sample()
			if len(v) > 600 {
				v = v[:600] + "..."
			}
			s.Samples = append(s.Samples, v)
		}
	}
}

// Class counts how often something of interest happened.
func (s *Stats) Class(name string) {
	if s.frozen.Load() {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Classes[name]++
}

// Known records that a listed finding was seen again.
func (s *Stats) KnownFinding(what string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, k := range s.Known {
		if k == what {
			return
		}
	}
	s.Known = append(s.Known, what)
}

func (s *Stats) write() {
	if outDir == "" {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	b, _ := json.Marshal(s)
	name := strings.ReplaceAll(s.Test, "/", "_")
	os.WriteFile(filepath.Join(outDir, name+".json"), b, 0o644)
}

// Check runs prop with rapid until the time budget of the process is used up
// (shared by the number of tests in VERIF_TESTS), or rapid.checks cases ran.
func Check(t *testing.T, rule string, prop func(t *rapid.T, s *Stats)) {
	t.Helper()
	s := newStats(t.Name(), rule)
	defer s.write()
	begin := time.Now()
	limit := budget
	var failed atomic.Bool
	ran := 0
	rapid.Check(t, func(rt *rapid.T) {
		if !failed.Load() && ran > 0 && time.Since(begin) > limit {
			return
		}
		ran++
		ok := false
		defer func() {
			if !ok {
				failed.Store(true)
				s.frozen.Store(true)
			}
		}()
		func() {
			defer func() {
				if e := recover(); e != nil {
					if isInvalid(e) {
						ok = true
					}
					panic(e)
				}
			}()
			prop(rt, s)
		}()
		ok = true
	})
}

// isInvalid recognises the panic with which rapid discards a case.
func isInvalid(e any) bool {
	return strings.Contains(fmt.Sprintf("%T", e), "invalidData")
}

// Enumerate runs f, an exhaustive or fixed enumeration, as one test with stats.
func Enumerate(t *testing.T, rule string, f func(s *Stats)) {
	t.Helper()
	s := newStats(t.Name(), rule)
	defer s.write()
	f(s)
}

// Infra ends the process because the environment (not the code under test)
// failed; the runner tries again.
func Infra(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	fmt.Fprintf(os.Stdout, "VERIF-INFRA: %s\n", msg)
	if outDir != "" {
		os.WriteFile(filepath.Join(outDir, "infra"), []byte(msg), 0o644)
	}
	os.Exit(77)
}

// Capture runs f and returns what it panicked with, if it did. It lets a
// property run in another goroutine (a synctest bubble) and still be recovered
// by rapid in its own.
type Captured struct {
	Value any
	Stack []byte
}

func Capture(f func()) (c *Captured) {
	done := false
	defer func() {
		if done {
			return
		}
		e := recover()
		if e == nil {
			// runtime.Goexit, i.e. FailNow outside rapid's control.
			c = &Captured{Value: "goexit"}
			return
		}
		c = &Captured{Value: e, Stack: debug.Stack()}
	}()
	f()
	done = true
	return nil
}

// Hash returns a short hash of its arguments.
func Hash(args ...any) string {
	h := sha256.Sum256([]byte(fmt.Sprint(args...)))
	return hex.EncodeToString(h[:6])
}
