package verif_main

import (
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// theNamed are servers that say who they are.
var theNamed = sync.OnceValue(func() (addrs []string) {
	for i := range 3 {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			kit.Infra("%v", err)
		}
		addrs = append(addrs, l.Addr().String())
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					defer c.Close()
					fmt.Fprintf(c, "server %d\n", i)
				}()
			}
		}()
	}
	return addrs
})

// ask returns what the server for name says, or "" when there is none.
func ask(p *program, name string) string {
	c, err := dialTLS(p.addr, name)
	if err != nil {
		return ""
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(patience))
	b, _ := io.ReadAll(c)
	return strings.TrimSpace(string(b))
}

// TestC27Reload edits the configuration file of running processes.
func TestC27Reload(t *testing.T) {
	kit.Check(t, "6 tlsproxy processes at a time; the configuration file of each is replaced (in place or by renaming), removed, cut, or made invalid (in several ways), 3 times at any moment; the last valid one is in effect soon, the invalid ones never are, and the process lives on; non-trivial: a valid change after an invalid one, or two valid ones", func(t *rapid.T, s *kit.Stats) {
		servers := theNamed()
		type step struct {
			Kind   string
			Map    [2]int // server names to servers, -1: none
			Rename bool
			Wait   time.Duration
		}
		genMap := func() (m [2]int) {
			m[0] = rapid.IntRange(0, 2).Draw(t, "a")
			m[1] = rapid.IntRange(-1, 2).Draw(t, "b")
			return m
		}
		type history struct {
			first [2]int
			steps []step
		}
		var hist []history
		for range 6 {
			h := history{first: genMap()}
			for i := range 3 {
				st := step{Kind: "valid", Rename: rapid.Bool().Draw(t, "rename"), Wait: time.Duration(rapid.IntRange(0, 3000).Draw(t, "wait")) * time.Millisecond}
				if i < 2 {
					st.Kind = rapid.SampledFrom([]string{"valid", "missing", "yaml", "unknown", "mode", "cut", "noserver", "directory"}).Draw(t, "kind")
				}
				st.Map = genMap()
				h.steps = append(h.steps, st)
			}
			hist = append(hist, h)
		}
		config := func(dir string, m [2]int) string {
			out := fmt.Sprintf("httpAddr: \"127.0.0.1:0\"\ntlsAddr: \"127.0.0.1:0\"\ncacheDir: %q\nbackends:\n", filepath.Join(dir, "cache"))
			for i, name := range []string{"a.example.com", "b.example.com"} {
				if m[i] >= 0 {
					out += fmt.Sprintf("- serverNames: [%s]\n  mode: tcp\n  addresses: [%q]\n  forwardRateLimit: 100000\n", name, servers[m[i]])
				}
			}
			return out
		}
		says := func(p *program) (m [2]int) {
			for i, name := range []string{"a.example.com", "b.example.com"} {
				m[i] = -1
				if r := ask(p, name); r != "" {
					fmt.Sscanf(r, "server %d", &m[i])
				}
			}
			return m
		}
		run := func(h history) error {
			dir, err := os.MkdirTemp("", "main")
			if err != nil {
				kit.Infra("%v", err)
			}
			defer os.RemoveAll(dir)
			p, err := start(dir, config(dir, h.first))
			if err != nil {
				return err
			}
			defer p.kill()
			if got := says(p); got != h.first {
				return fmt.Errorf("at first: %v, want %v\n%s", got, h.first, p.output())
			}
			cur := h.first
			file := filepath.Join(dir, "config.yaml")
			for i, st := range h.steps {
				time.Sleep(st.Wait)
				what := fmt.Sprintf("step %d of %+v", i, h)
				text := config(dir, st.Map)
				switch st.Kind {
				case "missing", "directory":
					text = ""
				case "yaml":
					text += "- {\n"
				case "unknown":
					text += "noSuchThing: true\n"
				case "mode":
					text = strings.Replace(text, "mode: tcp", "mode: tpc", 1)
				case "noserver":
					text = strings.Replace(text, "addresses:", "addresses: []\n  documentRoot:", 1)
				case "cut":
					text = text[:len(text)-len("  forwardRateLimit: 100000\n")-5]
				}
				os.RemoveAll(file)
				switch {
				case st.Kind == "missing":
				case st.Kind == "directory":
					err = os.Mkdir(file, 0o700)
				case st.Rename:
					if err = os.WriteFile(file+".tmp", []byte(text), 0o600); err == nil {
						err = os.Rename(file+".tmp", file)
					}
				default:
					err = os.WriteFile(file, []byte(text), 0o600)
				}
				if err != nil {
					kit.Infra("%v", err)
				}
				begin := time.Now()
				if st.Kind == "valid" {
					for says(p) != st.Map {
						if time.Since(begin) > 60*time.Second {
							return fmt.Errorf("the change isn't in effect after a minute: %v, want %v: %s\n%s", says(p), st.Map, what, p.output())
						}
						time.Sleep(500 * time.Millisecond)
					}
					cur = st.Map
				} else {
					time.Sleep(31 * time.Second)
					if got := says(p); got != cur {
						return fmt.Errorf("%v, want %v: %s\n%s", got, cur, what, p.output())
					}
				}
				select {
				case <-p.exited:
					return fmt.Errorf("exit status %d: %s\n%s", p.code, what, p.output())
				default:
				}
			}
			return nil
		}
		errs := make([]error, len(hist))
		var wg sync.WaitGroup
		for i, h := range hist {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = run(h)
			}()
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				t.Fatalf("%v", err)
			}
			h := hist[i]
			s.Case(kit.Hash(h.first, h.steps), func() string { return fmt.Sprintf("%+v", h) })
		}
	})
}
