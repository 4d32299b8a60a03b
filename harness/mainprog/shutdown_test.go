// Package verif_main checks the tlsproxy program as a whole.
package verif_main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

const patience = 20 * time.Second

// program is a tlsproxy process.
type program struct {
	cmd    *exec.Cmd
	addr   string
	exited chan struct{}
	code   int
	at     time.Time // of the exit
	mu     sync.Mutex
	log    bytes.Buffer
}

func (p *program) output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.log.String()
	if len(s) > 3000 {
		s = s[:1000] + "\n...\n" + s[len(s)-2000:]
	}
	return s
}

func binary() string {
	b := filepath.Join(os.Getenv("VERIF_BIN"), "tlsproxy")
	if _, err := os.Stat(b); err != nil {
		kit.Infra("%v", err)
	}
	return b
}

// start runs tlsproxy until it listens.
func start(dir, config string, args ...string) (*program, error) {
	file := filepath.Join(dir, "config.yaml")
	if err := os.WriteFile(file, []byte(config), 0o600); err != nil {
		kit.Infra("%v", err)
	}
	p := &program{exited: make(chan struct{})}
	p.cmd = exec.Command(binary(), append([]string{"-config=" + file, "-use-ephemeral-certificate-manager", "-stdout"}, args...)...)
	p.cmd.Env = append(os.Environ(), "CERTMANAGER_STATE_FILE="+filepath.Join(os.TempDir(), "ca.pem"))
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		kit.Infra("%v", err)
	}
	p.cmd.Stderr = p.cmd.Stdout
	// Don't outlive this process.
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		kit.Infra("%v", err)
	}
	addr := make(chan string, 1)
	go func() {
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			l := sc.Text()
			p.mu.Lock()
			fmt.Fprintln(&p.log, l)
			p.mu.Unlock()
			if _, a, ok := strings.Cut(l, "Accepting TLS connections on tcp "); ok {
				select {
				case addr <- a:
				default:
				}
			}
		}
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		p.at = time.Now()
		close(p.exited)
	}()
	select {
	case p.addr = <-addr:
		return p, nil
	case <-p.exited:
		return nil, fmt.Errorf("exit status %d: %s", p.code, p.output())
	case <-time.After(patience):
		p.kill()
		return nil, fmt.Errorf("doesn't start: %s", p.output())
	}
}

func (p *program) kill() {
	p.cmd.Process.Kill()
	<-p.exited
}

// upstream is a server behind the proxy. Its answers take as long as the
// request says.
type upstream struct {
	addr    string // HTTP
	tcp     string // echoes
	mu      sync.Mutex
	started map[string]chan struct{}
}

func (u *upstream) expect(id string) chan struct{} {
	u.mu.Lock()
	defer u.mu.Unlock()
	ch := make(chan struct{})
	u.started[id] = ch
	return ch
}

func (u *upstream) start(id string) {
	u.mu.Lock()
	defer u.mu.Unlock()
	if ch := u.started[id]; ch != nil {
		close(ch)
		delete(u.started, id)
	}
}

// text is what the answer to a request consists of.
func text(id string, n int) string {
	return strings.Repeat(fmt.Sprintf("%s/%d.", id, n), 50)
}

var theUpstream = sync.OnceValue(func() *upstream {
	u := &upstream{started: make(map[string]chan struct{})}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Infra("%v", err)
	}
	u.addr = l.Addr().String()
	// /id?head=ms&chunks=n&gap=ms
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		id := strings.TrimPrefix(req.URL.Path, "/")
		num := func(k string) int { n, _ := strconv.Atoi(req.URL.Query().Get(k)); return n }
		wait := func(k string) { time.Sleep(time.Duration(num(k)) * time.Millisecond) }
		read := 0
		if req.Method == "POST" {
			b := make([]byte, 1)
			read, _ = io.ReadFull(req.Body, b)
		}
		u.start(id)
		n, err := io.Copy(io.Discard, req.Body)
		n += int64(read)
		if err != nil {
			panic(http.ErrAbortHandler)
		}
		wait("head")
		w.Header().Set("X-Received", fmt.Sprint(n))
		w.WriteHeader(200)
		for i := range num("chunks") {
			http.NewResponseController(w).Flush()
			wait("gap")
			io.WriteString(w, text(id, i))
		}
	}))
	l2, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Infra("%v", err)
	}
	u.tcp = l2.Addr().String()
	go func() {
		for {
			c, err := l2.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				io.Copy(c, c)
			}()
		}
	}()
	return u
})

// slowBody is a request body that arrives in pieces.
type slowBody struct {
	n    int
	gap  time.Duration
	next bool
}

func (b *slowBody) Read(p []byte) (int, error) {
	if b.n == 0 {
		return 0, io.EOF
	}
	if b.next {
		time.Sleep(b.gap)
	}
	b.next = true
	b.n--
	return copy(p, "0123456789"), nil
}

func dialTLS(addr, name string, protos ...string) (*tls.Conn, error) {
	d := &tls.Dialer{
		NetDialer: &net.Dialer{Timeout: patience},
		Config:    &tls.Config{ServerName: name, InsecureSkipVerify: true, NextProtos: protos},
	}
	c, err := d.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	return c.(*tls.Conn), nil
}

func client(addr, name, proto string) *http.Client {
	tr := &http.Transport{
		DialTLSContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			return dialTLS(addr, name, map[string]string{"h1": "http/1.1", "h2": "h2"}[proto])
		},
		ForceAttemptHTTP2: proto == "h2",
		TLSClientConfig:   &tls.Config{NextProtos: []string{"h2"}},
	}
	return &http.Client{Transport: tr}
}

var caseNum atomic.Int64

func TestC43Shutdown(t *testing.T) {
	kit.Check(t, "a tlsproxy process with HTTP, LOCAL, TCP and TLS backends, clients (HTTP/1.1 and HTTP/2, several requests per connection) whose requests and answers take 0-2.5s in pieces, idle connections, streams and half-open handshakes; SIGTERM or SIGINT at any moment, sometimes twice, with a grace period that's long enough, or too short; non-trivial: at least one request was in progress when the signal was sent", func(t *rapid.T, s *kit.Stats) {
		u := theUpstream()
		type reqst struct {
			host, proto        string
			conn               int // requests of the same number share a client
			method             string
			head, chunks, gap  int
			upN, upGap         int
			begin              int // ms before the signal
			total              time.Duration
			id                 string
			ok                 bool
			err                error
			began              chan struct{}
			inProgress, failed bool
		}
		n := rapid.IntRange(0, 8).Draw(t, "requests")
		if rapid.IntRange(0, 3).Draw(t, "many") == 0 {
			n = 24
		}
		// Requests may end all at the same time.
		together := rapid.IntRange(0, 2).Draw(t, "together") == 0
		var reqs []*reqst
		for i := range n {
			r := &reqst{
				host:   rapid.SampledFrom([]string{"www.example.com", "www.example.com", "other.example.com"}).Draw(t, "host"),
				proto:  rapid.SampledFrom([]string{"h1", "h2"}).Draw(t, "proto"),
				conn:   rapid.IntRange(0, 7).Draw(t, "conn"),
				method: rapid.SampledFrom([]string{"GET", "GET", "POST"}).Draw(t, "method"),
				head:   rapid.SampledFrom([]int{0, 50, 400, 1000}).Draw(t, "head"),
				chunks: rapid.IntRange(0, 4).Draw(t, "chunks"),
				gap:    rapid.SampledFrom([]int{0, 10, 100, 300}).Draw(t, "gap"),
				id:     fmt.Sprintf("c%d.%d", caseNum.Add(1), i),
				begin:  rapid.SampledFrom([]int{0, 5, 30, 100, 500}).Draw(t, "begin"),
			}
			if together {
				r.method, r.head, r.chunks, r.gap, r.begin = "GET", 600, 0, 0, 100
			}
			if r.method == "POST" {
				r.upN = rapid.IntRange(1, 4).Draw(t, "upN")
				r.upGap = rapid.SampledFrom([]int{0, 50, 200}).Draw(t, "upGap")
			}
			r.total = time.Duration(r.head+r.chunks*r.gap+max(r.upN-1, 0)*r.upGap) * time.Millisecond
			reqs = append(reqs, r)
		}
		idle := rapid.SliceOfN(rapid.SampledFrom([]string{"h1", "h2", "tcp", "tls", "local"}), 0, 4).Draw(t, "idle")
		// What hasn't done anything yet may take a while to be given up.
		stuck := rapid.SliceOfN(rapid.SampledFrom([]string{"raw", "new h1", "new h2", "half request"}), 0, 1).Draw(t, "stuck")
		sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGTERM, syscall.SIGINT}).Draw(t, "signal")
		short := rapid.IntRange(0, 4).Draw(t, "short") == 0
		twice := rapid.IntRange(0, 5).Draw(t, "twice") == 0
		grace := 60 * time.Second
		if short {
			grace = time.Second
		} else if len(stuck) > 0 {
			grace = 5 * time.Second
		}

		dir, err := os.MkdirTemp("", "main")
		if err != nil {
			kit.Infra("%v", err)
		}
		defer os.RemoveAll(dir)
		p, err := start(dir, fmt.Sprintf(`
httpAddr: "127.0.0.1:0"
tlsAddr: "127.0.0.1:0"
cacheDir: %q
backends:
- serverNames: [www.example.com, other.example.com]
  mode: http
  addresses: [%q]
  forwardRateLimit: 100000
- serverNames: [local.example.com]
  mode: local
- serverNames: [tcp.example.com]
  mode: tcp
  addresses: [%q]
  forwardRateLimit: 100000
`, filepath.Join(dir, "cache"), u.addr, u.tcp), "-shutdown-grace-period="+grace.String())
		if err != nil {
			t.Fatalf("start: %v", err)
		}
		defer p.kill()

		// Get the connections ready.
		clients := make(map[string]*http.Client)
		get := func(cl *http.Client, host string) error {
			resp, err := cl.Get("https://" + host + "/warm-up")
			if err != nil {
				return err
			}
			defer resp.Body.Close()
			_, err = io.Copy(io.Discard, resp.Body)
			return err
		}
		for _, r := range reqs {
			k := fmt.Sprint(r.host, r.proto, r.conn)
			if clients[k] == nil {
				clients[k] = client(p.addr, r.host, r.proto)
				if err := get(clients[k], r.host); err != nil {
					t.Fatalf("warm-up: %v", err)
				}
			}
		}
		var streams []*tls.Conn
		for _, k := range idle {
			switch k {
			case "h1", "h2":
				cl := client(p.addr, "www.example.com", k)
				clients[fmt.Sprint("idle", len(clients))] = cl
				if err := get(cl, "www.example.com"); err != nil {
					t.Fatalf("idle: %v", err)
				}
			case "local":
				cl := client(p.addr, "local.example.com", "h2")
				clients[fmt.Sprint("idle", len(clients))] = cl
				if err := get(cl, "local.example.com"); err != nil {
					t.Fatalf("idle: %v", err)
				}
			default:
				c, err := dialTLS(p.addr, "tcp.example.com")
				if err != nil {
					t.Fatalf("stream: %v", err)
				}
				defer c.Close()
				b := make([]byte, 4)
				c.SetDeadline(time.Now().Add(patience))
				if _, err := c.Write([]byte("ping")); err != nil {
					t.Fatalf("stream: %v", err)
				}
				if _, err := io.ReadFull(c, b); err != nil {
					t.Fatalf("stream: %v", err)
				}
				streams = append(streams, c)
			}
		}
		for _, k := range stuck {
			switch k {
			case "raw":
				c, err := net.Dial("tcp", p.addr)
				if err != nil {
					t.Fatalf("%v", err)
				}
				defer c.Close()
				c.Write([]byte{0x16, 3, 1})
			default:
				c, err := dialTLS(p.addr, "www.example.com", map[bool]string{true: "h2", false: "http/1.1"}[k == "new h2"])
				if err != nil {
					t.Fatalf("%s: %v", k, err)
				}
				defer c.Close()
				if k == "half request" {
					io.WriteString(c, "GET / HTTP/1.1\r\nHost: www.exam")
				}
			}
		}
		defer func() {
			for _, c := range clients {
				c.CloseIdleConnections()
			}
		}()

		// The requests begin, and then the signal is sent.
		var wg sync.WaitGroup
		for _, r := range reqs {
			r.began = u.expect(r.id)
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(500-r.begin) * time.Millisecond)
				var body io.Reader
				if r.method == "POST" {
					body = &slowBody{n: r.upN, gap: time.Duration(r.upGap) * time.Millisecond}
				}
				req, _ := http.NewRequest(r.method, fmt.Sprintf("https://%s/%s?head=%d&chunks=%d&gap=%d", r.host, r.id, r.head, r.chunks, r.gap), body)
				r.err = func() error {
					resp, err := clients[fmt.Sprint(r.host, r.proto, r.conn)].Do(req)
					if err != nil {
						return err
					}
					defer resp.Body.Close()
					b, err := io.ReadAll(resp.Body)
					if err != nil {
						return fmt.Errorf("body: %w", err)
					}
					want := ""
					for i := range r.chunks {
						want += text(r.id, i)
					}
					if resp.StatusCode != 200 || string(b) != want || resp.Header.Get("X-Received") != fmt.Sprint(10*r.upN) {
						r.failed = true
						return fmt.Errorf("status %d, %d bytes of %d, the server got %s of %d", resp.StatusCode, len(b), len(want), resp.Header.Get("X-Received"), 10*r.upN)
					}
					return nil
				}()
			}()
		}
		time.Sleep(500 * time.Millisecond)
		busy, longest := 0, time.Duration(0)
		for _, r := range reqs {
			select {
			case <-r.began:
				r.inProgress = true
				busy++
				longest = max(longest, r.total)
			default:
			}
		}
		sent := time.Now()
		p.cmd.Process.Signal(sig)
		what := fmt.Sprintf("%v twice=%v grace %v, %d requests in progress of %d, longest %v, together=%v, idle %v, stuck %v", sig, twice, grace, busy, len(reqs), longest, together, idle, stuck)
		fail := func(f string, a ...any) {
			t.Fatalf("%s: %s\n%s", fmt.Sprintf(f, a...), what, p.output())
		}
		if twice {
			time.Sleep(300 * time.Millisecond)
			// Nothing may be left to wait for.
			p.cmd.Process.Signal(sig)
			select {
			case <-p.exited:
			case <-time.After(5 * time.Second):
				fail("still running %v after the second signal", time.Since(sent))
			}
			wg.Wait()
			for _, r := range reqs {
				if r.failed {
					fail("request %s %+v: %v", r.id, *r, r.err)
				}
			}
			s.Case("", nil)
			return
		}
		// It listens no more.
		for {
			c, err := net.DialTimeout("tcp", p.addr, time.Second)
			if err != nil {
				break
			}
			c.Close()
			if time.Since(sent) > 5*time.Second {
				fail("it still accepts connections")
			}
			time.Sleep(20 * time.Millisecond)
		}
		// It ends when everything is done, or when the time is up.
		limit := grace
		if len(stuck) == 0 {
			limit = min(grace, longest)
		}
		limit += 8 * time.Second
		select {
		case <-p.exited:
		case <-time.After(limit):
			fail("still running %v after the signal", time.Since(sent))
		}
		if p.code != 0 {
			fail("exit status %d", p.code)
		}
		wg.Wait()
		for _, r := range reqs {
			// An answer is never wrong, or cut short without the client noticing.
			if r.failed {
				fail("request %s %s after %v: %v", r.proto, r.method, r.total, r.err)
			}
			if r.inProgress && r.err != nil && (!short || r.total < 300*time.Millisecond) {
				fail("%s %s request (head %dms, %d chunks every %dms, body %d every %dms) in progress: %v", r.proto, r.method, r.head, r.chunks, r.gap, r.upN, r.upGap, r.err)
			}
		}
		// Streams end with the process.
		for _, c := range streams {
			c.SetReadDeadline(time.Now().Add(patience))
			if _, err := c.Read(make([]byte, 1)); err == nil || errors.Is(err, os.ErrDeadlineExceeded) {
				fail("stream: %v", err)
			}
		}
		key := ""
		if busy > 0 {
			key = kit.Hash(what, fmt.Sprint(len(reqs)), caseNum.Load())
		}
		s.Case(key, func() string { return what })
	})
}
