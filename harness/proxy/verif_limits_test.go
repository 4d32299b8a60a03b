package proxy

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// limAcc counts what was transferred under a limit.
type limAcc struct {
	desc        string
	mu          sync.Mutex
	n           int64
	burst, rate float64
	start       time.Time
	extra       float64 // from other rates before or after
	bad         string
	want        int64
}

func (a *limAcc) add(n int) {
	if a == nil {
		return
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	a.n += int64(n)
	d := time.Since(a.start)
	if max := a.burst + a.rate*d.Seconds() + a.extra; a.bad == "" && float64(a.n) > max {
		a.bad = fmt.Sprintf("%s: %d in %v, maximum is %.0f (burst %.0f, rate %.0f/s)", a.desc, a.n, d, max, a.burst, a.rate)
	}
}

// faster is called when the rate is about to increase.
func (a *limAcc) faster(rate float64) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.extra += a.rate * time.Since(a.start).Seconds()
	a.start = time.Now()
	a.rate = max(rate, a.rate)
	a.burst += max(rate, 1<<17)
}

// Transfers are started by the client with a command: the direction, the
// transfer number, and how many bytes.
type limFlow struct {
	kind string // tcp, pass, h1, h2, static
	down bool
	host string
	size int
	acc  *limAcc
	id   int
}

func (f *limFlow) String() string {
	return fmt.Sprintf("%s to %s, %d bytes, down=%v", f.kind, f.host, f.size, f.down)
}

type limLab struct {
	mu    sync.Mutex
	flows map[int]*limFlow
	reqs  map[string]*limAcc // by host
}

func (ll *limLab) flow(id int) *limFlow {
	ll.mu.Lock()
	defer ll.mu.Unlock()
	return ll.flows[id]
}

type patReader struct{ n int }

func (p *patReader) Read(b []byte) (int, error) {
	if p.n == 0 {
		return 0, io.EOF
	}
	n := min(len(b), p.n)
	for i := range n {
		b[i] = byte(i)
	}
	p.n -= n
	return n, nil
}

// count reads everything.
func (a *limAcc) count(r io.Reader, size int) (int, error) {
	buf := make([]byte, 8192)
	total := 0
	for total < size {
		n, err := r.Read(buf)
		a.add(n)
		total += n
		if err != nil && total < size {
			return total, err
		}
	}
	return total, nil
}

// With QUIC: a connection or a client, see verif_limitsquic_test.go.
var (
	limQUICConn   func(l *vlab, host string) (net.Conn, error)
	limQUICClient func(l *vlab, host string) (func(req *http.Request) (*http.Response, error), func(), error)
	limQUICUps    func(l *vlab, serve func(c io.ReadWriteCloser))
)

// serve is the upstream server.
func (ll *limLab) serve(c io.ReadWriteCloser) {
	defer c.Close()
	br := bufio.NewReaderSize(c, 16384)
	first, err := br.Peek(1)
	if err != nil {
		return
	}
	if first[0] == 22 {
		var h [5]byte
		io.ReadFull(br, h[:])
		br.Discard(int(binary.BigEndian.Uint16(h[3:])))
		if first, err = br.Peek(1); err != nil {
			return
		}
	}
	switch first[0] {
	case 'd', 'u':
		var cmd [9]byte
		if _, err := io.ReadFull(br, cmd[:]); err != nil {
			return
		}
		f := ll.flow(int(binary.BigEndian.Uint32(cmd[1:])))
		size := int(binary.BigEndian.Uint32(cmd[5:]))
		if first[0] == 'd' {
			io.Copy(c, &patReader{size})
		} else if n, _ := f.acc.count(br, size); n == size {
			c.Write([]byte("k"))
		}
	case 'r': // For the request rate: the name of the host.
		s, err := br.ReadString('\n')
		if err != nil {
			return
		}
		ll.mu.Lock()
		a := ll.reqs[strings.TrimSpace(s[1:])]
		ll.mu.Unlock()
		a.add(1)
		c.Write([]byte("k"))
	default:
		for {
			req, err := http.ReadRequest(br)
			if err != nil {
				return
			}
			ll.mu.Lock()
			a := ll.reqs[strings.Split(req.Host, ":")[0]]
			ll.mu.Unlock()
			if a != nil {
				a.add(1)
			}
			p := strings.Split(req.URL.Path, "/")
			resp := &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Request: req}
			switch p[1] {
			case "d":
				size, _ := strconv.Atoi(p[3])
				resp.ContentLength = int64(size)
				resp.Body = io.NopCloser(&patReader{size})
			case "u":
				id, _ := strconv.Atoi(p[2])
				size, _ := strconv.Atoi(p[3])
				if n, _ := ll.flow(id).acc.count(req.Body, size); n != size {
					return
				}
				io.Copy(io.Discard, req.Body)
				resp.ContentLength = 1
				resp.Body = io.NopCloser(strings.NewReader("k"))
			default:
				resp.ContentLength = 1
				resp.Body = io.NopCloser(strings.NewReader("k"))
			}
			if err := resp.Write(c); err != nil {
				return
			}
		}
	}
}

// limClient is a client connection. Its requests can be concurrent with h2.
func (l *vlab) limClient(kind, host string) (func(req *http.Request) (*http.Response, error), func(), error) {
	if kind == "h3" {
		return limQUICClient(l, host)
	}
	c := l.dial()
	c.SetDeadline(time.Time{})
	proto := "http/1.1"
	if kind == "h2" {
		proto = "h2"
	}
	tc := tls.Client(c, clientTLS(host, proto))
	tc.SetDeadline(time.Now().Add(2 * patience))
	if err := tc.Handshake(); err != nil {
		c.Close()
		return nil, nil, err
	}
	if kind == "h2" {
		cc, err := h2Conn(tc)
		if err != nil {
			c.Close()
			return nil, nil, err
		}
		return cc.RoundTrip, func() { cc.Close(); c.Close() }, nil
	}
	br := bufio.NewReader(tc)
	return func(req *http.Request) (*http.Response, error) {
		if err := req.Write(tc); err != nil {
			return nil, err
		}
		return http.ReadResponse(br, req)
	}, func() { c.Close() }, nil
}

func limHello(sni string) []byte {
	a, b := net.Pipe()
	go tls.Client(a, clientTLS(sni)).Handshake()
	buf := make([]byte, 65536)
	k, _ := b.Read(buf)
	for k < 5 || k < 5+int(buf[3])<<8+int(buf[4]) {
		m, err := b.Read(buf[k:])
		if err != nil {
			break
		}
		k += m
	}
	a.Close()
	b.Close()
	return buf[:k]
}

func (l *vlab) limRaw(kind, host string) (net.Conn, error) {
	if strings.HasPrefix(kind, "quic") {
		return limQUICConn(l, host)
	}
	c := l.dial()
	c.SetDeadline(time.Now().Add(2 * patience))
	if kind == "pass" {
		_, err := c.Write(limHello(host))
		return c, err
	}
	tc := tls.Client(c, clientTLS(host))
	if err := tc.Handshake(); err != nil {
		c.Close()
		return nil, err
	}
	return tc, nil
}

// run does one transfer.
func (f *limFlow) run(l *vlab) error {
	switch f.kind {
	case "tcp", "pass", "quic tcp", "quic quic":
		c, err := l.limRaw(f.kind, f.host)
		if err != nil {
			return err
		}
		defer c.Close()
		cmd := []byte{'d'}
		if !f.down {
			cmd[0] = 'u'
		}
		cmd = binary.BigEndian.AppendUint32(cmd, uint32(f.id))
		cmd = binary.BigEndian.AppendUint32(cmd, uint32(f.size))
		if _, err := c.Write(cmd); err != nil {
			return err
		}
		if f.down {
			_, err := f.acc.count(c, f.size)
			return err
		}
		if _, err := io.Copy(c, &patReader{f.size}); err != nil {
			return err
		}
		_, err = io.ReadFull(c, cmd[:1])
		return err
	}
	do, done, err := l.limClient(strings.TrimPrefix(f.kind, "static "), f.host)
	if err != nil {
		return err
	}
	defer done()
	method, dir, body := "POST", "u", io.Reader(&patReader{f.size})
	if f.down {
		method, dir, body = "GET", "d", nil
	}
	target := fmt.Sprintf("https://%s/%s/%d/%d", f.host, dir, f.id, f.size)
	if strings.HasPrefix(f.kind, "static") {
		target = fmt.Sprintf("https://%s/file", f.host)
	}
	req, err := http.NewRequest(method, target, body)
	if err != nil {
		return err
	}
	if body != nil {
		req.ContentLength = int64(f.size)
	}
	resp, err := do(req)
	if err != nil {
		return err
	}
	defer resp.Body.Close()
	if resp.StatusCode != 200 {
		return fmt.Errorf("status %d", resp.StatusCode)
	}
	if f.down {
		_, err := f.acc.count(resp.Body, f.size)
		return err
	}
	_, err = io.Copy(io.Discard, resp.Body)
	return err
}

var limSeq int

func TestC25Proxy(t *testing.T) {
	l := theLab()
	kit.Check(t, "1-3 bandwidth limits with any names, rates of 100-400 KB/s each way, shared by 1-3 backends (TCP, passthrough, HTTP, static files) with 1-5 simultaneous transfers in both directions, with or without a change of the rates meanwhile, along with backends without a limit; and 1-3 backends with request rate limits of 2-20 per second receiving up to three times as many connections or requests, over one or several connections, in sequence or concurrently; what arrives is counted all along: it never exceeds the burst plus the rate multiplied by the time, and everything arrives in the end; real time; non-trivial: a limit was shared by several connections, or a request rate was exceeded", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		ll := &limLab{flows: map[int]*limFlow{}, reqs: map[string]*limAcc{}}
		for _, u := range l.ups {
			u.handle(func(c *vconn) { ll.serve(c) })
		}
		quic := limQUICUps != nil
		rawKinds, flowKinds, h1h2, rateKinds := []string{"tcp", "pass"}, []string{"tcp", "pass", "http", "static"}, []string{"h1", "h2"}, []string{"tcp", "pass", "h1", "h2", "h1", "h2", "h2 together"}
		if quic {
			limQUICUps(l, ll.serve)
			rawKinds = []string{"tcp", "pass", "quic tcp", "quic quic", "quic tcp", "quic quic"}
			flowKinds = []string{"tcp", "quic tcp", "quic quic", "http", "http", "static"}
			h1h2 = []string{"h1", "h2", "h3", "h3", "h3", "h3"}
			rateKinds = []string{"quic tcp", "quic quic", "h3", "h3 together"}
		}
		cfg := l.cfg(quic)
		var accs []*limAcc
		var flows []*limFlow
		var desc []string
		nontrivial := false
		change := rapid.IntRange(0, 3).Draw(t, "change") == 0
		limSeq++
		start := time.Now()
		nlim := rapid.IntRange(1, 3).Draw(t, "limits")
		for i := range nlim {
			name := randCase(t, fmt.Sprintf("limit%d", i)) + fmt.Sprint(limSeq)
			bw := &BWLimit{Name: name, Ingress: float64(rapid.IntRange(100000, 400000).Draw(t, "ingress")), Egress: float64(rapid.IntRange(100000, 400000).Draw(t, "egress"))}
			cfg.BWLimits = append(cfg.BWLimits, bw)
			up := &limAcc{desc: name + " ingress", burst: max(bw.Ingress, 1<<17), rate: bw.Ingress, start: start}
			down := &limAcc{desc: name + " egress", burst: max(bw.Egress, 1<<17), rate: bw.Egress, start: start}
			accs = append(accs, up, down)
			var kinds, hosts []string
			for j := range rapid.IntRange(1, 3).Draw(t, "backends") {
				kind := rapid.SampledFrom(flowKinds).Draw(t, "kind")
				if change && kind != "tcp" {
					// The others are closed.
					kind = "pass"
				}
				host := fmt.Sprintf("l%d-%d.example.com", i, j)
				be := &Backend{ServerNames: []string{host}, BWLimit: name, ForwardRateLimit: 100000}
				switch kind {
				case "tcp":
					be.Mode, be.Addresses = "TCP", []string{l.ups[j].addr}
				case "pass":
					be.Mode, be.Addresses = "TLSPASSTHROUGH", []string{l.ups[j].addr}
				case "quic tcp":
					be.Mode, be.Addresses, be.ALPNProtos = "TCP", []string{l.ups[j].addr}, &[]string{"x"}
				case "quic quic":
					be.Mode, be.Addresses, be.ALPNProtos, be.InsecureSkipVerify = "QUIC", []string{l.ups[j].addr}, &[]string{"x"}, true
				case "http":
					be.Mode, be.Addresses = "HTTP", []string{l.ups[j].addr}
				case "static":
					be.Mode, be.DocumentRoot = "HTTP", limRoot(l)
				}
				cfg.Backends = append(cfg.Backends, be)
				kinds, hosts = append(kinds, kind), append(hosts, host)
			}
			n := rapid.IntRange(1, 5).Draw(t, "transfers")
			nontrivial = nontrivial || n > 1
			for range n {
				b := rapid.IntRange(0, len(kinds)-1).Draw(t, "backend")
				f := &limFlow{kind: kinds[b], host: hosts[b], down: rapid.Bool().Draw(t, "down")}
				if f.kind == "static" {
					f.down = true
					if quic && rapid.IntRange(0, 1).Draw(t, "static proto") == 0 {
						f.kind = "static h3"
					}
				}
				if f.kind == "http" {
					f.kind = rapid.SampledFrom(h1h2).Draw(t, "proto")
				}
				f.acc = up
				if f.down {
					f.acc = down
				}
				// Together, they need about a second more than the burst.
				f.size = rapid.IntRange(int(f.acc.burst)/n, int(f.acc.burst+1.5*f.acc.rate)/n).Draw(t, "size")
				if strings.HasPrefix(f.kind, "static") {
					f.size = limFile
				}
				f.acc.want += int64(f.size)
				flows = append(flows, f)
			}
		}
		if rapid.Bool().Draw(t, "unlimited") {
			cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{"free.example.com"}, Mode: "TCP", Addresses: []string{l.ups[4].addr}, ForwardRateLimit: 100000})
			flows = append(flows, &limFlow{kind: "tcp", host: "free.example.com", down: rapid.Bool().Draw(t, "down"), size: 3000000})
		}
		for i, f := range flows {
			f.id = i
			ll.flows[i] = f
			desc = append(desc, f.String())
		}
		// Request rates.
		type job struct {
			what string
			run  func() error
		}
		var jobs []job
		for _, f := range flows {
			jobs = append(jobs, job{f.String(), func() error { return f.run(l) }})
		}
		for i := range rapid.IntRange(1, 3).Draw(t, "rates") {
			host := fmt.Sprintf("r%d.example.com", i)
			n := rapid.IntRange(2, 20).Draw(t, "rate")
			eff := n
			kind := rapid.SampledFrom(rateKinds).Draw(t, "rate kind")
			be := &Backend{ServerNames: []string{host}, ForwardRateLimit: n, Addresses: []string{l.ups[5+i].addr}}
			if rapid.IntRange(0, 4).Draw(t, "default rate") == 0 {
				be.ForwardRateLimit, eff = 0, 5
			}
			switch kind {
			case "tcp":
				be.Mode = "TCP"
			case "pass":
				be.Mode = "TLSPASSTHROUGH"
			case "quic tcp":
				be.Mode, be.ALPNProtos = "TCP", &[]string{"x"}
			case "quic quic":
				be.Mode, be.ALPNProtos, be.InsecureSkipVerify = "QUIC", &[]string{"x"}, true
			default:
				be.Mode = "HTTP"
				if rapid.Bool().Draw(t, "override") {
					be.PathOverrides = []*PathOverride{{Paths: []string{"/r/"}, Addresses: []string{l.ups[4].addr}}}
				}
			}
			cfg.Backends = append(cfg.Backends, be)
			a := &limAcc{desc: host + " requests", burst: float64(eff), rate: float64(eff), start: start}
			if change {
				// The new configuration has new limiters, and requests that
				// were waiting can still be served.
				a.burst *= 2
				a.rate *= 2
			}
			accs = append(accs, a)
			ll.reqs[host] = a
			total := rapid.IntRange(eff, 3*eff).Draw(t, "requests")
			a.want = int64(total)
			nontrivial = nontrivial || total > 2*eff
			conns := 1
			raw := slices.Contains(rawKinds, kind)
			if !raw {
				conns = rapid.IntRange(1, min(4, total)).Draw(t, "conns")
			} else {
				conns = total
			}
			desc = append(desc, fmt.Sprintf("%d requests to %s (%s, %d connections, rate %d, maximum %d)", total, host, kind, conns, be.ForwardRateLimit, eff))
			for c := range conns {
				mine := (total + c) / conns
				jobs = append(jobs, job{"requests to " + host, func() error {
					if raw {
						for range mine {
							c, err := l.limRaw(kind, host)
							if err != nil {
								return err
							}
							c.Write([]byte("r" + host + "\n"))
							_, err = io.ReadFull(c, make([]byte, 1))
							c.Close()
							if err != nil {
								return err
							}
						}
						return nil
					}
					do, done, err := l.limClient(strings.Split(kind, " ")[0], host)
					if err != nil {
						return err
					}
					defer func() { done() }()
					one := func() error {
						req, _ := http.NewRequest("GET", "https://"+host+"/r/x", nil)
						resp, err := do(req)
						if err != nil {
							return err
						}
						b, err := io.ReadAll(resp.Body)
						resp.Body.Close()
						if err == nil && !bytes.Equal(b, []byte("k")) {
							return fmt.Errorf("status %d %.40q", resp.StatusCode, b)
						}
						return err
					}
					if strings.HasSuffix(kind, " together") {
						ch := make(chan error)
						for range mine {
							go func() { ch <- one() }()
						}
						var err error
						for range mine {
							if e := <-ch; e != nil {
								err = e
							}
						}
						return err
					}
					for k := range mine {
						if err := one(); err != nil {
							// The new configuration closes connections.
							if !change || k == mine {
								return err
							}
							done()
							if do, done, err = l.limClient(kind, host); err != nil {
								done = func() {}
								return err
							}
							if err := one(); err != nil {
								return err
							}
						}
					}
					return nil
				}})
			}
		}
		if change {
			// Requests can fail when their configuration is replaced.
			for i := range jobs {
				if strings.HasPrefix(jobs[i].what, "requests") {
					run := jobs[i].run
					jobs[i].run = func() error { run(); return nil }
				}
			}
		}
		fatalf := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\nchange=%v limits=%d\n%s", fmt.Sprintf(f, a...), change, nlim, strings.Join(desc, "\n"))
		}
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		errs := make(chan error, len(jobs))
		for _, j := range jobs {
			go func() {
				err := j.run()
				if err != nil {
					err = fmt.Errorf("%s: %w", j.what, err)
				}
				errs <- err
			}()
		}
		if change {
			time.Sleep(time.Duration(rapid.IntRange(0, 600).Draw(t, "when")) * time.Millisecond)
			cfg2 := cfg.clone()
			k := 0
			for _, bw := range cfg2.BWLimits {
				for _, v := range []*float64{&bw.Ingress, &bw.Egress} {
					*v *= float64(rapid.IntRange(1, 50).Draw(t, "factor"))
					accs[k].faster(*v)
					k++
				}
			}
			cfg2.Email = fmt.Sprintf("me%d@example.com", limSeq)
			if err := l.p.Reconfigure(cfg2); err != nil {
				t.Fatalf("configuration refused: %v", err)
			}
		}
		timeout := time.After(3 * patience)
		for range jobs {
			select {
			case err := <-errs:
				if err != nil {
					fatalf("%v (%v after the start)", err, time.Since(start))
				}
			case <-timeout:
				fatalf("transfers or requests did not end after %v", time.Since(start))
			}
		}
		for _, a := range accs {
			a.mu.Lock()
			bad, n, want := a.bad, a.n, a.want
			a.mu.Unlock()
			if bad != "" {
				fatalf("%s", bad)
			}
			if n != want && !change {
				fatalf("%s: %d arrived of %d", a.desc, n, want)
			}
		}
		key := ""
		if nontrivial {
			key = kit.Hash(strings.Join(desc, "\n"))
		}
		s.Class(fmt.Sprintf("change=%v", change))
		s.Case(key, func() string { return fmt.Sprintf("change=%v %s", change, strings.Join(desc, "; ")) })
	})
}

const limFile = 100000

var limRoot = func() func(l *vlab) string {
	var once sync.Once
	var dir string
	return func(l *vlab) string {
		once.Do(func() {
			dir = l.writeFiles(map[string]string{"file": strings.Repeat("0123456789", limFile/10)})
		})
		return dir
	}
}()
