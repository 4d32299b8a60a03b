package proxy

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"golang.org/x/net/html"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// tallied counts what really went over a connection.
type tallied struct {
	net.Conn
	sent, got atomic.Int64
}

func (c *tallied) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	c.got.Add(int64(n))
	return n, err
}

func (c *tallied) Write(b []byte) (int, error) {
	n, err := c.Conn.Write(b)
	c.sent.Add(int64(n))
	return n, err
}

func (c *tallied) CloseWrite() error {
	return c.Conn.(interface{ CloseWrite() error }).CloseWrite()
}

// countConn is one connection of the test.
type countConn struct {
	kind, host string
	t          *tallied
	// exchange sends n bytes, and receives m.
	exchange func(n, m int) error
	// end is the orderly end, after which everything has arrived.
	end   func() error
	close func()
	desc  string
}

// With QUIC, see verif_countsquic_test.go.
var countsQUIC func(l *vlab, kind, host string) (*countConn, error)
var countsQUICUps func(l *vlab)

// countEcho reads commands: how many bytes follow, how many to send back.
func countEcho(c io.ReadWriteCloser) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		var n, m int
		line, err := br.ReadString('\n')
		if err != nil {
			return
		}
		if k, _ := fmt.Sscanf(line, "%d %d", &n, &m); k != 2 {
			return
		}
		if _, err := io.CopyN(io.Discard, br, int64(n)); err != nil {
			return
		}
		if _, err := io.Copy(c, &patReader{m + 1}); err != nil {
			return
		}
	}
}

func countExchange(c io.ReadWriter) func(n, m int) error {
	return func(n, m int) error {
		errs := make(chan error, 1)
		go func() {
			if _, err := fmt.Fprintf(c, "%d %d\n", n, m); err != nil {
				errs <- err
				return
			}
			_, err := io.Copy(c, &patReader{n})
			errs <- err
		}()
		_, err := io.CopyN(io.Discard, c, int64(m)+1)
		if e := <-errs; e != nil {
			return e
		}
		return err
	}
}

// shownSize is the way that the console shows numbers of bytes.
func shownSize(n int64) string {
	switch f := float64(n); {
	case n > 1000000:
		return fmt.Sprintf("%.1f MB", f/1000000)
	case n > 1000:
		return fmt.Sprintf("%.1f KB", f/1000)
	}
	return fmt.Sprintf("%d B", n)
}

func TestC26Proxy(t *testing.T) {
	l := theLab()
	kit.Check(t, "1-3 backends (TCP, TLS, passthrough, HTTP) that receive 1-5 connections, concurrently, each with 1-4 exchanges of 0-100000 bytes in each direction, and which end or stay; the bytes that really went over each connection are counted by the client, and the console must show the same for each open connection, and the sum for each server, in each direction; non-trivial: a server had two connections or more, with more than 1000 bytes each way", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		quic := countsQUIC != nil
		cfg := l.cfg(quic)
		l.ups[0].handle(func(c *vconn) { countEcho(c) })
		l.ups[1].handle(func(c *vconn) {
			defer c.Close()
			tc := tls.Server(c, &tls.Config{GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
				return l.cm.GetCert("up.example.com")
			}})
			if tc.Handshake() == nil {
				countEcho(tc)
			}
		})
		l.ups[2].handle(func(c *vconn) {
			defer c.Close()
			var h [5]byte
			if _, err := io.ReadFull(c, h[:]); err != nil {
				return
			}
			if _, err := io.CopyN(io.Discard, c, int64(h[3])<<8|int64(h[4])); err != nil {
				return
			}
			c.Write([]byte("k"))
			countEcho(c)
		})
		l.ups[3].handle(func(c *vconn) {
			defer c.Close()
			br := bufio.NewReader(c)
			for {
				req, err := readCountReq(br)
				if err != nil {
					return
				}
				if _, err := fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", req); err != nil {
					return
				}
				io.Copy(c, &patReader{req})
			}
		})
		kinds := []string{"tcp", "tls", "pass", "http"}
		if quic {
			countsQUICUps(l)
			kinds = []string{"tcp", "quic tcp", "quic quic", "quic tcp", "quic quic"}
		}
		mark := l.serial.Add(1)
		var desc []string
		type server struct {
			kind, host string
			conns      []*countConn
		}
		var servers []*server
		for i := range rapid.IntRange(1, 3).Draw(t, "backends") {
			sv := &server{kind: rapid.SampledFrom(kinds).Draw(t, "kind"), host: fmt.Sprintf("m%d-%d.example.com", mark, i)}
			be := &Backend{ServerNames: []string{sv.host}, ForwardRateLimit: 100000, InsecureSkipVerify: true}
			switch sv.kind {
			case "tcp":
				be.Mode, be.Addresses = "TCP", []string{l.ups[0].addr}
			case "tls":
				be.Mode, be.Addresses = "TLS", []string{l.ups[1].addr}
			case "pass":
				be.Mode, be.Addresses, be.InsecureSkipVerify = "TLSPASSTHROUGH", []string{l.ups[2].addr}, false
			case "http":
				be.Mode, be.Addresses = "HTTP", []string{l.ups[3].addr}
			case "quic tcp":
				be.Mode, be.Addresses, be.ALPNProtos = "TCP", []string{l.ups[0].addr}, &[]string{"x"}
			case "quic quic":
				be.Mode, be.Addresses, be.ALPNProtos = "QUIC", []string{l.ups[0].addr}, &[]string{"x"}
			}
			cfg.Backends = append(cfg.Backends, be)
			servers = append(servers, sv)
		}
		cname := fmt.Sprintf("m%d-console.example.com", mark)
		cfg.Backends = append(cfg.Backends, &Backend{Mode: "CONSOLE", ServerNames: []string{cname}, ForwardRateLimit: 100000})
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		var all []*countConn
		defer func() {
			for _, c := range all {
				c.close()
			}
		}()
		type exch struct{ n, m int }
		plan := map[*countConn][]exch{}
		ends := map[*countConn]bool{}
		size := func(what string) int {
			return rapid.SampledFrom([]int{0, 1, 10, 100, 1000, 10000, 100000}).Draw(t, what) / rapid.IntRange(1, 5).Draw(t, "divided")
		}
		for range rapid.IntRange(1, 5).Draw(t, "connections") {
			sv := rapid.SampledFrom(servers).Draw(t, "server")
			c, err := l.countConn(sv.kind, sv.host)
			if err != nil {
				t.Fatalf("connection to %s: %v", sv.kind, err)
			}
			all = append(all, c)
			sv.conns = append(sv.conns, c)
			var ex []exch
			for range rapid.IntRange(1, 4).Draw(t, "exchanges") {
				ex = append(ex, exch{size("up"), size("down")})
			}
			plan[c], ends[c] = ex, rapid.Bool().Draw(t, "ends")
			desc = append(desc, fmt.Sprintf("%s %v ends=%v", sv.kind, ex, ends[c]))
		}
		var mu sync.Mutex
		var problem string
		var wg sync.WaitGroup
		for _, c := range all {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, e := range plan[c] {
					if err := c.exchange(e.n, e.m); err != nil {
						mu.Lock()
						problem = fmt.Sprintf("%s: %v", c.kind, err)
						mu.Unlock()
						return
					}
				}
				if ends[c] {
					if err := c.end(); err != nil {
						mu.Lock()
						problem = fmt.Sprintf("%s: end: %v", c.kind, err)
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
		if problem != "" {
			t.Fatalf("%s: %q", problem, desc)
		}
		number := regexp.MustCompile(`^(\S+ \S+) \((\S+) (\S+)/s\) (\S+ \S+) \((\S+) (\S+)/s\)`)
		if !eventually(func() bool {
			problem = ""
			kc, err := l.httpClientTCP(clientTLS(cname, "http/1.1"))
			if err != nil {
				t.Fatalf("the console refuses connections: %v", err)
			}
			resp, err := kc.do(&creq{method: "GET", target: "/", host: cname})
			kc.close()
			if err != nil || resp.status != 200 || resp.err != nil {
				t.Fatalf("the console does not answer: %v %v", resp, err)
			}
			page, err := html.Parse(bytes.NewReader(resp.body))
			if err != nil {
				t.Fatalf("the console's page: %v", err)
			}
			totals, open := nodeText(nodeByID(page, "panel-backend-metrics")), nodeText(nodeByID(page, "panel-connections"))
			for _, sv := range servers {
				var up, down int64
				for _, c := range sv.conns {
					up += c.t.sent.Load()
					down += c.t.got.Load()
				}
				_, row, ok := strings.Cut(totals, sv.host+" ")
				if !ok {
					if len(sv.conns) > 0 {
						problem = "no totals for " + sv.kind
					}
					continue
				}
				n, rest, _ := strings.Cut(row, " ")
				m := number.FindStringSubmatch(rest)
				if m == nil {
					t.Fatalf("unexpected totals %.100q", rest)
				}
				if n != fmt.Sprint(len(sv.conns)) || m[1] != shownSize(down) || m[4] != shownSize(up) {
					problem = fmt.Sprintf("%s had %d connections that sent %d bytes and received %d, the console shows %q", sv.kind, len(sv.conns), up, down, n+" "+m[0])
				}
			}
			for _, c := range all {
				if ends[c] {
					continue
				}
				_, row, ok := strings.Cut(open, c.t.LocalAddr().String()+" ")
				_, row, ok2 := strings.Cut(row, "Egress:")
				egress, row, _ := strings.Cut(row, " (")
				_, row, _ = strings.Cut(row, "Ingress:")
				ingress, _, _ := strings.Cut(row, " (")
				if up, down := c.t.sent.Load(), c.t.got.Load(); !ok || !ok2 || egress != shownSize(down) || ingress != shownSize(up) {
					problem = fmt.Sprintf("a connection to %s sent %d and received %d bytes, the console shows %q and %q", c.kind, up, down, ingress, egress)
				}
			}
			return problem == ""
		}) {
			t.Fatalf("%s: %q", problem, desc)
		}
		nontrivial := false
		for _, sv := range servers {
			var up, down int64
			for _, c := range sv.conns {
				up += c.t.sent.Load()
				down += c.t.got.Load()
			}
			nontrivial = nontrivial || len(sv.conns) > 1 && up > 1000 && down > 1000
			if len(sv.conns) > 0 {
				s.Class(sv.kind)
			}
		}
		key := ""
		if nontrivial {
			key = kit.Hash(strings.Join(desc, "\n"))
		}
		s.Case(key, func() string { return strings.Join(desc, "; ") })
	})
}

// readCountReq reads a request and returns the size that its response must have.
func readCountReq(br *bufio.Reader) (int, error) {
	size, length := 0, 0
	for i := 0; ; i++ {
		line, err := br.ReadString('\n')
		if err != nil {
			return 0, err
		}
		line = strings.TrimSpace(line)
		if i == 0 {
			fmt.Sscanf(line, "POST /%d ", &size)
		}
		if k, v, ok := strings.Cut(strings.ToLower(line), ":"); ok && k == "content-length" {
			fmt.Sscan(v, &length)
		}
		if line == "" {
			_, err := io.CopyN(io.Discard, br, int64(length))
			return size, err
		}
	}
}

// countConn opens a connection whose bytes are counted.
func (l *vlab) countConn(kind, host string) (*countConn, error) {
	if strings.HasPrefix(kind, "quic") {
		return countsQUIC(l, kind, host)
	}
	raw := &tallied{Conn: l.dial()}
	raw.SetDeadline(time.Now().Add(3 * patience))
	c := &countConn{kind: kind, host: host, t: raw, close: func() { raw.Close() }}
	// The rest is read so that all of what the proxy sends arrives.
	rest := func() error {
		raw.CloseWrite()
		_, err := io.Copy(io.Discard, raw)
		return err
	}
	if kind == "pass" {
		h := limHello(host)
		if _, err := raw.Write(h); err != nil {
			return nil, err
		}
		if _, err := io.ReadFull(raw, make([]byte, 1)); err != nil {
			return nil, err
		}
		c.exchange, c.end = countExchange(raw), rest
		return c, nil
	}
	proto := "http/1.1"
	tc := tls.Client(raw, clientTLS(host, proto))
	if err := tc.Handshake(); err != nil {
		raw.Close()
		return nil, err
	}
	c.end = func() error {
		if err := tc.CloseWrite(); err != nil {
			return err
		}
		return rest()
	}
	c.exchange = countExchange(tc)
	if kind == "http" {
		br := bufio.NewReader(tc)
		c.exchange = func(n, m int) error {
			errs := make(chan error, 1)
			go func() {
				if _, err := fmt.Fprintf(tc, "POST /%d HTTP/1.1\r\nHost: %s\r\nContent-Length: %d\r\n\r\n", m, host, n); err != nil {
					errs <- err
					return
				}
				_, err := io.Copy(tc, &patReader{n})
				errs <- err
			}()
			h := &h1client{c: tc, br: br}
			resp, err := h.read("POST")
			if e := <-errs; e != nil {
				return e
			}
			if err != nil {
				return err
			}
			if resp.err != nil || len(resp.body) != m {
				return fmt.Errorf("%d bytes (%v), want %d", len(resp.body), resp.err, m)
			}
			return nil
		}
	}
	return c, nil
}
