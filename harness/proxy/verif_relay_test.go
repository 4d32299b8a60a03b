package proxy

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

var vRandom = sync.OnceValue(func() []byte {
	b := make([]byte, 1<<20)
	rand.New(rand.NewSource(2)).Read(b)
	return b
})

// genBody draws a body of up to max bytes, as a piece of a fixed random
// sequence.
func genBody(t *rapid.T, max int) []byte {
	n := 0
	switch rapid.IntRange(0, 4).Draw(t, "size") {
	case 0:
	case 1:
		n = rapid.IntRange(1, 20).Draw(t, "small")
	case 2, 3:
		n = rapid.IntRange(1, min(max, 20000)).Draw(t, "medium")
	default:
		n = rapid.SampledFrom([]int{max, 4096, 16384, 32768, 65536, 65535, max / 2}).Draw(t, "large")
	}
	n = min(n, max)
	if rapid.IntRange(0, 5).Draw(t, "kind") == 0 {
		return bytes.Repeat([]byte("0\r\n\r\n"), n/5+1)[:n]
	}
	o := rapid.IntRange(0, 1000).Draw(t, "offset")
	return vRandom()[o : o+n]
}

var relayValues = []string{"a", "", "x, y", "\"q;,\"", "é", "Basic Zm9vOmJhcg==", "gzip", "deflate, br;q=0.5", "identity", "bytes=0-5", "W/\"x\"", strings.Repeat("v", 2000), "a b  c", "=?", "\t", "*"}

// genHeaders draws headers.
func genHeaders(t *rapid.T, label string, names []string) (out hdrs) {
	for range rapid.IntRange(0, 6).Draw(t, label) {
		n, v := spell(t, rapid.SampledFrom(names).Draw(t, "hname")), rapid.SampledFrom(relayValues).Draw(t, "hvalue")
		if strings.EqualFold(n, "user-agent") && (strings.TrimSpace(v) == "" || out.one("user-agent") != "") {
			continue // there is only one
		}
		out = append(out, [2]string{n, v})
	}
	return
}

// sameHeaders compares the headers of the given names; extra returns whether
// a header may be added.
func sameHeaders(sent, got hdrs, skip func(name string) bool, extra func(name string) bool) error {
	seen := map[string]bool{}
	for _, kv := range append(slices.Clone(sent), got...) {
		n := strings.ToLower(kv[0])
		if seen[n] || skip(n) {
			continue
		}
		seen[n] = true
		a, b := sent.get(n), got.get(n)
		for i := range a {
			a[i] = strings.Trim(a[i], " \t")
		}
		for i := range b {
			b[i] = strings.Trim(b[i], " \t")
		}
		if len(a) == 0 && extra(n) {
			continue
		}
		if !slices.Equal(a, b) {
			return fmt.Errorf("header %s: %q became %q", n, a, b)
		}
	}
	return nil
}

func hdrsOf(h http.Header) (out hdrs) {
	for k, vs := range h {
		for _, v := range vs {
			out = append(out, [2]string{k, v})
		}
	}
	return
}

func abbrev(h hdrs) string {
	s := h.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func TestC39Relay(t *testing.T) {
	l := theLab()
	dead, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Infra("%v", err)
	}
	dead.Close()
	reqNames := []string{"X-A", "x-b_c", "Accept", "Accept-Encoding", "Accept-Language", "User-Agent", "Authorization", "Content-Type", "If-None-Match", "If-Range", "Range", "Forwarded", "X-Real-Ip", "X-Forwarded-Host", "Pragma", "Cache-Control", "X-~!#$%&'*+.^`|", "Origin", "Content-Encoding", "Date", "Link", "From"}
	respNames := []string{"X-A", "x-b_c", "Content-Type", "Content-Encoding", "Set-Cookie", "Set-Cookie", "Server", "Location", "Etag", "Vary", "Alt-Svc", "Date", "Strict-Transport-Security", "Cache-Control", "Accept-Ranges", "Content-Disposition", "Www-Authenticate", "X-~!#$%&'*+.^`|", "Via", "Link", "Last-Modified"}
	kit.Check(t, "sequences of requests over HTTP/1 and HTTP/2 to HTTP and HTTPS backends that speak HTTP/1 or HTTP/2, with any method, 0-6 headers (repeated, empty, unusual names and values, hop-by-hop ones) and bodies of 0 to 300000 bytes with length or chunked for any method; the upstream answers with any status, headers, body and trailers, or breaks (refuses, closes before or in the middle of the response, answers garbage); what the upstream receives is compared with what the client sent, and the response that the client receives with what the upstream sent; non-trivial: there is a body, or several headers, or a failure", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		var mu sync.Mutex
		var answer *vresp
		rec := l.httpUps(func(*vreq) *vresp {
			mu.Lock()
			defer mu.Unlock()
			return answer
		})
		cfg := l.cfg(false)
		mode := rapid.SampledFrom([]string{"HTTP", "HTTP", "HTTPS"}).Draw(t, "mode")
		proto := rapid.SampledFrom(upProtos).Draw(t, "proto")
		if needsTLS(proto) {
			mode = "HTTPS"
		}
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: mode, ForwardRateLimit: 100000, Addresses: []string{l.ups[0].addr}, InsecureSkipVerify: true, BackendProto: proto,
			PathOverrides: []*PathOverride{{Paths: []string{"/dead/"}, Addresses: []string{dead.Addr().String()}, BackendProto: proto}}}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		cproto := rapid.SampledFrom(clientProtos).Draw(t, "clientproto")
		cl, err := l.httpClient(clientTLS("www.example.com", cproto))
		if err != nil {
			t.Fatalf("connection refused: %v", err)
		}
		defer func() { cl.close() }()
		before := ""
		for range rapid.IntRange(1, 4).Draw(t, "requests") {
			req := &creq{method: rapid.SampledFrom([]string{"GET", "GET", "HEAD", "POST", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "PROPFIND", "M-SEARCH"}).Draw(t, "method"), target: "/x?y=z", host: "www.example.com"}
			req.hdr = genHeaders(t, "reqheaders", reqNames)
			drop := map[string]bool{}
			if cproto == "http/1.1" && rapid.IntRange(0, 4).Draw(t, "hopbyhop") == 0 {
				switch rapid.IntRange(0, 3).Draw(t, "which") {
				case 0:
					req.hdr = append(req.hdr, [2]string{"Keep-Alive", "timeout=5"}, [2]string{"X-Hop", "1"})
					for range rapid.IntRange(1, 3).Draw(t, "lines") {
						var toks []string
						for _, n := range rapid.SliceOfN(rapid.SampledFrom([]string{"x-a", "x-b_c", "x-hop", "x-real-ip", "forwarded", "link", "keep-alive", "x-none", "te"}), 0, 3).Draw(t, "tokens") {
							toks = append(toks, spell(t, n))
							if n != "keep-alive" && n != "te" {
								drop[n] = true
							}
						}
						req.hdr = append(req.hdr, [2]string{spell(t, "Connection"), strings.Join(toks, rapid.SampledFrom([]string{",", ", ", " , ", ",,"}).Draw(t, "comma"))})
					}
				case 1:
					req.hdr = append(req.hdr, [2]string{"Proxy-Connection", "keep-alive"})
				case 2:
					req.hdr = append(req.hdr, [2]string{"TE", "trailers"})
				case 3:
					req.hdr = append(req.hdr, [2]string{"Keep-Alive", "300"}, [2]string{"Proxy-Authorization", "Basic x"})
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "body") > 0 {
				req.hasBody = true
				req.chunked = rapid.Bool().Draw(t, "chunked")
				n := 300000
				if cproto == "h2" {
					n = 60000
				}
				req.body = genBody(t, n)
			}
			expect := false
			if cproto == "http/1.1" && req.hasBody && rapid.IntRange(0, 9).Draw(t, "expect") == 0 {
				expect = true
				req.hdr = append(req.hdr, [2]string{"Expect", "100-continue"})
			}
			a := &vresp{status: rapid.SampledFrom([]int{200, 200, 200, 200, 201, 204, 206, 301, 302, 304, 400, 401, 403, 404, 418, 421, 500, 503, 599}).Draw(t, "status")}
			a.hdr = genHeaders(t, "respheaders", respNames)
			a.body = genBody(t, 300000)
			a.chunked = rapid.Bool().Draw(t, "respchunked")
			if a.chunked && rapid.IntRange(0, 3).Draw(t, "trailers") == 0 {
				a.trailer = hdrs{{"X-Trailer", "t1"}, {"X-Checksum", "abc"}}
			}
			noBody := a.status == 204 || a.status == 304
			if noBody {
				a.body, a.chunked, a.trailer = nil, false, nil
			}
			failure := rapid.SampledFrom([]string{"", "", "", "", "refuse", "early", "middle", "garbage"}).Draw(t, "failure")
			switch failure {
			case "refuse":
				if needsTLS(proto) {
					// That takes a while.
					failure = ""
					break
				}
				req.target = "/dead/x"
			case "early":
				a.abort = -1
			case "middle":
				if len(a.body) < 2 || noBody || req.method == "HEAD" {
					failure = ""
					break
				}
				a.abort = rapid.IntRange(1, len(a.body)-1).Draw(t, "abort")
			case "garbage":
				if proto != nil && (*proto == "h2" || *proto == "h3" || *proto == "" && cproto != "http/1.1") {
					failure = ""
					break
				}
				g := rapid.SampledFrom([]string{"garbage\r\n\r\n", "HTTP/1.1 200\r\nfoo\r\n\r\n", "HTTP/1.1 2OO OK\r\n\r\n", "HTTP/9", "", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "HTTP/1.1 200 OK\r\nX: y", "\x00\x01\x02\x03"}).Draw(t, "garbage")
				a.hijack = func(c net.Conn, _ *bufio.Reader) { io.WriteString(c, g) }
			}
			mu.Lock()
			answer = a
			mu.Unlock()
			rec.forget()
			resp, err := cl.do(req)
			what := fmt.Sprintf("%s %s %s {%s} body:%d(%v) chunked=%v to a %s backend (%v): %d {%s} body:%d chunked=%v, failure %q", cproto, req.method, req.target, abbrev(req.hdr), len(req.body), req.hasBody, req.chunked, mode, protoName(proto), a.status, abbrev(a.hdr), len(a.body), a.chunked, failure)
			if before != "" {
				what += ", after " + before
			}
			before = what
			got := rec.all()
			if failure != "" {
				switch {
				case failure == "middle" && err == nil && resp.status == a.status:
					if resp.err == nil {
						t.Fatalf("a response that the upstream cut after %d of %d bytes is presented as complete, with %d bytes: %s", a.abort, len(a.body), len(resp.body), what)
					}
					if !bytes.HasPrefix(a.body, resp.body) {
						t.Fatalf("a cut response has other content: %s", what)
					}
				case failure == "middle" && err != nil && !isTimeout(err):
					// The connection was closed before anything was sent.
				case err != nil:
					t.Fatalf("request failed: %v: %s", err, what)
				case resp.status < 500 || resp.status > 599:
					t.Fatalf("got %d: %s", resp.status, what)
				}
				if failure == "refuse" && len(got) > 0 {
					t.Fatalf("request reached another upstream: %s", what)
				}
			} else if err != nil || resp.err != nil {
				t.Fatalf("request failed: %v %v: %s", err, resp, what)
			}
			for i, r := range got {
				if failure == "" && i > 0 {
					t.Fatalf("the request was forwarded %d times: %s", len(got), what)
				}
				if r.method != req.method || r.target != req.target || r.host != req.host {
					t.Fatalf("the upstream receives %s %s at %s: %s", r.method, r.target, r.host, what)
				}
				if !bytes.Equal(r.body, req.body) && (failure == "" || r.full) {
					t.Fatalf("the upstream receives a body of %d bytes (%x) instead of %d (%x): %s", len(r.body), sha256.Sum256(r.body), len(req.body), sha256.Sum256(req.body), what)
				}
				err := sameHeaders(req.hdr, r.hdr, func(n string) bool {
					return drop[n] || slices.Contains([]string{"connection", "keep-alive", "proxy-connection", "proxy-authorization", "te", "host", "via", "x-forwarded-for", "content-length", "transfer-encoding", "expect"}, n)
				}, func(n string) bool { return false })
				if err != nil {
					t.Fatalf("%v: %s", err, what)
				}
				for n := range drop {
					if len(r.hdr.get(n)) > 0 {
						t.Fatalf("hop-by-hop header %s is forwarded: %s", n, what)
					}
				}
				if cl := r.hdr.get("content-length"); req.hasBody && !req.chunked && (len(cl) != 1 || cl[0] != fmt.Sprint(len(req.body))) && len(req.body) > 0 {
					t.Fatalf("Content-Length %q at the upstream: %s", cl, what)
				}
			}
			if failure == "" {
				if len(got) != 1 {
					t.Fatalf("the request was not forwarded (%d): %s", resp.status, what)
				}
				if resp.status != a.status {
					t.Fatalf("got %d: %s", resp.status, what)
				}
				want := a.body
				if req.method == "HEAD" {
					want = nil
				}
				if !bytes.Equal(resp.body, want) {
					t.Fatalf("got a body of %d bytes (%x) instead of %d (%x): %s", len(resp.body), sha256.Sum256(resp.body), len(want), sha256.Sum256(want), what)
				}
				noHSTS := strings.Trim(a.hdr.one("strict-transport-security"), " \t") == ""
				err := sameHeaders(a.hdr, hdrsOf(resp.hdr), func(n string) bool {
					return n == "strict-transport-security" && noHSTS || n == "content-type" && a.status == 304 || slices.Contains([]string{"connection", "content-length", "transfer-encoding", "trailer"}, n)
				}, func(n string) bool {
					return n == "strict-transport-security" || n == "date" || n == "content-type"
				})
				if err != nil {
					t.Fatalf("response %v: %s", err, what)
				}
				if cl := resp.hdr.Get("Content-Length"); cl != "" && cl != fmt.Sprint(len(a.body)) && !(cproto == "h3" && req.method == "HEAD") {
					// (The HTTP/3 library adds a length to the answers to HEAD.)
					t.Fatalf("response Content-Length %s: %s", cl, what)
				}
				if req.method != "HEAD" && (len(a.body) > 0 || cproto != "http/1.1") {
					for _, kv := range a.trailer {
						if resp.trailer.Get(kv[0]) != kv[1] {
							t.Fatalf("response trailers %v: %s", resp.trailer, what)
						}
					}
				}
			}
			if err != nil || resp.err != nil || resp.closed || expect {
				cl.close()
				if cl, err = l.httpClient(clientTLS("www.example.com", cproto)); err != nil {
					t.Fatalf("connection refused: %v", err)
				}
			}
			key := ""
			if req.hasBody || len(a.body) > 0 || len(req.hdr)+len(a.hdr) > 2 || failure != "" {
				key = what
			}
			s.Class("failure=" + failure)
			s.Case(key, func() string { return what })
		}
	})
}

// Requests that run at the same time don't get each other's responses.
func TestC39Concurrent(t *testing.T) {
	l := theLab()
	kit.Check(t, "2-6 HTTP/1 and multiplexed HTTP/2 client connections with 2-30 concurrent requests in all, whose method, body size and response size and delays vary, to a backend over HTTP/1 or HTTP/2, some of whose responses are cut; each response must be that of its own request; non-trivial: every case", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		expected := func(id string, n int) []byte {
			h := sha256.Sum256([]byte(id))
			return bytes.Repeat(h[:], n/32+1)[:n]
		}
		rec := l.httpUps(func(r *vreq) *vresp {
			var n, cut int
			id := r.hdr.one("x-id")
			fmt.Sscanf(r.hdr.one("x-size"), "%d,%d", &n, &cut)
			if want := expected("body "+id, len(r.body)); !bytes.Equal(r.body, want) {
				return &vresp{status: 500, body: []byte("wrong body")}
			}
			v := &vresp{hdr: hdrs{{"X-Id", id}}, body: expected(id, n), chunked: n%2 == 0}
			if cut > 0 {
				v.abort = cut
			}
			return v
		})
		_ = rec
		cfg := l.cfg(false)
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: rapid.SampledFrom([]string{"HTTP", "HTTPS"}).Draw(t, "mode"), ForwardRateLimit: 100000, Addresses: []string{l.ups[0].addr, l.ups[1].addr}, InsecureSkipVerify: true,
			BackendProto: rapid.SampledFrom([]*string{nil, ptr("h2"), ptr("")}).Draw(t, "proto")}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		type job struct {
			id           string
			method       string
			n, cut, body int
		}
		var wg sync.WaitGroup
		errs := make(chan error, 100)
		total := 0
		desc := ""
		for c := range rapid.IntRange(2, 6).Draw(t, "conns") {
			cproto := rapid.SampledFrom([]string{"h2", "h2", "http/1.1"}).Draw(t, "clientproto")
			var jobs []job
			for i := range rapid.IntRange(1, 5).Draw(t, "jobs") {
				j := job{id: fmt.Sprintf("%d.%d.%d", c, i, rapid.IntRange(0, 1000000).Draw(t, "nonce")), method: rapid.SampledFrom([]string{"GET", "POST", "PUT"}).Draw(t, "method"), n: rapid.SampledFrom([]int{0, 1, 31, 1000, 10000, 70000}).Draw(t, "n")}
				if j.n > 100 && rapid.IntRange(0, 4).Draw(t, "cut") == 0 {
					j.cut = j.n / 2
				}
				if j.method != "GET" {
					j.body = rapid.SampledFrom([]int{0, 5, 2000, 50000}).Draw(t, "body")
				}
				jobs = append(jobs, j)
				total++
			}
			desc += fmt.Sprintf("%s%v ", cproto, jobs)
			run := func(rt http.RoundTripper, j job) error {
				ctx, cancel := context.WithTimeout(context.Background(), patience)
				defer cancel()
				req, _ := http.NewRequestWithContext(ctx, j.method, "https://www.example.com/"+j.id, bytes.NewReader(expected("body "+j.id, j.body)))
				req.Header.Set("x-id", j.id)
				req.Header.Set("x-size", fmt.Sprintf("%d,%d", j.n, j.cut))
				resp, err := rt.RoundTrip(req)
				if err != nil {
					if j.cut > 0 {
						return nil
					}
					return fmt.Errorf("request %s: %v", j.id, err)
				}
				defer resp.Body.Close()
				b, err := io.ReadAll(resp.Body)
				if resp.StatusCode == 502 && j.cut > 0 {
					return nil
				}
				if resp.StatusCode != 200 || resp.Header.Get("x-id") != j.id {
					return fmt.Errorf("request %s got %d %s (%.100q)", j.id, resp.StatusCode, resp.Header.Get("x-id"), b)
				}
				want := expected(j.id, j.n)
				if (err != nil) != (j.cut > 0) {
					return fmt.Errorf("request %s (cut at %d) got %d of %d bytes, %v", j.id, j.cut, len(b), j.n, err)
				}
				if !bytes.HasPrefix(want, b) || err == nil && len(b) != len(want) {
					return fmt.Errorf("request %s got %d other bytes", j.id, len(b))
				}
				return nil
			}
			var rt http.RoundTripper
			tc := tls.Client(l.dial(), clientTLS("www.example.com", cproto))
			if cproto == "h2" {
				if err := tc.Handshake(); err != nil {
					t.Fatalf("handshake: %v", err)
				}
				cc, err := h2Conn(tc)
				if err != nil {
					t.Fatalf("h2: %v", err)
				}
				rt = cc
				defer cc.Close()
			} else {
				tc.Close()
				tr := &http.Transport{DisableCompression: true, MaxConnsPerHost: 2, DialTLSContext: func(context.Context, string, string) (net.Conn, error) {
					c := tls.Client(l.dial(), clientTLS("www.example.com", "http/1.1"))
					c.SetDeadline(time.Now().Add(patience))
					return c, c.Handshake()
				}}
				rt = tr
				defer tr.CloseIdleConnections()
			}
			for _, j := range jobs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if err := run(rt, j); err != nil {
						select {
						case errs <- err:
						default:
						}
					}
				}()
			}
		}
		wg.Wait()
		select {
		case err := <-errs:
			t.Fatalf("%v: %s to a %s backend (%s)", err, desc, be.Mode, protoName(be.BackendProto))
		default:
		}
		s.Class(fmt.Sprintf("%s %s", be.Mode, protoName(be.BackendProto)))
		s.Case(desc, func() string { return desc })
	})
}

// Upgraded connections carry bytes both ways.
func TestC39Upgrade(t *testing.T) {
	l := theLab()
	kit.Check(t, "upgrade requests over HTTP/1 to HTTP and HTTPS backends (spelled in several ways, on a fresh or a used connection), to an upstream that accepts, with early data or not, or declines; after acceptance 1-6 messages of 1-70000 bytes flow in either direction, and one side closes; every byte must arrive in order, then the end; non-trivial: accepted", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		accept := rapid.IntRange(0, 4).Draw(t, "accept") > 0
		early := rapid.SampledFrom([]string{"", "early data"}).Draw(t, "early")
		up := make(chan net.Conn, 1)
		upr := make(chan *bufio.Reader, 1)
		done := make(chan struct{})
		defer close(done)
		rec := l.httpUps(func(r *vreq) *vresp {
			if !accept || r.hdr.one("upgrade") == "" {
				return &vresp{status: 200, body: []byte("no")}
			}
			return &vresp{hijack: func(c net.Conn, br *bufio.Reader) {
				fmt.Fprintf(c, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: %s\r\nX-A: b\r\n\r\n%s", r.hdr.one("upgrade"), early)
				up <- c
				upr <- br
				<-done
			}}
		})
		cfg := l.cfg(false)
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: rapid.SampledFrom([]string{"HTTP", "HTTPS"}).Draw(t, "mode"), ForwardRateLimit: 100000, Addresses: []string{l.ups[0].addr}, InsecureSkipVerify: true,
			BackendProto: rapid.SampledFrom([]*string{nil, ptr("h2"), ptr("")}).Draw(t, "proto")}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		vc, err := l.httpClient(clientTLS("www.example.com", "http/1.1"))
		if err != nil {
			t.Fatalf("connection refused: %v", err)
		}
		cl := vc.(*h1client)
		defer cl.close()
		used := rapid.Bool().Draw(t, "used")
		if used {
			if r, err := cl.do(&creq{method: "GET", target: "/", host: "www.example.com"}); err != nil || r.status != 200 {
				t.Fatalf("first request: %v %v", r, err)
			}
		}
		proto := rapid.SampledFrom([]string{"foo", "websocket", "Foo/1.0"}).Draw(t, "upgrade")
		req := &creq{method: rapid.SampledFrom([]string{"GET", "GET", "OPTIONS"}).Draw(t, "method"), target: "/u", host: "www.example.com"}
		req.hdr = hdrs{{spell(t, "Connection"), rapid.SampledFrom([]string{"Upgrade", "upgrade", "keep-alive, Upgrade", "Upgrade, x-foo", "UPGRADE"}).Draw(t, "connection")}, {spell(t, "Upgrade"), proto}, {"Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="}, {"Sec-WebSocket-Version", "13"}}
		what := fmt.Sprintf("%s after another request=%v, accepted=%v, early=%q, %s", req, used, accept, early, be.Mode)
		resp, err := cl.do(req)
		if err != nil {
			t.Fatalf("upgrade request failed: %v: %s", err, what)
		}
		got := rec.all()
		last := got[len(got)-1]
		if !strings.EqualFold(last.hdr.one("connection"), "upgrade") || last.hdr.one("upgrade") != proto {
			t.Fatalf("the upstream receives %v: %s", last.hdr, what)
		}
		if !accept {
			if resp.status != 200 || string(resp.body) != "no" {
				t.Fatalf("got %d %q: %s", resp.status, resp.body, what)
			}
			s.Class("declined")
			s.Case("", func() string { return what })
			return
		}
		if resp.status != 101 || resp.hdr.Get("Upgrade") != proto || resp.hdr.Get("x-a") != "b" {
			t.Fatalf("got %d %v: %s", resp.status, resp.hdr, what)
		}
		uc, ur := <-up, <-upr
		deadline := time.Now().Add(patience)
		uc.SetDeadline(deadline)
		cl.c.SetDeadline(deadline)
		var wg sync.WaitGroup
		var toUp, toClient []byte
		toClient = []byte(early)
		nmsg := rapid.IntRange(1, 6).Draw(t, "messages")
		for range nmsg {
			b := genBody(t, 70000)
			if rapid.Bool().Draw(t, "up") {
				toUp = append(toUp, b...)
				wg.Add(1)
				go func() { defer wg.Done(); cl.c.Write(b) }()
			} else {
				toClient = append(toClient, b...)
				wg.Add(1)
				go func() { defer wg.Done(); uc.Write(b) }()
			}
			if rapid.Bool().Draw(t, "wait") {
				wg.Wait()
			} else {
				wg.Wait() // one writer at a time, to keep the order
			}
		}
		gu := make([]byte, len(toUp))
		if _, err := io.ReadFull(ur, gu); err != nil || !bytes.Equal(gu, toUp) {
			t.Fatalf("the upstream receives other bytes (%d, %v): %s", len(toUp), err, what)
		}
		gc := make([]byte, len(toClient))
		if _, err := io.ReadFull(cl.br, gc); err != nil || !bytes.Equal(gc, toClient) {
			t.Fatalf("the client receives other bytes (%d, %v): %s", len(toClient), err, what)
		}
		closer := rapid.SampledFrom([]string{"client", "upstream"}).Draw(t, "closer")
		if closer == "client" {
			cl.c.Close()
			if b, err := io.ReadAll(ur); len(b) > 0 || isTimeout(err) {
				t.Fatalf("after the client closed, the upstream gets %d bytes, %v: %s", len(b), err, what)
			}
		} else {
			uc.Close()
			if b, err := io.ReadAll(cl.br); len(b) > 0 || isTimeout(err) {
				t.Fatalf("after the upstream closed, the client gets %d bytes, %v: %s", len(b), err, what)
			}
		}
		s.Class("accepted, closed by " + closer)
		s.Case(what+fmt.Sprint(len(toUp), len(toClient)), func() string { return what })
	})
}
