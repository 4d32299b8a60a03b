package proxy

import (
	"fmt"
	"net"
	"strings"
	"testing"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// c09Dest is the backend, or one of its path overrides.
type c09Dest struct {
	prefixes []string
	static   bool
	https    bool
	sni      string
	version  string
	headers  *map[string]string
	sanitize *bool
	proto    *string
}

func (d *c09Dest) String() string {
	h, sp, pr := "inherited", "default", "default"
	if d.headers != nil {
		h = fmt.Sprint(*d.headers)
	}
	if d.sanitize != nil {
		sp = fmt.Sprint(*d.sanitize)
	}
	if d.proto != nil {
		pr = fmt.Sprintf("%q", *d.proto)
	}
	return fmt.Sprintf("{%q static=%v https=%v sni=%q proxy=%q headers=%s sanitize=%s proto=%s}", d.prefixes, d.static, d.https, d.sni, d.version, h, sp, pr)
}

func TestC09Paths(t *testing.T) {
	l := theLab()
	var roots []string
	for i := range 4 {
		roots = append(roots, l.writeFiles(map[string]string{"f": fmt.Sprintf("static%d", i), "b/f": fmt.Sprintf("static%d", i)}))
	}
	words := []string{"a", "a", "b", "c", "f", "A", "ab", "a%20b", "%2e%2e", "..;", "...", "%2f", "%2F", "%5c", "%252e%252e", "b%2f..%2fc", "%C3%A9", "%c3%a9", "a:b", "*", "~", "a=b&c", "%3f", "%23", "+"}
	prefixes := []string{"/a/", "/a/", "/b/", "/a/b/", "/", "/c/", "/a b/", "/A/", "/b/c/"}
	kit.Check(t, "HTTP and HTTPS backends with 0-3 path overrides of 1-2 prefixes that may contain one another, each with its own upstream or static files, mode, protocol, forwarded headers, PROXY header, server name and path sanitising, then requests over HTTP/1 and HTTP/2 whose paths have dot segments, empty segments, encoded and unusual characters; the upstream that receives the request, how, and the path and query it receives, are compared with a reference; non-trivial: the path is not clean or an override is selected", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(*vreq) *vresp { return &vresp{body: []byte("upstream")} })
		cfg := l.cfg(false)
		var dests []*c09Dest
		desc := ""
		be := &Backend{ServerNames: []string{"www.example.com"}, ForwardRateLimit: 100000}
		for i := range 1 + rapid.IntRange(0, 3).Draw(t, "overrides") {
			d := &c09Dest{
				static:  rapid.IntRange(0, 5).Draw(t, "static") == 0,
				https:   rapid.Bool().Draw(t, "https"),
				sni:     rapid.SampledFrom([]string{"", "up1.example.net", "up2.example.net"}).Draw(t, "sni"),
				version: rapid.SampledFrom([]string{"", "", "v1", "v2"}).Draw(t, "version"),
				proto:   rapid.SampledFrom(append([]*string{ptr("http/1.1")}, upProtos...)).Draw(t, "proto"),
			}
			if needsTLS(d.proto) || i > 0 && d.proto == nil && needsTLS(dests[0].proto) {
				d.https = true
			}
			switch rapid.IntRange(0, 3).Draw(t, "headers") {
			case 0:
				d.headers = &map[string]string{}
			case 1:
				d.headers = &map[string]string{"x-which": fmt.Sprint(i)}
			}
			d.sanitize = rapid.SampledFrom([]*bool{nil, nil, ptr(true), ptr(false), ptr(false)}).Draw(t, "sanitize")
			mode := "HTTP"
			if d.https {
				mode = "HTTPS"
			}
			addrs, root := []string{l.ups[i].addr}, ""
			if d.static {
				addrs, root = nil, roots[i]
			}
			if i == 0 {
				be.Mode, be.ForwardServerName, be.InsecureSkipVerify, be.ProxyProtocolVersion, be.SanitizePath, be.BackendProto = mode, d.sni, true, d.version, d.sanitize, d.proto
				be.Addresses, be.DocumentRoot = addrs, root
				if d.headers != nil {
					be.ForwardHTTPHeaders = *d.headers
				}
			} else {
				d.prefixes = rapid.SliceOfN(rapid.SampledFrom(prefixes), 1, 2).Draw(t, "prefixes")
				po := &PathOverride{Paths: d.prefixes, Mode: mode, ForwardServerName: d.sni, InsecureSkipVerify: true, ProxyProtocolVersion: d.version, SanitizePath: d.sanitize, BackendProto: d.proto, Addresses: addrs, DocumentRoot: root}
				if d.headers != nil {
					po.ForwardHTTPHeaders = d.headers
				}
				be.PathOverrides = append(be.PathOverrides, po)
			}
			dests = append(dests, d)
			desc += d.String() + " "
		}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v: %s", err, desc)
		}
		cproto := rapid.SampledFrom(clientProtos).Draw(t, "clientproto")
		cl, err := l.httpClient(clientTLS("www.example.com", cproto))
		if err != nil {
			t.Fatalf("connection refused: %v", err)
		}
		defer func() { cl.close() }()
		for range rapid.IntRange(1, 5).Draw(t, "requests") {
			path := genPath(t, words)
			query := rapid.SampledFrom([]string{"", "", "?", "?a=b", "?a=b;c&d=%2f..%2f", "?/../x", "?a=%zz&&=", "?é=1"}).Draw(t, "query")
			if query == "?é=1" {
				query = "?%C3%A9=1"
			}
			req := &creq{method: rapid.SampledFrom([]string{"GET", "GET", "HEAD", "POST"}).Draw(t, "method"), target: path + query, host: "www.example.com"}
			if cproto == "http/1.1" && rapid.IntRange(0, 5).Draw(t, "absolute") == 0 {
				req.target = "https://www.example.com" + req.target
			}
			if req.method == "POST" {
				req.hasBody, req.body = true, []byte("body")
			}
			raw, _ := refDecode(path)
			clean := refClean(raw)
			// The reference.
			sel, redirect, prefix := 0, false, ""
		sel:
			for i, d := range dests[1:] {
				for _, p := range d.prefixes {
					if clean+"/" == p {
						redirect = true
						break sel
					}
					if strings.HasPrefix(clean, p) {
						sel, prefix = i+1, p
						break sel
					}
				}
			}
			d := dests[sel]
			rec.forget()
			resp, err := cl.do(req)
			what := fmt.Sprintf("%s %s %s with %s", cproto, req.method, req.target, desc)
			if err != nil {
				t.Fatalf("request failed: %v: %s", err, what)
			}
			got := rec.all()
			cls := ""
			switch {
			case redirect:
				cls = "redirect"
				if len(got) > 0 || resp.status != 301 && resp.status != 303 && resp.status != 302 && resp.status != 307 && resp.status != 308 {
					t.Fatalf("request for an override without its slash got %d (%d forwarded): %s", resp.status, len(got), what)
				}
				loc, q, _ := strings.Cut(resp.hdr.Get("Location"), "?")
				loc = strings.TrimPrefix(loc, "https://www.example.com")
				if lr, _ := refDecode(loc); lr != clean+"/" || q != strings.TrimPrefix(query, "?") {
					t.Fatalf("request for an override without its slash was redirected to %q: %s", resp.hdr.Get("Location"), what)
				}
			case d.static:
				cls = "static"
				if len(got) > 0 {
					t.Fatalf("request for static files reached upstream %d: %s", got[0].up, what)
				}
				for i := range roots {
					if i != sel && strings.Contains(string(resp.body), fmt.Sprintf("static%d", i)) {
						t.Fatalf("request was answered with files of %d, not %d: %s", i, sel, what)
					}
				}
				rest := strings.TrimPrefix(strings.TrimPrefix(clean, prefix), "/")
				if raw == clean && req.method == "GET" && (rest == "f" || rest == "b/f") && (resp.status != 200 || string(resp.body) != fmt.Sprintf("static%d", sel)) {
					t.Fatalf("request for a static file got %d %q: %s", resp.status, resp.body, what)
				}
			default:
				cls = fmt.Sprintf("upstream override=%v", sel > 0)
				if resp.status != 200 || len(got) != 1 || got[0].up != sel {
					up := -1
					if len(got) > 0 {
						up = got[0].up
					}
					t.Fatalf("request got %d, reached %d upstreams (%d, not %d): %s", resp.status, len(got), up, sel, what)
				}
				r := got[0]
				if r.tls != d.https || r.tls && r.sni != d.sni {
					t.Fatalf("upstream connection with TLS=%v for %q: %s", r.tls, r.sni, what)
				}
				proto := d.proto
				if proto == nil {
					proto = dests[0].proto
				}
				if proto == nil {
					proto = ptr("http/1.1")
				}
				if *proto == "" {
					proto = ptr(cproto)
				}
				if (*proto == "h2") != strings.HasPrefix(r.proto, "h2") || (*proto == "h3") != (r.proto == "h3") {
					t.Fatalf("upstream connection uses %s, not %s: %s", r.proto, *proto, what)
				}
				version := d.version
				if *proto == "h3" {
					version = ""
				}
				switch version {
				case "":
					if len(r.pheader) > 0 {
						t.Fatalf("upstream connection has a PROXY header: %s", what)
					}
				case "v1":
					src := cl.net().LocalAddr().(*net.TCPAddr)
					if want := fmt.Sprintf("PROXY TCP4 127.0.0.1 127.0.0.1 %d %s\r\n", src.Port, l.addr[strings.LastIndex(l.addr, ":")+1:]); string(r.pheader) != want && !(cproto == "h3" && string(r.pheader) == "PROXY UNKNOWN\r\n") {
						t.Fatalf("upstream connection has PROXY header %q, not %q: %s", r.pheader, want, what)
					}
				case "v2":
					if !strings.HasPrefix(string(r.pheader), "\r\n\r\n\x00\r\nQUIT\n\x21") {
						t.Fatalf("upstream connection has PROXY header %q: %s", r.pheader, what)
					}
				}
				hh := d.headers
				if hh == nil {
					hh = dests[0].headers
				}
				which := ""
				if hh != nil {
					which = (*hh)["x-which"]
				}
				if g := strings.Join(r.hdr.get("x-which"), ","); g != which {
					t.Fatalf("upstream receives x-which %q, not %q: %s", g, which, what)
				}
				// The path and query.
				gp, gq := r.target, ""
				if i := strings.IndexByte(gp, '?'); i >= 0 {
					gp, gq = gp[:i], gp[i:]
				}
				if gq != query {
					t.Fatalf("upstream receives query %q: %s", gq, what)
				}
				sanitize := dests[0].sanitize
				if d.sanitize != nil {
					sanitize = d.sanitize
				}
				if sanitize == nil || *sanitize {
					gr, ok := refDecode(gp)
					if !ok || gr != clean {
						t.Fatalf("upstream receives path %q, not the clean form %q: %s", gp, clean, what)
					}
				} else if gp != path {
					t.Fatalf("upstream receives path %q: %s", gp, what)
				}
			}
			if resp.closed {
				cl.close()
				if cl, err = l.httpClient(clientTLS("www.example.com", cproto)); err != nil {
					t.Fatalf("connection refused: %v", err)
				}
			}
			key := ""
			if sel > 0 || redirect || raw != clean {
				key = what
			}
			s.Class(cls)
			s.Case(key, func() string { return what + " -> " + cls })
		}
	})
}
