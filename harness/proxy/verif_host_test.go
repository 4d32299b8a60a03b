package proxy

import (
	"fmt"
	"strings"
	"testing"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

func TestC08Host(t *testing.T) {
	l := theLab()
	root := l.writeFiles(map[string]string{"id": "static"})
	kit.Check(t, "HTTP and HTTPS backends with 1-3 names (any case, IDN), one of which the TLS connection asks for, next to a backend with other names; requests over HTTP/1 and HTTP/2 whose Host is a name of the backend in any case, IDN form and with or without a port, a near miss, another backend's name, or absolute-form targets; Via headers of 0-4 lines in which the proxy's own address may appear at any position of any line, next to look-alikes; 421, 508 and forwarding with the Host kept are compared with a reference; non-trivial: the Host is not the connection's name verbatim, or a Via header is present", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(*vreq) *vresp { return &vresp{body: []byte("ok")} })
		cfg := l.cfg(false)
		mode := rapid.SampledFrom([]string{"HTTP", "HTTPS"}).Draw(t, "mode")
		proto := rapid.SampledFrom(upProtos).Draw(t, "proto")
		if needsTLS(proto) {
			mode = "HTTPS"
		}
		be := &Backend{Mode: mode, InsecureSkipVerify: true, ForwardRateLimit: 100000, BackendProto: proto}
		static := rapid.IntRange(0, 7).Draw(t, "static") == 0
		if static {
			be.DocumentRoot = root
		} else {
			be.Addresses = []string{l.ups[0].addr}
		}
		var names []string
		for range rapid.IntRange(1, 3).Draw(t, "names") {
			n := rapid.SampledFrom(vNames).Draw(t, "name")
			dup := false
			for _, x := range names {
				dup = dup || x == n.wire
			}
			if !dup {
				names = append(names, n.wire)
				be.ServerNames = append(be.ServerNames, n.cfg)
			}
		}
		other := &Backend{ServerNames: []string{"other.example.com"}, Mode: "HTTP", Addresses: []string{l.ups[1].addr}, ForwardRateLimit: 100000}
		cfg.Backends = []*Backend{be, other}
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		sni := rapid.SampledFrom(names).Draw(t, "sni")
		cproto := rapid.SampledFrom(clientProtos).Draw(t, "clientproto")
		cl, err := l.httpClient(clientTLS(randCase(t, sni), cproto))
		if err != nil {
			t.Fatalf("connection refused: %v", err)
		}
		defer func() { cl.close() }()
		for range rapid.IntRange(1, 4).Draw(t, "requests") {
			var host, wire string // as sent; the name that is meant
			either, uni := false, false
			switch rapid.SampledFrom([]string{"own", "own", "own", "own", "uni", "near", "near", "other", "known", "ip", "odd"}).Draw(t, "host") {
			case "own":
				wire = rapid.SampledFrom(names).Draw(t, "own")
				host = randCase(t, wire)
			case "uni":
				// The Unicode form, which HTTP clients don't send.
				wire = rapid.SampledFrom(names).Draw(t, "own")
				host = wire
				if wire == "xn--bcher-kva.example.com" {
					host, either, uni = "b\u00fccher.example.com", true, true
				}
			case "near":
				n := rapid.SampledFrom(names).Draw(t, "own")
				host = rapid.SampledFrom([]string{"x" + n, n + "x", "x." + n, strings.Replace(n, "example", "examp1e", 1) + "y", n + ".evil.org", "evil.org." + n, n[1:], n + "@other.example.com", "www." + n}).Draw(t, "near")
				wire = host
				if strings.Contains(host, "@") {
					either = true // not a valid host
				}
			case "other":
				host, wire = "other.example.com", "other.example.com"
			case "known":
				host = rapid.SampledFrom(vNames).Draw(t, "known").wire
				wire = host
			case "ip":
				host = rapid.SampledFrom([]string{"127.0.0.1", "[::1]", "10.0.0.1"}).Draw(t, "ip")
				wire = host
			case "odd":
				n := rapid.SampledFrom(names).Draw(t, "own")
				host = n + "."
				wire, either = n, true // the root label is optional
			}
			port := rapid.SampledFrom([]string{"", "", "", ":443", ":8443", ":"}).Draw(t, "port")
			if host != wire && strings.Contains(host, "\u00fc") {
				port = ""
			}
			mine := false
			for _, n := range names {
				mine = mine || n == wire
			}
			req := &creq{method: rapid.SampledFrom([]string{"GET", "POST", "HEAD"}).Draw(t, "method"), target: "/id?x=1", host: host + port}
			abs := cproto == "http/1.1" && rapid.IntRange(0, 6).Draw(t, "absolute") == 0 && !either
			if abs {
				// The Host header does not count then.
				req.target = "https://" + host + port + "/id?x=1"
				req.host = rapid.SampledFrom([]string{host + port, sni, "other.example.com"}).Draw(t, "ignored")
			}
			if req.method == "POST" {
				req.hasBody, req.body = true, []byte("body")
			}
			// Via.
			me := l.addr
			loop := false
			var vias []string
			for range rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4}).Draw(t, "vias") {
				line := ""
				for j := range rapid.IntRange(1, 3).Draw(t, "hops") {
					if j > 0 {
						line += rapid.SampledFrom([]string{", ", ",", ",  ", " , "}).Draw(t, "sep")
					}
					by := rapid.SampledFrom([]string{"me", "1.2.3.4:443", me + "0", "x" + me, "127.0.0.1", "vegur", "me"}).Draw(t, "by")
					if by == "me" {
						loop, by = true, me
					}
					line += rapid.SampledFrom([]string{"HTTP/1.1 ", "HTTP/2.0 ", "1.1 ", "2 ", "HTTP/3.0 "}).Draw(t, "viaproto") + by
				}
				vias = append(vias, line)
				req.hdr = append(req.hdr, [2]string{rapid.SampledFrom([]string{"Via", "via", "VIA"}).Draw(t, "vianame"), line}, [2]string{"X-A", "b"})
			}
			rec.forget()
			resp, err := cl.do(req)
			what := fmt.Sprintf("%s %s on a connection for %s of a backend named %q", cproto, req, sni, be.ServerNames)
			if err != nil && !either {
				t.Fatalf("request failed: %v: %s", err, what)
			}
			got := rec.all()
			status := 0
			if err == nil {
				status = resp.status
			}
			switch {
			case !mine:
				if len(got) > 0 {
					t.Fatalf("request for another host reached a backend: %v: %s", got[0], what)
				}
				if status != 421 && !(either && (status == 0 || status == 400)) {
					t.Fatalf("request for another host got %d: %s", status, what)
				}
			case either && (status == 421 || status == 400 || status == 0):
				if len(got) > 0 {
					t.Fatalf("refused request reached a backend: %v: %s", got[0], what)
				}
			case static:
				if len(got) > 0 {
					t.Fatalf("request for static files reached a backend: %v: %s", got[0], what)
				}
				if wantStatus := 200; status != wantStatus && !(req.method == "POST" && status == 405) {
					t.Fatalf("status %d: %s", status, what)
				}
			case loop:
				if len(got) > 0 {
					t.Fatalf("looping request reached a backend: %v: %s", got[0], what)
				}
				if status != 508 {
					t.Fatalf("looping request got %d: %s", status, what)
				}
			default:
				if status != 200 || len(got) != 1 || got[0].up != 0 {
					t.Fatalf("status %d, %d requests forwarded: %s", status, len(got), what)
				}
				if want := host + port; !strings.EqualFold(got[0].host, want) && !(uni && got[0].host == wire) && !(host == "" && port == "") {
					t.Fatalf("Host %q became %q: %s", want, got[0].host, what)
				}
				// The proxy adds itself, and keeps the others.
				joined := strings.Join(got[0].hdr.get("via"), ", ")
				if !strings.HasSuffix(joined, " "+me) {
					t.Fatalf("the upstream received Via %q: %s", joined, what)
				}
				for _, v := range vias {
					for _, h := range strings.Split(v, ",") {
						if !strings.Contains(joined, strings.TrimSpace(h)) {
							t.Fatalf("the upstream received Via %q without %q: %s", joined, h, what)
						}
					}
				}
			}
			if err != nil || resp.closed {
				// The connection may be gone.
				cl.close()
				if cl, err = l.httpClient(clientTLS(sni, cproto)); err != nil {
					t.Fatalf("connection refused: %v", err)
				}
			}
			key := ""
			if host+port != sni || len(vias) > 0 {
				key = what
			}
			s.Class(fmt.Sprintf("mine=%v loop=%v -> %d", mine, loop, status))
			s.Case(key, func() string { return fmt.Sprintf("%s -> %d", what, status) })
		}
	})
}
