package proxy

import (
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// cookieParts splits Cookie header lines into their cookies.
func cookieParts(lines []string) (out []string) {
	for _, l := range lines {
		for _, p := range strings.Split(l, ";") {
			if p = strings.Trim(p, " \t"); p != "" {
				out = append(out, p)
			}
		}
	}
	return
}

func TestC06Cookies(t *testing.T) {
	l := theLab()
	now := time.Now()
	values := []string{"", "1", "x", "a=b", "=", "\"q\"", "\"q q\"", "\"", "a b", "a,b", "é", "%3B", "TLSPROXYAUTH", "TLSPROXYAUTH=x", "x:y/z?", "\\", "{\"a\":1}", "\"TLSPROXYSID=1\""}
	names := []string{"a", "b", "sid", "session", "TLSPROXYAUTHX", "XTLSPROXYAUTH", "TLSPROXY", "TLSPROXYIDTOKEN", "a b", "a@b", "é", "(x)", "$Version", "a[0]", "__Host-a"}
	kit.Check(t, "backends with and without SSO (protected path prefixes or everything), HTTP or HTTPS upstreams with HTTP/1 or HTTP/2; requests over HTTP/1 and HTTP/2 on protected and unprotected paths whose Cookie header has genuine and made up session cookies among 0-6 other cookies with odd names and values, with odd spacing and split over several lines; the cookies that the upstream receives are compared, in order and byte for byte, with those sent minus the session cookies; non-trivial: a session cookie is present together with another cookie or an odd spelling", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(*vreq) *vresp { return &vresp{} })
		cfg := l.cfg(false)
		l.oidcCfg(cfg)
		proto := rapid.SampledFrom(append([]*string{ptr("http/1.1")}, upProtos...)).Draw(t, "proto")
		mode := rapid.SampledFrom([]string{"HTTP", "HTTPS"}).Draw(t, "mode")
		if needsTLS(proto) {
			mode = "HTTPS"
		}
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: mode, Addresses: []string{l.ups[0].addr}, InsecureSkipVerify: true, BackendProto: proto, ForwardRateLimit: 100000}
		sso := rapid.SampledFrom([]string{"no", "all", "some"}).Draw(t, "sso")
		if sso != "no" {
			be.SSO = &BackendSSO{Provider: "idp1", SetUserIDHeader: rapid.Bool().Draw(t, "uid")}
			if sso == "some" {
				be.SSO.Paths = []string{"/private"}
			}
		}
		over := &PathOverride{Paths: []string{"/over/"}, Addresses: []string{l.ups[1].addr}, Mode: mode, InsecureSkipVerify: true, BackendProto: proto}
		be.PathOverrides = []*PathOverride{over}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		cproto := rapid.SampledFrom(clientProtos).Draw(t, "clientproto")
		cl, err := l.httpClient(clientTLS("www.example.com", cproto))
		if err != nil {
			t.Fatalf("connection refused: %v", err)
		}
		defer cl.close()
		for range rapid.IntRange(1, 4).Draw(t, "requests") {
			path := rapid.SampledFrom([]string{"/", "/public/x", "/private/x", "/privatex", "/over/x", "/a/../private/"}).Draw(t, "path")
			protected := sso == "all" || sso == "some" && strings.Contains(path, "/private")
			var parts []string
			sess, odd, others := false, false, 0
			if protected || rapid.Bool().Draw(t, "genuine") {
				tok := l.token(sessionClaims("idp1", "bob@example.com", "www.example.com", now), "")
				parts = append(parts, "TLSPROXYAUTH="+tok)
				sess = true
			}
			for range rapid.IntRange(0, 6).Draw(t, "cookies") {
				var p string
				switch rapid.IntRange(0, 4).Draw(t, "kind") {
				case 0:
					n := rapid.SampledFrom([]string{"TLSPROXYAUTH", "TLSPROXYSID"}).Draw(t, "own")
					eq := rapid.SampledFrom([]string{"=", "=", "=", " =", "= ", "\t= "}).Draw(t, "eq")
					p = n + eq + rapid.SampledFrom(values).Draw(t, "value")
					if rapid.IntRange(0, 7).Draw(t, "bare") == 0 {
						p = n
					}
					sess = true
					odd = odd || eq != "=" || p == n
				case 1:
					p = rapid.SampledFrom(names).Draw(t, "barename")
					others++
				default:
					p = rapid.SampledFrom(names).Draw(t, "name") + rapid.SampledFrom([]string{"=", "=", "=", " = "}).Draw(t, "eq") + rapid.SampledFrom(values).Draw(t, "value")
					others++
				}
				parts = append(parts, p)
			}
			if !protected || len(parts) > 0 && !strings.HasPrefix(parts[0], "TLSPROXYAUTH=ey") {
				parts = rapid.Permutation(parts).Draw(t, "order")
			} else if len(parts) > 1 {
				// The genuine one comes before made up ones.
				at := rapid.IntRange(0, len(parts)-1).Draw(t, "at")
				for i, p := range parts[1:] {
					if strings.HasPrefix(p, "TLSPROXYAUTH") {
						at = min(at, i)
						break
					}
				}
				g := parts[0]
				parts = slices.Insert(slices.Clone(parts[1:]), at, g)
			}
			// Lines.
			var lines []string
			line := ""
			for i, p := range parts {
				if i > 0 {
					switch rapid.IntRange(0, 6).Draw(t, "sep") {
					case 0:
						line += ";"
					case 1:
						line += " ;  "
					case 2:
						line += ";; "
					case 3:
						lines = append(lines, line)
						line = ""
					default:
						line += "; "
					}
				}
				line += p
			}
			if len(parts) > 0 {
				if rapid.IntRange(0, 5).Draw(t, "tail") == 0 {
					line += rapid.SampledFrom([]string{";", "; ", ";;"}).Draw(t, "tailsep")
				}
				lines = append(lines, line)
			}
			req := &creq{method: rapid.SampledFrom([]string{"GET", "POST", "HEAD", "DELETE"}).Draw(t, "method"), target: path, host: "www.example.com"}
			for _, ln := range lines {
				req.hdr = append(req.hdr, [2]string{rapid.SampledFrom([]string{"Cookie", "cookie", "COOKIE"}).Draw(t, "hname"), ln})
				req.hdr = append(req.hdr, [2]string{"X-Other", "1"})
			}
			var want []string
			for _, p := range cookieParts(lines) {
				n, _, _ := strings.Cut(p, "=")
				if n = strings.Trim(n, " \t"); n == "TLSPROXYAUTH" || n == "TLSPROXYSID" {
					continue
				}
				want = append(want, p)
			}
			rec.forget()
			resp, err := cl.do(req)
			what := fmt.Sprintf("%s client=%s upstream=%s %v sso=%s", req, cproto, mode, proto, sso)
			if err != nil {
				t.Fatalf("request failed: %v: %s", err, what)
			}
			got := rec.all()
			if len(got) != 1 {
				t.Fatalf("%d requests reached the upstream (status %d): %s", len(got), resp.status, what)
			}
			have := cookieParts(got[0].hdr.get("cookie"))
			for _, h := range append(slices.Clone(have), got[0].hdr.get("cookie2")...) {
				n, _, _ := strings.Cut(h, "=")
				if n = strings.Trim(n, " \t\""); n == "TLSPROXYAUTH" || n == "TLSPROXYSID" {
					t.Fatalf("the upstream received the session cookie %q: %s", h, what)
				}
			}
			if !slices.Equal(have, want) {
				t.Fatalf("the upstream received cookies\n%q, want\n%q: %s", have, want, what)
			}
			key := ""
			if sess && (others > 0 || odd) {
				key = fmt.Sprint(lines, path, sso, cproto, mode, proto)
			}
			s.Class(fmt.Sprintf("sso=%s protected=%v session=%v lines=%d", sso, protected, sess, min(len(lines), 3)))
			s.Case(key, func() string { return fmt.Sprintf("%s %q %q -> %q", path, sso, lines, have) })
		}
	})
}
