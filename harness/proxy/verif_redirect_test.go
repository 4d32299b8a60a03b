package proxy

import (
	"fmt"
	"html"
	"net/http"
	"net/http/httptest"
	"regexp"
	"strings"
	"testing"
	"time"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// browserHost returns the host that a browser goes to when a page of host
// redirects it to loc.
func browserHost(host, loc string) string {
	loc = strings.Trim(loc, "\x00\x01\x02\x03\x04\x05\x06\x07\x08\t\n\x0b\x0c\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f ")
	loc = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(loc)
	if i := strings.IndexByte(loc, ':'); i > 0 && !strings.ContainsAny(loc[:i], "/\\?#") {
		switch strings.ToLower(loc[:i]) {
		case "https":
			rest := strings.TrimLeft(loc[i+1:], "/\\")
			if rest == loc[i+1:] {
				// Relative to the page.
				return host
			}
			loc = "//" + rest
		case "http":
			loc = "//" + strings.TrimLeft(loc[i+1:], "/\\")
		default:
			return loc[:i+1]
		}
	}
	isSlash := func(c byte) bool { return c == '/' || c == '\\' }
	if len(loc) < 2 || !isSlash(loc[0]) || !isSlash(loc[1]) {
		return host
	}
	auth := strings.TrimLeft(loc, "/\\")
	if i := strings.IndexAny(auth, "/\\?#"); i >= 0 {
		auth = auth[:i]
	}
	if i := strings.LastIndexByte(auth, '@'); i >= 0 {
		auth = auth[i+1:]
	}
	return strings.ToLower(strings.TrimSuffix(auth, ":443"))
}

var hrefRE = regexp.MustCompile(`(?:\?|&|&amp;)(?:redirect|u)=([A-Za-z0-9_.-]+)`)

func TestC13Redirects(t *testing.T) {
	l := theLab()
	now := time.Now()
	root := l.writeFiles(map[string]string{"id": "static", "evil.com/x/id": "y", "evil.com/index.html": "z", "x/evil.com/id": "w"})
	kit.Check(t, "backends with SSO (ID tokens generated or not, paths protected or not, upstream, static files with directories, or path overrides), then requests over HTTP/1 and HTTP/2 whose paths and parameters imitate other hosts in every way (empty segments, slashes, backslashes, control characters, encoded or not, with detours), with and without session, ID token and session identifier; every redirect is resolved like a browser does, and followed; the login link of each login page is used from the same and from another browser session; non-trivial: the answer is a redirect or a page with a login link", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(*vreq) *vresp { return &vresp{body: []byte("upstream")} })
		cfg := l.cfg(false)
		l.oidcCfg(cfg)
		sso := &BackendSSO{Provider: "idp1", GenerateIDTokens: rapid.IntRange(0, 2).Draw(t, "idtokens") > 0}
		sso.Paths = rapid.SampledFrom([][]string{nil, {"/private"}, {"/x"}, {"/nothing"}}).Draw(t, "paths")
		if rapid.IntRange(0, 3).Draw(t, "acl") == 0 {
			sso.ACL = &[]string{"alice@example.com"}
		}
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: "HTTP", ForwardRateLimit: 100000, SSO: sso}
		kind := rapid.SampledFrom([]string{"upstream", "static", "override", "override"}).Draw(t, "kind")
		if kind == "static" {
			be.DocumentRoot = root
		} else {
			be.Addresses = []string{l.ups[0].addr}
		}
		if kind == "override" {
			for range rapid.IntRange(1, 2).Draw(t, "overrides") {
				po := &PathOverride{Paths: []string{rapid.SampledFrom([]string{"/evil.com/", "/x/", "/x/evil.com/", "//evil.com/", "/private/"}).Draw(t, "prefix")}}
				if rapid.Bool().Draw(t, "staticoverride") {
					po.DocumentRoot = root
				} else {
					po.Addresses = []string{l.ups[1].addr}
				}
				be.PathOverrides = append(be.PathOverrides, po)
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "jwks") == 0 {
			be.ExportJWKS = "/x/jwks"
		}
		if rapid.IntRange(0, 3).Draw(t, "keeppath") == 0 {
			be.SanitizePath = ptr(false)
		}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		cproto := rapid.SampledFrom(clientProtos).Draw(t, "clientproto")
		cl, err := l.httpClient(clientTLS("www.example.com", cproto))
		if err != nil {
			t.Fatalf("connection refused: %v", err)
		}
		defer func() { cl.close() }()
		send := func(req *creq) *cresp {
			resp, err := cl.do(req)
			if err == nil && !resp.closed {
				return resp
			}
			cl.close()
			var err2 error
			if cl, err2 = l.httpClient(clientTLS("www.example.com", cproto)); err2 != nil {
				t.Fatalf("connection refused: %v", err2)
			}
			if err != nil {
				return nil
			}
			return resp
		}
		for range rapid.IntRange(1, 4).Draw(t, "requests") {
			host := rapid.SampledFrom([]string{"www.example.com", "www.example.com", "www.example.com:8443"}).Draw(t, "host")
			segs := []string{"", "", "evil.com", "evil.com", "..", ".", "x", "private", "%2f", "%2Fevil.com", "%5cevil.com", "%09", "%0aevil.com", "www.example.com@evil.com", ".sso", "jwks", "%3f", "%25", ";", "evil.com%2f..", "https:", "%00"}
			if cproto == "http/1.1" {
				segs = append(segs, "\\evil.com", "\\")
			}
			path := ""
			for range rapid.IntRange(1, 5).Draw(t, "segments") {
				path += "/" + rapid.SampledFrom(segs).Draw(t, "segment")
			}
			switch rapid.IntRange(0, 9).Draw(t, "endpoint") {
			case 0:
				path = "/.sso/login"
			case 1:
				path = "/.sso/logout"
			case 2:
				path = rapid.SampledFrom([]string{"/.sso/", "/.sso", "//.sso", "/x/..//.sso/", "/.sso//login"}).Draw(t, "sso")
			}
			q := rapid.SampledFrom([]string{"", "", "?a=b", "?redirect=https://evil.com/", "?u=https://evil.com/", "?redirect=//evil.com&u=//evil.com", "?//evil.com", "?x=/../..//evil.com"}).Draw(t, "query")
			req := &creq{method: rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "POST", "HEAD"}).Draw(t, "method"), target: path + q, host: host}
			if req.method == "POST" {
				req.hasBody = true
			}
			session := rapid.SampledFrom([]string{"", "bob@example.com", "bob@example.com", "alice@example.com"}).Draw(t, "session")
			idCookie := rapid.SampledFrom([]string{"", "", "other", "bad"}).Draw(t, "idcookie")
			var cookies []string
			if session != "" {
				claims := sessionClaims("idp1", session, host, now)
				cookies = append(cookies, "TLSPROXYAUTH="+l.token(claims, ""))
				switch idCookie {
				case "other":
					delete(claims, "proxyauth")
					delete(claims, "hhash")
					claims["aud"], claims["sid"] = "https://www.example.com/", "sid-2"
					cookies = append(cookies, "TLSPROXYIDTOKEN="+l.token(claims, "ES256"))
				case "bad":
					cookies = append(cookies, "TLSPROXYIDTOKEN=xyz")
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "skip") == 0 {
				req.hdr = append(req.hdr, [2]string{"X-Skip-Login-Confirmation", "1"})
			}
			base := len(req.hdr)
			req.hdr = append(req.hdr, [2]string{"Cookie", strings.Join(cookies, "; ")})
			if len(cookies) == 0 {
				req.hdr = req.hdr[:base]
			}
			what := fmt.Sprintf("%s %s %q at %s, session %q, ID token cookie %q (%s, protected %q, ID tokens %v)", cproto, req.method, req.target, host, session, idCookie, kind, sso.Paths, sso.GenerateIDTokens)
			rec.forget()
			resp := send(req)
			if resp == nil {
				s.Class("no answer")
				s.Case("", func() string { return what })
				continue
			}
			key := ""
			cls := fmt.Sprint(resp.status)
			if loc := resp.hdr.Get("Location"); loc != "" && len(rec.all()) == 0 {
				key = what
				if got := browserHost(host, loc); got != host {
					t.Fatalf("redirected to %q (host %q): %s", loc, got, what)
				}
			}
			set := map[string]string{}
			for _, c := range (&http.Response{Header: resp.hdr}).Cookies() {
				set[c.Name] = c.Value
			}
			// The ID token cookie: the browser comes back with it.
			if idt := set["TLSPROXYIDTOKEN"]; idt != "" && resp.status == 302 {
				cls = "id token"
				loc := strings.TrimPrefix(resp.hdr.Get("Location"), "https://"+host)
				again := *req
				again.target = loc
				again.hdr = append(append(hdrs{}, req.hdr[:base]...), [2]string{"Cookie", strings.Join(append(cookies[:1:1], "TLSPROXYIDTOKEN="+idt), "; ")})
				wp, _, _ := strings.Cut(req.target, "?")
				gp, _, _ := strings.Cut(loc, "?")
				wr, _ := refDecode(wp)
				gr, ok := refDecode(gp)
				if !ok || wr != gr || strings.Contains(req.target, "?") != strings.Contains(loc, "?") || loc[len(gp):] != req.target[len(wp):] {
					t.Fatalf("redirected to %q to set the ID token: %s", resp.hdr.Get("Location"), what)
				}
				if strings.HasPrefix(loc, "/") {
					if r := send(&again); r != nil && r.status == 302 && strings.HasPrefix(strings.Join(r.hdr.Values("Set-Cookie"), ","), "TLSPROXYIDTOKEN") && strings.TrimPrefix(r.hdr.Get("Location"), "https://"+host) == loc {
						t.Fatalf("redirected again with the new ID token: %s", what)
					}
				}
			}
			// The login link.
			var tok string
			if m := hrefRE.FindStringSubmatch(resp.hdr.Get("Location")); m != nil && len(m[1]) > 100 {
				tok = m[1]
			} else if m := hrefRE.FindStringSubmatch(string(resp.body)); m != nil && len(m[1]) > 100 {
				tok = html.UnescapeString(m[1])
			}
			if sid := set["TLSPROXYSID"]; tok != "" {
				key = what
				cls = "login link"
				if sid == "" {
					t.Fatalf("login link without session identifier (%v): %s", resp.hdr, what)
				}
				use := func(sid, tok string) *cresp {
					r := &creq{method: "GET", target: "/.sso/login?redirect=" + tok, host: host}
					if sid != "" {
						r.hdr = hdrs{{"Cookie", "TLSPROXYSID=" + sid}}
					}
					return send(r)
				}
				r := use(sid, tok)
				if r == nil || r.status != 302 || browserHost(host, r.hdr.Get("Location")) != "idp.example.net" {
					t.Fatalf("the login link doesn't work (%v): %s", r, what)
				}
				otherSid := rapid.SampledFrom([]string{"", "x", sid + "x", sid[:len(sid)-1], strings.ToUpper(sid), "AAAAAAAAAAAAAAAAAAAAAA"}).Draw(t, "othersid")
				if otherSid != sid {
					if r := use(otherSid, tok); r != nil && r.status < 400 {
						t.Fatalf("the login link is accepted in another session (%q instead of %q): %s", otherSid, sid, what)
					}
				}
				if r := use(sid, tok[:len(tok)-4]+"AAAA"); !strings.HasSuffix(tok, "AAAA") && r != nil && r.status < 400 {
					t.Fatalf("a modified login link is accepted: %s", what)
				}
				// It is for the address that was asked for.
				vr, _ := http.NewRequest("GET", "https://"+host+"/", nil)
				vr.AddCookie(&http.Cookie{Name: "TLSPROXYSID", Value: sid})
				u, _, err := l.p.tokenManager.ValidateURLToken(httptest.NewRecorder(), vr, tok)
				if err != nil {
					t.Fatalf("the token of a login link is invalid: %v: %s", err, what)
				}
				wp, _ := refDecode(path)
				if u.Scheme != "https" || u.Host != host || u.Path != wp || "?"+u.RawQuery != q && u.RawQuery != strings.TrimPrefix(q, "?") {
					t.Fatalf("the login link leads to %v: %s", u, what)
				}
				if bh := browserHost("", u.String()); bh != host {
					t.Fatalf("the login link leads to %q at %q: %s", u, bh, what)
				}
			}
			s.Class(cls)
			s.Case(key, func() string { return what + " -> " + cls })
		}
	})
}
