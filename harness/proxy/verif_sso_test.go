package proxy

import (
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	jwt "github.com/golang-jwt/jwt/v5"
	"pgregory.net/rapid"
)

// refDecode decodes a path once; ok is false when it isn't a valid encoding.
func refDecode(s string) (string, bool) {
	var out []byte
	hex := func(c byte) int {
		return strings.IndexByte("0123456789abcdef", c|0x20)
	}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, s[i])
			continue
		}
		if i+2 >= len(s) {
			return "", false
		}
		a, b := strings.Index("0123456789abcdefABCDEF", s[i+1:i+2]), strings.Index("0123456789abcdefABCDEF", s[i+2:i+3])
		if a < 0 || b < 0 {
			return "", false
		}
		out = append(out, byte(hex(s[i+1])<<4|hex(s[i+2])))
		i += 2
	}
	return string(out), true
}

// refClean resolves the dot segments and the empty segments of a path.
func refClean(p string) string {
	var st []string
	for _, seg := range strings.Split(p, "/") {
		switch seg {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, seg)
		}
	}
	out := "/" + strings.Join(st, "/")
	if out != "/" && strings.HasSuffix(p, "/") {
		out += "/"
	}
	return out
}

// encPath encodes some characters of a path that don't need it.
func encPath(t *rapid.T, p string) string {
	if rapid.IntRange(0, 2).Draw(t, "encode") > 0 {
		return p
	}
	n := rapid.IntRange(1, 3).Draw(t, "encoded")
	at := map[int]bool{}
	for range n {
		at[rapid.IntRange(0, len(p)-1).Draw(t, "at")] = true
	}
	out := ""
	for i := range len(p) {
		if at[i] && i > 0 && p[i] != '%' && (i < 1 || p[i-1] != '%') && (i < 2 || p[i-2] != '%') {
			out += fmt.Sprintf(rapid.SampledFrom([]string{"%%%02x", "%%%02X"}).Draw(t, "hexcase"), p[i])
		} else {
			out += p[i : i+1]
		}
	}
	return out
}

// genPath makes paths from the given words, with detours.
func genPath(t *rapid.T, words []string) string {
	p := ""
	for range rapid.IntRange(1, 4).Draw(t, "segments") {
		p += "/" + rapid.SampledFrom(append([]string{"..", ".", ""}, words...)).Draw(t, "segment")
	}
	if rapid.IntRange(0, 3).Draw(t, "slash") == 0 {
		p += "/"
	}
	return encPath(t, p)
}

func TestC05SSO(t *testing.T) {
	l := theLab()
	root := l.writeFiles(map[string]string{"private/x": "SECRET", "public/x": "SECRET", "index.html": "SECRET", "x": "SECRET"})
	now := time.Now()
	words := []string{"private", "private", "public", "x", "privateer", "Private", "...", "a", "b", ".sso", "%2e%2e", "%252e%252e", "..%2f", "%5c..", "private;x", "login"}
	kit.Check(t, "HTTP backends with SSO (any of several protected prefixes or all paths; no, empty or listed ACL of addresses and domains; forced re-authentication or not; upstream, static files or a path override), then requests over HTTP/1 and HTTP/2 with any method, form of the target, and detours and encodings in the path, carrying no credentials or a session cookie and/or bearer ID token that is valid, expired, of another provider, issuer, host, key or age; the decision, and what reaches the upstream, are compared with a reference; non-trivial: the path is protected, or is one that only decoding or cleaning shows not to be", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(*vreq) *vresp { return &vresp{body: []byte("SECRET")} })
		cfg := l.cfg(false)
		l.oidcCfg(cfg)
		sso := &BackendSSO{Provider: "idp1"}
		sso.Paths = rapid.SampledFrom([][]string{nil, {}, {"/private"}, {"/private"}, {"/private/"}, {"/a/b", "/private/x"}, {"/"}, {"/private", "/x"}, {"/public/x/", "/private"}}).Draw(t, "paths")
		acls := []string{"bob@example.com", "alice@example.com", "@example.com", "@other.com", "@", "example.com", "*", "bob", "@EXAMPLE.com", "Bob@example.com"}
		if rapid.IntRange(0, 3).Draw(t, "acl") > 0 {
			acl := rapid.SliceOfN(rapid.SampledFrom(acls), 0, 3).Draw(t, "entries")
			sso.ACL = &acl
		}
		if rapid.IntRange(0, 2).Draw(t, "force") == 0 {
			sso.ForceReAuth = rapid.SampledFrom([]time.Duration{time.Hour, 5 * time.Minute, 10 * time.Hour}).Draw(t, "reauth")
		}
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: "HTTP", ForwardRateLimit: 100000, SSO: sso}
		kind := rapid.SampledFrom([]string{"upstream", "upstream", "static", "override"}).Draw(t, "kind")
		switch kind {
		case "static":
			be.DocumentRoot = root
		case "override":
			be.PathOverrides = []*PathOverride{{Paths: []string{rapid.SampledFrom([]string{"/private/", "/public/", "/"}).Draw(t, "overridden")}, Addresses: []string{l.ups[1].addr}}}
			fallthrough
		default:
			be.Addresses = []string{l.ups[0].addr}
		}
		if rapid.Bool().Draw(t, "keeppath") {
			be.SanitizePath = ptr(false)
		}
		if rapid.IntRange(0, 3).Draw(t, "proto") == 0 {
			be.BackendProto = ptr("h2")
		}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		aclDesc := "none"
		if sso.ACL != nil {
			aclDesc = fmt.Sprintf("%q", *sso.ACL)
		}
		cproto := rapid.SampledFrom(clientProtos).Draw(t, "clientproto")
		cl, err := l.httpClient(clientTLS("www.example.com", cproto))
		if err != nil {
			t.Fatalf("connection refused: %v", err)
		}
		defer func() { cl.close() }()
		for range rapid.IntRange(1, 4).Draw(t, "requests") {
			host := rapid.SampledFrom([]string{"www.example.com", "www.example.com", "www.example.com", "www.example.com:8443"}).Draw(t, "host")
			path := genPath(t, words)
			req := &creq{method: rapid.SampledFrom([]string{"GET", "GET", "GET", "HEAD", "POST", "PUT", "OPTIONS", "DELETE"}).Draw(t, "method"), target: path, host: host}
			if rapid.IntRange(0, 3).Draw(t, "query") == 0 {
				req.target += rapid.SampledFrom([]string{"?", "?x=/private", "?x=/../public", "?/public"}).Draw(t, "q")
			}
			// The other forms of request targets.
			form := "origin"
			if rapid.IntRange(0, 5).Draw(t, "form") == 0 {
				form = rapid.SampledFrom([]string{"absolute", "opaque", "opaque"}).Draw(t, "targetform")
			}
			switch {
			case form == "absolute" && cproto == "http/1.1":
				req.target = rapid.SampledFrom([]string{"https", "http", "HTTPS"}).Draw(t, "scheme") + "://" + host + req.target
			case form == "opaque":
				req.target = rapid.SampledFrom([]string{"x:", "https:", "http:", "a+b.c-d:"}).Draw(t, "scheme") + rapid.SampledFrom([]string{"http://" + host, "https://" + host, "", "x:http://" + host}).Draw(t, "opaque") + rapid.SampledFrom([]string{req.target, strings.TrimLeft(req.target, "/")}).Draw(t, "opaquepath")
			default:
				form = "origin"
			}
			if req.method == "POST" || req.method == "PUT" {
				req.hasBody, req.body = true, []byte("body")
			}
			skip := false
			if rapid.IntRange(0, 5).Draw(t, "skip") == 0 {
				skip = true
				req.hdr = append(req.hdr, [2]string{"X-Skip-Login-Confirmation", "1"})
			}
			// The credentials.
			type cred struct {
				desc  string
				ok    bool
				email string
				iat   time.Time
				host  string
			}
			var bearer, cookie cred
			genCred := func(isCookie bool) (cred, string) {
				c := cred{ok: true, email: rapid.SampledFrom([]string{"bob@example.com", "alice@example.com", "Bob@example.com", "bob@other.com", "carol@sub.example.com", "eve@example.com.evil.org", "bob@notexample.com", "bob"}).Draw(t, "email"), host: host}
				c.iat = now.Add(-rapid.SampledFrom([]time.Duration{0, time.Minute, 4 * time.Minute, 7 * time.Minute, 50 * time.Minute, 70 * time.Minute, 9 * time.Hour, 11 * time.Hour}).Draw(t, "age"))
				if rapid.IntRange(0, 3).Draw(t, "otherhost") == 0 {
					c.host = rapid.SampledFrom([]string{"www.example.com", "other.example.com", "www.example.com:8443", "idp1.example.com"}).Draw(t, "loginhost")
				}
				claims := sessionClaims("idp1", c.email, c.host, c.iat)
				if !isCookie {
					delete(claims, "proxyauth")
					if c.host != host && rapid.Bool().Draw(t, "otheraud") {
						claims["aud"] = "https://" + strings.TrimSuffix(c.host, ":8443") + "/"
						c.ok = claims["aud"] == "https://www.example.com/"
					} else {
						claims["aud"] = "https://www.example.com/"
					}
					delete(claims, "hhash")
					c.host = "-"
				}
				alg := rapid.SampledFrom([]string{"", "ES256", "RS256"}).Draw(t, "alg")
				tok := ""
				mut := rapid.SampledFrom([]string{"", "", "", "", "", "", "", "expired", "provider", "issuer", "kind", "garbled", "none", "noemail", "cut"}).Draw(t, "mut")
				c.desc = fmt.Sprintf("%s of %s aged %s", mut, c.email, now.Sub(c.iat))
				switch mut {
				case "expired":
					claims["exp"] = now.Add(-time.Duration(rapid.SampledFrom([]int{2, 60, 100000}).Draw(t, "ago")) * time.Second).Unix()
					c.ok = false
				case "provider":
					if isCookie {
						claims["provider"], c.ok = "idp2", false
					}
				case "issuer":
					o := sessionClaims("idp2", c.email, host, c.iat)
					claims["iss"], c.ok = o["iss"], false
				case "kind":
					// One kind of token as the other.
					if isCookie {
						delete(claims, "proxyauth")
					} else {
						claims["proxyauth"] = claims["iss"]
					}
					c.ok = false
				case "noemail":
					// The proxy makes no such tokens.
					if isCookie {
						delete(claims, "email")
						c.ok = false
					}
				case "none":
					c.ok = false
					tok, _ = jwt.NewWithClaims(jwt.SigningMethodNone, claims).SignedString(jwt.UnsafeAllowNoneSignatureType)
				}
				if tok == "" {
					tok = l.token(claims, alg)
				}
				switch mut {
				case "garbled":
					i := rapid.IntRange(0, len(tok)-2).Draw(t, "garbleat")
					if tok[i] != '.' {
						c.ok = false
						tok = tok[:i] + strings.Trim("AB", tok[i:i+1])[:1] + tok[i+1:]
					}
				case "cut":
					c.ok = false
					tok = tok[:strings.LastIndexByte(tok, '.')+1]
				}
				return c, tok
			}
			kindOfCred := rapid.SampledFrom([]string{"none", "cookie", "cookie", "cookie", "cookie", "bearer", "both"}).Draw(t, "cred")
			desc := kindOfCred
			if kindOfCred == "bearer" || kindOfCred == "both" {
				var tok string
				bearer, tok = genCred(false)
				req.hdr = append(req.hdr, [2]string{"Authorization", rapid.SampledFrom([]string{"Bearer ", "bearer ", "BEARER "}).Draw(t, "scheme") + tok})
				desc += " bearer{" + bearer.desc + fmt.Sprintf(" ok=%v}", bearer.ok)
			}
			if kindOfCred == "cookie" || kindOfCred == "both" {
				var tok string
				cookie, tok = genCred(true)
				ck := "TLSPROXYAUTH=" + tok
				switch rapid.IntRange(0, 4).Draw(t, "others") {
				case 0:
					ck = "a=b; " + ck
				case 1:
					ck += "; c=d"
				}
				req.hdr = append(req.hdr, [2]string{"Cookie", ck})
				desc += " cookie{" + cookie.desc + fmt.Sprintf(" host=%s ok=%v}", cookie.host, cookie.ok)
			}
			// The reference.
			raw, ok := refDecode(path)
			if !ok {
				panic(path)
			}
			clean := refClean(raw)
			protected := len(sso.Paths) == 0
			for _, p := range sso.Paths {
				protected = protected || strings.HasPrefix(raw, p) || strings.HasPrefix(clean, p)
			}
			local := clean == "/.sso/" || clean == "/.sso/login"
			user := bearer
			if !user.ok {
				user = cookie
			}
			in := user.ok
			if in && sso.ForceReAuth != 0 && (user.host != host || now.Sub(user.iat) > sso.ForceReAuth) {
				in = false
			}
			admitted := in
			if in && sso.ACL != nil {
				_, domain, _ := strings.Cut(user.email, "@")
				admitted = slices.Contains(*sso.ACL, user.email) || slices.Contains(*sso.ACL, "@"+domain)
			}
			rec.forget()
			resp, err := cl.do(req)
			what := fmt.Sprintf("%s %s %s at %s, credentials %s, protected paths %q ACL %s reauth %s (%s, keep path %v)", cproto, req.method, req.target, host, desc, sso.Paths, aclDesc, sso.ForceReAuth, kind, be.SanitizePath != nil)
			if form == "opaque" {
				// These have no path that makes sense. Whatever is done
				// with them, the protected paths remain protected.
				got := rec.all()
				for _, r := range got {
					p := r.target
					for {
						i := strings.Index(p, ":")
						if j := strings.IndexAny(p, "/?"); i < 0 || j >= 0 && j < i {
							break
						}
						p = p[i+1:]
					}
					if strings.HasPrefix(p, "//") && p != r.target {
						_, rest, _ := strings.Cut(p[2:], "/")
						p = "/" + rest
					}
					p, _, _ = strings.Cut(p, "?")
					raw, _ := refDecode(p)
					clean := refClean(raw)
					protected := len(sso.Paths) == 0
					for _, pp := range sso.Paths {
						protected = protected || strings.HasPrefix(raw, pp) || strings.HasPrefix(clean, pp)
					}
					if protected && !admitted {
						t.Fatalf("the backend gets a request for %q, which is protected: %s", r.target, what)
					}
				}
				if err != nil || resp.closed {
					cl.close()
					if cl, err = l.httpClient(clientTLS("www.example.com", cproto)); err != nil {
						t.Fatalf("connection refused: %v", err)
					}
				}
				s.Class(form)
				s.Case(what, func() string { return fmt.Sprintf("%s -> %d forwarded", what, len(got)) })
				continue
			}
			if err != nil {
				t.Fatalf("request failed: %v: %s", err, what)
			}
			got := rec.all()
			shown := len(got) > 0 || strings.Contains(string(resp.body), "SECRET")
			cls := ""
			switch {
			case local:
				cls = "local"
				if shown {
					t.Fatalf("a request for a local endpoint was answered with a backend's content: %s", what)
				}
			case protected && !in:
				cls = "refused"
				if shown {
					t.Fatalf("a request without a valid session was answered with a backend's content: %s", what)
				}
				want := 403
				if req.method == "GET" && skip {
					want = 302
				}
				if resp.status != want {
					t.Fatalf("a request without a valid session got %d: %s", resp.status, what)
				}
				if want == 302 {
					if loc := resp.hdr.Get("Location"); !strings.HasPrefix(loc, "/.sso/login?redirect=") {
						t.Fatalf("a request without a valid session was redirected to %q: %s", loc, what)
					}
				}
			case protected && !admitted:
				cls = "denied"
				if shown || resp.status != 403 {
					t.Fatalf("a request of a user who is not in the ACL got %d (forwarded: %d): %s", resp.status, len(got), what)
				}
			default:
				cls = "admitted"
				if !protected {
					cls = "unprotected"
				}
				if resp.status == 403 && kind != "static" {
					t.Fatalf("a permitted request got %d: %s", resp.status, what)
				}
				switch {
				case clean == "/.sso":
					if shown || resp.status != 301 && resp.status != 303 {
						t.Fatalf("a permitted request for a local endpoint without its slash got %d: %s", resp.status, what)
					}
				case kind == "upstream" && (len(got) != 1 || resp.status != 200 || got[0].up != 0):
					t.Fatalf("a permitted request got %d, and reached %d upstreams: %s", resp.status, len(got), what)
				case kind == "override" && resp.status != 301 && resp.status != 303 && (len(got) != 1 || resp.status != 200):
					t.Fatalf("a permitted request got %d, and reached %d upstreams: %s", resp.status, len(got), what)
				case kind == "static" && req.method == "GET" && raw == clean && slices.Contains([]string{"/private/x", "/public/x", "/", "/x"}, clean) && !shown:
					t.Fatalf("a permitted request for a file got %d: %s", resp.status, what)
				case kind == "static" && resp.status == 302:
					t.Fatalf("a permitted request for a file was redirected to %q: %s", resp.hdr.Get("Location"), what)
				}
			}
			if resp.closed {
				cl.close()
				if cl, err = l.httpClient(clientTLS("www.example.com", cproto)); err != nil {
					t.Fatalf("connection refused: %v", err)
				}
			}
			key := ""
			if protected || raw != path || clean != raw {
				key = what
			}
			s.Class(cls)
			s.Case(key, func() string { return fmt.Sprintf("%s -> %s %d", what, cls, resp.status) })
		}
	})
}
