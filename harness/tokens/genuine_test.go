package verif_tokens

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

type world struct {
	own, foreign *tokenmanager.TokenManager
	ownKeys      map[string]pubKey
	ec           *ecdsa.PrivateKey
	ed           ed25519.PrivateKey
	rs           *rsa.PrivateKey
}

var theWorld = sync.OnceValue(func() *world {
	mk := func() *tokenmanager.TokenManager {
		dir, err := os.MkdirTemp("", "tm")
		if err != nil {
			kit.Infra("%v", err)
		}
		return newTM(newStore(dir))
	}
	w := &world{own: mk(), foreign: mk()}
	var err error
	if w.ownKeys, err = fetchJWKS(w.own); err != nil {
		panic(err)
	}
	w.ec, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	_, w.ed, _ = ed25519.GenerateKey(rand.Reader)
	w.rs, _ = rsa.GenerateKey(rand.Reader, 2048)
	return w
})

var b64 = base64.RawURLEncoding

var (
	providers = []string{"google", "saml"}
	issuers   = []string{"https://login.example.com", "https://sso.example.org/"}
	hosts     = []string{"www.example.com", "api.example.com", "xn--bcher-kva.example.com"}
	users     = []string{"alice@example.com", "bob@example.com", "a@b.example"}
)

// issued is a token that the proxy itself made, or is one made up in another
// way, with what a verifier may conclude from it.
type issued struct {
	tok  string
	desc string
	// genuine: signed by this proxy, as is.
	genuine bool
	claims  jwt.MapClaims // when genuine
}

func cookieOf(h http.Header, name string) string {
	for _, c := range (&http.Response{Header: h}).Cookies() {
		if c.Name == name {
			return c.Value
		}
	}
	return ""
}

func decodeClaims(tok string) jwt.MapClaims {
	p := strings.Split(tok, ".")
	if len(p) != 3 {
		return nil
	}
	b, err := b64.DecodeString(p[1])
	if err != nil {
		return nil
	}
	m := jwt.MapClaims{}
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

func drawUsers(t *rapid.T) string { return rapid.SampledFrom(users).Draw(t, "user") }

// genToken makes a token in one of the ways the proxy does, or with crafted
// claims and the proxy's own key (a token for another purpose).
func genToken(t *rapid.T, w *world) issued {
	kind := rapid.SampledFrom([]string{"session", "session", "idcookie", "idcookie", "url", "oidc", "crafted", "crafted", "crafted"}).Draw(t, "kind")
	tm := w.own
	own := rapid.IntRange(0, 7).Draw(t, "signer") != 0
	if !own {
		tm = w.foreign
	}
	provider := rapid.SampledFrom(providers).Draw(t, "provider")
	issuer := rapid.SampledFrom(issuers).Draw(t, "issuer")
	host := rapid.SampledFrom(hosts).Draw(t, "host")
	user := drawUsers(t)
	cm := cookiemanager.New(tm, provider, "example.com", issuer)
	session := func() string {
		rec := httptest.NewRecorder()
		extra := map[string]any{}
		if rapid.Bool().Draw(t, "extra") {
			// What an identity provider asserts must not override anything.
			for _, k := range []string{"sub", "exp", "iss", "proxyauth", "provider", "email", "name", "groups", "aud"} {
				if rapid.IntRange(0, 2).Draw(t, "x"+k) == 0 {
					extra[k] = map[string]any{"exp": 1, "groups": []any{"g1", "g2"}}[k]
					if extra[k] == nil {
						extra[k] = "evil-" + k
					}
				}
			}
		}
		sid := rapid.SampledFrom([]string{"s1", "s2", ""}).Draw(t, "sid")
		if err := cm.SetAuthTokenCookie(rec, user, user, sid, host, extra); err != nil {
			t.Fatalf("SetAuthTokenCookie: %v", err)
		}
		tok := cookieOf(rec.Header(), "TLSPROXYAUTH")
		c := decodeClaims(tok)
		if c["email"] != user || c["sub"] != user || c["sid"] != sid || c["provider"] != provider {
			t.Fatalf("the session token of %q says %v (extra claims %v)", user, c, extra)
		}
		exp, err := c.GetExpirationTime()
		if err != nil || exp == nil || time.Until(exp.Time) <= 0 || time.Until(exp.Time) > 25*time.Hour {
			t.Fatalf("session token expires at %v (extra %v)", c["exp"], extra)
		}
		for k, v := range extra {
			if k == "name" || k == "groups" {
				if !reflect.DeepEqual(c[k], v) {
					t.Fatalf("extra claim %s: got %v, want %v", k, c[k], v)
				}
			}
		}
		return tok
	}
	var tok string
	switch kind {
	case "session":
		tok = session()
	case "idcookie":
		s := session()
		parsed, _, err := jwt.NewParser().ParseUnverified(s, jwt.MapClaims{})
		if err != nil {
			t.Fatalf("session token %q: %v", s, err)
		}
		rec := httptest.NewRecorder()
		req := httptest.NewRequest("GET", "https://"+host+"/", nil)
		if err := cm.SetIDTokenCookie(rec, req, parsed); err != nil {
			t.Fatalf("SetIDTokenCookie: %v", err)
		}
		tok = cookieOf(rec.Header(), "TLSPROXYIDTOKEN")
		if c := decodeClaims(tok); c["email"] != user || c["sub"] != user || c["exp"] != decodeClaims(s)["exp"] {
			t.Fatalf("the ID token of %q says %v", user, c)
		}
	case "url":
		rec := httptest.NewRecorder()
		req := httptest.NewRequest("GET", "https://"+host+"/", nil)
		u, _ := url.Parse("https://" + host + "/x")
		var err error
		extra := map[string]any{"email": user, "sub": user}
		if tok, _, err = tm.URLToken(rec, req, u, extra); err != nil {
			t.Fatalf("URLToken: %v", err)
		}
	default:
		now := time.Now()
		c := jwt.MapClaims{}
		if kind == "oidc" {
			c = jwt.MapClaims{"iss": "https://op.example.com", "aud": rapid.SampledFrom([]string{"client1", issuer, "https://" + host + "/"}).Draw(t, "oidcaud"), "sub": user, "email": user, "exp": now.Add(time.Hour).Unix(), "iat": now.Unix()}
		} else {
			// The claims of a session or an ID token, perturbed.
			c = jwt.MapClaims{"iss": issuer, "sub": user, "email": user, "sid": "s1", "provider": provider, "iat": now.Unix(), "exp": now.Add(time.Hour).Unix()}
			if rapid.Bool().Draw(t, "likeSession") {
				c["aud"] = issuer
				c["proxyauth"] = issuer
			} else {
				c["aud"] = "https://" + host + "/"
			}
			strs := []any{"", issuers[0], issuers[1], "https://" + host + "/", "https://" + hosts[0], "HTTPS://" + strings.ToUpper(host) + "/", 1, nil, []any{}, []any{issuer, "https://" + host + "/"}}
			for i, n := 0, rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, "perturb"); i < n; i++ {
				switch f := rapid.SampledFrom([]string{"iss", "aud", "proxyauth", "provider", "exp", "sub", "nbf", "del"}).Draw(t, "field"); f {
				case "iss", "proxyauth":
					c[f] = rapid.SampledFrom(strs[:7]).Draw(t, "v")
				case "aud":
					c[f] = rapid.SampledFrom(strs).Draw(t, "v")
				case "provider":
					c[f] = rapid.SampledFrom([]any{"", "google", "saml", "Google", "google ", 1}).Draw(t, "v")
				case "exp", "nbf":
					c[f] = now.Add(time.Duration(rapid.SampledFrom([]int{-1000000, -3600, -60, -5, 60, 3600}).Draw(t, "delta")) * time.Second).Unix()
				case "sub":
					c[f] = rapid.SampledFrom([]any{"", "alice@example.com"}).Draw(t, "v")
				case "del":
					delete(c, rapid.SampledFrom([]string{"iss", "aud", "proxyauth", "provider", "sub"}).Draw(t, "k"))
				}
			}
		}
		for k, v := range c {
			if v == nil {
				delete(c, k)
			}
		}
		var err error
		if tok, err = tm.CreateToken(c, rapid.SampledFrom([]string{"", "ES256", "RS256", "EdDSA"}).Draw(t, "alg")); err != nil {
			t.Fatalf("CreateToken: %v", err)
		}
	}
	return issued{tok: tok, desc: fmt.Sprintf("%s own=%v prov=%s iss=%s host=%s", kind, own, provider, issuer, host), genuine: own, claims: decodeClaims(tok)}
}

func sameBytes(a, b string) bool {
	pa, pb := strings.Split(a, "."), strings.Split(b, ".")
	if len(pa) != 3 || len(pb) != 3 {
		return false
	}
	for i := range pa {
		x, e1 := b64.DecodeString(pa[i])
		y, e2 := b64.DecodeString(pb[i])
		if e1 != nil || e2 != nil || !bytes.Equal(x, y) {
			return false
		}
	}
	return true
}

// mutate returns a token that the proxy did not make.
func mutate(t *rapid.T, w *world, in issued, other issued) issued {
	parts := strings.Split(in.tok, ".")
	if len(parts) != 3 {
		t.Fatalf("token %q", in.tok)
	}
	kid := func(tok string) string {
		hb, _ := b64.DecodeString(strings.Split(tok, ".")[0])
		var h struct{ Kid string }
		json.Unmarshal(hb, &h)
		return h.Kid
	}
	header := func(alg, kid string, extra map[string]any) string {
		h := map[string]any{"alg": alg, "typ": "JWT", "kid": kid}
		for k, v := range extra {
			h[k] = v
		}
		b, _ := json.Marshal(h)
		return b64.EncodeToString(b)
	}
	ownEC := func() pubKey {
		var best pubKey
		for _, k := range w.ownKeys {
			if best.kid == "" || k.kid < best.kid {
				best = k
			}
		}
		return best
	}
	how := rapid.SampledFrom([]string{"flip", "flip", "flip", "payload", "payload", "none", "hmac", "hmac", "selfsigned", "selfsigned", "swapsig", "kid", "jwk", "trunc", "dup", "empty", "pad"}).Draw(t, "how")
	payload := parts[1]
	changed := func() string {
		c := decodeClaims(in.tok)
		if c == nil {
			c = jwt.MapClaims{}
		}
		c["email"] = "admin@example.com"
		c["sub"] = "admin@example.com"
		c["exp"] = time.Now().Add(24 * time.Hour).Unix()
		b, _ := json.Marshal(c)
		return b64.EncodeToString(b)
	}
	if rapid.Bool().Draw(t, "changePayload") {
		payload = changed()
	}
	var tok string
	switch how {
	case "flip":
		b := []byte(in.tok)
		i := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		b[i] = rapid.SampledFrom([]byte("ABCXYZabcxyz0189-_.=+/ ")).Draw(t, "c")
		tok = string(b)
	case "payload":
		tok = parts[0] + "." + changed() + "." + parts[2]
	case "none":
		alg := rapid.SampledFrom([]string{"none", "None", "NONE", ""}).Draw(t, "alg")
		sig := rapid.SampledFrom([]string{"", parts[2], "AA"}).Draw(t, "sig")
		tok = header(alg, kid(in.tok), nil) + "." + payload + "." + sig
	case "hmac":
		pk := ownEC()
		if k, ok := w.ownKeys[kid(in.tok)]; ok && rapid.Bool().Draw(t, "usekid") {
			pk = k
		}
		der, _ := x509.MarshalPKIXPublicKey(pk.key)
		secrets := [][]byte{der, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}), []byte(pk.kid), {}, []byte("secret")}
		if e, ok := pk.key.(ed25519.PublicKey); ok {
			secrets = append(secrets, e)
		}
		sec := rapid.SampledFrom(secrets).Draw(t, "secret")
		in := header("HS256", pk.kid, nil) + "." + payload
		m := hmac.New(sha256.New, sec)
		m.Write([]byte(in))
		tok = in + "." + b64.EncodeToString(m.Sum(nil))
	case "selfsigned", "jwk":
		alg := rapid.SampledFrom([]string{"ES256", "EdDSA", "RS256"}).Draw(t, "alg")
		extra := map[string]any{}
		var key any
		var jwk map[string]any
		switch alg {
		case "ES256":
			key = w.ec
			jwk = map[string]any{"kty": "EC", "crv": "P-256", "x": b64.EncodeToString(w.ec.X.FillBytes(make([]byte, 32))), "y": b64.EncodeToString(w.ec.Y.FillBytes(make([]byte, 32)))}
		case "EdDSA":
			key = w.ed
			jwk = map[string]any{"kty": "OKP", "crv": "Ed25519", "x": b64.EncodeToString(w.ed.Public().(ed25519.PublicKey))}
		case "RS256":
			key = w.rs
			jwk = map[string]any{"kty": "RSA", "n": b64.EncodeToString(w.rs.N.Bytes()), "e": "AQAB"}
		}
		if how == "jwk" {
			extra["jwk"] = jwk
		}
		k := rapid.SampledFrom([]string{kid(in.tok), "", "x"}).Draw(t, "kid")
		s := header(alg, k, extra) + "." + payload
		sig, err := jwt.GetSigningMethod(alg).Sign(s, key)
		if err != nil {
			t.Fatalf("sign: %v", err)
		}
		tok = s + "." + b64.EncodeToString(sig)
	case "swapsig":
		op := strings.Split(other.tok, ".")
		tok = rapid.SampledFrom([]string{parts[0] + "." + parts[1] + "." + op[2], parts[0] + "." + op[1] + "." + parts[2], op[0] + "." + parts[1] + "." + parts[2], op[0] + "." + parts[1] + "." + op[2]}).Draw(t, "swap")
	case "kid":
		hb, _ := b64.DecodeString(parts[0])
		var h map[string]any
		json.Unmarshal(hb, &h)
		h["kid"] = rapid.SampledFrom([]any{"", nil, 0, ownEC().kid, "../" + kid(in.tok), []any{kid(in.tok)}}).Draw(t, "kid")
		b, _ := json.Marshal(h)
		tok = b64.EncodeToString(b) + "." + payload + "." + parts[2]
	case "trunc":
		tok = in.tok[:rapid.IntRange(0, len(in.tok)-1).Draw(t, "n")]
	case "dup":
		tok = rapid.SampledFrom([]string{in.tok + "." + in.tok, in.tok + ".", "." + in.tok, in.tok + "." + parts[2]}).Draw(t, "dup")
	case "empty":
		tok = rapid.SampledFrom([]string{"", ".", "..", "...", parts[0] + ".." + parts[2], parts[0] + "." + parts[1] + ".", "." + parts[1] + "." + parts[2]}).Draw(t, "empty")
	case "pad":
		tok = rapid.SampledFrom([]string{in.tok + "A", in.tok + "AAAA", parts[0] + "." + parts[1] + "AAAA." + parts[2], "A" + in.tok}).Draw(t, "pad")
	}
	return issued{tok: tok, desc: "mutated(" + how + ") " + in.desc, genuine: false, claims: decodeClaims(tok)}
}

func hasAud(c jwt.MapClaims, want string) bool {
	switch a := c["aud"].(type) {
	case string:
		return a == want
	case []any:
		for _, v := range a {
			if v == want {
				return true
			}
		}
	}
	return false
}

func timeClaim(c jwt.MapClaims, k string) (time.Time, bool) {
	f, ok := c[k].(float64)
	return time.Unix(int64(f), 0), ok
}

func TestC11Tokens(t *testing.T) {
	kit.Check(t, "one token (issued as session / ID cookie / return-address / OIDC, or with crafted claims; by this proxy's or a foreign key; optionally altered: bytes, payload, alg none/HMAC-with-public-key/own key, kid, embedded jwk, spliced parts) presented as session cookie, ID cookie or bearer token to every (provider, issuer, host); non-trivial: the token is signed by this proxy or is an alteration of one that is", func(t *rapid.T, s *kit.Stats) {
		w := theWorld()
		in := genToken(t, w)
		own := in.genuine
		if rapid.Bool().Draw(t, "mutate") {
			other := genToken(t, w)
			m := mutate(t, w, in, other)
			// The same bytes in another spelling are neither here nor there.
			dontCare := sameBytes(m.tok, in.tok) && in.genuine || sameBytes(m.tok, other.tok) && other.genuine
			if dontCare {
				s.Case("", nil)
				return
			}
			in = m
		}
		now := time.Now()
		c := in.claims
		_, hasExp := timeClaim(c, "exp")
		live := in.genuine
		if e, ok := timeClaim(c, "exp"); ok && !now.Before(e.Add(-2*time.Second)) {
			live = false
		}
		if n, ok := timeClaim(c, "nbf"); ok && now.Before(n) {
			live = false
		}
		sub, _ := c["sub"].(string)
		accepted := ""
		name := rapid.SampledFrom([]string{"Bearer ", "bearer ", "BEARER "}).Draw(t, "scheme")
		port := rapid.SampledFrom([]string{"", ":443", ":8443"}).Draw(t, "port")
		// A genuine session to compare an ID cookie with.
		sessSub := rapid.SampledFrom([]string{sub, "alice@example.com"}).Draw(t, "sessSub")
		sessSid, _ := c["sid"].(string)
		if rapid.IntRange(0, 3).Draw(t, "othersid") == 0 {
			sessSid = "other"
		}
		for _, p := range providers {
			for _, iss := range issuers {
				cm := cookiemanager.New(w.own, p, "example.com", iss)
				for _, host := range hosts {
					where := fmt.Sprintf("%s presented to provider=%s issuer=%s host=%s", in.desc, p, iss, host+port)
					mkReq := func() *http.Request {
						return httptest.NewRequest("GET", "https://"+host+port+"/", nil)
					}
					// As the session cookie.
					req := mkReq()
					req.Header.Set("Cookie", "a=b; TLSPROXYAUTH="+in.tok+"; c=d")
					got, err := cm.ValidateAuthTokenCookie(req)
					want := live && c["iss"] == iss && hasAud(c, iss) && c["proxyauth"] == iss && c["provider"] == p && sub != ""
					if err == nil && !want {
						t.Fatalf("%s as the session cookie: accepted; claims %v", where, c)
					}
					if err != nil && want && hasExp {
						t.Fatalf("%s as the session cookie: rejected: %v; claims %v", where, err, c)
					}
					if err == nil {
						accepted += "S"
						if !reflect.DeepEqual(got.Claims, c) {
							t.Fatalf("%s: claims %v, issued %v", where, got.Claims, c)
						}
					}
					// As a bearer token.
					req = mkReq()
					req.Header.Set("Authorization", name+in.tok)
					got, err = cm.ValidateAuthorizationHeader(req)
					aud := "https://" + host + "/"
					wantB := live && c["iss"] == iss && hasAud(c, aud) && c["proxyauth"] == nil
					if err == nil && !wantB {
						t.Fatalf("%s as a bearer token: accepted; claims %v", where, c)
					}
					if err != nil && wantB && hasExp && c["provider"] == p {
						t.Fatalf("%s as a bearer token: rejected: %v; claims %v", where, err, c)
					}
					if err == nil {
						accepted += "B"
						if !reflect.DeepEqual(got.Claims, c) {
							t.Fatalf("%s: claims %v, issued %v", where, got.Claims, c)
						}
					}
					// As the ID cookie, next to a session.
					sess := &jwt.Token{Claims: jwt.MapClaims{"sub": sessSub, "sid": sessSid, "email": sessSub}}
					req = mkReq()
					req.Header.Set("Cookie", "TLSPROXYIDTOKEN="+in.tok)
					err = cm.ValidateIDTokenCookie(req, sess)
					cs, _ := c["sid"].(string)
					wantI := live && c["iss"] == iss && hasAud(c, aud) && sub == sessSub && cs == sessSid
					if err == nil && !wantI {
						t.Fatalf("%s as the ID cookie of a session (%q, %q): accepted; claims %v", where, sessSub, sessSid, c)
					}
					if err == nil {
						accepted += "I"
					}
				}
			}
		}
		s.Class(fmt.Sprintf("accepted somewhere: %v", accepted != ""))
		key := ""
		if own {
			key = in.tok
		}
		s.Case(key, func() string { return in.desc + " accepted=" + accepted + " " + in.tok })
	})
}

// TestC13URLToken: return-address tokens.
func TestC13URLToken(t *testing.T) {
	kit.Check(t, "a return-address token made in one browser session for a generated URL and attributes, presented in the same or another session, as is or altered, or another kind of token; non-trivial: every case but a valid token in its own session for a plain URL", func(t *rapid.T, s *kit.Stats) {
		w := theWorld()
		host := rapid.SampledFrom(append(hosts, "10.1.2.3:8443", "[::1]:443", "www.example.com:444")).Draw(t, "host")
		path := rapid.SampledFrom([]string{"", "/", "/a/b", "//evil.com/", "/%2e%2e/x", "/a%2fb", "/é", "/x;y", "/a b", "/..;/", "/\\evil.com"}).Draw(t, "path")
		query := rapid.SampledFrom([]string{"", "a=b", "a=b&c=%26%3d", "u=https://evil.com/", "%zz", "a+b=%2B"}).Draw(t, "query")
		u := &url.URL{Scheme: "https", Host: host, Path: path, RawQuery: query}
		if v, err := url.PathUnescape(path); err == nil && v != path {
			u.Path, u.RawPath = v, path
		}
		extra := map[string]any{}
		for _, k := range []string{"email", "nonce", "url", "sid"} {
			if rapid.Bool().Draw(t, "has"+k) {
				extra[k] = rapid.SampledFrom([]string{"alice@example.com", "", "https://evil.example/"}).Draw(t, k)
			}
		}
		orig := u.String()
		sidA := rapid.SampledFrom([]string{"", "0123456789abcdef", "x"}).Draw(t, "sid")
		req := httptest.NewRequest("GET", "https://proxy.example.com/", nil)
		if sidA != "" {
			req.AddCookie(&http.Cookie{Name: tokenmanager.SessionIDCookieName, Value: sidA})
		}
		rec := httptest.NewRecorder()
		tm := w.own
		foreign := rapid.IntRange(0, 7).Draw(t, "foreign") == 0
		if foreign {
			tm = w.foreign
		}
		tok, _, err := tm.URLToken(rec, req, u, extra)
		if err != nil {
			t.Fatalf("URLToken: %v", err)
		}
		if u.String() != orig {
			t.Fatalf("URLToken changed the URL from %q to %q", orig, u)
		}
		set := cookieOf(rec.Header(), tokenmanager.SessionIDCookieName)
		if sidA == "" {
			if len(set) < 16 {
				t.Fatalf("session identifier %q is too short", set)
			}
			sidA = set
		} else if set != "" && set != sidA {
			t.Fatalf("session identifier changed from %q to %q", sidA, set)
		}
		presented, altered := tok, false
		if rapid.IntRange(0, 2).Draw(t, "alter") == 0 {
			in := issued{tok: tok, genuine: !foreign, claims: decodeClaims(tok)}
			if rapid.Bool().Draw(t, "otherkind") {
				presented = genToken(t, w).tok
			} else {
				presented = mutate(t, w, in, genToken(t, w)).tok
			}
			altered = true
			if sameBytes(presented, tok) {
				s.Case("", nil)
				return
			}
		}
		sidB := sidA
		switch rapid.IntRange(0, 4).Draw(t, "session") {
		case 0:
			sidB = rapid.SampledFrom([]string{"", "other", sidA + "x", strings.ToUpper(sidA) + "X"}).Draw(t, "othersid")
		}
		req2 := httptest.NewRequest("GET", "https://proxy.example.com/", nil)
		if sidB != "" {
			req2.Header.Set("Cookie", "z=1; "+tokenmanager.SessionIDCookieName+"="+sidB)
		}
		got, claims, err := w.own.ValidateURLToken(httptest.NewRecorder(), req2, presented)
		want := !altered && !foreign && sidA == sidB
		if err == nil && !want {
			t.Fatalf("token %q (altered=%v foreign=%v) made in session %q is accepted in session %q", presented, altered, foreign, sidA, sidB)
		}
		if err != nil && want {
			t.Fatalf("token for %q is refused in its own session: %v", orig, err)
		}
		if err == nil {
			if got.String() != orig {
				t.Fatalf("URL %q became %q", orig, got)
			}
			for k, v := range extra {
				if k != "url" && k != "sid" && claims[k] != v {
					t.Fatalf("attribute %s: %v, want %v", k, claims[k], v)
				}
			}
			for k := range claims {
				if _, ok := extra[k]; !ok && (k == "email" || k == "nonce") {
					t.Fatalf("attribute %s was invented: %v", k, claims[k])
				}
			}
		}
		key := fmt.Sprint(host, path, query, extra, altered, foreign, sidA == sidB, kit.Hash(presented))
		if want && path == "/" && query == "" {
			key = ""
		}
		s.Class(fmt.Sprintf("accepted=%v", err == nil))
		s.Case(key, func() string {
			return fmt.Sprintf("url=%q extra=%v altered=%v foreign=%v sameSession=%v accepted=%v", orig, extra, altered, foreign, sidA == sidB, err == nil)
		})
	})
}
