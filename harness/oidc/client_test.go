package verif_oidc

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/oidc"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// idpServer is the identity provider's back channel: what it answers to a code
// or an access token is scripted per case.
type idpServer struct {
	mu     sync.Mutex
	url    string
	token  map[string]func(url.Values) (int, string)
	access map[string]string
}

var theIDP = sync.OnceValue(func() *idpServer {
	s := &idpServer{token: map[string]func(url.Values) (int, string){}, access: map[string]string{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Infra("%v", err)
	}
	s.url = "http://" + l.Addr().String()
	mux := http.NewServeMux()
	mux.HandleFunc("/token", func(w http.ResponseWriter, req *http.Request) {
		req.ParseForm()
		s.mu.Lock()
		f := s.token[req.PostForm.Get("code")]
		s.mu.Unlock()
		if f == nil {
			w.WriteHeader(400)
			w.Write([]byte(`{"error":"invalid_grant"}`))
			return
		}
		code, body := f(req.PostForm)
		w.Header().Set("content-type", "application/json")
		w.WriteHeader(code)
		w.Write([]byte(body))
	})
	mux.HandleFunc("/userinfo", func(w http.ResponseWriter, req *http.Request) {
		a := strings.TrimPrefix(req.Header.Get("authorization"), "Bearer ")
		s.mu.Lock()
		body, ok := s.access[a]
		s.mu.Unlock()
		if !ok {
			w.WriteHeader(401)
			w.Write([]byte(`{}`))
			return
		}
		w.Write([]byte(body))
	})
	srv := &http.Server{Handler: mux}
	srv.SetKeepAlivesEnabled(false)
	go srv.Serve(l)
	return s
})

func TestC14Client(t *testing.T) {
	kit.Check(t, "a history of login requests and callbacks by 2 browsers (the right or another state, code, browser; repeated; concurrent; late), against an identity provider whose answers are generated (nonce, email, email_verified, hd, sub, ID token or userinfo, failures); non-trivial: at least one callback after a login request that is not the plain success", func(t *rapid.T, s *kit.Stats) {
		idpS := theIDP()
		tm := theTM()
		hd := rapid.SampledFrom([]string{"", "", "example.com", "*"}).Draw(t, "hd")
		useUserinfo := rapid.IntRange(0, 2).Draw(t, "userinfo") == 0
		scopes := rapid.SampledFrom([][]string{nil, {"openid", "email", "profile"}}).Draw(t, "scopes")
		type ans struct {
			Kind, Nonce, Email, Verified, HD, Sub string
		}
		type step struct {
			Op      string
			Browser int
			Target  int // which login (index back from the last), for state
			Code    int // which login's code
			Orig    string
			Dur     time.Duration
			Twice   bool
			StateV  string
			Hint    string
			Ans     ans
		}
		var steps []step
		n := rapid.IntRange(2, 9).Draw(t, "n")
		for i := 0; i < n; i++ {
			st := step{Op: rapid.SampledFrom([]string{"login", "login", "callback", "callback", "callback", "advance"}).Draw(t, "op"), Browser: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "browser")}
			if i == 0 {
				st.Op = "login"
			}
			switch st.Op {
			case "login":
				st.Orig = "https://" + rapid.SampledFrom([]string{"www.example.com", "api.example.com:8443"}).Draw(t, "host") + rapid.SampledFrom([]string{"/", "/a?b=c&d=%26", "//x/../y", "/é"}).Draw(t, "path")
				st.Hint = rapid.SampledFrom([]string{"", "a&state=b@example.com"}).Draw(t, "hint")
				a := ans{Kind: "ok", Nonce: "own", Email: "alice@example.com", Verified: "absent", Sub: "12345", HD: ""}
				if hd != "" {
					a.HD = "example.com"
				}
				for k, m := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "twists"); k < m; k++ {
					switch rapid.SampledFrom([]string{"kind", "nonce", "nonce", "email", "verified", "hd", "sub"}).Draw(t, "twist") {
					case "kind":
						a.Kind = rapid.SampledFrom([]string{"error", "html", "notoken", "badjwt", "drop"}).Draw(t, "kind")
					case "nonce":
						a.Nonce = rapid.SampledFrom([]string{"", "other", "bogus"}).Draw(t, "nonce")
					case "email":
						a.Email = rapid.SampledFrom([]string{"", "Bob@Example.com", "bob@example.com", "a b@example.com"}).Draw(t, "email")
					case "verified":
						a.Verified = rapid.SampledFrom([]string{"true", "false"}).Draw(t, "verified")
					case "hd":
						a.HD = rapid.SampledFrom([]string{"", "example.com", "evil.com", "EXAMPLE.com.evil", "*", "evil-example.com", "example.com.evil.org", "www.example.com", "example.co", "xample.com"}).Draw(t, "hdv")
					case "sub":
						a.Sub = rapid.SampledFrom([]string{"", "999"}).Draw(t, "sub")
					}
				}
				st.Ans = a
			case "callback":
				st.Target = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "target")
				st.Code = rapid.SampledFrom([]int{-1, -1, -1, -1, 0, 1, 2}).Draw(t, "code")
				st.Twice = rapid.IntRange(0, 4).Draw(t, "twice") == 0
				st.StateV = rapid.SampledFrom([]string{"", "", "", "", "", "", "bogus", "none"}).Draw(t, "stateV")
			case "advance":
				st.Dur = time.Duration(rapid.SampledFrom([]int{1, 100, 250, 299, 301, 400}).Draw(t, "sec")) * time.Second
			}
			steps = append(steps, st)
		}
		caseID := kit.Hash(steps, time.Now().UnixNano(), kit.Seed())
		outcome := ""
		nonTrivial := false
		kit.Bubble(func() {
			cm := cookiemanager.New(tm, "idp", "example.com", "https://login.example.com")
			cfg := oidc.Config{
				AuthEndpoint: "https://idp.example.net/auth", TokenEndpoint: idpS.url + "/token", RedirectURL: "https://login.example.com/oauth2/redirect",
				ClientID: "client&1", ClientSecret: "s3cr3t", HostedDomain: hd, Scopes: scopes,
			}
			if useUserinfo {
				cfg.UserinfoEndpoint = idpS.url + "/userinfo"
			}
			client, err := oidc.New(cfg, nopRecorder{}, cm)
			if err != nil {
				t.Fatalf("oidc.New: %v", err)
			}
			type login struct {
				state, nonce, challenge, orig, code string
				browser                             int
				at                                  time.Time
				used                                bool
				step                                step
			}
			var logins []*login
			lastOf := map[int]*login{}
			jars := map[int]jar{0: {}, 1: {}}
			defer func() {
				idpS.mu.Lock()
				defer idpS.mu.Unlock()
				for _, l := range logins {
					delete(idpS.token, l.code)
					delete(idpS.access, l.code)
				}
			}()
			for i, st := range steps {
				where := fmt.Sprintf("step %d %s", i, st.Op)
				switch st.Op {
				case "advance":
					time.Sleep(st.Dur)
				case "login":
					req := httptest.NewRequest("GET", "https://www.example.com/.sso/login?redirect=x", nil)
					req.Header.Set("Cookie", jars[st.Browser].header())
					rec := httptest.NewRecorder()
					var opts []idp.Option
					if st.Hint != "" {
						opts = append(opts, idp.WithLoginHint(st.Hint))
					}
					client.RequestLogin(rec, req, st.Orig, opts...)
					loc, err := url.Parse(rec.Header().Get("Location"))
					if err != nil || rec.Code/100 != 3 || loc.Host != "idp.example.net" {
						t.Fatalf("%s: RequestLogin: %d %q", where, rec.Code, rec.Header().Get("Location"))
					}
					q := loc.Query()
					for k, want := range map[string]string{"response_type": "code", "client_id": cfg.ClientID, "redirect_uri": cfg.RedirectURL, "hd": hd, "login_hint": st.Hint} {
						if v := q[k]; (want == "" && len(v) > 0 && v[0] != "") || (want != "" && (len(v) != 1 || v[0] != want)) {
							t.Fatalf("%s: parameter %s of the authorization request is %q, want %q", where, k, v, want)
						}
					}
					if sc := strings.Fields(q.Get("scope")); !slices.Contains(sc, "openid") {
						t.Fatalf("%s: scope %q", where, q.Get("scope"))
					}
					l := &login{state: q.Get("state"), nonce: q.Get("nonce"), challenge: q.Get("code_challenge"), orig: st.Orig, browser: st.Browser, at: time.Now(), step: st, code: fmt.Sprintf("code-%s-%d", caseID, i)}
					if len(l.state) < 16 || len(q["state"]) != 1 || l.nonce == "" {
						t.Fatalf("%s: state %q, nonce %q", where, q["state"], l.nonce)
					}
					if l.challenge != "" && q.Get("code_challenge_method") != "S256" {
						t.Fatalf("%s: challenge method %q", where, q.Get("code_challenge_method"))
					}
					for _, o := range logins {
						if o.state == l.state || o.nonce == l.nonce {
							t.Fatalf("%s: state or nonce used again", where)
						}
					}
					jars[st.Browser].update(rec.Header())
					lastOf[st.Browser] = l
					logins = append(logins, l)
				case "callback":
					if st.Target >= len(logins) {
						continue
					}
					l := logins[len(logins)-1-st.Target]
					cl := l
					if st.Code >= 0 && st.Code < len(logins) {
						cl = logins[len(logins)-1-st.Code]
					}
					a := cl.step.Ans
					nonce := cl.nonce
					switch a.Nonce {
					case "":
						nonce = ""
					case "other":
						nonce = logins[0].nonce
						if logins[0] == cl && len(logins) > 1 {
							nonce = logins[1].nonce
						} else if logins[0] == cl {
							nonce = "0123456789abcdef01234567"
						}
					case "bogus":
						nonce = strings.ToUpper(cl.nonce) + "0"
					}
					claims := jwt.MapClaims{"iss": "https://idp.example.net", "aud": cfg.ClientID, "exp": time.Now().Add(time.Hour).Unix(), "iat": time.Now().Unix()}
					set := func(k, v string) {
						if v != "" {
							claims[k] = v
						}
					}
					set("nonce", nonce)
					set("email", a.Email)
					set("sub", a.Sub)
					set("hd", a.HD)
					if a.Verified != "absent" {
						claims["email_verified"] = a.Verified == "true"
					}
					posted := []url.Values{}
					idpS.mu.Lock()
					cb, _ := json.Marshal(claims)
					idpS.access[cl.code] = string(cb)
					idpS.token[cl.code] = func(f url.Values) (int, string) {
						idpS.mu.Lock()
						posted = append(posted, f)
						idpS.mu.Unlock()
						switch a.Kind {
						case "error":
							return 400, `{"error":"invalid_grant"}`
						case "html":
							return 200, "<html>"
						case "notoken":
							return 200, `{}`
						case "badjwt":
							return 200, `{"id_token":"a.b.c"}`
						case "drop":
							panic(http.ErrAbortHandler)
						}
						if useUserinfo {
							b, _ := json.Marshal(map[string]any{"access_token": cl.code, "token_type": "Bearer"})
							return 200, string(b)
						}
						tok, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, claims).SignedString([]byte("x"))
						b, _ := json.Marshal(map[string]any{"id_token": tok, "access_token": "x", "token_type": "Bearer"})
						return 200, string(b)
					}
					idpS.mu.Unlock()
					v := url.Values{"code": {cl.code}, "state": {l.state}}
					switch st.StateV {
					case "bogus":
						v.Set("state", "0123456789abcdef01234567")
					case "none":
						v.Del("state")
					}
					j := jars[st.Browser]
					hdr := j.header()
					call := func() *httptest.ResponseRecorder {
						req := httptest.NewRequest("GET", "https://login.example.com/oauth2/redirect?"+v.Encode(), nil)
						if hdr != "" {
							req.Header.Set("Cookie", hdr)
						}
						rec := httptest.NewRecorder()
						client.HandleCallback(rec, req)
						return rec
					}
					var recs []*httptest.ResponseRecorder
					if st.Twice {
						var wg sync.WaitGroup
						recs = make([]*httptest.ResponseRecorder, 3)
						for k := range recs {
							wg.Add(1)
							go func() { defer wg.Done(); recs[k] = call() }()
						}
						wg.Wait()
					} else {
						recs = append(recs, call())
					}
					sessions := 0
					why := ""
					switch {
					case st.StateV != "":
						why = "the state was not issued"
					case l.used:
						why = "the state was used before"
					case time.Since(l.at) > 5*time.Minute:
						why = fmt.Sprintf("the login was requested %v ago", time.Since(l.at))
					case l.browser != st.Browser:
						why = "the browser is not the one that asked"
					case a.Kind != "ok":
						why = "the code exchange failed"
					case nonce != "" && nonce != l.nonce:
						why = "the nonce is not that of this login"
					case a.Email == "":
						why = "there is no email"
					case a.Verified == "false":
						why = "the email is not verified"
					case hd != "" && (a.HD == "" || hd != "*" && a.HD != hd):
						why = "the hosted domain is wrong"
					}
					for _, rec := range recs {
						var sess string
						for _, c := range (&http.Response{Header: rec.Header()}).Cookies() {
							if c.Name == "TLSPROXYAUTH" && c.MaxAge >= 0 && c.Value != "" {
								sess = c.Value
								if !c.Secure || !c.HttpOnly {
									t.Fatalf("%s: the session cookie is not Secure and HttpOnly", where)
								}
							}
						}
						if sess == "" {
							if loc := rec.Header().Get("Location"); loc != "" {
								t.Fatalf("%s: no session but a redirect to %q", where, loc)
							}
							continue
						}
						sessions++
						if why != "" {
							t.Fatalf("%s: a session was created although %s; answer %+v", where, why, a)
						}
						tok, err := tm.ValidateToken(sess)
						if err != nil {
							t.Fatalf("%s: session token: %v", where, err)
						}
						c := tok.Claims.(jwt.MapClaims)
						hh := sha256.Sum256([]byte(hostOf(l.orig)))
						if c["email"] != a.Email || c["sub"] != a.Sub || c["hhash"] != hex.EncodeToString(hh[:]) {
							t.Fatalf("%s: the session says %v; the provider said %+v for %s", where, c, a, l.orig)
						}
						if got := rec.Header().Get("Location"); rec.Code/100 != 3 || !sameURL(got, l.orig) {
							t.Fatalf("%s: after login: %d to %q, want %q", where, rec.Code, got, l.orig)
						}
					}
					if sessions > 1 {
						t.Fatalf("%s: %d sessions from one state", where, sessions)
					}
					// What was sent to the provider.
					idpS.mu.Lock()
					pp := slices.Clone(posted)
					idpS.mu.Unlock()
					if len(pp) > 1 {
						t.Fatalf("%s: the code was sent %d times", where, len(pp))
					}
					for _, f := range pp {
						if why == "the state was not issued" || why == "the state was used before" || l.browser != st.Browser {
							t.Fatalf("%s: the code was used although %s", where, why)
						}
						if f.Get("client_id") != cfg.ClientID || f.Get("client_secret") != cfg.ClientSecret || f.Get("redirect_uri") != cfg.RedirectURL || f.Get("grant_type") != "authorization_code" {
							t.Fatalf("%s: token request %v", where, f)
						}
						if l.challenge != "" {
							h := sha256.Sum256([]byte(f.Get("code_verifier")))
							if base64.RawURLEncoding.EncodeToString(h[:]) != l.challenge {
								t.Fatalf("%s: the code verifier is not that of this login", where)
							}
						}
					}
					if why == "" && a.Sub != "" && lastOf[st.Browser] == l && j["TLSPROXYNONCE"] != "" && sessions == 0 {
						t.Fatalf("%s: no session although everything is right: %d %s; answer %+v", where, recs[0].Code, recs[0].Body, a)
					}
					if st.StateV == "" {
						l.used = true
					}
					if st.StateV == "" && len(recs) > 0 {
						j.update(recs[0].Header())
					}
					outcome += map[bool]string{true: "S", false: "-"}[sessions > 0]
					if why != "" || st.Twice {
						nonTrivial = true
					}
					s.Class("callback: " + map[bool]string{true: "success", false: why}[why == ""])
				}
			}
		})
		key := ""
		if nonTrivial {
			key = fmt.Sprint(hd, useUserinfo, steps)
		}
		s.Case(key, func() string { return fmt.Sprintf("hd=%q userinfo=%v %+v -> %s", hd, useUserinfo, steps, outcome) })
	})
}

func hostOf(u string) string {
	p, err := url.Parse(u)
	if err != nil {
		return ""
	}
	return p.Host
}

// sameURL compares a Location with a URL, up to the percent-encoding that
// sending it in a header needs.
func sameURL(a, b string) bool {
	if a == b {
		return true
	}
	x, e1 := url.Parse(a)
	y, e2 := url.Parse(b)
	return e1 == nil && e2 == nil && x.Scheme == y.Scheme && x.Host == y.Host && x.Path == y.Path && x.RawQuery == y.RawQuery
}
