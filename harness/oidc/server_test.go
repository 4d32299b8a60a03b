package verif_oidc

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/oidc"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

type ctxKey struct{}

type rule struct {
	r oidc.RewriteRule
	// apply returns the new value, or false when the rule does not apply.
	apply func(get func(string) string) (string, bool)
}

var emailRE = regexp.MustCompile(`^([^@]+)@example\.com$`)

var rules = []rule{
	{oidc.RewriteRule{InputClaim: "email", OutputClaim: "preferred_username", Regex: `^([^@]+)@example\.com$`, Value: "$1"},
		func(get func(string) string) (string, bool) {
			m := emailRE.FindStringSubmatch(get("email"))
			if m == nil {
				return "", false
			}
			return m[1], true
		}},
	{oidc.RewriteRule{InputClaim: "name", OutputClaim: "nick", Regex: " ", Value: "_"},
		func(get func(string) string) (string, bool) {
			v := get("name")
			return strings.ReplaceAll(v, " ", "_"), strings.Contains(v, " ")
		}},
	{oidc.RewriteRule{InputClaim: "${given_name:lower}.${family_name:upper}", OutputClaim: "user", Regex: "^(.*)$", Value: "u-$1"},
		func(get func(string) string) (string, bool) {
			return "u-" + strings.ToLower(get("given_name")) + "." + strings.ToUpper(get("family_name")), true
		}},
	{oidc.RewriteRule{InputClaim: "user", OutputClaim: "groups", Regex: "^u-(.).*$", Value: "g-${1}"},
		func(get func(string) string) (string, bool) {
			v := get("user")
			if !strings.HasPrefix(v, "u-") || len(v) < 3 {
				return "", false
			}
			return "g-" + string([]rune(v[2:])[0]), true
		}},
	{oidc.RewriteRule{InputClaim: "email:lower", OutputClaim: "email", Regex: "^.*$", Value: "$0"},
		func(get func(string) string) (string, bool) { return strings.ToLower(get("email")), true }},
	{oidc.RewriteRule{InputClaim: "nosuch", OutputClaim: "x", Regex: "^a", Value: "b"},
		func(get func(string) string) (string, bool) { return "", false }},
	{oidc.RewriteRule{InputClaim: "email", OutputClaim: "y", Regex: "(", Value: "b"},
		func(get func(string) string) (string, bool) { return "", false }},
}

func TestC15Server(t *testing.T) {
	kit.Check(t, "a history of authorization requests (user, client, redirect address, scope, nonce, state), token requests (codes of any age, used or not, right or wrong client, secret and address; concurrent), user information requests and time passing, with generated clients and claim rewrites; non-trivial: at least one token request", func(t *rapid.T, s *kit.Stats) {
		tm := theTM()
		clients := []oidc.Client{
			{ID: "c1", Secret: "s1", RedirectURI: []string{"https://c1.example/cb", "https://c1.example/cb?x=1&y=%26"}},
			{ID: "c2", Secret: "s2", RedirectURI: []string{"https://c2.example/", "app://cb"}},
			{ID: "C1", Secret: "s1", RedirectURI: []string{"https://c1.example/other"}},
		}
		var rr []rule
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "rules"); i < n; i++ {
			rr = append(rr, rapid.SampledFrom(rules).Draw(t, "rule"))
		}
		userList := []jwt.MapClaims{
			{"sub": "1", "email": "Alice@Example.com", "name": "Alice B C", "given_name": "Alice", "family_name": "C", "sid": "secret-sid", "proxyauth": "p"},
			{"sub": "2", "email": "bob@example.com", "name": "Bob", "picture": "https://pic/2"},
		}
		uris := []string{"https://c1.example/cb", "https://c1.example/cb?x=1&y=%26", "https://c2.example/", "app://cb", "https://c1.example/other", "https://c1.example/cb/", "https://c1.example/CB", "https://evil.example/", "", "https://c1.example/cb#x", "//c1.example/cb"}
		type step struct {
			Op                                                              string
			User                                                            int
			Client, Secret, URI, Scope, Nonce, State, RespType, Grant, Meth string
			Code                                                            int // index back; -1 made up
			Par                                                             int
			Dur                                                             time.Duration
			Body                                                            bool
		}
		var steps []step
		for i, n := 0, rapid.IntRange(2, 14).Draw(t, "n"); i < n; i++ {
			st := step{Op: rapid.SampledFrom([]string{"auth", "auth", "token", "token", "token", "info", "info", "advance"}).Draw(t, "op")}
			odd := rapid.IntRange(0, 2).Draw(t, "odd") == 0
			switch st.Op {
			case "auth":
				st.User = rapid.IntRange(-1, 1).Draw(t, "user")
				if !odd && st.User < 0 {
					st.User = 0
				}
				c := rapid.SampledFrom(clients).Draw(t, "client")
				st.Client, st.URI = c.ID, rapid.SampledFrom(c.RedirectURI).Draw(t, "uri")
				st.RespType = "code"
				if odd {
					switch rapid.IntRange(0, 3).Draw(t, "how") {
					case 0, 1:
						st.URI = rapid.SampledFrom(uris).Draw(t, "uri")
					case 2:
						st.RespType = rapid.SampledFrom([]string{"token", "", "code id_token"}).Draw(t, "rt")
					case 3:
						st.Client = rapid.SampledFrom([]string{"", "c3", "C2"}).Draw(t, "cid")
					}
				}
				st.Scope = rapid.SampledFrom([]string{"openid", "openid email", "openid email profile", "profile", ""}).Draw(t, "scope")
				st.Nonce = rapid.SampledFrom([]string{"", "n1", "n&2"}).Draw(t, "nonce")
				st.State = rapid.SampledFrom([]string{"", "st", "s&code=evil"}).Draw(t, "state")
				st.Body = rapid.Bool().Draw(t, "post")
			case "token":
				st.Code = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, -1}).Draw(t, "code")
				st.Grant, st.Meth = "authorization_code", "POST"
				st.Par = rapid.SampledFrom([]int{1, 1, 1, 3}).Draw(t, "par")
				st.Client = "right"
				if odd {
					switch rapid.IntRange(0, 4).Draw(t, "how") {
					case 0:
						st.Client = rapid.SampledFrom([]string{"c1", "c2", "C1", ""}).Draw(t, "cid")
					case 1:
						st.Secret = rapid.SampledFrom([]string{"s1", "s2", "", "S1", "s1 "}).Draw(t, "sec")
						if st.Secret == "" {
							st.Secret = "(empty)"
						}
					case 2:
						st.URI = rapid.SampledFrom(uris).Draw(t, "uri")
					case 3:
						st.Grant = rapid.SampledFrom([]string{"", "refresh_token", "password"}).Draw(t, "grant")
					case 4:
						st.Meth = "GET"
					}
				}
			case "info":
				st.Code = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, -1}).Draw(t, "acc")
				st.Par = rapid.SampledFrom([]int{1, 1, 1, 3}).Draw(t, "par")
			case "advance":
				st.Dur = time.Duration(rapid.SampledFrom([]int{1, 30, 60, 90, 119, 121, 180, 600}).Draw(t, "sec")) * time.Second
			}
			steps = append(steps, st)
		}
		tokens := 0
		outcome := ""
		kit.Bubble(func() {
			opts := oidc.ServerOptions{
				TokenManager: tm, Issuer: "https://op.example.com", PathPrefix: "/oidc", Clients: clients,
				ClaimsFromCtx: func(ctx context.Context) jwt.MapClaims {
					c, _ := ctx.Value(ctxKey{}).(jwt.MapClaims)
					return c
				},
				EventRecorder: nopRecorder{}, Logger: nopLogger{},
			}
			for _, r := range rr {
				opts.RewriteRules = append(opts.RewriteRules, r.r)
			}
			srv := oidc.NewServer(opts)
			type grant struct {
				code, client, uri, access string
				at                        time.Time
				st                        step
				used                      bool // presented to the token endpoint in a way that may burn it
				redeemed                  bool
				infoUsed                  bool
				want                      map[string]any
			}
			var grants []*grant
			for i, st := range steps {
				where := fmt.Sprintf("step %d %+v", i, st)
				switch st.Op {
				case "advance":
					time.Sleep(st.Dur)
				case "auth":
					v := url.Values{"client_id": {st.Client}, "redirect_uri": {st.URI}, "response_type": {st.RespType}, "scope": {st.Scope}, "state": {st.State}}
					if st.Nonce != "" {
						v.Set("nonce", st.Nonce)
					}
					var req *http.Request
					if st.Body {
						req = httptest.NewRequest("POST", "https://op.example.com/oidc/authorization", strings.NewReader(v.Encode()))
						req.Header.Set("content-type", "application/x-www-form-urlencoded")
					} else {
						req = httptest.NewRequest("GET", "https://op.example.com/oidc/authorization?"+v.Encode(), nil)
					}
					var user jwt.MapClaims
					if st.User >= 0 {
						user = userList[st.User]
						req = req.WithContext(context.WithValue(req.Context(), ctxKey{}, user))
					}
					rec := httptest.NewRecorder()
					srv.ServeAuthorization(rec, req)
					var reg *oidc.Client
					for k := range clients {
						if clients[k].ID == st.Client && slices.Contains(clients[k].RedirectURI, st.URI) {
							reg = &clients[k]
						}
					}
					want := reg != nil && st.RespType == "code" && user != nil
					loc := rec.Header().Get("Location")
					if !want {
						if loc != "" || rec.Code < 400 {
							t.Fatalf("%s: an authorization response goes to %q (status %d)", where, loc, rec.Code)
						}
						continue
					}
					u, err := url.Parse(loc)
					if err != nil || rec.Code/100 != 3 {
						t.Fatalf("%s: status %d location %q", where, rec.Code, loc)
					}
					q := u.Query()
					code := q.Get("code")
					if len(q["code"]) != 1 || len(code) < 12 {
						t.Fatalf("%s: code %q", where, q["code"])
					}
					if q.Get("state") != st.State || len(q["state"]) > 1 {
						t.Fatalf("%s: state %q, want %q", where, q["state"], st.State)
					}
					orig, _ := url.Parse(st.URI)
					for _, k := range []string{"code", "state", "scope"} {
						q.Del(k)
					}
					if u.Scheme != orig.Scheme || u.Host != orig.Host || u.Path != orig.Path || !reflect.DeepEqual(q, orig.Query()) {
						t.Fatalf("%s: authorization response goes to %q", where, loc)
					}
					for _, g := range grants {
						if g.code == code {
							t.Fatalf("%s: code reused", where)
						}
					}
					g := &grant{code: code, client: st.Client, uri: st.URI, at: time.Now(), st: st}
					sc := strings.Fields(st.Scope)
					g.want = map[string]any{"sub": user["sub"], "iss": "https://op.example.com", "aud": st.Client}
					if st.Nonce != "" {
						g.want["nonce"] = st.Nonce
					}
					if slices.Contains(sc, "email") {
						g.want["email"] = user["email"]
					}
					if slices.Contains(sc, "profile") {
						for _, k := range []string{"name", "given_name", "family_name", "picture"} {
							if x, ok := user[k]; ok {
								g.want[k] = x
							}
						}
					}
					buf := map[string]any{}
					for k, x := range user {
						buf[k] = x
					}
					get := func(k string) string {
						if x, ok := buf[k]; ok {
							return fmt.Sprint(x)
						}
						return ""
					}
					for _, r := range rr {
						if x, ok := r.apply(get); ok {
							buf[r.r.OutputClaim] = x
							g.want[r.r.OutputClaim] = x
						}
					}
					grants = append(grants, g)
				case "token":
					tokens++
					var g *grant
					if st.Code >= 0 && st.Code < len(grants) {
						g = grants[len(grants)-1-st.Code]
					}
					code := "AAAAAAAAAAAAAAAA"
					cid, sec, uri := "c1", "s1", clients[0].RedirectURI[0]
					if g != nil {
						code = g.code
						cid, uri = g.client, g.uri
						for _, c := range clients {
							if c.ID == cid {
								sec = c.Secret
							}
						}
					}
					if st.Client != "right" {
						cid = st.Client
						for _, c := range clients {
							if c.ID == cid {
								sec, uri = c.Secret, c.RedirectURI[0]
							}
						}
					}
					if st.Secret == "(empty)" {
						sec = ""
					} else if st.Secret != "" {
						sec = st.Secret
					}
					if st.URI != "" {
						uri = st.URI
					}
					v := url.Values{"grant_type": {st.Grant}, "code": {code}, "client_id": {cid}, "client_secret": {sec}, "redirect_uri": {uri}}
					call := func() *httptest.ResponseRecorder {
						req := httptest.NewRequest(st.Meth, "https://op.example.com/oidc/token", strings.NewReader(v.Encode()))
						if st.Meth == "GET" {
							req = httptest.NewRequest("GET", "https://op.example.com/oidc/token?"+v.Encode(), nil)
						}
						req.Header.Set("content-type", "application/x-www-form-urlencoded")
						rec := httptest.NewRecorder()
						srv.ServeToken(rec, req)
						return rec
					}
					recs := parallel(st.Par, call)
					credOK := false
					uriOK := false
					for _, c := range clients {
						if c.ID == cid && c.Secret == sec {
							credOK = true
							uriOK = slices.Contains(c.RedirectURI, uri)
						}
					}
					got := 0
					for _, rec := range recs {
						var resp struct {
							AccessToken string `json:"access_token"`
							IDToken     string `json:"id_token"`
							TokenType   string `json:"token_type"`
						}
						json.Unmarshal(rec.Body.Bytes(), &resp)
						if resp.AccessToken == "" && resp.IDToken == "" {
							if rec.Code < 400 {
								t.Fatalf("%s: status %d without tokens", where, rec.Code)
							}
							continue
						}
						got++
						age := time.Duration(0)
						if g != nil {
							age = time.Since(g.at)
						}
						switch {
						case g == nil:
							t.Fatalf("%s: tokens for a made-up code", where)
						case g.redeemed:
							t.Fatalf("%s: tokens for a code that was already redeemed", where)
						case cid != g.client || !credOK:
							t.Fatalf("%s: tokens for client %q (secret ok: %v), the code is of %q", where, cid, credOK, g.client)
						case !uriOK:
							t.Fatalf("%s: tokens with redirect_uri %q", where, uri)
						case st.Grant != "authorization_code" || st.Meth != "POST":
							t.Fatalf("%s: tokens for grant_type %q, method %s", where, st.Grant, st.Meth)
						case age > 121*time.Second:
							t.Fatalf("%s: tokens for a code issued %v ago", where, age)
						}
						g.access = resp.AccessToken
						tok, err := tm.ValidateToken(resp.IDToken)
						if err != nil {
							t.Fatalf("%s: ID token: %v", where, err)
						}
						c := tok.Claims.(jwt.MapClaims)
						for k, x := range g.want {
							if fmt.Sprint(c[k]) != fmt.Sprint(x) {
								t.Fatalf("%s: claim %s is %v, want %v (rules %v)", where, k, c[k], x, opts.RewriteRules)
							}
						}
						for k := range c {
							if _, ok := g.want[k]; !ok && !slices.Contains([]string{"iat", "exp", "scope", "email_verified", "nbf", "jti", "auth_time"}, k) {
								t.Fatalf("%s: unexpected claim %s=%v", where, k, c[k])
							}
						}
						if e, err := c.GetExpirationTime(); err != nil || e == nil || e.Sub(g.at) > time.Hour {
							t.Fatalf("%s: ID token expires at %v", where, c["exp"])
						}
						if cc := rec.Header().Get("Cache-Control"); !strings.Contains(cc, "no-store") {
							t.Fatalf("%s: tokens may be cached: %q", where, cc)
						}
					}
					if got > 1 {
						t.Fatalf("%s: the code was redeemed %d times", where, got)
					}
					right := g != nil && !g.used && credOK && uriOK && cid == g.client && st.Grant == "authorization_code" && st.Meth == "POST" && time.Since(g.at) < 115*time.Second
					if right && got == 0 {
						t.Fatalf("%s: a fresh code was refused: %d %s", where, recs[0].Code, recs[0].Body)
					}
					if g != nil {
						if got == 1 {
							g.redeemed = true
						}
						g.used = true
					}
					outcome += map[bool]string{true: "T", false: "-"}[got == 1]
				case "info":
					var g *grant
					if st.Code >= 0 && st.Code < len(grants) {
						g = grants[len(grants)-1-st.Code]
					}
					access := "AAAAAAAAAAAAAAAA"
					if g != nil && g.access != "" {
						access = g.access
					} else if g != nil {
						// The code is not an access token.
						access = g.code
					}
					recs := parallel(st.Par, func() *httptest.ResponseRecorder {
						req := httptest.NewRequest("GET", "https://op.example.com/oidc/userinfo", nil)
						req.Header.Set("Authorization", "Bearer "+access)
						rec := httptest.NewRecorder()
						srv.ServeUserInfo(rec, req)
						return rec
					})
					got := 0
					for _, rec := range recs {
						if rec.Code != 200 {
							continue
						}
						got++
						switch {
						case g == nil || access != g.access:
							t.Fatalf("%s: user information for a made-up access token", where)
						case g.infoUsed:
							t.Fatalf("%s: user information twice", where)
						case time.Since(g.at) > 121*time.Second:
							t.Fatalf("%s: user information %v after authorization", where, time.Since(g.at))
						}
						var out map[string]any
						if err := json.Unmarshal(rec.Body.Bytes(), &out); err != nil {
							t.Fatalf("%s: %v", where, err)
						}
						for k, x := range g.want {
							if slices.Contains([]string{"iss", "aud", "nonce"}, k) {
								continue
							}
							if fmt.Sprint(out[k]) != fmt.Sprint(x) {
								t.Fatalf("%s: user information %s is %v, want %v", where, k, out[k], x)
							}
						}
						for k := range out {
							if _, ok := g.want[k]; !ok && k != "email_verified" {
								t.Fatalf("%s: unexpected user information %s=%v", where, k, out[k])
							}
						}
					}
					if got > 1 {
						t.Fatalf("%s: %d answers to one access token", where, got)
					}
					if got == 0 && g != nil && access == g.access && !g.infoUsed && time.Since(g.at) < 115*time.Second {
						t.Fatalf("%s: a fresh access token was refused: %d", where, recs[0].Code)
					}
					if g != nil && access == g.access {
						g.infoUsed = true
					}
					outcome += map[bool]string{true: "I", false: "."}[got == 1]
				}
			}
		})
		key := ""
		if tokens > 0 {
			key = fmt.Sprint(len(rr), steps)
		}
		if strings.Contains(outcome, "T") {
			s.Class("histories with tokens issued")
		}
		if strings.Contains(outcome, "I") {
			s.Class("histories with user information given")
		}
		s.Case(key, func() string { return fmt.Sprintf("%+v -> %s", steps, outcome) })
	})
}

func parallel(n int, f func() *httptest.ResponseRecorder) []*httptest.ResponseRecorder {
	out := make([]*httptest.ResponseRecorder, n)
	var wg sync.WaitGroup
	for i := range out {
		wg.Add(1)
		go func() { defer wg.Done(); out[i] = f() }()
	}
	wg.Wait()
	return out
}
