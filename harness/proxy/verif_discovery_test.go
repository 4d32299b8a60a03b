package proxy

import (
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// discovery is an identity provider that publishes its endpoints, in its own
// way and time.
type discovery struct {
	srv *httptest.Server

	mu   sync.Mutex
	how  string
	auth string
	in   chan struct{} // closed when a request is there
	out  chan struct{} // closed when it may be answered
}

var theDiscovery = sync.OnceValue(func() *discovery {
	d := &discovery{}
	d.srv = httptest.NewServer(d)
	return d
})

func (d *discovery) set(how, auth string) (in, out chan struct{}) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.how, d.auth, d.in, d.out = how, auth, make(chan struct{}), make(chan struct{})
	return d.in, d.out
}

func (d *discovery) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	d.mu.Lock()
	how, auth, in, out := d.how, d.auth, d.in, d.out
	select {
	case <-in:
	default:
		close(in)
	}
	d.mu.Unlock()
	doc := fmt.Sprintf(`{"issuer": "https://idp.example.org", "authorization_endpoint": %q, "token_endpoint": "https://idp.example.org/token", "other": [1, null, {}]}`, auth)
	wait := func() {
		select {
		case <-out:
		case <-req.Context().Done():
		}
	}
	switch how {
	case "now":
		w.Write([]byte(doc))
	case "late":
		wait()
		w.Write([]byte(doc))
	case "half":
		w.Write([]byte(doc[:len(doc)/2]))
		w.(http.Flusher).Flush()
		wait()
		w.Write([]byte(doc[len(doc)/2:]))
	case "drop":
		wait()
		panic(http.ErrAbortHandler)
	case "cut":
		w.Header().Set("Content-Length", "10000")
		w.Write([]byte(doc[:len(doc)/2]))
		wait()
		panic(http.ErrAbortHandler)
	case "status":
		wait()
		w.WriteHeader(503)
		w.Write([]byte(doc))
	case "garbage":
		wait()
		w.Write([]byte("<html>"))
	case "never":
		wait()
	}
}

// loginLink is the link of the page that says that a login is needed.
var loginLink = regexp.MustCompile(`(?:\?|&|&amp;)redirect=([A-Za-z0-9_.-]{100,})`)

// discoveryCase applies a configuration that needs a discovery document, and
// looks at what new and old connections get before, during and after.
func discoveryCase(t *rapid.T, s *kit.Stats, how string, limit time.Duration) {
	l := theLab()
	d := theDiscovery()
	l.reset()
	rec := l.httpUps(func(*vreq) *vresp { return &vresp{body: []byte("ok")} })
	build := func(ups map[string]int) *Config {
		cfg := l.cfg(false)
		for _, h := range []string{"a.example.com", "b.example.com"} {
			if up, ok := ups[h]; ok {
				cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{h}, Mode: "HTTP", Addresses: []string{l.ups[up].addr}, ForwardRateLimit: 100000})
			}
		}
		return cfg
	}
	old := map[string]int{"a.example.com": 0, "b.example.com": 1}
	if err := l.p.Reconfigure(build(old)); err != nil {
		t.Fatalf("configuration refused: %v", err)
	}
	auth := "https://idp.example.org/" + rapid.StringMatching(`[a-z]{1,8}`).Draw(t, "auth")
	in, out := d.set(how, auth)
	released := false
	release := func() {
		if !released {
			released = true
			close(out)
		}
	}
	defer release()
	next := map[string]int{"a.example.com": rapid.IntRange(2, 3).Draw(t, "up")}
	if rapid.Bool().Draw(t, "keep") {
		next["b.example.com"] = rapid.IntRange(1, 2).Draw(t, "upb")
	}
	cfg := build(next)
	url := d.srv.URL + "/.well-known/openid-configuration"
	switch how {
	case "refused":
		url = "http://" + deadAddrs()[0] + "/"
	case "self":
		url = "https://" + l.addr + "/.well-known/openid-configuration"
		// The request has no server name.
		cfg.DefaultServerName = "a.example.com"
	}
	cfg.OIDCProviders = append(cfg.OIDCProviders, &ConfigOIDC{Name: "idp", DiscoveryURL: url, RedirectURL: "https://login.example.com/redirect", ClientID: "C", ClientSecret: "S", Domain: "example.com"})
	cfg.Backends = append(cfg.Backends,
		&Backend{ServerNames: []string{"login.example.com"}, Mode: "LOCAL", ForwardRateLimit: 100000},
		&Backend{ServerNames: []string{"sso.example.com"}, Mode: "HTTP", Addresses: []string{l.ups[4].addr}, ForwardRateLimit: 100000, SSO: &BackendSSO{Provider: "idp"}})
	get := func(when, host string) (*cresp, int) {
		cl, err := l.httpClient(clientTLS(host, rapid.SampledFrom(clientProtos).Draw(t, "proto")))
		if err != nil {
			return nil, -1
		}
		defer cl.close()
		rec.forget()
		resp, err := cl.do(&creq{method: "GET", target: "/", host: host})
		if err != nil {
			t.Fatalf("%s: GET https://%s/ fails: %v", when, host, err)
		}
		if got := rec.all(); len(got) == 1 {
			return resp, got[0].up
		}
		return resp, -1
	}
	probe := func(when string, want map[string]int) {
		for _, h := range []string{"a.example.com", "b.example.com"} {
			up, ok := want[h]
			resp, got := get(when, h)
			switch {
			case ok && resp == nil:
				t.Fatalf("%s: a connection for %s is refused", when, h)
			case ok && (resp.status != 200 || got != up):
				t.Fatalf("%s: a request for %s got %d from upstream server %d, want %d", when, h, resp.status, got, up)
			case !ok && resp != nil && got >= 0:
				t.Fatalf("%s: a request for %s reached upstream server %d", when, h, got)
			}
		}
	}
	done := make(chan error, 1)
	go func() { done <- l.p.Reconfigure(cfg) }()
	pending := false
	if how != "refused" && how != "self" {
		select {
		case <-in:
		case err := <-done:
			t.Fatalf("the configuration was handled without looking at the discovery document (%q): %v", how, err)
		case <-time.After(patience):
			t.Fatalf("the discovery document isn't asked for")
		}
		pending = how != "now"
	}
	if pending {
		for range rapid.IntRange(1, 3).Draw(t, "probes") {
			ok := make(chan struct{})
			conn, err := net.Dial("tcp", l.addr)
			if err == nil {
				conn.Close()
			}
			go func() {
				select {
				case <-ok:
				case <-time.After(patience + 10*time.Second):
					// So that the proxy is usable again, whatever happens.
					release()
				}
			}()
			probe("while the discovery document is on its way ("+how+")", old)
			close(ok)
			select {
			case err := <-done:
				if how == "late" || how == "half" {
					t.Fatalf("the configuration was decided (%v) before the discovery document arrived", err)
				}
				done <- err
			default:
			}
		}
	}
	if how != "never" {
		release()
	}
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		release()
		t.Fatalf("the change of configuration takes more than %v (%s)", limit, how)
	}
	good := how == "now" || how == "late" || how == "half"
	switch {
	case good && err != nil:
		t.Fatalf("the configuration is refused: %v", err)
	case !good && err == nil:
		t.Fatalf("the configuration is accepted without its discovery document (%s)", how)
	case !good:
		probe("after the configuration was refused ("+how+")", old)
	default:
		probe("after the configuration was accepted", next)
		const host = "sso.example.com"
		cl, err := l.httpClient(clientTLS(host, rapid.SampledFrom(clientProtos).Draw(t, "proto")))
		if err != nil {
			t.Fatalf("a connection for %s is refused: %v", host, err)
		}
		defer func() { cl.close() }()
		rec.forget()
		req := &creq{method: "GET", target: "/x", host: host}
		loc := ""
		for range 3 {
			resp, err := cl.do(req)
			if err != nil {
				t.Fatalf("GET https://%s%s fails: %v", host, req.target, err)
			}
			for _, c := range resp.hdr.Values("Set-Cookie") {
				if v, _, _ := strings.Cut(c, ";"); strings.HasPrefix(v, "TLSPROXYSID=") {
					req = &creq{method: "GET", host: host, hdr: hdrs{{"Cookie", v}}}
				}
			}
			loc = resp.hdr.Get("Location")
			if m := loginLink.FindStringSubmatch(string(resp.body)); m != nil && resp.status/100 != 3 {
				loc = "/.sso/login?redirect=" + m[1]
			}
			next := strings.TrimPrefix(loc, "https://"+host)
			if !strings.HasPrefix(next, "/") {
				break
			}
			req.target = next
			if resp.closed {
				cl.close()
				if cl, err = l.httpClient(clientTLS(host, "http/1.1")); err != nil {
					t.Fatalf("a connection for %s is refused: %v", host, err)
				}
			}
		}
		if len(rec.all()) > 0 {
			t.Fatalf("a request without a session reached the backend")
		}
		if !strings.HasPrefix(loc, auth+"?") {
			t.Fatalf("the login goes to %q, want %q", loc, auth)
		}
	}
	s.Class(how)
	key := ""
	if pending {
		key = fmt.Sprint(how, next)
	}
	s.Case(key, func() string { return fmt.Sprintf("%s %v", how, next) })
}

// TestC27Discovery changes the configuration to one that uses an identity
// provider's discovery document.
func TestC27Discovery(t *testing.T) {
	kit.Check(t, "a change of configuration to one with an OpenID provider whose discovery document comes at once, late, in 2 parts, is cut, dropped, an error, garbage, refused, or asked from the proxy itself; while it is pending, requests of new connections are answered as the configuration in force says, and afterwards as the new one says if it was accepted (and logins go to the endpoint of the document), or as before; non-trivial: the document was pending while requests were made", func(t *rapid.T, s *kit.Stats) {
		discoveryCase(t, s, rapid.SampledFrom([]string{"now", "late", "late", "half", "drop", "cut", "status", "garbage", "refused", "self"}).Draw(t, "how"), patience)
	})
}

// TestC27DiscoveryNever uses a discovery document that never comes.
func TestC27DiscoveryNever(t *testing.T) {
	kit.Check(t, "the same with a discovery document that never comes: the change is refused within 2 minutes; non-trivial: all", func(t *rapid.T, s *kit.Stats) {
		discoveryCase(t, s, "never", 2*time.Minute)
	})
}
