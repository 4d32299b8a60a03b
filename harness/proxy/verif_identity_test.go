package proxy

import (
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"fmt"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

var c07Cert = sync.OnceValue(func() tls.Certificate {
	return theLab().ca.issue(&x509.Certificate{Subject: pkix.Name{CommonName: "Client"}, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}})
})

// spell varies the case of a header name.
func spell(t *rapid.T, n string) string {
	b := []byte(n)
	switch rapid.IntRange(0, 3).Draw(t, "spell") {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToLower(n)
	case 2:
		for i := range b {
			if rapid.Bool().Draw(t, "up") {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
	}
	return string(b)
}

func TestC07Identity(t *testing.T) {
	l := theLab()
	cert := c07Cert()
	hash := sha256.Sum256(cert.Certificate[0])
	now := time.Now()
	names := []string{"x-tlsproxy-user-id", "x-forwarded-for", "x-forwarded-client-cert", "x-user", "X-Static", "x-gone", "X-Net"}
	kit.Check(t, "backends with and without SSO (user-id header or not), client authentication (client-cert header or not) and configured forwarded headers; requests over HTTP/1 and HTTP/2, with or without a session, that carry the identity headers themselves in any case and number, name them in one or several Connection headers (also of upgrade requests), or send them as trailers; the identity headers that the upstream receives are compared with those that the configuration and the user give; non-trivial: the request tries to forge or remove at least one of them", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(*vreq) *vresp { return &vresp{} })
		cfg := l.cfg(false)
		l.oidcCfg(cfg)
		proto := rapid.SampledFrom(upProtos).Draw(t, "proto")
		mode := rapid.SampledFrom([]string{"HTTP", "HTTPS"}).Draw(t, "mode")
		if needsTLS(proto) {
			mode = "HTTPS"
		}
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: mode, Addresses: []string{l.ups[0].addr}, InsecureSkipVerify: true, BackendProto: proto, ForwardRateLimit: 100000}
		sso := rapid.SampledFrom([]string{"no", "all", "some"}).Draw(t, "sso")
		if sso != "no" {
			be.SSO = &BackendSSO{Provider: "idp1", SetUserIDHeader: rapid.Bool().Draw(t, "uid")}
			if sso == "some" {
				be.SSO.Paths = []string{"/private"}
			}
		}
		auth := rapid.SampledFrom([]string{"no", "plain", "header"}).Draw(t, "clientauth")
		if auth != "no" {
			be.ClientAuth = &ClientAuth{RootCAs: []string{l.ca.pem}}
			if auth == "header" {
				be.ClientAuth.AddClientCertHeader = []string{"hash"}
			}
		}
		if rapid.Bool().Draw(t, "fwd") {
			be.ForwardHTTPHeaders = map[string]string{
				spell(t, "x-user"): "u=${JWT:email}", spell(t, "X-Static"): "constant", "x-gone": "${JWT:nothing}", "X-Net": "${NETWORK} ${REMOTE_IP}",
			}
		}
		cfg.Backends = append(cfg.Backends, be)
		accept := !labQUIC && rapid.Bool().Draw(t, "accept")
		if accept {
			cfg.AcceptProxyHeaderFrom = []string{viaProxy + "/32"}
		}
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		for range rapid.IntRange(1, 3).Draw(t, "requests") {
			cproto := rapid.SampledFrom(clientProtos).Draw(t, "clientproto")
			ip := rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.1", "127.0.0.77", viaProxy}).Draw(t, "ip")
			tc := clientTLS("www.example.com", cproto)
			if auth != "no" {
				tc.Certificates = []tls.Certificate{cert}
			}
			raw, source := l.dialVia(t, ip, accept)
			ip = source.IP.String()
			cl, err := httpClientOn(raw, tc)
			if err != nil {
				t.Fatalf("connection refused: %v", err)
			}
			path := rapid.SampledFrom([]string{"/", "/public", "/private/x"}).Draw(t, "path")
			req := &creq{method: "GET", target: path, host: "www.example.com"}
			protected := sso == "all" || sso == "some" && path == "/private/x"
			email := ""
			forged := map[string]bool{}
			add := func(k, v string) { req.hdr = append(req.hdr, [2]string{k, v}) }
			if protected || rapid.IntRange(0, 2).Draw(t, "session") > 0 {
				email = rapid.SampledFrom([]string{"bob@example.com", "alice@example.com", "o'hara+x@example.com", "bób@example.com"}).Draw(t, "email")
				add("Cookie", "TLSPROXYAUTH="+l.token(sessionClaims("idp1", email, "www.example.com", now), ""))
			}
			attacks := rapid.SampledFrom([]string{"none", "headers", "connection", "both", "upgrade", "trailers", "both"}).Draw(t, "attack")
			if cproto != "http/1.1" && attacks != "none" && attacks != "trailers" {
				attacks = "headers"
			}
			genNames := func(min int) []string {
				return rapid.SliceOfNDistinct(rapid.SampledFrom(names), min, len(names), rapid.ID).Draw(t, "names")
			}
			if attacks == "headers" || attacks == "both" || attacks == "upgrade" {
				for _, n := range genNames(1) {
					forged[n] = true
					for range rapid.IntRange(1, 2).Draw(t, "times") {
						add(spell(t, n), rapid.SampledFrom([]string{"evil", "", "admin@example.com", "u=evil", "1.2.3.4", "127.0.0.1", "Hash=00"}).Draw(t, "value"))
					}
				}
			}
			if attacks == "connection" || attacks == "both" || attacks == "upgrade" {
				var toks []string
				for _, n := range genNames(1) {
					forged[n] = true
					toks = append(toks, spell(t, n))
				}
				toks = append(toks, rapid.SampledFrom([][]string{nil, {"close"}, {"keep-alive"}, {"x-other", "te"}}).Draw(t, "more")...)
				if attacks == "upgrade" {
					toks = append(toks, spell(t, "upgrade"))
					add("Upgrade", rapid.SampledFrom([]string{"websocket", "foo"}).Draw(t, "upgrade"))
				}
				toks = rapid.Permutation(toks).Draw(t, "order")
				line := ""
				for i, k := range toks {
					if i > 0 {
						switch rapid.IntRange(0, 3).Draw(t, "sep") {
						case 0:
							add(spell(t, "Connection"), line)
							line = ""
						case 1:
							line += " ,, "
						default:
							line += ", "
						}
					}
					line += k
				}
				add("Connection", line)
			}
			if attacks == "trailers" {
				req.method, req.hasBody, req.chunked = "POST", true, true
				req.body = []byte("hello world")
				for _, n := range genNames(1) {
					forged[n] = true
					req.trailer = append(req.trailer, [2]string{spell(t, n), "evil"})
				}
			}
			want := map[string][]string{}
			want["x-forwarded-for"] = []string{ip}
			if be.SSO != nil && be.SSO.SetUserIDHeader && email != "" {
				want["x-tlsproxy-user-id"] = []string{email}
			}
			if auth == "header" {
				want["x-forwarded-client-cert"] = []string{"Hash=" + hex.EncodeToString(hash[:])}
			}
			if be.ForwardHTTPHeaders != nil {
				want["x-user"] = []string{"u="}
				if be.SSO != nil {
					want["x-user"] = []string{"u=" + email}
				}
				want["x-static"] = []string{"constant"}
				want["x-gone"] = nil
				want["x-net"] = []string{clientNet + " " + ip}
			}
			rec.forget()
			resp, err := cl.do(req)
			cl.close()
			what := fmt.Sprintf("%s from %s, client=%s upstream=%s sso=%s/%v auth=%s forwarded=%v email=%q", req, ip, cproto, mode, sso, be.SSO != nil && be.SSO.SetUserIDHeader, auth, be.ForwardHTTPHeaders, email)
			if err != nil {
				t.Fatalf("request failed: %v: %s", err, what)
			}
			got := rec.all()
			if len(got) != 1 {
				t.Fatalf("%d requests reached the upstream (status %d): %s", len(got), resp.status, what)
			}
			for _, n := range names {
				n = strings.ToLower(n)
				w, ours := want[n]
				if !ours && strings.HasPrefix(n, "x-") && !slices.Contains(names[:3], n) {
					continue // not an identity header in this configuration
				}
				if have := got[0].hdr.get(n); !slices.Equal(have, w) {
					t.Fatalf("the upstream received %s: %q, want %q: %s\nreceived: %v", n, have, w, what, got[0])
				}
				if tr := got[0].trailer.get(n); len(tr) > 0 {
					t.Fatalf("the upstream received the trailer %s: %q: %s", n, tr, what)
				}
			}
			key := ""
			if len(forged) > 0 {
				key = what
			}
			s.Class(fmt.Sprintf("%s %s sso=%v auth=%s fwd=%v", attacks, cproto, be.SSO != nil, auth, be.ForwardHTTPHeaders != nil))
			s.Case(key, func() string { return what })
		}
	})
}
