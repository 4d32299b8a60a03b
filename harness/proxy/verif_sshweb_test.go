package proxy

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// TestC20Web gets SSH certificates through the proxy.
func TestC20Web(t *testing.T) {
	l := theLab()
	now := time.Now()
	pub, err := ssh.NewPublicKey(newKey().Public())
	if err != nil {
		kit.Infra("%v", err)
	}
	var caKey []byte
	kit.Check(t, "an SSH CA on a LOCAL or HTTP backend with or without SSO (protected paths, ACL); requests with a session of a user of the right or another provider, expired, altered, or without session; non-trivial: all", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(*vreq) *vresp { return &vresp{body: []byte("upstream")} })
		cfg := l.cfg(false)
		l.oidcCfg(cfg)
		cfg.SSHCertificateAuthorities = []*ConfigSSHCertificateAuthority{{Name: "websshca", PublicKeyEndpoint: "https://ssh.example.com/ca", CertificateEndpoint: "https://ssh.example.com/cert"}}
		be := &Backend{ServerNames: []string{"ssh.example.com"}, Mode: rapid.SampledFrom([]string{"LOCAL", "HTTP"}).Draw(t, "mode"), ForwardRateLimit: 100000}
		if be.Mode == "HTTP" {
			be.Addresses = []string{l.ups[0].addr}
		}
		what := be.Mode
		var acl *[]string
		sso := rapid.IntRange(0, 4).Draw(t, "sso") > 0
		protected := false
		if sso {
			acl = rapid.SampledFrom([]*[]string{nil, nil, {"alice@example.com"}, {"@example.com"}, {}}).Draw(t, "acl")
			be.SSO = &BackendSSO{Provider: "idp1", ACL: acl, Paths: rapid.SampledFrom([][]string{nil, {"/cert"}, {"/other"}}).Draw(t, "paths")}
			protected = len(be.SSO.Paths) == 0 || be.SSO.Paths[0] == "/cert"
			what += fmt.Sprintf(" sso %v", be.SSO.Paths)
			if acl != nil {
				what += fmt.Sprintf(" ACL %v", *acl)
			}
		}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		cl, err := l.httpClient(clientTLS("ssh.example.com", rapid.SampledFrom(clientProtos).Draw(t, "proto")))
		if err != nil {
			t.Fatalf("connection refused: %v", err)
		}
		defer func() { cl.close() }()
		resp, err := cl.do(&creq{method: "GET", target: "/ca", host: "ssh.example.com"})
		if err != nil || resp.status != 200 {
			t.Fatalf("CA key: %v %v: %s", err, resp, what)
		}
		if caKey == nil {
			caKey = resp.body
		} else if !bytes.Equal(caKey, resp.body) {
			t.Fatalf("the CA's key changed: %s", what)
		}
		for range rapid.IntRange(1, 4).Draw(t, "n") {
			user := rapid.SampledFrom([]string{"alice@example.com", "bob@example.com", "eve@example.com.evil.net"}).Draw(t, "user")
			claims := sessionClaims("idp1", user, "ssh.example.com", now)
			who := rapid.SampledFrom([]string{"", "", "nobody", "provider", "expired", "altered", "noemail"}).Draw(t, "who")
			switch who {
			case "provider":
				claims = sessionClaims("idp2", user, "ssh.example.com", now)
			case "expired":
				claims["exp"] = now.Add(-time.Minute).Unix()
			case "noemail":
				claims["email"] = ""
			}
			tok := l.token(claims, "")
			if who == "altered" {
				b := []byte(tok)
				i := len(b) - 10
				if b[i] == 'A' {
					b[i] = 'B'
				} else {
					b[i] = 'A'
				}
				tok = string(b)
			}
			r := &creq{method: "POST", target: "/cert", host: "ssh.example.com", hdr: hdrs{{"X-Csrf-Check", "1"}, {"Content-Type", "text/plain"}}, body: ssh.MarshalAuthorizedKey(pub), hasBody: true}
			if who != "nobody" {
				r.hdr = append(r.hdr, [2]string{"Cookie", "TLSPROXYAUTH=" + tok})
			}
			resp, err := cl.do(r)
			if err != nil || resp.err != nil {
				t.Fatalf("%v %v: %s", err, resp, what)
			}
			if resp.closed {
				cl.close()
				if cl, err = l.httpClient(clientTLS("ssh.example.com")); err != nil {
					t.Fatalf("connection refused: %v", err)
				}
			}
			desc := fmt.Sprintf("%s; %s %q", what, user, who)
			s.Case(kit.Hash(desc), func() string { return desc })
			allowed := sso && who == ""
			if protected && acl != nil {
				ok := false
				for _, a := range *acl {
					ok = ok || a == user || a == "@example.com" && user != "eve@example.com.evil.net"
				}
				allowed = allowed && ok
			}
			k, _, _, _, err := ssh.ParseAuthorizedKey(resp.body)
			c, ok := k.(*ssh.Certificate)
			if ok = ok && err == nil; ok != allowed || (resp.status == 200) != allowed {
				t.Fatalf("certificate: %v (status %d), want %v: %s", ok, resp.status, allowed, desc)
			}
			if len(rec.all()) > 0 {
				t.Fatalf("the request was forwarded: %s", desc)
			}
			if ok && (len(c.ValidPrincipals) != 1 || c.ValidPrincipals[0] != user || c.KeyId != user || !bytes.Equal(c.Key.Marshal(), pub.Marshal())) {
				t.Fatalf("certificate for %q %q: %s", c.ValidPrincipals, c.KeyId, desc)
			}
		}
	})
}
