package proxy

import (
	"crypto"
	_ "crypto/sha1"
	_ "crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/url"
	"strings"
	"testing"
	"time"

	"golang.org/x/crypto/ocsp"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// TestC19Web uses the revocation endpoints and the revocation page of an
// internal CA through the proxy.
func TestC19Web(t *testing.T) {
	l := theLab()
	now := time.Now()
	type pc struct {
		*x509.Certificate
		owner    string
		revoked  bool
		revokeAt time.Time
	}
	var certs []*pc
	key := newKey()
	users := []string{"alice@example.com", "bob@example.com"}
	kit.Check(t, "a CA whose OCSP, revocation list and certificate endpoints are on a LOCAL or CONSOLE backend, with SSO or not, on the same host as the certificate page; certificates of two users; a sequence of: OCSP requests (GET in 5 encodings, POST; issued serial numbers, and unknown ones chosen so that the encoded request has slashes, double slashes or pluses), lists, revocations by owner, another user, an administrator, with and without session; non-trivial: an OCSP request, or a revocation", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		cfg := l.cfg(false)
		l.oidcCfg(cfg)
		cfg.PKI = []*ConfigPKI{{
			Name:                   "webpki",
			Endpoint:               "https://pki.example.com/certs",
			OCSPServer:             []string{"https://pki.example.com/ocsp"},
			CRLDistributionPoints:  []string{"https://pki.example.com/crl.pem", "https://pki.example.com/crl"},
			IssuingCertificateURLs: []string{"https://pki.example.com/ca.pem"},
			Admins:                 []string{"admin@example.com"},
		}}
		be := &Backend{ServerNames: []string{"pki.example.com"}, Mode: rapid.SampledFrom([]string{"LOCAL", "CONSOLE"}).Draw(t, "mode"), ForwardRateLimit: 100000}
		be.SSO = &BackendSSO{Provider: "idp1", Paths: rapid.SampledFrom([][]string{nil, {"/"}, {"/certs"}, {"/ocsp"}}).Draw(t, "paths")}
		protected := len(be.SSO.Paths) == 0 || be.SSO.Paths[0] == "/" || be.SSO.Paths[0] == "/certs"
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		m := l.p.pkis["webpki"]
		ca, err := m.CACert()
		if err != nil {
			t.Fatalf("CACert: %v", err)
		}
		if len(certs) > 200 {
			certs = nil
		}
		for _, u := range users {
			raw, err := m.IssueCertificate(&x509.CertificateRequest{PublicKeyAlgorithm: x509.ECDSA, PublicKey: key.Public(), Subject: pkix.Name{CommonName: u}, EmailAddresses: []string{u}})
			if err != nil {
				t.Fatalf("IssueCertificate: %v", err)
			}
			c, err := x509.ParseCertificate(raw)
			if err != nil {
				t.Fatalf("ParseCertificate: %v", err)
			}
			certs = append(certs, &pc{Certificate: c, owner: u})
		}
		cl, err := l.httpClient(clientTLS("pki.example.com", rapid.SampledFrom(clientProtos).Draw(t, "proto")))
		if err != nil {
			t.Fatalf("connection refused: %v", err)
		}
		defer cl.close()
		do := func(r *creq) *cresp {
			r.host = "pki.example.com"
			resp, err := cl.do(r)
			if err != nil || resp.err != nil {
				t.Fatalf("%s: %v %v", r, err, resp)
			}
			return resp
		}
		what, hit := fmt.Sprintf("%s %v", be.Mode, be.SSO.Paths), false
		askOCSP := func(sn *big.Int, how string, h crypto.Hash) *ocsp.Response {
			raw, err := ocsp.CreateRequest(&x509.Certificate{SerialNumber: sn}, ca, &ocsp.RequestOptions{Hash: h})
			if err != nil {
				kit.Infra("ocsp.CreateRequest: %v", err)
			}
			var r *creq
			switch how {
			case "post":
				r = &creq{method: "POST", target: "/ocsp", hdr: hdrs{{"Content-Type", "application/ocsp-request"}}, body: raw, hasBody: true}
			case "escaped":
				// All that isn't unreserved is escaped.
				r = &creq{method: "GET", target: "/ocsp/" + url.QueryEscape(base64.StdEncoding.EncodeToString(raw))}
			case "path":
				r = &creq{method: "GET", target: "/ocsp/" + url.PathEscape(base64.StdEncoding.EncodeToString(raw))}
			case "url":
				r = &creq{method: "GET", target: "/ocsp/" + base64.URLEncoding.EncodeToString(raw)}
			default:
				r = &creq{method: "GET", target: "/ocsp/" + base64.RawURLEncoding.EncodeToString(raw)}
			}
			resp := do(r)
			if resp.status != 200 || resp.hdr.Get("content-type") != "application/ocsp-response" {
				t.Fatalf("OCSP: status %d %s %q for %s: %s", resp.status, resp.hdr.Get("location"), resp.body, r, what)
			}
			or, err := ocsp.ParseResponse(resp.body, ca)
			if err != nil {
				t.Fatalf("OCSP response: %v for %s: %s", err, r, what)
			}
			if or.SerialNumber.Cmp(sn) != 0 {
				t.Fatalf("OCSP response about %x, want %x: %s", or.SerialNumber, sn, what)
			}
			return or
		}
		checkList := func(pemList bool) {
			target := "/crl"
			if pemList {
				target = "/crl.pem"
			}
			resp := do(&creq{method: "GET", target: target})
			if resp.status != 200 {
				t.Fatalf("list: status %d: %s", resp.status, what)
			}
			b := resp.body
			if pemList {
				block, rest := pem.Decode(b)
				if block != nil {
					block, _ = pem.Decode(rest)
				}
				if block == nil {
					t.Fatalf("no list: %s", what)
				}
				b = block.Bytes
			}
			rl, err := x509.ParseRevocationList(b)
			if err != nil {
				t.Fatalf("list: %v: %s", err, what)
			}
			got := make(map[string]bool)
			for _, e := range rl.RevokedCertificateEntries {
				got[e.SerialNumber.String()] = true
			}
			for _, c := range certs {
				if got[c.SerialNumber.String()] != c.revoked {
					t.Fatalf("certificate in the list: %v, revoked: %v: %s", !c.revoked, c.revoked, what)
				}
			}
		}
		for range rapid.IntRange(1, 6).Draw(t, "n") {
			c := certs[len(certs)-1-rapid.IntRange(0, min(len(certs)-1, 5)).Draw(t, "which")]
			switch op := rapid.SampledFrom([]string{"ocsp", "ocsp", "unknown", "crl", "revoke", "revoke"}).Draw(t, "op"); op {
			case "ocsp", "unknown":
				how := rapid.SampledFrom([]string{"post", "escaped", "path", "url", "rawurl"}).Draw(t, "how")
				h := rapid.SampledFrom([]crypto.Hash{crypto.SHA1, crypto.SHA256, crypto.SHA384, crypto.SHA512}).Draw(t, "hash")
				what += fmt.Sprintf("; %s %s %v", op, how, h)
				hit = true
				if op == "unknown" {
					b := rapid.SliceOfN(rapid.SampledFrom([]byte{0xff, 0xff, 0xff, 0xfb, 0xef, 0xbe, 0x3f, 1}), 8, 18).Draw(t, "serial")
					b[0] = 1
					if r := askOCSP(new(big.Int).SetBytes(b), how, h); r.Status == ocsp.Good {
						t.Fatalf("good status for an unknown certificate: %s", what)
					}
					break
				}
				want := ocsp.Good
				if c.revoked {
					want = ocsp.Revoked
				}
				if r := askOCSP(c.SerialNumber, how, h); r.Status != want {
					t.Fatalf("OCSP status %d, want %d: %s", r.Status, want, what)
				}
			case "crl":
				pemList := rapid.Bool().Draw(t, "pem")
				what += fmt.Sprintf("; crl pem=%v", pemList)
				checkList(pemList)
			case "revoke":
				by := rapid.SampledFrom([]string{"", "alice@example.com", "alice@example.com", "bob@example.com", "admin@example.com"}).Draw(t, "by")
				admin := rapid.Bool().Draw(t, "admin")
				csrf := rapid.SampledFrom([]string{"1", "1", "1", ""}).Draw(t, "csrf")
				method := rapid.SampledFrom([]string{"POST", "POST", "POST", "GET"}).Draw(t, "method")
				what += fmt.Sprintf("; %s revocation of the certificate of %s by %q admin=%v csrf=%q", method, c.owner, by, admin, csrf)
				hit = true
				var sn []string
				for _, b := range c.SerialNumber.Bytes() {
					sn = append(sn, fmt.Sprintf("%02x", b))
				}
				q := url.Values{"get": {"revokeCert"}, "sn": {strings.Join(sn, ":")}}
				if admin {
					q.Set("admin", "true")
				}
				r := &creq{method: method, target: "/certs?" + q.Encode()}
				if csrf != "" {
					r.hdr = append(r.hdr, [2]string{"X-Csrf-Check", csrf})
				}
				if by != "" {
					r.hdr = append(r.hdr, [2]string{"Cookie", "TLSPROXYAUTH=" + l.token(sessionClaims("idp1", by, "pki.example.com", now), "")})
				}
				resp := do(r)
				allowed := method == "POST" && csrf == "1" && (by == c.owner || by == "admin@example.com" && admin)
				ok := resp.status == 200 && strings.Contains(string(resp.body), `"result":"ok"`)
				if ok && (!allowed || c.revoked) {
					t.Fatalf("revocation accepted: %s", what)
				}
				if !ok && allowed && !c.revoked && protected {
					t.Fatalf("revocation refused with status %d %q: %s", resp.status, resp.body, what)
				}
				if ok {
					c.revoked = true
				}
				if got := m.IsRevoked(c.SerialNumber); got != c.revoked {
					t.Fatalf("revoked: %v, want %v: %s", got, c.revoked, what)
				}
			}
		}
		checkList(rapid.Bool().Draw(t, "lastpem"))
		if hit {
			s.Case(kit.Hash(what), func() string { return what })
		}
	})
}
