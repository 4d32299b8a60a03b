package verif_pki

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"html"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

var userKeys = sync.OnceValue(func() (out []crypto.Signer) {
	for _, c := range []elliptic.Curve{elliptic.P224(), elliptic.P256(), elliptic.P384(), elliptic.P521()} {
		k, err := ecdsa.GenerateKey(c, rand.Reader)
		if err != nil {
			kit.Infra("%v", err)
		}
		out = append(out, k)
	}
	_, ed, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		kit.Infra("%v", err)
	}
	out = append(out, ed)
	for range 2 {
		r, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			kit.Infra("%v", err)
		}
		out = append(out, r)
	}
	return out
})


var (
	oidBasic = asn1.ObjectIdentifier{2, 5, 29, 19}
	oidUsage = asn1.ObjectIdentifier{2, 5, 29, 15}
	oidEKU   = asn1.ObjectIdentifier{2, 5, 29, 37}
	oidNC    = asn1.ObjectIdentifier{2, 5, 29, 30}
)

func mustDER(v any) []byte {
	b, err := asn1.Marshal(v)
	if err != nil {
		kit.Infra("%v", err)
	}
	return b
}

// TestC18Issue requests, lists, downloads and revokes certificates.
func TestC18Issue(t *testing.T) {
	type issued struct {
		*x509.Certificate
		owner   string
		revoked bool
	}
	var (
		m      *pki.PKIManager
		dir    string
		certs  []*issued
		bySN   = make(map[string]bool)
		admins = []string{"root@example.com"}
	)
	defer func() { os.RemoveAll(dir) }()
	renew := func() {
		os.RemoveAll(dir)
		d, err := os.MkdirTemp("", "pki")
		if err != nil {
			kit.Infra("%v", err)
		}
		dir, certs = d, nil
		if m, err = newPKI(newStore(dir), "pki", "", admins...); err != nil {
			t.Fatalf("New: %v", err)
		}
	}
	renew()
	emails := []string{"alice@example.com", "bob@example.com", "root@example.com", "alice@example.com::bob@example.com", "ALICE@example.com", "alice@example.com.evil.net", "o'hara+x@example.com"}
	kit.Check(t, "certificate requests of several users with keys of 6 kinds (P-224 to P-521, Ed25519, RSA), any subject and names (other users' emails, DNS names, addresses, URIs), requested extensions (CA, key usages, name constraints), PEM framing, headers and methods, some altered after they were signed or signed with another key; then listing, download and revocation requests of owners, other users and administrators; non-trivial: the request was accepted, or was altered in one place", func(t *rapid.T, s *kit.Stats) {
		if len(certs) > 25 {
			renew()
		}
		what := ""
		user := rapid.SampledFrom(emails).Draw(t, "user")
		claims := jwt.MapClaims{"email": user}
		action := rapid.SampledFrom([]string{"request", "request", "request", "request", "revoke", "list", "download"}).Draw(t, "action")
		if len(certs) == 0 {
			action = "request"
		}
		switch action {
		case "list":
			q := url.Values{}
			owner := rapid.SampledFrom([]string{"", "all", "x"}).Draw(t, "owner")
			status := rapid.SampledFrom([]string{"", "all", "valid", "revoked"}).Draw(t, "status")
			q.Set("owner", owner)
			q.Set("status", status)
			admin := rapid.Bool().Draw(t, "admin")
			if admin {
				q.Set("admin", "1")
			}
			what = fmt.Sprintf("list %s as %s", q.Encode(), user)
			rec := serve(m.ServeCertificateManagement, asUser(httptest.NewRequest("GET", endpoint+"?"+q.Encode(), nil), claims))
			if rec.Code != 200 {
				t.Fatalf("status %d: %s", rec.Code, what)
			}
			page := html.UnescapeString(rec.Body.String())
			for _, c := range certs {
				shown := strings.Contains(page, snHex(c.SerialNumber))
				want := (owner == "all" || c.owner == user) && (status == "all" || c.revoked == (status == "revoked"))
				if shown != want {
					t.Fatalf("certificate of %s (revoked: %v) listed: %v, want %v: %s", c.owner, c.revoked, shown, want, what)
				}
			}
			s.Class("list")
			return
		case "download":
			c := certs[rapid.IntRange(0, len(certs)-1).Draw(t, "which")]
			q := url.Values{"get": {"downloadCert"}, "sn": {snHex(c.SerialNumber)}}
			rec := serve(m.ServeCertificateManagement, asUser(httptest.NewRequest("GET", endpoint+"?"+q.Encode(), nil), claims))
			if rec.Code == 200 {
				got, _, err := certsOf(rec.Body.Bytes())
				if err != nil || len(got) != 1 || !bytes.Equal(got[0].Raw, c.Raw) {
					t.Fatalf("download: not the certificate: %v", err)
				}
			} else if c.owner == user && !c.revoked {
				t.Fatalf("download: status %d", rec.Code)
			}
			s.Class("download")
			return
		case "revoke":
			c := certs[rapid.IntRange(0, len(certs)-1).Draw(t, "which")]
			q := url.Values{"get": {"revokeCert"}, "sn": {snHex(c.SerialNumber)}}
			admin := rapid.SampledFrom([]string{"", "", "1", "true"}).Draw(t, "admin")
			if admin != "" {
				q.Set("admin", admin)
			}
			method := rapid.SampledFrom([]string{"POST", "POST", "POST", "GET", "PUT"}).Draw(t, "method")
			req := httptest.NewRequest(method, endpoint+"?"+q.Encode(), nil)
			csrf := rapid.SampledFrom([]string{"1", "1", "1", "", "0"}).Draw(t, "csrf")
			if csrf != "" {
				req.Header.Set("x-csrf-check", csrf)
			}
			what = fmt.Sprintf("%s %s csrf=%q as %s: certificate of %s", method, q.Encode(), csrf, user, c.owner)
			rec := serve(m.ServeCertificateManagement, asUser(req, claims))
			allowed := method == "POST" && csrf == "1" && !c.revoked && (c.owner == user || admin != "" && user == admins[0])
			ok := rec.Code == 200 && rec.Body.String() == "{\"result\":\"ok\"}\n"
			if ok != allowed {
				t.Fatalf("revoked: %v, want %v: %s", ok, allowed, what)
			}
			c.revoked = c.revoked || ok
			if got := m.IsRevoked(c.SerialNumber); got != c.revoked {
				t.Fatalf("revoked: %v, want %v: %s", got, c.revoked, what)
			}
			s.Case(kit.Hash(what), func() string { return what })
			return
		}

		// A request.
		ki := rapid.IntRange(0, len(userKeys())-1).Draw(t, "key")
		key := userKeys()[ki]
		names := []string{"", "", "laptop", "bob@example.com", "CN=bob@example.com", "a,O=b", "a\"b\\c", "::", "alice@example.com\x00", "ünï", "*.example.com", strings.Repeat("x", 64)}
		templ := &x509.CertificateRequest{
			Subject: pkix.Name{CommonName: rapid.SampledFrom(names).Draw(t, "cn")},
		}
		if rapid.IntRange(0, 3).Draw(t, "moresubject") == 0 {
			templ.Subject.Organization = []string{rapid.SampledFrom(names).Draw(t, "org")}
			templ.Subject.ExtraNames = []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 1}, Value: rapid.SampledFrom(emails).Draw(t, "subjectemail")}}
			if rapid.Bool().Draw(t, "secondcn") {
				templ.Subject.ExtraNames = append(templ.Subject.ExtraNames, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "bob@example.com"})
			}
		}
		templ.EmailAddresses = rapid.SliceOfN(rapid.SampledFrom(emails), 0, 2).Draw(t, "emails")
		templ.DNSNames = rapid.SliceOfN(rapid.SampledFrom([]string{"www.example.com", "*.example.com", "bob@example.com", "host"}), 0, 2).Draw(t, "dns")
		if rapid.Bool().Draw(t, "nodns") {
			templ.DNSNames = nil
		}
		if rapid.IntRange(0, 4).Draw(t, "ip") == 0 {
			templ.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1)}
		}
		if rapid.IntRange(0, 4).Draw(t, "uri") == 0 {
			templ.URIs = []*url.URL{{Scheme: "spiffe", Host: "example.com", Path: "/bob"}}
		}
		for _, e := range []pkix.Extension{
			{Id: oidBasic, Critical: true, Value: mustDER(struct{ IsCA bool }{true})},
			{Id: oidUsage, Critical: true, Value: mustDER(asn1.BitString{Bytes: []byte{0xff}, BitLength: 8})},
			{Id: oidEKU, Value: mustDER([]asn1.ObjectIdentifier{{1, 3, 6, 1, 5, 5, 7, 3, 9}, {1, 3, 6, 1, 5, 5, 7, 3, 2}, {2, 5, 29, 37, 0}})},
			{Id: oidNC, Value: mustDER([]asn1.RawValue{})},
		} {
			if rapid.IntRange(0, 3).Draw(t, "ext") == 0 {
				templ.ExtraExtensions = append(templ.ExtraExtensions, e)
				what += fmt.Sprintf(" ext %v", e.Id)
			}
		}
		what = fmt.Sprintf("%T %q %v %v%s by %s", key.Public(), templ.Subject.String(), templ.EmailAddresses, templ.DNSNames, what, user)
		raw, err := x509.CreateCertificateRequest(rand.Reader, templ, key)
		if err != nil {
			kit.Infra("CreateCertificateRequest: %v", err)
		}
		var tbs []byte
		if cr, err := x509.ParseCertificateRequest(raw); err == nil {
			tbs = bytes.Clone(cr.RawTBSCertificateRequest)
		}
		valid, altered := true, false
		switch rapid.SampledFrom([]string{"", "", "", "", "alter", "alter", "otherkey", "cut", "tail", "cert"}).Draw(t, "change") {
		case "alter":
			// One bit.
			pos := rapid.IntRange(0, len(raw)-1).Draw(t, "pos")
			raw[pos] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			valid, altered = false, true
			what += fmt.Sprintf(" altered at %d", pos)
		case "otherkey":
			// The request of another key, with this key's signature.
			other := userKeys()[(ki+1)%len(userKeys())]
			r2, err := x509.CreateCertificateRequest(rand.Reader, templ, other)
			if err != nil {
				kit.Infra("CreateCertificateRequest: %v", err)
			}
			var a, b struct {
				TBS asn1.RawValue
				Alg asn1.RawValue
				Sig asn1.BitString
			}
			if _, err := asn1.Unmarshal(raw, &a); err != nil {
				kit.Infra("%v", err)
			}
			if _, err := asn1.Unmarshal(r2, &b); err != nil {
				kit.Infra("%v", err)
			}
			a.TBS = b.TBS
			if rapid.Bool().Draw(t, "otheralg") {
				a.Alg = b.Alg
			}
			raw = mustDER(a)
			valid = false
			what += " signed with another key"
		case "cut":
			raw = raw[:rapid.IntRange(0, len(raw)-1).Draw(t, "len")]
			valid = false
			what += " cut"
		case "tail":
			raw = append(raw, 0)
			valid = false
			what += " with trailing data"
		case "cert":
			raw = nil
			if len(certs) > 0 {
				raw = certs[0].Raw
			}
			valid = false
			what += " not a request"
		}
		block := &pem.Block{Type: rapid.SampledFrom([]string{"CERTIFICATE REQUEST", "CERTIFICATE REQUEST", "NEW CERTIFICATE REQUEST"}).Draw(t, "type"), Bytes: raw}
		body := pem.EncodeToMemory(block)
		switch rapid.SampledFrom([]string{"", "", "", "lead", "nopem", "empty"}).Draw(t, "framing") {
		case "lead":
			body = append([]byte("some text\r\n"), body...)
		case "nopem":
			body = raw
			valid = false
			what += " not PEM"
		case "empty":
			body = nil
			valid = false
			what += " empty"
		}
		method, csrf, ct := "POST", "1", "application/x-pem-file"
		switch rapid.SampledFrom([]string{"", "", "", "", "", "method", "csrf", "ct"}).Draw(t, "http") {
		case "method":
			method = rapid.SampledFrom([]string{"GET", "PUT", "HEAD"}).Draw(t, "method")
			valid = false
		case "csrf":
			csrf = rapid.SampledFrom([]string{"", "0", "11"}).Draw(t, "csrf")
			valid = false
		case "ct":
			ct = rapid.SampledFrom([]string{"", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data"}).Draw(t, "ct")
			valid = false
		}
		what += fmt.Sprintf(" %s %q %q", method, csrf, ct)
		req := httptest.NewRequest(method, endpoint+"?get=requestCert", bytes.NewReader(body))
		if csrf != "" {
			req.Header.Set("X-Csrf-Check", csrf)
		}
		if ct != "" {
			req.Header.Set("Content-Type", ct)
		}
		if rapid.IntRange(0, 9).Draw(t, "noclaims") == 0 {
			claims = nil
			valid = false
			what += " without user"
		}
		rec := serve(m.ServeCertificateManagement, asUser(req, claims))
		var got struct {
			Result string
			Cert   string
		}
		if rec.Code == http.StatusOK {
			if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil {
				t.Fatalf("response: %v %q: %s", err, rec.Body, what)
			}
		}
		if !valid {
			s.Case(kit.Hash(what), func() string { return what })
			if cr, err := x509.ParseCertificateRequest(raw); err == nil && bytes.Equal(cr.RawTBSCertificateRequest, tbs) && cr.CheckSignature() == nil && altered {
				// The bit doesn't matter, e.g. parameters of the
				// signature algorithm.
				return
			}
			if got.Cert != "" {
				t.Fatalf("certificate issued: %s", what)
			}
			return
		}
		if got.Cert == "" {
			// Names that can't be in a certificate.
			if _, err := x509.ParseCertificateRequest(raw); err != nil || strings.Contains(templ.Subject.CommonName, "\x00") {
				return
			}
			t.Fatalf("no certificate: status %d %q: %s", rec.Code, rec.Body, what)
		}
		cs, _, err := certsOf([]byte(got.Cert))
		if err != nil || len(cs) != 1 {
			t.Fatalf("response: %d certificates, %v: %s", len(cs), err, what)
		}
		c := cs[0]
		s.Case(kit.Hash(what), func() string { return what })
		certs = append(certs, &issued{Certificate: c, owner: user})
		// The identity.
		cn := user
		if n := templ.Subject.CommonName; n != "" || len(templ.Subject.ExtraNames) > 1 {
			cn = user + "::"
			if !strings.HasPrefix(c.Subject.CommonName, cn) {
				t.Fatalf("subject %q: %s", c.Subject, what)
			}
			cn = c.Subject.CommonName
		}
		if want := (pkix.Name{CommonName: cn}).String(); c.Subject.String() != want || len(c.Subject.Names) != 1 {
			t.Fatalf("subject %q, want %q: %s", c.Subject, want, what)
		}
		if len(c.EmailAddresses) != 1 || c.EmailAddresses[0] != user {
			t.Fatalf("emails %q: %s", c.EmailAddresses, what)
		}
		if len(c.URIs) > 0 || len(c.IPAddresses) > 0 {
			t.Fatalf("URIs %q addresses %v: %s", c.URIs, c.IPAddresses, what)
		}
		// Names only in server certificates, which don't authenticate clients.
		usage := x509.ExtKeyUsageClientAuth
		if len(c.DNSNames) > 0 {
			usage = x509.ExtKeyUsageServerAuth
		}
		if fmt.Sprint(c.DNSNames) != fmt.Sprint(templ.DNSNames) {
			t.Fatalf("DNS names %q, want %q: %s", c.DNSNames, templ.DNSNames, what)
		}
		if len(c.ExtKeyUsage) != 1 || c.ExtKeyUsage[0] != usage || len(c.UnknownExtKeyUsage) > 0 {
			t.Fatalf("extended key usages %v %v, want %v: %s", c.ExtKeyUsage, c.UnknownExtKeyUsage, usage, what)
		}
		if c.IsCA || !c.BasicConstraintsValid || c.KeyUsage&(x509.KeyUsageCertSign|x509.KeyUsageCRLSign) != 0 || c.KeyUsage&x509.KeyUsageDigitalSignature == 0 {
			t.Fatalf("CA %v, key usage %b: %s", c.IsCA, c.KeyUsage, what)
		}
		pub, _ := c.PublicKey.(interface{ Equal(crypto.PublicKey) bool })
		if pub == nil || !pub.Equal(key.Public()) {
			t.Fatalf("not the key of the request: %s", what)
		}
		if sn := c.SerialNumber.String(); bySN[sn] || c.SerialNumber.BitLen() < 64 {
			t.Fatalf("serial number %s: %s", sn, what)
		} else {
			bySN[sn] = true
		}
		ca, err := m.CACert()
		if err != nil {
			t.Fatalf("CACert: %v", err)
		}
		roots := x509.NewCertPool()
		roots.AddCert(ca)
		if _, err := c.Verify(x509.VerifyOptions{Roots: roots, CurrentTime: time.Now(), KeyUsages: []x509.ExtKeyUsage{usage}}); err != nil {
			t.Fatalf("Verify: %v: %s", err, what)
		}
		if c.NotBefore.After(time.Now()) || c.NotAfter.Sub(c.NotBefore) > 10*366*24*time.Hour {
			t.Fatalf("valid from %s to %s: %s", c.NotBefore, c.NotAfter, what)
		}
		if fmt.Sprint(c.OCSPServer, c.CRLDistributionPoints, c.IssuingCertificateURL) != fmt.Sprint([]string{ocspURL}, []string{crlURL}, []string{caURL}) {
			t.Fatalf("endpoints %v %v %v: %s", c.OCSPServer, c.CRLDistributionPoints, c.IssuingCertificateURL, what)
		}
		if m.IsRevoked(c.SerialNumber) {
			t.Fatalf("revoked: %s", what)
		}
	})
}
