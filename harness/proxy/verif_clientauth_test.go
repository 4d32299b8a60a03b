package proxy

import (
	"bufio"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/crypto/ocsp"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// vOCSP is an OCSP responder for certificates of a CA.
type vOCSP struct {
	url  string
	mu   sync.Mutex
	stat map[string]int // by serial number
}

func newVOCSP(ca *vca) *vOCSP {
	r := &vOCSP{stat: map[string]int{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Infra("%v", err)
	}
	r.url = "http://" + l.Addr().String() + "/"
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		body, _ := io.ReadAll(req.Body)
		or, err := ocsp.ParseRequest(body)
		if err != nil {
			http.Error(w, "bad", 400)
			return
		}
		r.mu.Lock()
		st, ok := r.stat[or.SerialNumber.String()]
		r.mu.Unlock()
		if !ok {
			http.Error(w, "error", 500)
			return
		}
		b, err := ocsp.CreateResponse(ca.cert, ca.cert, ocsp.Response{
			Status: st, SerialNumber: or.SerialNumber, ThisUpdate: time.Now().Add(-time.Minute), NextUpdate: time.Now().Add(time.Hour),
			RevokedAt: time.Now().Add(-time.Hour), IssuerHash: or.HashAlgorithm,
		}, ca.key)
		if err != nil {
			http.Error(w, "error", 500)
			return
		}
		w.Header().Set("content-type", "application/ocsp-response")
		w.Write(b)
	}))
	return r
}

// caLab is what the checks of client authentication share.
type caLab struct {
	*vlab
	ca1, ca2, other, inter, notCA *vca
	interDER, notCADER            []byte
	ocsp                          *vOCSP
	pkiCfg                        *ConfigPKI
	pkiPEM                        string
	roots                         []string
	pkiCerts                      []tls.Certificate // good ones
}

// sub makes a CA certificate (or what should be one) issued by ca.
func (ca *vca) sub(name string, isCA bool) *vca {
	out := &vca{key: newKey()}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(77), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
		IsCA: isCA, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign, SubjectKeyId: []byte(name),
		Subject: pkix.Name{CommonName: name},
	}
	if !isCA {
		t.KeyUsage = x509.KeyUsageDigitalSignature
	}
	der, err := x509.CreateCertificate(rand.Reader, t, ca.cert, out.key.Public(), ca.key)
	if err != nil {
		kit.Infra("sub: %v", err)
	}
	if out.cert, err = x509.ParseCertificate(der); err != nil {
		kit.Infra("sub: %v", err)
	}
	return out
}

var theCALab = sync.OnceValue(func() *caLab {
	cl := &caLab{vlab: theLab()}
	cl.ca1, cl.ca2, cl.other = newVCA("root one"), newVCA("root two"), newVCA("root other")
	cl.inter = cl.ca1.sub("intermediate", true)
	cl.notCA = cl.ca1.sub("not a CA", false)
	cl.ocsp = newVOCSP(cl.ca1)
	cl.pkiCfg = &ConfigPKI{Name: "pki1", Endpoint: "https://pki.example.com/certs"}
	for i := range numUps {
		cl.roots = append(cl.roots, cl.writeFiles(map[string]string{"id": fmt.Sprintf("U%d\n", i)}))
	}
	return cl
})

type clientCase struct {
	desc   string
	cert   *tls.Certificate // nil: none
	leaf   *x509.Certificate
	issuer string // ca1, ca2, pki, other
	chain  bool   // the chain leads to the issuer
	use    string // client, none, server
	time   string
	status string // no OCSP, good, revoked, unknown, down
}

func (cl *caLab) genClient(t *rapid.T) *clientCase {
	c := &clientCase{chain: true, use: "client", time: "now", status: "no OCSP"}
	kind := rapid.SampledFrom([]string{"ca1", "ca1", "ca1", "ca2", "other", "pki", "none", "inter", "interalone", "notca", "self", "wrongkey"}).Draw(t, "issuer")
	c.issuer = kind
	if kind == "none" {
		c.desc = "no certificate"
		return c
	}
	tmpl := &x509.Certificate{}
	words := []string{"bob", "Bob", "alice", "bob@example.com", "DNS:bob", "a,b", "x=y", "example.com", "*", "a+b", " s ", "\"q\""}
	if rapid.IntRange(0, 3).Draw(t, "subject") > 0 {
		tmpl.Subject.CommonName = rapid.SampledFrom(words).Draw(t, "cn")
		if rapid.Bool().Draw(t, "org") {
			tmpl.Subject.Organization = []string{rapid.SampledFrom(words).Draw(t, "o")}
		}
	}
	for range rapid.IntRange(0, 2).Draw(t, "dns") {
		tmpl.DNSNames = append(tmpl.DNSNames, rapid.SampledFrom([]string{"bob.example.com", "alice.example.com", "example.com", "*.example.com", "client"}).Draw(t, "dnsname"))
	}
	for range rapid.IntRange(0, 2).Draw(t, "emails") {
		tmpl.EmailAddresses = append(tmpl.EmailAddresses, rapid.SampledFrom([]string{"bob@example.com", "alice@example.com", "Bob@Example.com", "x@y.z"}).Draw(t, "email"))
	}
	for range rapid.IntRange(0, 2).Draw(t, "uris") {
		u, _ := url.Parse(rapid.SampledFrom([]string{"spiffe://example.com/bob", "https://example.com/a%20b?c=d", "urn:bob", "https://Example.com"}).Draw(t, "uri"))
		tmpl.URIs = append(tmpl.URIs, u)
	}
	if kind == "pki" {
		// Certificates of the internal CA have one kind of content.
		if len(cl.pkiCerts) > 20 {
			i := rapid.IntRange(0, len(cl.pkiCerts)-1).Draw(t, "which")
			x := cl.pkiCerts[i] // the slice changes
			c.cert = &x
		} else {
			key := newKey()
			// With DNS names, they are for servers.
			var dns []string
			if rapid.IntRange(0, 9).Draw(t, "server") == 0 {
				dns = tmpl.DNSNames
			}
			der, err := cl.p.pkis["pki1"].IssueCertificate(&x509.CertificateRequest{PublicKey: key.Public(), EmailAddresses: []string{"bob@example.com"}, DNSNames: dns})
			if err != nil {
				t.Fatalf("IssueCertificate: %v", err)
			}
			leaf, err := x509.ParseCertificate(der)
			if err != nil {
				t.Fatalf("IssueCertificate: %v", err)
			}
			tc := tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key, Leaf: leaf}
			cl.pkiCerts = append(cl.pkiCerts, tc)
			c.cert = &tc
		}
		c.leaf = c.cert.Leaf
		if len(c.leaf.DNSNames) > 0 {
			c.use = "server"
		}
		c.desc = fmt.Sprintf("pki certificate {%s}", certIDs(c.leaf))
		return c
	}
	tmpl.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	switch rapid.IntRange(0, 9).Draw(t, "usage") {
	case 0:
		tmpl.ExtKeyUsage, c.use = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, "server"
	case 1:
		tmpl.ExtKeyUsage, c.use = nil, "none"
	case 2:
		tmpl.ExtKeyUsage = append(tmpl.ExtKeyUsage, x509.ExtKeyUsageServerAuth)
	}
	switch rapid.IntRange(0, 9).Draw(t, "time") {
	case 0:
		c.time = "expired"
		tmpl.NotBefore, tmpl.NotAfter = time.Now().Add(-2*time.Hour), time.Now().Add(-time.Minute)
	case 1:
		c.time = "future"
		tmpl.NotBefore, tmpl.NotAfter = time.Now().Add(10*time.Minute), time.Now().Add(time.Hour)
	}
	ca := map[string]*vca{"ca1": cl.ca1, "ca2": cl.ca2, "other": cl.other, "inter": cl.inter, "interalone": cl.inter, "notca": cl.notCA, "wrongkey": cl.ca1, "self": cl.other}[kind]
	n, _ := rand.Int(rand.Reader, big.NewInt(1<<62))
	tmpl.SerialNumber = n
	if kind == "ca1" && rapid.IntRange(0, 2).Draw(t, "ocsp") == 0 {
		c.status = rapid.SampledFrom([]string{"good", "good", "revoked", "unknown", "error"}).Draw(t, "status")
		tmpl.OCSPServer = []string{cl.ocsp.url}
		cl.ocsp.mu.Lock()
		switch c.status {
		case "good":
			cl.ocsp.stat[n.String()] = ocsp.Good
		case "revoked":
			cl.ocsp.stat[n.String()] = ocsp.Revoked
		case "unknown":
			cl.ocsp.stat[n.String()] = ocsp.Unknown
		}
		cl.ocsp.mu.Unlock()
	}
	var tc tls.Certificate
	switch kind {
	case "self":
		own := &vca{key: newKey()}
		tmpl.IsCA, tmpl.BasicConstraintsValid = true, true
		tmpl.KeyUsage = x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign
		// It claims the name and key identifier of the real root.
		tmpl.Subject, tmpl.SubjectKeyId = cl.ca1.cert.Subject, cl.ca1.cert.SubjectKeyId
		own.cert = tmpl
		k := own.key
		if tmpl.NotBefore.IsZero() {
			tmpl.NotBefore, tmpl.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(time.Hour)
		}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, k.Public(), k)
		if err != nil {
			kit.Infra("self: %v", err)
		}
		leaf, _ := x509.ParseCertificate(der)
		tc = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k, Leaf: leaf}
	default:
		tc = ca.issue(tmpl)
	}
	switch kind {
	case "inter", "notca":
		tc.Certificate = append(tc.Certificate, ca.cert.Raw)
		c.chain = kind == "inter"
		c.issuer = "ca1"
	case "interalone":
		c.chain = false
		c.issuer = "ca1"
	case "wrongkey":
		// The certificate of someone else.
		tc.PrivateKey = newKey()
		c.chain = false
		c.issuer = "ca1"
	case "self":
		c.issuer = "other"
	}
	c.cert, c.leaf = &tc, tc.Leaf
	c.desc = fmt.Sprintf("certificate from %s chain=%v use=%s time=%s ocsp=%s {%s}", kind, c.chain, c.use, c.time, c.status, certIDs(c.leaf))
	return c
}

// certIDs lists the identities that an ACL can name.
func certIDs(c *x509.Certificate) string {
	return strings.Join(certIDList(c), "|")
}

func certIDList(c *x509.Certificate) (out []string) {
	if s := c.Subject.String(); s != "" {
		out = append(out, "SUBJECT:"+s, s)
	}
	for _, v := range c.DNSNames {
		out = append(out, "DNS:"+v)
	}
	for _, v := range c.EmailAddresses {
		out = append(out, "EMAIL:"+v)
	}
	for _, v := range c.URIs {
		out = append(out, "URI:"+v.String())
	}
	return
}

// genACL makes an ACL out of what is, and is almost, in the certificate.
func genACL(t *rapid.T, c *clientCase) (acl *[]string, admits bool) {
	if rapid.IntRange(0, 3).Draw(t, "acl") == 0 {
		return nil, true
	}
	var ids []string
	if c.leaf != nil {
		ids = certIDList(c.leaf)
	}
	list := []string{}
	for range rapid.IntRange(0, 4).Draw(t, "entries") {
		e := rapid.SampledFrom([]string{"SUBJECT:CN=Carol", "EMAIL:carol@example.com", "DNS:carol.example.com", "*", "", "SUBJECT:", "DNS:", "EMAIL:", "URI:", "DNS:*", "EMAIL:*@example.com", "EMAIL:@example.com", "CN=Carol"}).Draw(t, "entry")
		if len(ids) > 0 && rapid.IntRange(0, 3).Draw(t, "own") > 0 {
			e = rapid.SampledFrom(ids).Draw(t, "id")
			typ, val, _ := strings.Cut(e, ":")
			switch rapid.SampledFrom([]string{"exact", "upper", "lower", "noprefix", "othertype", "longer", "shorter", "space", "exact"}).Draw(t, "variant") {
			case "upper":
				e = strings.ToUpper(e)
			case "lower":
				e = strings.ToLower(e)
			case "noprefix":
				e = val
			case "othertype":
				for _, o := range []string{"DNS", "EMAIL", "URI", "SUBJECT"} {
					if o != typ {
						e = o + ":" + val
					}
				}
			case "longer":
				e += "x"
			case "shorter":
				if len(e) > 0 {
					e = e[:len(e)-1]
				}
			case "space":
				e += " "
			}
		}
		list = append(list, e)
	}
	for _, id := range ids {
		if slices.Contains(list, id) {
			admits = true
		}
	}
	return &list, admits
}

func TestC04ClientAuth(t *testing.T) {
	cl := theCALab()
	l := cl.vlab
	base := l.cfg(false)
	base.PKI = []*ConfigPKI{cl.pkiCfg}
	base.Backends = []*Backend{{ServerNames: []string{"pki.example.com"}, Mode: "LOCAL"}}
	if err := l.p.Reconfigure(base); err != nil {
		t.Fatal(err)
	}
	kit.Check(t, "a backend (TCP, TLS, HTTP, LOCAL; HTTP/1.1, HTTP/2 or HTTP/3 ALPN) requiring client certificates from random roots (two CAs, the internal PKI) with a random ACL (absent, empty, exact and almost exact identities), sometimes next to an open backend of the same name, reached by name or as the default; clients with any kind of certificate (issuer, intermediate, key, usage, time, OCSP status, identities) over TLS 1.2 and 1.3 connect, connect again resuming their session, and again after a revocation or a change of the ACL; non-trivial: the client has a certificate", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		mode := rapid.SampledFrom([]string{"TCP", "TLS", "HTTP", "LOCAL"}).Draw(t, "mode")
		c := cl.genClient(t)
		be := &Backend{ServerNames: []string{"main.example.com", "main2.example.com"}, Mode: mode, ForwardRateLimit: 100000, InsecureSkipVerify: true,
			ClientAuth: &ClientAuth{}}
		var protos []string
		switch rapid.IntRange(0, 3).Draw(t, "alpn") {
		case 0:
			be.ALPNProtos = &[]string{"h3"}
		case 1:
			be.ALPNProtos = &[]string{"h3", "http/1.1"}
			protos = *be.ALPNProtos
		case 2:
			protos = []string{"h2", "http/1.1"}
		case 3:
			be.ALPNProtos = &[]string{"http/1.1"}
			protos = *be.ALPNProtos
		}
		rootSet := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"ca1", "ca1", "ca2", "pki"}), 1, 2, rapid.ID).Draw(t, "roots")
		for _, r := range rootSet {
			switch r {
			case "ca1":
				be.ClientAuth.RootCAs = append(be.ClientAuth.RootCAs, cl.ca1.pem)
			case "ca2":
				be.ClientAuth.RootCAs = append(be.ClientAuth.RootCAs, cl.ca2.pem)
			case "pki":
				be.ClientAuth.RootCAs = append(be.ClientAuth.RootCAs, "pki1")
			}
		}
		acl, aclOK := genACL(t, c)
		be.ClientAuth.ACL = acl
		setup := func(b *Backend, i int) {
			switch b.Mode {
			case "LOCAL", "HTTP":
				b.DocumentRoot = cl.roots[i]
			case "TLS":
				b.Addresses = []string{l.ups[i].addr}
				l.upTLS(l.ups[i], protos)
			default:
				b.Addresses = []string{l.ups[i].addr}
			}
		}
		setup(be, 0)
		// An open backend with the same name.
		sibling := rapid.SampledFrom([]string{"none", "none", "before", "after"}).Draw(t, "sibling")
		open := &Backend{ServerNames: []string{"main.example.com"}, Mode: rapid.SampledFrom([]string{"TCP", "LOCAL"}).Draw(t, "sibmode"), ALPNProtos: &[]string{"sib"}, ForwardRateLimit: 100000}
		setup(open, 1)
		viaDefault := rapid.IntRange(0, 3).Draw(t, "default") == 0
		if viaDefault && sibling == "before" {
			sibling = "after"
		}
		mkcfg := func(acl *[]string) *Config {
			cfg := l.cfg(false)
			cfg.PKI = []*ConfigPKI{cl.pkiCfg}
			b := *be
			ca := *be.ClientAuth
			ca.ACL = acl
			b.ClientAuth = &ca
			o := *open
			switch sibling {
			case "before":
				cfg.Backends = []*Backend{&o, &b}
			case "after":
				cfg.Backends = []*Backend{&b, &o}
			default:
				cfg.Backends = []*Backend{&b}
			}
			cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{"pki.example.com"}, Mode: "LOCAL"})
			if viaDefault {
				cfg.DefaultServerName = "main.example.com"
			}
			return cfg
		}
		if err := l.p.Reconfigure(mkcfg(acl)); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		desc := fmt.Sprintf("%s mode=%s alpn=%v roots=%v acl=%s sibling=%s default=%v", c.desc, mode, be.ALPNProtos, rootSet, fmtACL(acl), sibling, viaDefault)

		expect := func(aclOK bool) (ok, maybe bool) {
			if c.cert == nil || !c.chain || !slices.Contains(rootSet, c.issuer) || c.time != "now" || c.use == "server" {
				return false, false
			}
			if c.status != "no OCSP" && c.status != "good" {
				return false, false
			}
			if !aclOK {
				return false, false
			}
			return true, c.use == "none"
		}
		cache := tls.NewLRUClientSessionCache(8)
		ver := rapid.SampledFrom([]uint16{tls.VersionTLS13, tls.VersionTLS13, tls.VersionTLS12}).Draw(t, "version")
		clientProtos := []string{}
		switch {
		case sibling == "before" && len(protos) == 0:
			clientProtos = []string{"h3"}
		case len(protos) > 0 && (sibling == "before" || rapid.Bool().Draw(t, "offer")):
			clientProtos = []string{"http/1.1"}
		case len(protos) == 0 && rapid.Bool().Draw(t, "offerh3"):
			clientProtos = []string{"h3"}
		}
		connect := func(what string, want, maybe bool) {
			before := len(l.ups[0].seen())
			sni := "main.example.com"
			if viaDefault {
				sni = ""
			}
			cfg := clientTLS(sni, clientProtos...)
			cfg.MaxVersion = ver
			cfg.ClientSessionCache = cache
			if c.cert != nil {
				cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return c.cert, nil }
			}
			raw := l.dial()
			tc := tls.Client(raw, cfg)
			defer tc.Close()
			err := tc.Handshake()
			got := ""
			if err == nil {
				if mode == "LOCAL" || mode == "HTTP" {
					got = c01Get(tc, "main.example.com")
				} else {
					got, err = bufio.NewReader(tc).ReadString('\n')
				}
			}
			s.Class(fmt.Sprintf("%s want=%v resumed=%v", what, want, tc.ConnectionState().DidResume))
			switch {
			case maybe:
			case want && got != "U0\n":
				t.Fatalf("%s: client that meets all conditions got %q (%v): tls%x protos=%q %s", what, got, err, ver, clientProtos, desc)
			case !want && got != "":
				t.Fatalf("%s: client that must be refused was served %q: tls%x protos=%q %s", what, got, ver, clientProtos, desc)
			case !want:
				quiet()
				if len(l.ups[0].seen()) != before {
					t.Fatalf("%s: connection of a refused client reached the backend: tls%x protos=%q %s", what, ver, clientProtos, desc)
				}
			}
		}
		want, maybe := expect(aclOK)
		connect("first", want, maybe)
		if rapid.Bool().Draw(t, "again") {
			connect("again", want, maybe)
		}
		key := ""
		if c.cert != nil {
			key = desc
		}
		s.Case(key, func() string { return fmt.Sprintf("%s -> %v", desc, want) })
		switch {
		case c.issuer == "pki" && rapid.IntRange(0, 2).Draw(t, "revoke") == 0:
			if err := l.p.pkis["pki1"].RevokeCertificate(c.leaf.SerialNumber, 1); err != nil {
				t.Fatalf("RevokeCertificate: %v", err)
			}
			cl.pkiCerts = slices.DeleteFunc(cl.pkiCerts, func(x tls.Certificate) bool { return x.Leaf.SerialNumber.Cmp(c.leaf.SerialNumber) == 0 })
			connect("revoked", false, false)
			s.Case(desc+" revoked", nil)
			if rapid.Bool().Draw(t, "reconf") {
				if err := l.p.Reconfigure(mkcfg(nil)); err != nil {
					t.Fatalf("configuration refused: %v", err)
				}
				connect("revoked, other ACL", false, false)
			}
		case c.cert != nil && rapid.IntRange(0, 2).Draw(t, "changeacl") == 0:
			acl, ok := genACL(t, c)
			if err := l.p.Reconfigure(mkcfg(acl)); err != nil {
				t.Fatalf("configuration refused: %v", err)
			}
			desc += " then acl=" + fmtACL(acl)
			want, maybe := expect(ok)
			connect("changed", want, maybe)
			s.Case(desc, nil)
		}
	})
}

func fmtACL(acl *[]string) string {
	if acl == nil {
		return "any"
	}
	return fmt.Sprintf("%q", *acl)
}
