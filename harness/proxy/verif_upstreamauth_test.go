package proxy

import (
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"math/big"
	"slices"
	"strings"
	"testing"
	"time"

	"golang.org/x/crypto/ocsp"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// upIdent is the certificate that an upstream server has.
type upIdent struct {
	issuer  string // ca1, ca2, other, pki
	chain   bool   // what it sends leads to the issuer
	names   []string
	time    string
	use     string
	status  string // of OCSP
	revoked bool   // by the internal CA
	cert    tls.Certificate
	request tls.ClientAuthType
}

func (u *upIdent) String() string {
	return fmt.Sprintf("{%s chain=%v names=%q %s use=%s ocsp=%s revoked=%v request=%v}", u.issuer, u.chain, u.names, u.time, u.use, u.status, u.revoked, u.request)
}

// upSettings is how the proxy should talk to an upstream server.
type upSettings struct {
	mode  string
	up    int
	roots []string // ca1, ca2, pki
	name  string
	skip  bool
	proto *string
}

func (s *upSettings) String() string {
	p := "none"
	if s.proto != nil {
		p = *s.proto
	}
	return fmt.Sprintf("{%s U%d roots=%v name=%q skip=%v proto=%s}", s.mode, s.up, s.roots, s.name, s.skip, p)
}

var upNames = []string{"up1.example.net", "up2.example.net", "xn--bcher-kva.example.net"}

func wireName(s string) string {
	return strings.ToLower(strings.ReplaceAll(s, "bücher", "xn--bcher-kva"))
}

// trusts tells whether the server must be trusted, or must not be.
func (s *upSettings) trusts(u *upIdent) (yes, no bool) {
	if s.mode == "HTTP" {
		return true, false
	}
	if s.skip {
		// Whether a revoked certificate is still refused is not specified.
		return !u.revoked && u.status != "revoked" && u.status != "unknown", false
	}
	ok := slices.Contains(s.roots, u.issuer) && u.chain && u.time == "now" && u.use != "client" && u.status != "revoked" && u.status != "unknown" && !u.revoked
	name := wireName(s.name)
	match := false
	for _, n := range u.names {
		if n == name || strings.HasPrefix(n, "*.") && strings.Count(name, ".") == strings.Count(n, ".") && strings.HasSuffix(name, n[1:]) {
			match = true
		}
	}
	return ok && match && u.status != "error", !ok || !match
}

func (cl *caLab) genUpIdent(t *rapid.T) *upIdent {
	u := &upIdent{chain: true, time: "now", use: "server", status: "none"}
	kind := rapid.SampledFrom([]string{"ca1", "ca1", "ca1", "ca2", "ca2", "pki", "pki", "other", "inter", "interalone", "self", "notca"}).Draw(t, "issuer")
	u.names = rapid.SampledFrom([][]string{{"up1.example.net"}, {"up1.example.net"}, {"up1.example.net", "up2.example.net"}, {"up2.example.net"}, {"*.example.net"}, {"xn--bcher-kva.example.net"}, {"example.net"}}).Draw(t, "names")
	u.request = rapid.SampledFrom([]tls.ClientAuthType{tls.NoClientCert, tls.NoClientCert, tls.RequestClientCert, tls.RequireAnyClientCert}).Draw(t, "request")
	u.issuer = kind
	if kind == "pki" {
		key := newKey()
		der, err := cl.p.pkis["pki1"].IssueCertificate(&x509.CertificateRequest{PublicKey: key.Public(), DNSNames: u.names})
		if err != nil {
			t.Fatalf("IssueCertificate: %v", err)
		}
		leaf, err := x509.ParseCertificate(der)
		if err != nil {
			t.Fatalf("IssueCertificate: %v", err)
		}
		u.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key, Leaf: leaf}
		if rapid.IntRange(0, 4).Draw(t, "revoked") == 0 {
			cl.revokeUp(t, u)
		}
		return u
	}
	n, _ := rand.Int(rand.Reader, big.NewInt(1<<62))
	tmpl := &x509.Certificate{SerialNumber: n, DNSNames: u.names, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	// The common name is not a name of the server.
	tmpl.Subject.CommonName = rapid.SampledFrom(upNames).Draw(t, "cn")
	switch rapid.IntRange(0, 9).Draw(t, "use") {
	case 0:
		tmpl.ExtKeyUsage, u.use = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, "client"
	case 1:
		tmpl.ExtKeyUsage, u.use = append(tmpl.ExtKeyUsage, x509.ExtKeyUsageClientAuth), "both"
	}
	switch rapid.IntRange(0, 9).Draw(t, "time") {
	case 0:
		u.time = "expired"
		tmpl.NotBefore, tmpl.NotAfter = time.Now().Add(-2*time.Hour), time.Now().Add(-time.Minute)
	case 1:
		u.time = "future"
		tmpl.NotBefore, tmpl.NotAfter = time.Now().Add(10*time.Minute), time.Now().Add(time.Hour)
	}
	if kind == "ca1" && rapid.IntRange(0, 2).Draw(t, "ocsp") == 0 {
		u.status = rapid.SampledFrom([]string{"good", "good", "revoked", "unknown", "error"}).Draw(t, "status")
		tmpl.OCSPServer = []string{cl.ocsp.url}
		if st, ok := map[string]int{"good": ocsp.Good, "revoked": ocsp.Revoked, "unknown": ocsp.Unknown}[u.status]; ok {
			cl.ocsp.mu.Lock()
			cl.ocsp.stat[n.String()] = st
			cl.ocsp.mu.Unlock()
		}
	}
	ca := map[string]*vca{"ca1": cl.ca1, "ca2": cl.ca2, "other": cl.other, "inter": cl.inter, "interalone": cl.inter, "notca": cl.notCA}[kind]
	if kind == "self" {
		// It claims the name and key identifier of the real root.
		tmpl.Subject, tmpl.SubjectKeyId = cl.ca1.cert.Subject, cl.ca1.cert.SubjectKeyId
		tmpl.IsCA, tmpl.BasicConstraintsValid = true, true
		tmpl.KeyUsage = x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign
		if tmpl.NotBefore.IsZero() {
			tmpl.NotBefore, tmpl.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(time.Hour)
		}
		k := newKey()
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, k.Public(), k)
		if err != nil {
			kit.Infra("self: %v", err)
		}
		leaf, _ := x509.ParseCertificate(der)
		u.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k, Leaf: leaf}
		u.issuer = "itself"
		return u
	}
	u.cert = ca.issue(tmpl)
	switch kind {
	case "inter", "notca":
		u.cert.Certificate = append(u.cert.Certificate, ca.cert.Raw)
		u.issuer, u.chain = "ca1", kind == "inter"
	case "interalone":
		u.issuer, u.chain = "ca1", false
	}
	return u
}

func (cl *caLab) revokeUp(t *rapid.T, u *upIdent) {
	if err := cl.p.pkis["pki1"].RevokeCertificate(u.cert.Leaf.SerialNumber, 0); err != nil {
		t.Fatalf("RevokeCertificate: %v", err)
	}
	u.revoked = true
}

// upCase is one backend with its overrides. The first settings are its own.
type upCase struct {
	name string
	set  []*upSettings
}

func TestC40UpstreamIdentity(t *testing.T) {
	cl := theCALab()
	l := cl.vlab
	base := l.cfg(false)
	base.PKI = []*ConfigPKI{cl.pkiCfg}
	base.Backends = []*Backend{{ServerNames: []string{"pki.example.com"}, Mode: "LOCAL"}}
	if err := l.p.Reconfigure(base); err != nil {
		t.Fatal(err)
	}
	caFile := l.writeFiles(map[string]string{"ca2.pem": cl.ca2.pem}) + "/ca2.pem"
	kit.Check(t, "1-3 backends (TLS, HTTPS, and QUIC in the suite with HTTP/3) with 0-3 path overrides, each with its own upstream server, root CAs (inline PEM, PEM file, internal PKI, none), server name (ASCII, IDN, wrong, none), verification switched off or not, and protocol (HTTP/1.1, HTTP/2, HTTP/3); upstream servers with certificates of any kind (issuer, intermediate, names, validity, usage, OCSP status, revoked by the internal CA) that may ask for the proxy's certificate; then 2-10 requests to any of them, revocations and changes of configuration in between; whether a request reaches its server, how the server was named, and the certificate the proxy shows, are compared with a reference; non-trivial: the server must not be trusted, or settings of the backend and of the override used differ in what they trust", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		ids := map[int]*upIdent{}
		nup := rapid.IntRange(1, 4).Draw(t, "upstreams")
		for i := range nup {
			ids[i] = cl.genUpIdent(t)
		}
		rec := &vrec{l: l, respond: func(*vreq) *vresp { return &vresp{body: []byte("upstream")} }}
		rec.tlsFor = func(up int) *tls.Config {
			u := ids[up]
			if u == nil {
				return l.cm.TLSConfig()
			}
			return &tls.Config{Certificates: []tls.Certificate{u.cert}, ClientAuth: u.request, SessionTicketsDisabled: true}
		}
		for _, u := range l.ups {
			u.handle(rec.serve)
		}
		if serveH3Ups != nil {
			serveH3Ups(l, rec)
		}
		genSettings := func(mode string) *upSettings {
			x := &upSettings{mode: mode, up: rapid.IntRange(0, nup-1).Draw(t, "up")}
			u := ids[x.up]
			// Mostly the right ones.
			if rapid.IntRange(0, 2).Draw(t, "right") > 0 && slices.Contains([]string{"ca1", "ca2", "pki"}, u.issuer) {
				x.roots = []string{u.issuer}
			}
			for _, r := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"ca1", "ca2", "pki"}), 0, 2, rapid.ID).Draw(t, "roots") {
				if !slices.Contains(x.roots, r) {
					x.roots = append(x.roots, r)
				}
			}
			x.name = rapid.SampledFrom([]string{"up1.example.net", "up1.example.net", "up2.example.net", "bücher.example.net", "example.net", "a.up1.example.net", ""}).Draw(t, "name")
			if rapid.Bool().Draw(t, "rightname") {
				x.name = strings.Replace(strings.Replace(u.names[0], "*", "any", 1), "xn--bcher-kva", "bücher", 1)
			}
			x.skip = rapid.IntRange(0, 5).Draw(t, "skip") == 0
			if mode == "HTTPS" {
				x.proto = rapid.SampledFrom(append([]*string{ptr("http/1.1")}, upProtos...)).Draw(t, "proto")
			}
			return x
		}
		rootList := func(rs []string) (out []string) {
			for _, r := range rs {
				out = append(out, map[string]string{"ca1": cl.ca1.pem, "ca2": caFile, "pki": "pki1"}[r])
			}
			return
		}
		var cases []*upCase
		desc := ""
		clients := map[string]vclient{}
		closeAll := func() {
			for _, c := range clients {
				c.close()
			}
			clear(clients)
		}
		defer closeAll()
		configure := func() {
			closeAll()
			cases = nil
			cfg := l.cfg(false)
			cfg.PKI = []*ConfigPKI{cl.pkiCfg}
			cfg.Backends = []*Backend{{ServerNames: []string{"pki.example.com"}, Mode: "LOCAL"}}
			desc = ""
			modes := []string{"HTTPS", "HTTPS", "HTTPS", "TLS"}
			if labQUIC {
				modes = append(modes, "QUIC")
			}
			for i := range rapid.IntRange(1, 3).Draw(t, "backends") {
				c := &upCase{name: fmt.Sprintf("w%d.example.com", i)}
				x := genSettings(rapid.SampledFrom(modes).Draw(t, "mode"))
				c.set = []*upSettings{x}
				be := &Backend{ServerNames: []string{c.name}, Mode: x.mode, ForwardRateLimit: 100000, Addresses: []string{l.ups[x.up].addr}, ForwardRootCAs: rootList(x.roots), ForwardServerName: x.name, InsecureSkipVerify: x.skip, BackendProto: x.proto}
				if x.mode == "HTTPS" {
					for j := range rapid.IntRange(0, 3).Draw(t, "overrides") {
						o := genSettings(rapid.SampledFrom([]string{"HTTPS", "HTTPS", "HTTPS", "HTTP"}).Draw(t, "omode"))
						if o.mode == "HTTP" && (o.proto == nil && x.proto != nil || o.proto != nil && *o.proto != "http/1.1") {
							o.proto = ptr("http/1.1")
						}
						c.set = append(c.set, o)
						be.PathOverrides = append(be.PathOverrides, &PathOverride{Paths: []string{fmt.Sprintf("/o%d/", j+1)}, Mode: o.mode, Addresses: []string{l.ups[o.up].addr}, ForwardRootCAs: rootList(o.roots), ForwardServerName: o.name, InsecureSkipVerify: o.skip, BackendProto: o.proto})
					}
				}
				if x.mode == "QUIC" || x.mode == "TLS" {
					be.ALPNProtos = &[]string{"http/1.1"}
				}
				cfg.Backends = append(cfg.Backends, be)
				cases = append(cases, c)
				desc += fmt.Sprintf("%s%v ", c.name, c.set)
			}
			for i := range nup {
				desc += fmt.Sprintf("U%d%v ", i, ids[i])
			}
			if err := l.p.Reconfigure(cfg); err != nil {
				t.Fatalf("configuration refused: %v: %s", err, desc)
			}
		}
		configure()
		nontrivial, history := false, ""
		for range rapid.IntRange(2, 10).Draw(t, "steps") {
			switch rapid.IntRange(0, 9).Draw(t, "step") {
			case 0:
				configure()
				history += "reconfigure "
				continue
			case 1:
				i := rapid.IntRange(0, nup-1).Draw(t, "revoke")
				if u := ids[i]; u.issuer == "pki" && !u.revoked {
					cl.revokeUp(t, u)
					history += fmt.Sprintf("revoke U%d ", i)
					// The connections that exist are not affected. New ones are.
					configure()
				}
				continue
			}
			c := rapid.SampledFrom(cases).Draw(t, "backend")
			oi := rapid.IntRange(0, len(c.set)-1).Draw(t, "override")
			x := c.set[oi]
			u := ids[x.up]
			yes, no := x.trusts(u)
			if x.mode == "HTTPS" && x.proto == nil && c.set[0].proto != nil {
				// Without a protocol of its own, an override uses the backend's.
				x = &upSettings{x.mode, x.up, x.roots, x.name, x.skip, c.set[0].proto}
			}
			path := fmt.Sprintf("/x%d", l.serial.Add(1))
			if oi > 0 {
				path = fmt.Sprintf("/o%d%s", oi, path)
			}
			cproto := "http/1.1"
			if x.mode == "HTTPS" || x.mode == "HTTP" {
				cproto = rapid.SampledFrom(clientProtos).Draw(t, "clientproto")
				if needsTLS(x.proto) && x.mode == "HTTP" {
					continue
				}
				if x.mode == "HTTP" && x.proto != nil && *x.proto == "" && cproto == "h3" {
					continue
				}
			}
			what := fmt.Sprintf("%s https://%s%s after %q with %s", cproto, c.name, path, history, desc)
			history += fmt.Sprintf("%s/%d/%s ", c.name, oi, cproto)
			got := ""
			key := c.name + cproto
			if x.mode == "TLS" || x.mode == "QUIC" {
				if k := clients[key]; k != nil && rapid.Bool().Draw(t, "fresh") {
					k.close()
					delete(clients, key)
				}
			}
			var resp *cresp
			var err error
			for range 2 {
				k := clients[key]
				reused := k != nil
				if k == nil {
					if k, err = l.httpClient(clientTLS(c.name, cproto)); err != nil {
						t.Fatalf("connection refused: %v: %s", err, what)
					}
					clients[key] = k
				}
				resp, err = k.do(&creq{method: "GET", target: path, host: c.name})
				if err != nil || resp.closed {
					k.close()
					delete(clients, key)
				}
				if err != nil && reused && yes {
					// The connection was closed in the meantime.
					continue
				}
				break
			}
			switch {
			case err != nil && (x.mode == "HTTPS" || x.mode == "HTTP"):
				t.Fatalf("request failed: %v: %s", err, what)
			case err != nil:
				got = "closed"
			default:
				got = fmt.Sprint(resp.status)
			}
			var r *vreq
			for _, q := range rec.all() {
				if q.target == path {
					if r != nil {
						t.Fatalf("the request was sent twice: %s", what)
					}
					r = q
				}
			}
			switch {
			case r == nil && yes:
				t.Fatalf("request to a server that must be trusted got %s: %s", got, what)
			case r != nil && no:
				t.Fatalf("request reached a server that must not be trusted (%s): %s", got, what)
			case r != nil && got != "200":
				t.Fatalf("request reached the server and got %s: %s", got, what)
			case r == nil && got != "502" && got != "closed":
				t.Fatalf("request that did not reach the server got %s: %s", got, what)
			}
			if r != nil {
				if r.up != x.up || r.tls != (x.mode != "HTTP") {
					t.Fatalf("request reached U%d with TLS=%v: %s", r.up, r.tls, what)
				}
				if x.mode != "HTTP" && x.name != "" && r.sni != wireName(x.name) {
					t.Fatalf("the proxy asked for server name %q: %s", r.sni, what)
				}
				if x.mode != "HTTP" && u.request == tls.RequireAnyClientCert || len(r.peer) > 0 {
					s.Class("client certificate")
					if len(r.peer) == 0 {
						t.Fatalf("the proxy showed no certificate: %s", what)
					}
					if _, err := r.peer[0].Verify(x509.VerifyOptions{Roots: l.cm.RootCACertPool(), DNSName: c.name, KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}}); err != nil {
						t.Fatalf("the proxy showed a certificate that is not for %s: %v: %s", c.name, err, what)
					}
				}
				if len(r.peer) > 0 && u.request == tls.NoClientCert {
					t.Fatalf("unexpected certificate: %s", what)
				}
			}
			cls := x.mode
			if oi > 0 {
				cls += " override"
			}
			if x.proto != nil {
				cls += " " + *x.proto
			}
			s.Class(fmt.Sprintf("%s trusted=%v/%v", cls, yes, no))
			y0, _ := c.set[0].trusts(u)
			if no || y0 != yes {
				nontrivial = true
			}
		}
		if nontrivial {
			s.Case(kit.Hash(desc+history), func() string { return desc + history })
		} else {
			s.Case("", nil)
		}
	})
}
