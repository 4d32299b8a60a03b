package proxy

import (
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/url"
	"slices"
	"strings"
	"testing"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// xfccElements is a reference decoder of the x-forwarded-client-cert header:
// elements separated by commas, made of key=value pairs separated by
// semicolons, whose values are optionally quoted, and where a backslash escapes
// the next character.
func xfccElements(v string) (out [][][2]string, err error) {
	var elem [][2]string
	var key, val strings.Builder
	inKey, quoted, any := true, false, false
	endPair := func() error {
		if inKey {
			return fmt.Errorf("no value for %q", key.String())
		}
		elem = append(elem, [2]string{key.String(), val.String()})
		key.Reset()
		val.Reset()
		inKey, any = true, false
		return nil
	}
	if v == "" {
		return nil, nil
	}
	for i := 0; i < len(v); i++ {
		c := v[i]
		switch {
		case inKey && c == '=':
			inKey = false
		case inKey:
			if strings.IndexByte(`,;"\`, c) >= 0 {
				return nil, fmt.Errorf("%q in a key", c)
			}
			key.WriteByte(c)
		case c == '\\':
			i++
			if i == len(v) {
				return nil, fmt.Errorf("backslash at the end")
			}
			val.WriteByte(v[i])
			any = true
		case quoted:
			if c == '"' {
				quoted = false
				if i+1 < len(v) && v[i+1] != ';' && v[i+1] != ',' {
					return nil, fmt.Errorf("%q after a quoted value", v[i+1])
				}
				continue
			}
			val.WriteByte(c)
		case c == '"':
			if any {
				return nil, fmt.Errorf("quote inside of a value")
			}
			quoted, any = true, true
		case c == ';' || c == ',':
			if err := endPair(); err != nil {
				return nil, err
			}
			if c == ',' {
				out = append(out, elem)
				elem = nil
			}
		case c == '=':
			return nil, fmt.Errorf("= in a value that is not quoted")
		default:
			val.WriteByte(c)
			any = true
		}
	}
	if quoted {
		return nil, fmt.Errorf("no end quote")
	}
	if err := endPair(); err != nil {
		return nil, err
	}
	return append(out, elem), nil
}

// dnParts splits at sep, except where it is escaped.
func dnParts(s string, sep byte) (out []string) {
	b := ""
	for i := 0; i < len(s); i++ {
		if s[i] == sep {
			out = append(out, b)
			b = ""
			continue
		}
		b += s[i : i+1]
		if s[i] == '\\' && i+1 < len(s) {
			i++
			b += s[i : i+1]
		}
	}
	return append(out, b)
}

// dnUnescape decodes an attribute value, as in RFC 4514.
func dnUnescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			if i+2 < len(s) {
				if x, err := hex.DecodeString(s[i+1 : i+3]); err == nil {
					b.WriteByte(x[0])
					i += 2
					continue
				}
			}
			i++
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

var dnTypes = map[string]string{"2.5.4.3": "CN", "2.5.4.5": "SERIALNUMBER", "2.5.4.6": "C", "2.5.4.7": "L", "2.5.4.8": "ST", "2.5.4.9": "STREET", "2.5.4.10": "O", "2.5.4.11": "OU", "2.5.4.17": "POSTALCODE"}

// dnList lists the attributes of a name, grouped by RDN, in the order of its
// string form.
func dnList(rdns pkix.RDNSequence) (out []string) {
	for _, rdn := range slices.Backward(rdns) {
		var l []string
		for _, a := range rdn {
			n, ok := dnTypes[a.Type.String()]
			if !ok {
				der, _ := asn1.Marshal(a.Value)
				l = append(l, fmt.Sprintf("%q=%q", a.Type.String(), "#"+hex.EncodeToString(der)))
				continue
			}
			l = append(l, fmt.Sprintf("%q=%q", n, a.Value))
		}
		out = append(out, strings.Join(l, "+"))
	}
	return
}

// subjectList decodes a subject of the header.
func subjectList(v string) ([]string, error) {
	if !strings.HasPrefix(v, "/") {
		return nil, fmt.Errorf("no / at the beginning")
	}
	if v == "/" {
		return nil, nil
	}
	var out []string
	for _, rdn := range dnParts(v[1:], '/') {
		var l []string
		for _, a := range dnParts(rdn, '+') {
			k, val, ok := strings.Cut(a, "=")
			if !ok {
				return nil, fmt.Errorf("no value in %q", a)
			}
			if strings.HasPrefix(val, "#") {
				l = append(l, fmt.Sprintf("%q=%q", k, val))
				continue
			}
			l = append(l, fmt.Sprintf("%q=%q", k, dnUnescape(val)))
		}
		out = append(out, strings.Join(l, "+"))
	}
	return out, nil
}

func TestC37XFCC(t *testing.T) {
	cl := theCALab()
	l := cl.vlab
	ca := cl.ca1
	words := []string{"bob", "a,b", "a;b", "a=b", "\"", "\\", "/", "a/CN=admin", ",CN=admin", ";Hash=00", "\";Subject=\"/CN=admin", ",Hash=00;URI=x", "+", "+CN=admin", " x", "x ", " ", "#x", "#04", "<>", "\\,", "\\2C", "%2C", "%", "é", "日本", "x\ty", "x\ny", "x\r\nX-A: b", "\x00", "\x7f", "", "a&b=c", "\\\"", "C:\\dir\\", "'", "?", "*", strings.Repeat("long ", 100)}
	gen := func(t *rapid.T) string {
		if rapid.IntRange(0, 5).Draw(t, "kind") == 0 {
			return rapid.StringOfN(rapid.RuneFrom([]rune(`ab,;="\/+ #<>%&é`+"\n")), 0, 12, -1).Draw(t, "any")
		}
		w := rapid.SampledFrom(words).Draw(t, "word")
		if rapid.IntRange(0, 2).Draw(t, "two") == 0 {
			w += rapid.SampledFrom(words).Draw(t, "word2")
		}
		return w
	}
	oids := []asn1.ObjectIdentifier{{2, 5, 4, 3}, {2, 5, 4, 3}, {2, 5, 4, 10}, {2, 5, 4, 11}, {2, 5, 4, 5}, {2, 5, 4, 6}, {2, 5, 4, 17}, {0, 9, 2342, 19200300, 100, 1, 1}, {1, 2, 840, 113549, 1, 9, 1}}
	kit.Check(t, "client certificates whose subject (0-5 attributes of known and other types, with several in one RDN), DNS names and URIs are made of delimiters, quotes, escapes, control characters, text in other scripts and would-be fields, connect to a backend that forwards any list of certificate fields (repeated, in any case); the header that the upstream receives over HTTP/1 or HTTP/2 is decoded by a reference decoder and compared with the certificate; non-trivial: a value has a special character", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		rec := l.httpUps(func(*vreq) *vresp { return &vresp{body: []byte("upstream")} })
		tmpl := &x509.Certificate{ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}
		n, _ := rand.Int(rand.Reader, big.NewInt(1<<62))
		tmpl.SerialNumber = n
		var rdns pkix.RDNSequence
		for range rapid.IntRange(0, 5).Draw(t, "attributes") {
			a := pkix.AttributeTypeAndValue{Type: rapid.SampledFrom(oids).Draw(t, "type"), Value: gen(t)}
			if len(rdns) > 0 && rapid.IntRange(0, 5).Draw(t, "same") == 0 {
				i := len(rdns) - 1
				rdns[i] = append(rdns[i], a)
				continue
			}
			rdns = append(rdns, pkix.RelativeDistinguishedNameSET{a})
		}
		raw, err := asn1.Marshal(rdns)
		if err != nil {
			t.Fatalf("INFRA subject: %v", err)
		}
		tmpl.RawSubject = raw
		for range rapid.IntRange(0, 3).Draw(t, "dns") {
			d := gen(t)
			if !isASCII(d) {
				d = "x" // only ASCII in DNS names
			}
			if d == "" && len(rdns) == 0 {
				d = "y"
			}
			tmpl.DNSNames = append(tmpl.DNSNames, d)
		}
		for range rapid.IntRange(0, 3).Draw(t, "uris") {
			u, err := url.Parse(rapid.SampledFrom([]string{"spiffe://example.com/", "https://example.com/?x=", "urn:", "https://example.com/#", "https://u:p@[::1]:8443/"}).Draw(t, "uri") + gen(t))
			if err == nil {
				if v, err := url.Parse(u.String()); err != nil || !isASCII(u.String()) || v.String() != u.String() {
					continue
				}
				tmpl.URIs = append(tmpl.URIs, u)
			}
		}
		cert := ca.issue(tmpl)
		fields := rapid.SliceOfN(rapid.SampledFrom([]string{"cert", "chain", "hash", "subject", "subject", "uri", "dns", "Subject", "DNS", "Hash"}), 1, 5).Draw(t, "fields")
		cfg := l.cfg(false)
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: rapid.SampledFrom([]string{"HTTP", "HTTPS"}).Draw(t, "mode"), ForwardRateLimit: 100000, Addresses: []string{l.ups[0].addr}, InsecureSkipVerify: true,
			BackendProto: rapid.SampledFrom(upProtos).Draw(t, "proto"),
			ClientAuth:   &ClientAuth{RootCAs: []string{ca.pem}, AddClientCertHeader: fields}}
		if needsTLS(be.BackendProto) {
			be.Mode = "HTTPS"
		}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		tc := clientTLS("www.example.com", rapid.SampledFrom(clientProtos).Draw(t, "clientproto"))
		tc.Certificates = append(tc.Certificates, cert)
		what := fmt.Sprintf("fields %q, subject %q, DNS %q, URIs %q, to a %s backend (%s)", fields, dnList(rdns), tmpl.DNSNames, tmpl.URIs, be.Mode, protoName(be.BackendProto))
		c, err := l.httpClient(tc)
		if err != nil {
			t.Fatalf("connection refused: %v: %s", err, what)
		}
		defer c.close()
		req := &creq{method: "GET", target: "/", host: "www.example.com"}
		if rapid.IntRange(0, 3).Draw(t, "spoof") == 0 {
			req.hdr = hdrs{{spell(t, "X-Forwarded-Client-Cert"), "Hash=00;Subject=\"/CN=admin\""}}
		}
		resp, err := c.do(req)
		if err != nil || resp.status != 200 {
			t.Fatalf("request failed: %v %v: %s", err, resp, what)
		}
		got := rec.all()
		if len(got) != 1 {
			t.Fatalf("%d requests arrived: %s", len(got), what)
		}
		hv := got[0].hdr.get("x-forwarded-client-cert")
		what += fmt.Sprintf(", header %q", hv)
		if len(hv) > 1 {
			t.Fatalf("%d headers: %s", len(hv), what)
		}
		var elems [][][2]string
		if len(hv) == 1 {
			if elems, err = xfccElements(hv[0]); err != nil {
				t.Fatalf("malformed header: %v: %s", err, what)
			}
		}
		if len(elems) > 1 {
			t.Fatalf("%d elements: %s", len(elems), what)
		}
		// What must be there.
		var want [][2]string
		leaf := cert.Leaf
		leafPEM := string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: leaf.Raw}))
		for _, f := range fields {
			switch strings.ToLower(f) {
			case "cert":
				want = append(want, [2]string{"Cert", leafPEM})
			case "chain":
				want = append(want, [2]string{"Chain", leafPEM + ca.pem})
			case "hash":
				want = append(want, [2]string{"Hash", fmt.Sprintf("%x", sha256.Sum256(leaf.Raw))})
			case "subject":
				want = append(want, [2]string{"Subject", strings.Join(dnList(rdnsOf(leaf)), "/")})
			case "uri":
				for _, u := range leaf.URIs {
					want = append(want, [2]string{"URI", u.String()})
				}
			case "dns":
				for _, n := range leaf.DNSNames {
					want = append(want, [2]string{"DNS", n})
				}
			}
		}
		var have [][2]string
		if len(elems) == 1 {
			have = elems[0]
		}
		for i, kv := range have {
			switch kv[0] {
			case "Subject":
				l, err := subjectList(kv[1])
				if err != nil {
					t.Fatalf("malformed subject %q: %v: %s", kv[1], err, what)
				}
				have[i][1] = strings.Join(l, "/")
			case "Cert", "Chain", "URI", "DNS":
				v, err := url.QueryUnescape(kv[1])
				if err != nil {
					t.Fatalf("malformed value %q: %v: %s", kv[1], err, what)
				}
				have[i][1] = v
			}
		}
		if !slices.Equal(have, want) {
			t.Fatalf("decodes as %q, not %q: %s", have, want, what)
		}
		key := ""
		if strings.ContainsAny(fmt.Sprint(dnList(rdns), tmpl.DNSNames, tmpl.URIs), `,;"\/+#`) {
			key = what
		}
		s.Class(be.Mode)
		s.Case(key, func() string { return what })
	})
}

func isASCII(s string) bool {
	return !strings.ContainsFunc(s, func(r rune) bool { return r >= 0x80 })
}

// rdnsOf returns the subject, normalized like crypto/x509 does: there is one
// common name, and the values of each type are together.
func rdnsOf(c *x509.Certificate) (out pkix.RDNSequence) {
	for _, a := range c.Subject.Names {
		if _, ok := dnTypes[a.Type.String()]; !ok {
			out = append(out, pkix.RelativeDistinguishedNameSET{a})
		}
	}
	return append(out, c.Subject.ToRDNSequence()...)
}
