package proxy

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"slices"
	"strings"
	"testing"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// Names as configured, and what they are on the wire.
var vNames = []struct{ cfg, wire string }{
	{"a.example.com", "a.example.com"},
	{"b.example.com", "b.example.com"},
	{"B.Example.COM", "b.example.com"},
	{"sub.a.example.com", "sub.a.example.com"},
	{"bücher.example.com", "xn--bcher-kva.example.com"},
	{"Bücher.example.com", "xn--bcher-kva.example.com"},
	{"xn--bcher-kva.example.com", "xn--bcher-kva.example.com"},
	{"localhost", "localhost"},
}

var vProtos = []string{"h2", "http/1.1", "imap", "x", "h3", "acme-tls/1"}

func randCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' && rapid.Bool().Draw(t, "upper") {
				b[i] -= 32
			}
		}
		return string(b)
	default:
		return s
	}
}

type c01Backend struct {
	names  []string // as on the wire
	protos []string
	mode   string
	up     int
}

// upTLS makes an upstream server that terminates TLS itself.
func (l *vlab) upTLS(u *vup, protos []string) {
	u.handle(func(c *vconn) {
		tc := l.cm.TLSConfig()
		get := tc.GetCertificate
		tc.GetCertificate = func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
			if h.ServerName == "" {
				h.ServerName = "none.example.com"
			}
			return get(h)
		}
		tc.NextProtos = protos
		s := tls.Server(c.Conn, tc)
		defer s.Close()
		fmt.Fprintf(s, "U%d\n", c.up.id)
		c.drain(s)
	})
}

func TestC01Routing(t *testing.T) {
	l := theLab()
	// A document root for each backend tells which one serves.
	var roots []string
	for i := range numUps {
		roots = append(roots, l.writeFiles(map[string]string{"id": fmt.Sprintf("U%d\n", i)}))
	}
	kit.Check(t, "configurations of 1-6 backends (TCP, TLS, passthrough, HTTP, LOCAL) with names in any case and IDN form, overlapping names told apart by ALPN lists, a default name, followed by 1-5 TLS connections with any name (known, unknown, none, other case) and protocol list; the backend that answers and the negotiated protocol are compared with a reference selection; non-trivial: the name has several backends, or is in another spelling, unknown or absent", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		cfg := l.cfg(false)
		var bes []c01Backend
		used := map[string]bool{}    // name
		usedKey := map[string]bool{} // name + proto
		n := rapid.IntRange(1, 6).Draw(t, "backends")
		for i := range n {
			b := c01Backend{up: i, mode: rapid.SampledFrom([]string{"TCP", "", "plaintext", "TLS", "TLSPASSTHROUGH", "TlsPassthrough", "LOCAL", "HTTP"}).Draw(t, "mode")}
			be := &Backend{Mode: b.mode, ForwardRateLimit: 100000, InsecureSkipVerify: true}
			b.mode = strings.ToUpper(b.mode)
			alpn := rapid.SampledFrom([]string{"default", "none", "some", "some", "some"}).Draw(t, "alpn")
			switch alpn {
			case "default":
				b.protos = []string{"h2", "http/1.1"}
			case "none":
				be.ALPNProtos = &[]string{}
			default:
				b.protos = rapid.SliceOfNDistinct(rapid.SampledFrom(vProtos), 1, 3, rapid.ID).Draw(t, "protos")
				be.ALPNProtos = ptr(slices.Clone(b.protos))
			}
			for range rapid.IntRange(1, 3).Draw(t, "names") {
				nm := rapid.SampledFrom(vNames).Draw(t, "name")
				if used[nm.wire] && len(b.protos) == 0 || slices.Contains(b.names, nm.wire) {
					continue
				}
				if slices.ContainsFunc(b.protos, func(p string) bool { return usedKey[nm.wire+" "+p] }) {
					continue
				}
				b.names = append(b.names, nm.wire)
				be.ServerNames = append(be.ServerNames, nm.cfg)
				used[nm.wire] = true
				for _, p := range b.protos {
					usedKey[nm.wire+" "+p] = true
				}
			}
			if len(b.names) == 0 {
				continue
			}
			switch b.mode {
			case "LOCAL", "HTTP":
				be.DocumentRoot = roots[i]
			case "TLS", "TLSPASSTHROUGH":
				be.Addresses = []string{l.ups[i].addr}
				l.upTLS(l.ups[i], b.protos)
			default:
				be.Addresses = []string{l.ups[i].addr}
			}
			bes = append(bes, b)
			cfg.Backends = append(cfg.Backends, be)
		}
		defName := ""
		if rapid.Bool().Draw(t, "default") {
			d := rapid.SampledFrom(vNames).Draw(t, "defname")
			cfg.DefaultServerName, defName = d.cfg, d.wire
		}
		if len(bes) == 0 {
			t.Skip("no backend")
		}
		desc := ""
		for _, b := range bes {
			desc += fmt.Sprintf("{%d %s %q %q} ", b.up, b.mode, b.names, b.protos)
		}
		desc += "default=" + defName
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v: %s", err, desc)
		}
		for range rapid.IntRange(1, 5).Draw(t, "conns") {
			var sni, want string
			switch rapid.SampledFrom([]string{"known", "known", "known", "known", "none", "unknown"}).Draw(t, "sni") {
			case "known":
				want = rapid.SampledFrom(vNames).Draw(t, "name").wire
				sni = randCase(t, want)
			case "none":
				want = defName
			case "unknown":
				sni = rapid.SampledFrom([]string{"example.com", "c.example.com", "x.a.example.com", "a.example.co", "a.example.comm", "aa.example.com", "xn--bcher-kvb.example.com"}).Draw(t, "unknown")
				want = sni
			}
			protos := rapid.SliceOfNDistinct(rapid.SampledFrom(vProtos), 0, 4, rapid.ID).Draw(t, "clientprotos")
			// The reference.
			var sel *c01Backend
			multi := 0
			for i := range bes {
				if slices.Contains(bes[i].names, want) {
					multi++
				}
			}
		sel:
			for _, p := range protos {
				for i := range bes {
					if slices.Contains(bes[i].names, want) && slices.Contains(bes[i].protos, p) {
						sel = &bes[i]
						break sel
					}
				}
			}
			if sel == nil {
				for i := range bes {
					if slices.Contains(bes[i].names, want) {
						sel = &bes[i]
						break
					}
				}
			}
			acme := sel != nil && sel.mode != "TLSPASSTHROUGH" && len(protos) == 1 && protos[0] == "acme-tls/1" && sni != ""
			before := l.total()
			raw := l.dial()
			c := tls.Client(raw, clientTLS(sni, protos...))
			err := c.Handshake()
			got := ""
			if err == nil {
				if sel != nil && (sel.mode == "LOCAL" || sel.mode == "HTTP") && !acme {
					got = c01Get(c, want)
				} else {
					got, err = bufio.NewReader(c).ReadString('\n')
					if got != "" {
						err = nil
					}
				}
			}
			neg := c.ConnectionState().NegotiatedProtocol
			c.Close()
			what := fmt.Sprintf("sni=%q protos=%q in %s", sni, protos, desc)
			overlap := false
			if sel != nil {
				for _, p := range protos {
					if slices.Contains(sel.protos, p) && (p != "h3" || sel.mode == "TLSPASSTHROUGH") {
						overlap = true
					}
				}
			}
			cls := ""
			switch {
			case sel == nil:
				cls = "unknown"
				if err == nil || got != "" {
					t.Fatalf("connection for an unknown name was served (%q): %s", got, what)
				}
				if !isAlert(err, "unrecognized name") {
					t.Fatalf("connection for an unknown name got %v: %s", err, what)
				}
				quiet()
				if l.total() != before {
					t.Fatalf("connection for an unknown name reached a backend: %s", what)
				}
			case acme:
				cls = "acme"
				if got != "" {
					t.Fatalf("ACME challenge served by a backend (%q): %s", got, what)
				}
			default:
				cls = sel.mode
				id := fmt.Sprintf("U%d\n", sel.up)
				if (sel.mode == "LOCAL" || sel.mode == "HTTP") && !slices.Contains([]string{"", "h2", "http/1.1"}, neg) && got == "" {
					// Not HTTP.
					break
				}
				// Without a common protocol, the handshake may be refused.
				if got != id && (overlap || len(protos) == 0 || len(sel.protos) == 0 || got != "") {
					t.Fatalf("connection answered by %q (%v), not %q: %s", got, err, id, what)
				}
				if neg != "" && !(slices.Contains(protos, neg) && slices.Contains(sel.protos, neg)) {
					t.Fatalf("negotiated %q: %s", neg, what)
				}
				if overlap && neg == "" {
					t.Fatalf("no protocol negotiated: %s", what)
				}
			}
			// Nobody else was contacted.
			after := l.total()
			allowed := 0
			if sel != nil && !acme && sel.mode != "LOCAL" && sel.mode != "HTTP" {
				allowed = 1
			}
			if after-before > allowed {
				t.Fatalf("%d connections to upstream servers for one client: %s", after-before, what)
			}
			s.Class(fmt.Sprintf("%s multi=%v served=%v", cls, multi > 1, got != ""))
			key := ""
			if multi > 1 || sni != want || sel == nil {
				key = what
			}
			s.Case(key, func() string { return what + " -> " + strings.TrimSpace(got) + " " + neg })
		}
	})
}

// c01Get gets /id over an established connection.
func c01Get(c *tls.Conn, host string) string {
	if c.ConnectionState().NegotiatedProtocol == "h2" {
		resp, err := h2Get(c, "https://"+host+"/id")
		if err != nil {
			return ""
		}
		return resp
	}
	fmt.Fprintf(c, "GET /id HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", host)
	b, _ := io.ReadAll(c)
	if _, body, ok := strings.Cut(string(b), "\r\n\r\n"); ok && strings.HasPrefix(string(b), "HTTP/1.1 200 ") {
		return body
	}
	return string(b)
}
