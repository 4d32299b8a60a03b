//go:build !noquic

package proxy

import (
	"bufio"
	"context"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"net"
	"net/netip"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/quic-go/quic-go"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// c34Greeting says which backend answers on c, given what it should be.
func c34Greeting(c quic.Connection, mode, host string) (string, error) {
	proto := c.ConnectionState().TLS.NegotiatedProtocol
	if (mode == "LOCAL" || mode == "HTTP") && proto == "h3" {
		h, err := h3On(c)
		if err != nil {
			return "", err
		}
		resp, err := h.do(&creq{method: "GET", target: "/id", host: host})
		if err != nil {
			return "", err
		}
		return string(resp.body), nil
	}
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	st, err := c.OpenStreamSync(ctx)
	if err != nil {
		return "", err
	}
	st.SetDeadline(time.Now().Add(patience))
	defer st.Close()
	if mode == "LOCAL" || mode == "HTTP" {
		fmt.Fprintf(st, "GET /id HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", host)
		b, err := io.ReadAll(st)
		if _, body, ok := strings.Cut(string(b), "\r\n\r\n"); ok && strings.HasPrefix(string(b), "HTTP/1.1 200 ") {
			return body, nil
		}
		return string(b), err
	}
	// The other end only knows of the stream when something is sent.
	if _, err := st.Write([]byte("x")); err != nil {
		return "", err
	}
	got, err := bufio.NewReader(st).ReadString('\n')
	if got != "" {
		err = nil
	}
	return got, err
}

// greetQUIC makes the QUIC upstream servers say who they are on each stream.
func (l *vlab) greetQUIC() {
	l.quicUps(func(up int, c quic.Connection) {
		for {
			st, err := c.AcceptStream(context.Background())
			if err != nil {
				return
			}
			go func() {
				fmt.Fprintf(st, "U%d\n", up)
				st.Close()
				io.Copy(io.Discard, st)
			}()
		}
	})
}

func TestC34Access(t *testing.T) {
	cl := theCALab()
	l := cl.vlab
	base := l.cfg(true)
	base.PKI = []*ConfigPKI{cl.pkiCfg}
	base.Backends = []*Backend{{ServerNames: []string{"pki.example.com"}, Mode: "LOCAL"}}
	if err := l.p.Reconfigure(base); err != nil {
		t.Fatal(err)
	}
	kit.Check(t, "configurations of 1-5 backends (QUIC, TCP, TLS, passthrough, HTTP, LOCAL) with names in any case and IDN form, overlapping names told apart by ALPN lists, address lists and client authentication with ACLs, followed by 1-4 QUIC connections from several addresses with any name (known, unknown, none, other case), protocol list and kind of client certificate; the backend that answers over QUIC, or the refusal, is compared with a reference of the selection and of the access rules; non-trivial: the name has several backends or an access rule, or is in another spelling, unknown or absent", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		l.greetQUIC()
		cfg := l.cfg(true)
		cfg.PKI = []*ConfigPKI{cl.pkiCfg}
		type backend struct {
			c01Backend
			be    *Backend
			roots []string
		}
		c := cl.genClient(t)
		var bes []backend
		used := map[string]bool{}
		usedKey := map[string]bool{}
		for i := range rapid.IntRange(1, 5).Draw(t, "backends") {
			b := backend{}
			b.up, b.mode = i, rapid.SampledFrom([]string{"QUIC", "QUIC", "TCP", "TLS", "TLSPASSTHROUGH", "LOCAL", "HTTP"}).Draw(t, "mode")
			be := &Backend{Mode: b.mode, ForwardRateLimit: 100000, InsecureSkipVerify: b.mode != "TLSPASSTHROUGH"}
			b.be = be
			alpn := rapid.SampledFrom([]string{"default", "none", "some", "some", "some"}).Draw(t, "alpn")
			switch {
			case alpn == "default":
				b.protos = []string{"h3", "h2", "http/1.1"}
				if b.mode == "TCP" || b.mode == "TLS" || b.mode == "TLSPASSTHROUGH" {
					b.protos = b.protos[1:]
				}
			case alpn == "none":
				be.ALPNProtos = &[]string{}
			default:
				b.protos = rapid.SliceOfNDistinct(rapid.SampledFrom(vProtos), 1, 3, rapid.ID).Draw(t, "protos")
				be.ALPNProtos = ptr(slices.Clone(b.protos))
			}
			for range rapid.IntRange(1, 3).Draw(t, "names") {
				nm := rapid.SampledFrom(vNames).Draw(t, "name")
				if used[nm.wire] && len(b.protos) == 0 || slices.Contains(b.names, nm.wire) {
					continue
				}
				if slices.ContainsFunc(b.protos, func(p string) bool { return usedKey[nm.wire+" "+p] }) {
					continue
				}
				b.names = append(b.names, nm.wire)
				be.ServerNames = append(be.ServerNames, nm.cfg)
				used[nm.wire] = true
				for _, p := range b.protos {
					usedKey[nm.wire+" "+p] = true
				}
			}
			if len(b.names) == 0 {
				continue
			}
			switch b.mode {
			case "LOCAL", "HTTP":
				be.DocumentRoot = cl.roots[i]
			case "TLS", "TLSPASSTHROUGH":
				be.Addresses = []string{l.ups[i].addr}
				l.upTLS(l.ups[i], b.protos)
			default:
				be.Addresses = []string{l.ups[i].addr}
			}
			if rapid.Bool().Draw(t, "lists") {
				be.AllowIPs, be.DenyIPs = genNets(t, "allow"), genNets(t, "deny")
			}
			if b.mode != "TLSPASSTHROUGH" && rapid.Bool().Draw(t, "clientauth") {
				be.ClientAuth = &ClientAuth{}
				b.roots = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"ca1", "ca1", "ca2", "pki"}), 1, 2, rapid.ID).Draw(t, "roots")
				for _, r := range b.roots {
					be.ClientAuth.RootCAs = append(be.ClientAuth.RootCAs, map[string]string{"ca1": cl.ca1.pem, "ca2": cl.ca2.pem, "pki": "pki1"}[r])
				}
				be.ClientAuth.ACL, _ = genACL(t, c)
			}
			bes = append(bes, b)
			cfg.Backends = append(cfg.Backends, be)
		}
		if len(bes) == 0 {
			t.Skip("no backend")
		}
		desc := ""
		for _, b := range bes {
			desc += fmt.Sprintf("{%d %s %q %q", b.up, b.mode, b.names, b.protos)
			if b.be.AllowIPs != nil {
				desc += fmt.Sprintf(" allow=%q", *b.be.AllowIPs)
			}
			if b.be.DenyIPs != nil {
				desc += fmt.Sprintf(" deny=%q", *b.be.DenyIPs)
			}
			if b.be.ClientAuth != nil {
				desc += fmt.Sprintf(" roots=%v acl=%s", b.roots, fmtACL(b.be.ClientAuth.ACL))
			}
			desc += "} "
		}
		if rapid.IntRange(0, 3).Draw(t, "default") == 0 {
			// It is only for connections without a name.
			d := rapid.SampledFrom(vNames).Draw(t, "defname")
			cfg.DefaultServerName = d.cfg
			desc += "default=" + d.wire
		}
		cfg.Backends = append(cfg.Backends, &Backend{ServerNames: []string{"pki.example.com"}, Mode: "LOCAL"})
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v: %s", err, desc)
		}
		for range rapid.IntRange(1, 4).Draw(t, "conns") {
			var sni, want string
			switch rapid.SampledFrom([]string{"known", "known", "known", "known", "known", "none", "unknown"}).Draw(t, "sni") {
			case "known":
				want = rapid.SampledFrom(bes[rapid.IntRange(0, len(bes)-1).Draw(t, "backend")].names).Draw(t, "name")
				sni = randCase(t, want)
			case "unknown":
				sni = rapid.SampledFrom([]string{"example.com", "c.example.com", "x.a.example.com", "a.example.co", "a.example.comm", "aa.example.com", "xn--bcher-kvb.example.com"}).Draw(t, "unknown")
				want = sni
			}
			protos := rapid.SliceOfNDistinct(rapid.SampledFrom(vProtos), 1, 4, rapid.ID).Draw(t, "clientprotos")
			ip := netip.MustParseAddr(rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.2", "127.0.1.1", "127.0.1.255", "127.0.0.255"}).Draw(t, "ip"))
			withCert := c.cert != nil && rapid.IntRange(0, 3).Draw(t, "withcert") > 0
			// The reference: which backends could take the connection?
			var can []*backend
			multi := 0
			for i := range bes {
				b := &bes[i]
				if !slices.Contains(b.names, want) {
					continue
				}
				multi++
				if b.mode == "TLSPASSTHROUGH" {
					continue
				}
				for _, p := range protos {
					if slices.Contains(b.protos, p) && !(p == "h3" && (b.mode == "TCP" || b.mode == "TLS")) {
						can = append(can, b)
						break
					}
				}
			}
			admits := func(b *backend) (ok, maybe bool) {
				if b.be.DenyIPs != nil && inNets(*b.be.DenyIPs, ip) {
					return false, false
				}
				if b.be.AllowIPs != nil && !inNets(*b.be.AllowIPs, ip) {
					return false, false
				}
				if b.be.ClientAuth == nil {
					return true, false
				}
				if !withCert || !c.chain || !slices.Contains(b.roots, c.issuer) || c.time != "now" || c.use == "server" || c.status != "no OCSP" && c.status != "good" {
					return false, false
				}
				if acl := b.be.ClientAuth.ACL; acl != nil && !slices.ContainsFunc(certIDList(c.leaf), func(id string) bool { return slices.Contains(*acl, id) }) {
					return false, false
				}
				return true, c.use == "none"
			}
			before, qbefore := l.total(), quicTotal()
			tc := clientTLS(sni, protos...)
			if withCert {
				tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return c.cert, nil }
			}
			what := fmt.Sprintf("sni=%q protos=%q from %s with %v %s in %s", sni, protos, ip, withCert, c.desc, desc)
			qc, err := l.dialQUIC(net.IP(ip.AsSlice()), tc, &quic.Config{EnableDatagrams: rapid.Bool().Draw(t, "datagrams")})
			var sel *backend
			neg, got := "", ""
			if err == nil {
				// Who agreed to speak this protocol?
				neg = qc.ConnectionState().TLS.NegotiatedProtocol
				for _, b := range can {
					if slices.Contains(b.protos, neg) && slices.Contains(protos, neg) {
						sel = b
					}
				}
				if sel == nil {
					t.Fatalf("negotiated %q, which no backend of this name supports: %s", neg, what)
				}
				got, err = c34Greeting(qc, sel.mode, want)
			}
			s.Class(fmt.Sprintf("candidates=%d", len(can)))
			if sel != nil {
				ok, maybe := admits(sel)
				id := fmt.Sprintf("U%d\n", sel.up)
				http := sel.mode == "LOCAL" || sel.mode == "HTTP"
				s.Class(fmt.Sprintf("%s:%s admitted=%v", sel.mode, neg, ok))
				switch {
				case http && neg != "h3" && neg != "http/1.1":
					// Not HTTP/1.
					if got == id && !ok {
						t.Fatalf("client that must be refused was served: %s", what)
					}
				case ok && got != id && !maybe:
					t.Fatalf("client that meets all conditions got %q (%v) over %s, not %q: %s", got, err, neg, id, what)
				case got != id && got != "":
					t.Fatalf("connection answered by %q, not %q: %s", got, id, what)
				case !ok && got != "":
					t.Fatalf("client that must be refused was served %q over %s: %s", got, neg, what)
				case !ok:
					if ending(qc) == nil {
						t.Fatalf("connection of a refused client over %s stays open: %s", neg, what)
					}
				}
				if !ok && !maybe && (l.total() != before || quicTotal() != qbefore) {
					t.Fatalf("connection of a refused client (%v) reached a backend (%d TCP and %d QUIC connections): %s", err, l.total()-before, quicTotal()-qbefore, what)
				}
			} else {
				// Refused during the handshake. This is never right
				// when all the backends that it could mean admit it.
				refused := len(can) == 0
				for _, b := range can {
					if ok, maybe := admits(b); !ok || maybe {
						refused = true
					}
				}
				// A protocol that is configured but can't be used
				// may have selected another backend.
				for i := range bes {
					if b := &bes[i]; slices.Contains(b.names, want) && (b.mode == "TCP" || b.mode == "TLS") && slices.Contains(b.protos, "h3") && slices.Contains(protos, "h3") {
						refused = true
					}
				}
				if !refused {
					t.Fatalf("client that meets all conditions was refused: %v: %s", err, what)
				}
				if l.total() != before || quicTotal() != qbefore {
					t.Fatalf("connection that was refused (%v) reached a backend: %s", err, what)
				}
			}
			if n := int64(l.total()-before) + quicTotal() - qbefore; n > 1 {
				t.Fatalf("%d connections to upstream servers for one client: %s", n, what)
			}
			if qc != nil {
				qc.CloseWithError(0, "")
			}
			key := ""
			if multi > 1 || sni != want || sni == "" || len(can) == 0 || can[0].be.ClientAuth != nil || can[0].be.AllowIPs != nil || can[0].be.DenyIPs != nil {
				key = what
			}
			s.Case(key, func() string { return fmt.Sprintf("%s -> %q %s (%v)", what, got, neg, err) })
		}
	})
}

// holdConn can hold back what is sent.
type holdConn struct {
	c *net.UDPConn

	mu   sync.Mutex
	free bool
	hold bool // from the first packet that comes back
	held []func()
}

func (h *holdConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := h.c.ReadFrom(b)
	h.mu.Lock()
	defer h.mu.Unlock()
	if err == nil && !h.free {
		h.hold = true
	}
	return n, a, err
}

func (h *holdConn) WriteTo(b []byte, a net.Addr) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.hold {
		b := slices.Clone(b)
		h.held = append(h.held, func() { h.c.WriteTo(b, a) })
		return len(b), nil
	}
	return h.c.WriteTo(b, a)
}

func (h *holdConn) release() {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.hold, h.free = false, true
	for _, f := range h.held {
		f()
	}
	h.held = nil
}

func (h *holdConn) Close() error                       { return h.c.Close() }
func (h *holdConn) LocalAddr() net.Addr                { return h.c.LocalAddr() }
func (h *holdConn) SetDeadline(t time.Time) error      { return h.c.SetDeadline(t) }
func (h *holdConn) SetReadDeadline(t time.Time) error  { return h.c.SetReadDeadline(t) }
func (h *holdConn) SetWriteDeadline(t time.Time) error { return h.c.SetWriteDeadline(t) }

func TestC34Change(t *testing.T) {
	cl := theCALab()
	l := cl.vlab
	mk := func(ca *vca, cn string) *tls.Certificate {
		c := ca.issue(&x509.Certificate{Subject: pkix.Name{CommonName: cn}, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}})
		return &c
	}
	certs := map[string]*tls.Certificate{"": nil, "ca1 bob": mk(cl.ca1, "bob"), "ca1 eve": mk(cl.ca1, "eve"), "ca2 bob": mk(cl.ca2, "bob")}
	type backend struct {
		up     int
		mode   string
		protos []string
		root   string // CA of the clients
		acl    []string
		deny   string
	}
	fmtBE := func(l []backend) (out string) {
		for _, b := range l {
			out += fmt.Sprintf("{%d %s %q root=%q acl=%q deny=%q}", b.up, b.mode, b.protos, b.root, b.acl, b.deny)
		}
		return "[" + out + "]"
	}
	kit.Check(t, "pairs of configurations of one name (1-2 backends told apart by ALPN: QUIC, TCP, LOCAL; address lists; client certificates with roots and ACL) and 1-4 QUIC connections, of clients with several addresses and certificates, that are established, or in the middle of their handshake (the packets that complete it are held back), when the configuration changes from one to the other; afterwards, the connections that the new configuration doesn't admit must be closed without data from or to a backend, those that both admit and that weren't established are served by the new one, and the established ones that may stay carry on; non-trivial: one of the connections is refused by only one of the configurations, or is in the middle of the handshake", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		l.greetQUIC()
		gen := func(base int) (out []backend) {
			split := rapid.SampledFrom([][][]string{{{"h3", "x"}}, {{"h3", "x"}}, {{"h3"}, {"x"}}, {{"x"}}, {{"h3"}}}).Draw(t, "protos")
			for i, p := range split {
				b := backend{up: base + i, protos: p, mode: rapid.SampledFrom([]string{"QUIC", "QUIC", "TCP", "LOCAL"}).Draw(t, "mode")}
				b.root = rapid.SampledFrom([]string{"", "", "ca1", "ca1", "ca2"}).Draw(t, "root")
				if b.root != "" && rapid.Bool().Draw(t, "acl") {
					b.acl = []string{"CN=" + rapid.SampledFrom([]string{"bob", "eve"}).Draw(t, "who")}
				}
				b.deny = rapid.SampledFrom([]string{"", "", "", "127.0.0.2/32"}).Draw(t, "deny")
				out = append(out, b)
			}
			return
		}
		mkcfg := func(bes []backend) *Config {
			cfg := l.cfg(true)
			for _, b := range bes {
				be := &Backend{ServerNames: []string{"www.example.com"}, Mode: b.mode, ForwardRateLimit: 100000, InsecureSkipVerify: true, ALPNProtos: ptr(slices.Clone(b.protos))}
				if b.mode == "LOCAL" {
					be.DocumentRoot = cl.roots[b.up]
				} else {
					be.Addresses = []string{l.ups[b.up].addr}
				}
				if b.root != "" {
					be.ClientAuth = &ClientAuth{RootCAs: []string{map[string]string{"ca1": cl.ca1.pem, "ca2": cl.ca2.pem}[b.root]}}
					if b.acl != nil {
						be.ClientAuth.ACL = &b.acl
					}
				}
				if b.deny != "" {
					be.DenyIPs = &[]string{b.deny}
				}
				cfg.Backends = append(cfg.Backends, be)
			}
			return cfg
		}
		A, B := gen(0), gen(4)
		if err := l.p.Reconfigure(mkcfg(A)); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		// pick is the backend for a protocol.
		pick := func(bes []backend, proto string) *backend {
			for i := range bes {
				if slices.Contains(bes[i].protos, proto) && !(proto == "h3" && bes[i].mode == "TCP") {
					return &bes[i]
				}
			}
			return nil
		}
		admits := func(b *backend, ip, cert string) bool {
			if b == nil || b.deny != "" && ip == "127.0.0.2" {
				return false
			}
			if b.root == "" {
				return true
			}
			ca, cn, _ := strings.Cut(cert, " ")
			return ca == b.root && (b.acl == nil || slices.Contains(b.acl, "CN="+cn))
		}
		type conn struct {
			ip, cert, proto string
			held            bool
			c               quic.Connection
			err             error
			h               *holdConn
			tr              *quic.Transport
			done            chan struct{}
		}
		desc := fmt.Sprintf("%s then %s:", fmtBE(A), fmtBE(B))
		var conns []*conn
		defer func() {
			for _, c := range conns {
				if c.h != nil {
					c.h.release()
					<-c.done
				}
				if c.c != nil {
					c.c.CloseWithError(0, "")
				}
				if c.h != nil {
					c.tr.Close()
					c.h.Close()
				}
			}
		}()
		for range rapid.IntRange(1, 4).Draw(t, "conns") {
			c := &conn{ip: rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.2"}).Draw(t, "ip"), cert: rapid.SampledFrom([]string{"", "ca1 bob", "ca1 eve", "ca2 bob"}).Draw(t, "cert"),
				proto: rapid.SampledFrom([]string{"h3", "x"}).Draw(t, "proto"), held: rapid.Bool().Draw(t, "held")}
			be := pick(A, c.proto)
			if be == nil {
				continue
			}
			tc := clientTLS("www.example.com", c.proto)
			if cert := certs[c.cert]; cert != nil {
				tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return cert, nil }
			}
			desc += fmt.Sprintf(" {%s %q %s held=%v}", c.ip, c.cert, c.proto, c.held)
			if !c.held {
				if !admits(be, c.ip, c.cert) {
					continue
				}
				if c.c, c.err = l.dialQUIC(net.ParseIP(c.ip), tc, nil); c.err != nil {
					t.Fatalf("connection refused: %v: %s", c.err, desc)
				}
				if got, err := c34Greeting(c.c, be.mode, "www.example.com"); got != fmt.Sprintf("U%d\n", be.up) && !(be.mode == "LOCAL" && c.proto == "x") {
					t.Fatalf("connection got %q (%v): %s", got, err, desc)
				}
				conns = append(conns, c)
				continue
			}
			pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(c.ip)})
			if err != nil {
				kit.Infra("udp: %v", err)
			}
			c.h = &holdConn{c: pc}
			c.tr = &quic.Transport{Conn: c.h}
			c.done = make(chan struct{})
			flight := make(chan struct{})
			var once sync.Once
			tc.VerifyConnection = func(tls.ConnectionState) error {
				once.Do(func() { close(flight) })
				return nil
			}
			go func() {
				defer close(c.done)
				ctx, cancel := context.WithTimeout(context.Background(), patience)
				defer cancel()
				c.c, c.err = c.tr.Dial(ctx, l.quicAddr(), tc, nil)
			}()
			conns = append(conns, c)
			// The proxy has made its part of the handshake.
			select {
			case <-flight:
			case <-c.done:
			}
		}
		time.Sleep(time.Millisecond)
		before, qbefore := l.total(), quicTotal()
		if err := l.p.Reconfigure(mkcfg(B)); err != nil {
			t.Fatalf("configuration refused: %v: %s", err, desc)
		}
		served := 0
		interesting := false
		for i, c := range conns {
			a, b := pick(A, c.proto), pick(B, c.proto)
			inA := admits(a, c.ip, c.cert)
			shown := c.cert
			if a.root == "" {
				shown = ""
			}
			inB := admits(b, c.ip, shown)
			what := fmt.Sprintf("connection %d of %s", i, desc)
			if c.held {
				interesting = true
				c.h.release()
				<-c.done
				got := ""
				err := c.err
				if c.err == nil {
					mode := a.mode
					if b != nil {
						mode = b.mode
					}
					got, err = c34Greeting(c.c, mode, "www.example.com")
					if inB && mode == "LOCAL" && c.proto == "x" {
						continue
					}
				}
				s.Class(fmt.Sprintf("held, in A: %v, in B: %v", inA, inB))
				want := ""
				if b != nil {
					want = fmt.Sprintf("U%d\n", b.up)
				}
				switch {
				case !inB && got != "":
					t.Fatalf("connection whose handshake completed after the change got %q, which the new configuration refuses: %s", got, what)
				case !inB && c.err == nil && ending(c.c) == nil:
					t.Fatalf("connection that the new configuration refuses stays open: %s", what)
				case inA && inB && got != want:
					t.Fatalf("connection that both configurations admit got %q (%v), not %q: %s", got, err, want, what)
				case got != "" && got != want:
					t.Fatalf("connection got %q, not %q: %s", got, want, what)
				}
				if got != "" && b.mode != "LOCAL" {
					served++
				}
				continue
			}
			interesting = interesting || !inB
			s.Class(fmt.Sprintf("established, in B: %v, same mode: %v", inB, b != nil && b.mode == a.mode))
			switch {
			case b == nil:
				// As with TCP, the first backend of the name has the
				// connections that no backend claims.
				served++
			case !inB || b.mode != a.mode:
				if ending(c.c) == nil {
					t.Fatalf("established connection that the new configuration refuses stays open: %s", what)
				}
			case a.mode != "LOCAL":
				if got, err := c34Greeting(c.c, a.mode, "www.example.com"); got != fmt.Sprintf("U%d\n", a.up) && got != fmt.Sprintf("U%d\n", b.up) {
					t.Fatalf("established connection that the new configuration admits got %q (%v): %s", got, err, what)
				}
				served++
			}
		}
		if n := l.total() - before + int(quicTotal()-qbefore); n > served {
			t.Fatalf("%d connections to upstream servers for %d that are admitted: %s", n, served, desc)
		}
		key := ""
		if interesting {
			key = desc
		}
		s.Case(key, func() string { return desc })
	})
}
