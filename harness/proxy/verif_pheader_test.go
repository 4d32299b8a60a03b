package proxy

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/netip"
	"slices"
	"strings"
	"testing"
	"time"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// pheader is a decoded PROXY header.
type pheader struct {
	version  int
	src, dst netip.AddrPort
	tlv      map[byte]string
}

func (h *pheader) String() string {
	if h == nil {
		return "none"
	}
	return fmt.Sprintf("v%d %s > %s %q", h.version, h.src, h.dst, h.tlv)
}

var pheaderV2Sig = []byte("\r\n\r\n\x00\r\nQUIT\n")

// parsePHeader is a strict decoder of the PROXY protocol, for what the proxy
// should send: version 1 and 2 headers for TCP connections.
func parsePHeader(b []byte) (h *pheader, rest []byte, err error) {
	if bytes.HasPrefix(b, []byte("PROXY ")) {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 || i > 105 {
			return nil, nil, fmt.Errorf("no end of line")
		}
		f := strings.Split(string(b[:i]), " ")
		if len(f) != 6 || f[1] != "TCP4" && f[1] != "TCP6" {
			return nil, nil, fmt.Errorf("malformed v1 header %q", b[:i])
		}
		h := &pheader{version: 1}
		for j, p := range []*netip.AddrPort{&h.src, &h.dst} {
			a, err := netip.ParseAddr(f[2+j])
			if err != nil || a.Is4() != (f[1] == "TCP4") {
				return nil, nil, fmt.Errorf("malformed address in v1 header %q", b[:i])
			}
			var port uint16
			if n, err := fmt.Sscanf(f[4+j], "%d", &port); n != 1 || err != nil || fmt.Sprint(port) != f[4+j] {
				return nil, nil, fmt.Errorf("malformed port in v1 header %q", b[:i])
			}
			*p = netip.AddrPortFrom(a.Unmap(), port)
		}
		return h, b[i+2:], nil
	}
	if !bytes.HasPrefix(b, pheaderV2Sig) {
		return nil, b, nil
	}
	if len(b) < 16 {
		return nil, nil, fmt.Errorf("short v2 header")
	}
	n := int(binary.BigEndian.Uint16(b[14:]))
	if len(b) < 16+n {
		return nil, nil, fmt.Errorf("short v2 header")
	}
	body, rest := b[16:16+n], b[16+n:]
	h = &pheader{version: 2, tlv: map[byte]string{}}
	if b[12] != 0x21 {
		return nil, nil, fmt.Errorf("v2 command %x", b[12])
	}
	sz := map[byte]int{0x11: 4, 0x21: 16}[b[13]]
	if sz == 0 || len(body) < 2*sz+4 {
		return nil, nil, fmt.Errorf("v2 family %x with %d bytes", b[13], len(body))
	}
	a, _ := netip.AddrFromSlice(body[:sz])
	d, _ := netip.AddrFromSlice(body[sz : 2*sz])
	h.src = netip.AddrPortFrom(a.Unmap(), binary.BigEndian.Uint16(body[2*sz:]))
	h.dst = netip.AddrPortFrom(d.Unmap(), binary.BigEndian.Uint16(body[2*sz+2:]))
	for t := body[2*sz+4:]; len(t) > 0; {
		if len(t) < 3 || len(t) < 3+int(binary.BigEndian.Uint16(t[1:])) {
			return nil, nil, fmt.Errorf("malformed TLVs %x", t)
		}
		n := int(binary.BigEndian.Uint16(t[1:]))
		if _, ok := h.tlv[t[0]]; ok {
			return nil, nil, fmt.Errorf("repeated TLV %x", t[0])
		}
		h.tlv[t[0]] = string(t[3 : 3+n])
		t = t[3+n:]
	}
	return h, rest, nil
}

// endpoint is a client of the proxy.
type endpoint struct {
	raw      net.Conn
	src, dst netip.AddrPort // effective
	desc     string
	refused  bool
	proto    string // negotiated
	cl       vclient
}

// genEndpoint opens a connection, maybe with a PROXY header.
func (l *vlab) genEndpoint(t *rapid.T, accept []string) *endpoint {
	local := rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.2", "127.0.1.1", "127.77.0.1"}).Draw(t, "local")
	e := &endpoint{raw: l.dialFrom(local), desc: "from " + local}
	e.src = netip.MustParseAddrPort(e.raw.LocalAddr().String())
	e.dst = netip.MustParseAddrPort(e.raw.RemoteAddr().String())
	trusted := inNets(accept, e.src.Addr())
	kind := "none"
	if trusted {
		kind = rapid.SampledFrom([]string{"none", "v1", "v1", "v2", "v2", "mapped", "local", "unknown"}).Draw(t, "header")
	} else if rapid.IntRange(0, 9).Draw(t, "spoof") == 0 {
		kind = rapid.SampledFrom([]string{"v1", "v2", "local", "unknown"}).Draw(t, "header")
	}
	if kind == "none" {
		return e
	}
	port := func(label string) uint16 {
		return rapid.SampledFrom([]uint16{1234, 1235, 443, 1, 65535}).Draw(t, label)
	}
	var src, dst netip.AddrPort
	if kind != "mapped" && rapid.IntRange(0, 2).Draw(t, "v6") == 0 {
		src = netip.AddrPortFrom(netip.MustParseAddr(rapid.SampledFrom([]string{"2001:db8::1", "::1", "fd00::7"}).Draw(t, "src6")), port("srcport"))
		dst = netip.AddrPortFrom(netip.MustParseAddr(rapid.SampledFrom([]string{"2001:db8::2", "::1"}).Draw(t, "dst6")), port("dstport"))
	} else {
		src = netip.AddrPortFrom(netip.MustParseAddr(rapid.SampledFrom([]string{"10.0.0.1", "10.0.0.10", "192.168.7.7", "127.0.0.1"}).Draw(t, "src4")), port("srcport"))
		dst = netip.AddrPortFrom(netip.MustParseAddr(rapid.SampledFrom([]string{"10.0.0.2", "127.0.0.1"}).Draw(t, "dst4")), port("dstport"))
	}
	var hdr []byte
	switch kind {
	case "v1", "v2":
		hdr = proxyHeader(kind[1]-'0', src, dst)
	case "mapped":
		a, d := src.Addr().As16(), dst.Addr().As16()
		hdr = proxyHeaderV2(1, 0x21, slices.Concat(a[:], d[:], u16b(int(src.Port())), u16b(int(dst.Port()))))
	case "local":
		hdr = proxyHeaderV2(0, 0, nil)
	case "unknown":
		hdr = []byte("PROXY UNKNOWN\r\n")
	}
	e.desc += fmt.Sprintf(" with header %s %s > %s", kind, src, dst)
	e.raw.Write(hdr)
	if !trusted {
		e.refused = true
		return e
	}
	if kind != "local" && kind != "unknown" {
		e.src, e.dst = src, dst
	}
	return e
}

func checkPHeader(h *pheader, version string, e *endpoint, sni string, protos []string) error {
	if version == "" {
		if h != nil {
			return fmt.Errorf("unexpected PROXY header %s", h)
		}
		return nil
	}
	if h == nil {
		return fmt.Errorf("no PROXY header")
	}
	if fmt.Sprintf("v%d", h.version) != version {
		return fmt.Errorf("PROXY header %s instead of a %s one", h, version)
	}
	if h.src != e.src || h.dst != e.dst {
		return fmt.Errorf("PROXY header %s instead of %s > %s", h, e.src, e.dst)
	}
	if h.version == 1 {
		return nil
	}
	if h.tlv[2] != sni {
		return fmt.Errorf("PROXY header %s does not have the server name %q", h, sni)
	}
	if p := h.tlv[1]; !slices.Contains(protos, p) {
		return fmt.Errorf("PROXY header %s does not have the protocol %q", h, protos)
	}
	return nil
}

func TestC24ProxyHeaders(t *testing.T) {
	l := theLab()
	versions := []string{"", "v1", "v2"}
	kit.Check(t, "a TCP, TLS, passthrough, HTTP or HTTPS backend (over HTTP/1 or HTTP/2) and path overrides, each with PROXY headers of version 1, 2 or none, and networks whose PROXY headers are accepted; 2-5 client connections from several addresses, with accepted headers (v1, v2, IPv4, IPv6, mapped, LOCAL, UNKNOWN) for nearly equal endpoints, or headers from others; the requests of all the HTTP clients are interleaved; the header of each upstream connection is decoded with a strict reference decoder and compared with the endpoint of each request that it carries; non-trivial: the backend has a version, or a header comes from an untrusted address", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		cfg := l.cfg(false)
		cfg.AcceptProxyHeaderFrom = rapid.SampledFrom([][]string{nil, {"127.0.0.0/8"}, {"127.0.0.0/8"}, {"127.0.0.0/24"}, {"10.0.0.0/8", "127.0.0.2/32"}, {"::ffff:127.0.0.0/104"}}).Draw(t, "accept")
		accept := slices.Clone(cfg.AcceptProxyHeaderFrom)
		mode := rapid.SampledFrom([]string{"TCP", "TLS", "TLSPASSTHROUGH", "HTTP", "HTTP", "HTTPS", "HTTPS"}).Draw(t, "mode")
		version := rapid.SampledFrom(versions).Draw(t, "version")
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: mode, ForwardRateLimit: 100000, Addresses: []string{l.ups[0].addr}, ProxyProtocolVersion: version}
		isHTTP := strings.HasPrefix(mode, "HTTP")
		if mode != "TLSPASSTHROUGH" && mode != "TCP" {
			be.InsecureSkipVerify = true
		}
		what := fmt.Sprintf("%s %q", mode, version)
		type target struct {
			path, version string
		}
		targets := []target{{"/", version}}
		if isHTTP {
			be.BackendProto = rapid.SampledFrom([]*string{nil, ptr("h2"), ptr("")}).Draw(t, "backendproto")
			what += " " + protoName(be.BackendProto)
			for i := range rapid.IntRange(0, 2).Draw(t, "overrides") {
				v := rapid.SampledFrom(versions).Draw(t, "overrideversion")
				tg := target{fmt.Sprintf("/o%d/", i), v}
				targets = append(targets, tg)
				be.PathOverrides = append(be.PathOverrides, &PathOverride{Paths: []string{tg.path}, Addresses: []string{l.ups[rapid.IntRange(0, 1).Draw(t, "up")].addr}, Mode: mode, BackendProto: be.BackendProto, InsecureSkipVerify: true, ProxyProtocolVersion: v})
				what += fmt.Sprintf(" %s:%q", tg.path, v)
			}
		} else {
			be.ALPNProtos = rapid.SampledFrom([]*[]string{nil, {}, {"imap", "http/1.1"}}).Draw(t, "alpn")
		}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v: %s", err, what)
		}
		var rec *vrec
		if isHTTP {
			rec = l.httpUps(func(*vreq) *vresp { return &vresp{body: []byte("ok")} })
		} else {
			l.ups[0].handle(func(c *vconn) { c.drain(c); c.Close() })
		}
		var es []*endpoint
		defer func() {
			for _, e := range es {
				e.raw.Close()
			}
		}()
		key := ""
		for range rapid.IntRange(2, 5).Draw(t, "conns") {
			e := l.genEndpoint(t, accept)
			es = append(es, e)
			what += "; " + e.desc
			tc := clientTLS(rapid.SampledFrom([]string{"www.example.com", "WWW.example.COM"}).Draw(t, "sni"))
			if p := rapid.SampledFrom([]string{"", "h2", "http/1.1", "http/1.1"}).Draw(t, "proto"); p != "" {
				tc.NextProtos = []string{p}
			}
			if e.refused {
				key = what
				n := l.total()
				c := tls.Client(e.raw, tc)
				if err := c.Handshake(); err == nil {
					t.Fatalf("a header from an untrusted address was accepted: %s", what)
				}
				e.raw.Close()
				quiet()
				if l.total() > n {
					t.Fatalf("a header from an untrusted address reached the upstream server: %s", what)
				}
				continue
			}
			if version != "" {
				key = what
			}
			if isHTTP {
				cl, err := httpClientOn(e.raw, tc)
				if err != nil {
					t.Fatalf("connection refused: %v: %s", err, what)
				}
				e.cl = cl
				if len(tc.NextProtos) > 0 {
					e.proto = tc.NextProtos[0]
				}
				continue
			}
			// A stream.
			msg := []byte(fmt.Sprintf("message %d", len(es)))
			if rapid.IntRange(0, 3).Draw(t, "fake") == 0 {
				msg = []byte("PROXY TCP4 1.2.3.4 5.6.7.8 1 2\r\nmessage")
			}
			var sent []byte
			protos := []string{""}
			if mode == "TLSPASSTHROUGH" {
				// A real ClientHello and what follows it.
				w := &recorder{Conn: e.raw}
				tc.NextProtos = append(tc.NextProtos, "imap")
				protos = append(protos, tc.NextProtos...)
				c := tls.Client(w, tc)
				done := make(chan struct{})
				go func() { defer close(done); c.Handshake() }()
				if !eventually(func() bool { return len(l.ups[0].seen()) > 0 }) {
					t.Fatalf("no connection to the server: %s", what)
				}
				e.raw.SetReadDeadline(time.Now())
				<-done
				sent = w.sent
			} else {
				if len(tc.NextProtos) > 0 && tc.NextProtos[0] == "h2" && be.ALPNProtos != nil && len(*be.ALPNProtos) > 0 {
					tc.NextProtos = []string{"imap"}
				}
				c := tls.Client(e.raw, tc)
				if err := c.Handshake(); err != nil {
					t.Fatalf("handshake: %v: %s", err, what)
				}
				protos = []string{c.ConnectionState().NegotiatedProtocol}
				c.Write(msg)
				c.CloseWrite()
				sent = msg
			}
			e.raw.(*net.TCPConn).CloseWrite()
			if !eventually(func() bool { return len(l.ups[0].seen()) > 0 }) {
				t.Fatalf("no connection to the server: %s", what)
			}
			ups := l.ups[0].seen()
			if len(ups) != 1 {
				t.Fatalf("%d upstream connections: %s", len(ups), what)
			}
			if mode == "TLS" {
				// The TLS handshake with the server starts, and
				// never ends.
				if !eventually(func() bool {
					b := ups[0].bytes()
					_, rest, err := parsePHeader(b)
					return err == nil && len(rest) > 5
				}) {
					t.Fatalf("no TLS handshake after %q: %s", ups[0].bytes(), what)
				}
				_, rest, _ := parsePHeader(ups[0].bytes())
				if rest[0] != 0x16 {
					t.Fatalf("%q instead of a TLS handshake: %s", rest, what)
				}
			} else {
				select {
				case <-ups[0].done:
				case <-time.After(patience):
					t.Fatalf("no end: %s", what)
				}
			}
			h, rest, err := parsePHeader(ups[0].bytes())
			if version == "" {
				h, rest, err = nil, ups[0].bytes(), nil
			}
			if err != nil {
				t.Fatalf("%v: %s", err, what)
			}
			if err := checkPHeader(h, version, e, "www.example.com", protos); err != nil {
				t.Fatalf("%v: %s", err, what)
			}
			if mode != "TLS" && !bytes.Equal(rest, sent) {
				t.Fatalf("after the header, %q instead of %q: %s", rest, sent, what)
			}
			ups[0].Close()
			e.raw.Close()
			l.ups[0].mu.Lock()
			l.ups[0].conns = nil
			l.ups[0].mu.Unlock()
		}
		if isHTTP {
			var live []*endpoint
			for _, e := range es {
				if e.cl != nil {
					live = append(live, e)
				}
			}
			carried := map[*vconn]netip.AddrPort{}
			for i := range rapid.IntRange(1, 8).Draw(t, "requests") {
				if len(live) == 0 {
					break
				}
				e := rapid.SampledFrom(live).Draw(t, "client")
				tg := rapid.SampledFrom(targets).Draw(t, "target")
				rec.forget()
				req := &creq{method: rapid.SampledFrom([]string{"GET", "POST"}).Draw(t, "method"), target: fmt.Sprintf("%sx%d", tg.path, i), host: "www.example.com"}
				if req.method == "POST" {
					req.hasBody, req.body = true, []byte("body")
				}
				what += fmt.Sprintf("; %s %s by %s", req.method, req.target, e.src)
				resp, err := e.cl.do(req)
				if err != nil || resp.status != 200 {
					t.Fatalf("request failed: %v %v: %s", err, resp, what)
				}
				got := rec.all()
				if len(got) != 1 {
					t.Fatalf("%d requests: %s", len(got), what)
				}
				h, rest, err := parsePHeader(got[0].pheader)
				if err != nil || len(rest) > 0 {
					t.Fatalf("header %q: %v: %s", got[0].pheader, err, what)
				}
				protos := []string{e.proto}
				if e.proto == "" {
					protos = []string{"", "http/1.1"}
				}
				if err := checkPHeader(h, tg.version, e, "www.example.com", protos); err != nil {
					t.Fatalf("%v: %s", err, what)
				}
				if h != nil {
					if p, ok := carried[got[0].conn]; ok && p != e.src {
						t.Fatalf("one upstream connection carries requests of %s and %s: %s", p, e.src, what)
					}
					carried[got[0].conn] = e.src
				}
			}
			for _, e := range live {
				e.cl.close()
			}
		}
		s.Class(mode + " " + version)
		s.Case(key, func() string { return what })
	})
}

// recorder keeps what is written to a connection.
type recorder struct {
	net.Conn
	sent []byte
}

func (c *recorder) Write(b []byte) (int, error) {
	c.sent = append(c.sent, b...)
	return c.Conn.Write(b)
}

var _ io.Writer = (*recorder)(nil)
