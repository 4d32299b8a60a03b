package proxy

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"net"
	"net/netip"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/pires/go-proxyproto"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// dialFrom opens a TCP connection to the proxy from the given local address.
func (l *vlab) dialFrom(ip string) net.Conn {
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(ip)}}
	for i := 0; ; i++ {
		c, err := d.Dial("tcp", l.addr)
		if err == nil {
			c.SetDeadline(time.Now().Add(patience))
			return c
		}
		if i > 20 {
			kit.Infra("dial from %s: %v", ip, err)
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// firstWrite prepends bytes to the first write.
type firstWrite struct {
	net.Conn
	prefix []byte
}

func (c *firstWrite) Write(b []byte) (int, error) {
	if len(c.prefix) == 0 {
		return c.Conn.Write(b)
	}
	n := len(c.prefix)
	buf := append(c.prefix, b...)
	c.prefix = nil
	m, err := c.Conn.Write(buf)
	return max(0, m-n), err
}

var (
	ip4s = []string{"127.0.0.1", "127.0.0.2", "127.0.1.1", "127.0.1.255", "10.0.0.1", "10.0.0.255", "10.0.1.0", "192.168.7.7", "8.8.8.8", "0.0.0.1", "255.255.255.255"}
	ip6s = []string{"::1", "2001:db8::1", "2001:db8:0:1::2", "fe80::1", "fd00::7", "ffff:ffff::"}
)

// genNets makes a list of networks, often around an interesting address.
func genNets(t *rapid.T, label string) *[]string {
	if rapid.IntRange(0, 2).Draw(t, label) == 0 {
		return nil
	}
	list := []string{}
	for range rapid.IntRange(0, 3).Draw(t, label+"n") {
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0, 1, 2:
			a := netip.MustParseAddr(rapid.SampledFrom(ip4s).Draw(t, "net4"))
			bits := rapid.SampledFrom([]int{0, 8, 9, 16, 23, 24, 25, 30, 31, 32}).Draw(t, "bits")
			list = append(list, fmt.Sprintf("%s/%d", a, bits))
		case 3:
			a := netip.MustParseAddr(rapid.SampledFrom(ip6s[1:]).Draw(t, "net6"))
			bits := rapid.SampledFrom([]int{8, 16, 32, 64, 63, 127, 128}).Draw(t, "bits")
			list = append(list, fmt.Sprintf("%s/%d", a, bits))
		case 4:
			a := netip.MustParseAddr(rapid.SampledFrom(ip4s).Draw(t, "net4"))
			bits := rapid.SampledFrom([]int{96, 104, 112, 120, 121, 127, 128}).Draw(t, "bits")
			list = append(list, fmt.Sprintf("::ffff:%s/%d", a, bits))
		}
	}
	return &list
}

// inNets is the reference: is the address in one of the networks?
func inNets(list []string, addr netip.Addr) bool {
	addr = addr.Unmap()
	for _, s := range list {
		p := netip.MustParsePrefix(s)
		a, bits := p.Addr(), p.Bits()
		if a.Is4In6() {
			a, bits = a.Unmap(), bits-96
		}
		if netip.PrefixFrom(a, bits).Contains(addr) {
			return true
		}
	}
	return false
}

// genAddr draws an address, mostly one near the networks in use.
func genAddr(t *rapid.T, lists ...*[]string) netip.Addr {
	var near []string
	for _, l := range lists {
		if l != nil {
			near = append(near, *l...)
		}
	}
	switch k := rapid.IntRange(0, 5).Draw(t, "addrkind"); {
	case k == 0:
		return netip.MustParseAddr(rapid.SampledFrom(ip6s).Draw(t, "addr6"))
	case k <= 2 || len(near) == 0:
		return netip.MustParseAddr(rapid.SampledFrom(ip4s).Draw(t, "addr4"))
	default:
		p := netip.MustParsePrefix(rapid.SampledFrom(near).Draw(t, "near")).Masked()
		a := p.Addr()
		switch rapid.IntRange(0, 3).Draw(t, "where") {
		case 0:
			if b := a.Prev(); b.IsValid() {
				a = b
			}
		case 1, 2:
			// The last one, and the one after it.
			b := a.AsSlice()
			for i := p.Bits(); i < len(b)*8; i++ {
				b[i/8] |= 1 << (7 - i%8)
			}
			a, _ = netip.AddrFromSlice(b)
			if rapid.Bool().Draw(t, "after") {
				if b := a.Next(); b.IsValid() {
					a = b
				}
			}
		}
		return a
	}
}

// proxyHeader formats a PROXY header.
func proxyHeader(version byte, src, dst netip.AddrPort) []byte {
	h := proxyproto.HeaderProxyFromAddrs(version, net.TCPAddrFromAddrPort(src), net.TCPAddrFromAddrPort(dst))
	var b bytes.Buffer
	if _, err := h.WriteTo(&b); err != nil {
		kit.Infra("proxy header: %v", err)
	}
	return b.Bytes()
}

// proxyHeaderV2 builds a version 2 header by hand.
func proxyHeaderV2(cmd, fam byte, addrs []byte) []byte {
	b := append([]byte("\r\n\r\n\x00\r\nQUIT\n"), 0x20|cmd, fam)
	b = append(b, u16b(len(addrs))...)
	return append(b, addrs...)
}

func u16b(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

// source is where a connection comes from, and what it says about it.
type source struct {
	local  string
	header []byte
	desc   string
	addr   netip.Addr // effective address
	odd    bool       // no IP address follows from it: refused or not
	bad    bool       // not a TLS connection, from where it comes
}

func genSource(t *rapid.T, accept []string, lists ...*[]string) source {
	s := source{local: rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.2", "127.0.1.1", "127.0.1.255", "127.0.5.5", "127.77.0.1"}).Draw(t, "local")}
	s.addr = netip.MustParseAddr(s.local)
	trusted := inNets(accept, s.addr)
	s.desc = "from " + s.local
	kind := "none"
	if trusted {
		kind = rapid.SampledFrom([]string{"none", "v1", "v1", "v2", "v2", "v2mapped", "v2local", "v1unknown", "v2unspec", "v2udp", "v2unix"}).Draw(t, "header")
	} else if rapid.IntRange(0, 5).Draw(t, "spoof") == 0 {
		kind = rapid.SampledFrom([]string{"v1", "v2"}).Draw(t, "header")
	}
	if kind == "none" {
		return s
	}
	claim := genAddr(t, lists...)
	src := netip.AddrPortFrom(claim, 1234)
	dst := netip.AddrPortFrom(netip.MustParseAddr("127.0.0.1"), 443)
	if claim.Is6() && !claim.Is4In6() {
		dst = netip.AddrPortFrom(netip.MustParseAddr("::1"), 443)
	}
	s.desc += fmt.Sprintf(" %s header %s", kind, claim)
	switch kind {
	case "v1":
		s.header = []byte(fmt.Sprintf("PROXY TCP4 %s %s 1234 443\r\n", claim.Unmap(), dst.Addr()))
		if claim.Is6() && !claim.Is4In6() {
			s.header = []byte(fmt.Sprintf("PROXY TCP6 %s %s 1234 443\r\n", claim, dst.Addr()))
		}
		s.addr = claim
	case "v2":
		s.header = proxyHeader(2, netip.AddrPortFrom(claim.Unmap(), src.Port()), dst)
		s.addr = claim
	case "v2mapped":
		a, d := claim.As16(), netip.MustParseAddr("::1").As16()
		s.header = proxyHeaderV2(1, 0x21, slices.Concat(a[:], d[:], u16b(1234), u16b(443)))
		s.addr = claim
	case "v2local":
		a, d := claim.As16(), netip.MustParseAddr("::1").As16()
		s.header = proxyHeaderV2(0, 0x21, slices.Concat(a[:], d[:], u16b(1234), u16b(443)))
	case "v1unknown":
		s.header = []byte("PROXY UNKNOWN\r\n")
	case "v2unspec":
		s.header = proxyHeaderV2(1, 0x00, nil)
		s.odd = true
	case "v2udp":
		a, d := claim.As16(), netip.MustParseAddr("::1").As16()
		s.header = proxyHeaderV2(1, 0x22, slices.Concat(a[:], d[:], u16b(1234), u16b(443)))
		s.addr = claim
	case "v2unix":
		s.header = proxyHeaderV2(1, 0x31, make([]byte, 216))
		s.odd = true
	}
	if !trusted {
		s.bad = true
	}
	return s
}

func TestC03IPLists(t *testing.T) {
	l := theLab()
	var roots []string
	for i := range numUps {
		roots = append(roots, l.writeFiles(map[string]string{"id": fmt.Sprintf("U%d\n", i)}))
	}
	kit.Check(t, "1-3 backends of every mode (TCP, TLS, passthrough, HTTP, LOCAL), each with random allow and deny lists (absent, empty, IPv4, IPv6, mapped IPv4 networks of many sizes), and a random list of networks whose PROXY headers are accepted; 2-6 connections from several local addresses, with and without PROXY headers (v1, v2, LOCAL, UNKNOWN, mapped IPv4, UDP, UNIX) that claim addresses at and around the borders of the networks, trusted or not; non-trivial: the backend has a list", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		cfg := l.cfg(false)
		if p := genNets(t, "accept"); p != nil {
			cfg.AcceptProxyHeaderFrom = *p
		}
		if rapid.Bool().Draw(t, "acceptlo") {
			cfg.AcceptProxyHeaderFrom = append(cfg.AcceptProxyHeaderFrom, rapid.SampledFrom([]string{"127.0.0.1/32", "127.0.0.0/8", "127.0.1.0/24", "127.0.0.0/30", "::ffff:127.0.0.0/104"}).Draw(t, "acceptlonet"))
		}
		type backend struct {
			mode        string
			allow, deny *[]string
		}
		var bes []backend
		for i := range rapid.IntRange(1, 3).Draw(t, "backends") {
			b := backend{mode: rapid.SampledFrom([]string{"TCP", "TLS", "TLSPASSTHROUGH", "HTTP", "LOCAL", "PROXYHTTP"}).Draw(t, "mode"), allow: genNets(t, "allow"), deny: genNets(t, "deny")}
			be := &Backend{ServerNames: []string{fmt.Sprintf("b%d.example.com", i)}, Mode: b.mode, AllowIPs: b.allow, DenyIPs: b.deny, ForwardRateLimit: 100000, InsecureSkipVerify: true}
			switch b.mode {
			case "LOCAL", "HTTP":
				be.DocumentRoot = roots[i]
			case "PROXYHTTP":
				be.Mode = "HTTP"
				be.Addresses = []string{l.ups[i].addr}
				l.ups[i].handle(func(c *vconn) {
					r := bufio.NewReader(c)
					for {
						line, err := r.ReadString('\n')
						if err != nil || strings.TrimSpace(line) == "" {
							break
						}
					}
					id := fmt.Sprintf("U%d\n", c.up.id)
					fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", len(id), id)
					c.Close()
				})
			case "TLS", "TLSPASSTHROUGH":
				be.Addresses = []string{l.ups[i].addr}
				l.upTLS(l.ups[i], nil)
			default:
				be.Addresses = []string{l.ups[i].addr}
			}
			bes = append(bes, b)
			cfg.Backends = append(cfg.Backends, be)
		}
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		for range rapid.IntRange(2, 6).Draw(t, "conns") {
			i := rapid.IntRange(0, len(bes)-1).Draw(t, "to")
			b := bes[i]
			src := genSource(t, cfg.AcceptProxyHeaderFrom, b.allow, b.deny)
			want := true
			if b.allow != nil && !inNets(*b.allow, src.addr) {
				want = false
			}
			if b.deny != nil && inNets(*b.deny, src.addr) {
				want = false
			}
			if src.bad {
				want = false
			}
			before := l.total()
			c := tls.Client(&firstWrite{l.dialFrom(src.local), src.header}, clientTLS(fmt.Sprintf("b%d.example.com", i)))
			err := c.Handshake()
			got := ""
			if err == nil {
				if b.mode == "LOCAL" || b.mode == "HTTP" || b.mode == "PROXYHTTP" {
					got = c01Get(c, fmt.Sprintf("b%d.example.com", i))
				} else {
					got, err = bufio.NewReader(c).ReadString('\n')
				}
			}
			c.Close()
			what := fmt.Sprintf("%s to %s allow=%s deny=%s accept=%q", src.desc, b.mode, fmtACL(b.allow), fmtACL(b.deny), cfg.AcceptProxyHeaderFrom)
			switch {
			case src.odd:
				// No address: only what has no list can be served.
				if got != "" && (b.allow != nil || b.deny != nil) {
					t.Fatalf("client without address was served %q: %s", got, what)
				}
			case want && got != fmt.Sprintf("U%d\n", i):
				t.Fatalf("client that is allowed got %q (%v): %s", got, err, what)
			case !want && (got != "" || err == nil):
				t.Fatalf("client that is not allowed got %q (%v): %s", got, err, what)
			case !want:
				if !src.bad && !isAlert(err, "unrecognized name") {
					t.Fatalf("client that is not allowed got %v: %s", err, what)
				}
				quiet()
				if l.total() != before {
					t.Fatalf("connection of a client that is not allowed reached a backend: %s", what)
				}
			}
			s.Class(fmt.Sprintf("%s want=%v header=%v", b.mode, want, src.header != nil))
			key := ""
			if b.allow != nil || b.deny != nil {
				key = what
			}
			s.Case(key, func() string { return fmt.Sprintf("%s -> %v", what, want) })
		}
	})
}

// viaProxy is a source address from which the PROXY protocol can be accepted.
const viaProxy = "127.0.7.9"

// dialVia opens a connection to the proxy from ip, where the PROXY protocol is
// expected if accept is true, and returns the client's address.
func (l *vlab) dialVia(t *rapid.T, ip string, accept bool) (net.Conn, *net.TCPAddr) {
	c := l.dialFrom(ip)
	if !accept || ip != viaProxy || rapid.IntRange(0, 3).Draw(t, "no header") == 0 {
		return c, c.LocalAddr().(*net.TCPAddr)
	}
	src := netip.AddrPortFrom(netip.MustParseAddr(rapid.SampledFrom([]string{"192.0.2.7", "198.51.100.20", "2001:db8::1:7"}).Draw(t, "client")), uint16(rapid.IntRange(1, 65535).Draw(t, "port")))
	dst := "192.0.2.254:443"
	if src.Addr().Is6() {
		dst = "[2001:db8::fe]:443"
	}
	c.Write(proxyHeader(byte(rapid.IntRange(1, 2).Draw(t, "version")), src, netip.MustParseAddrPort(dst)))
	return c, net.TCPAddrFromAddrPort(src)
}
