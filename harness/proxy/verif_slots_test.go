package proxy

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// slotConn is a client connection of TestC30Slots.
type slotConn struct {
	n     int
	kind  string
	c     net.Conn  // TCP
	tc    *tls.Conn // TLS on top of it
	h1    vclient
	gone  chan struct{} // the server closed it (raw connections)
	up    *vconn        // the other end, at the upstream server
	gate  *gateConn
	hs    chan error
	sure  bool // it was served
	stale bool // the configuration changed since
}

func (c *slotConn) String() string { return fmt.Sprintf("#%d(%s)", c.n, c.kind) }

// gateConn blocks the second and later writes until it is opened.
type gateConn struct {
	net.Conn
	mu     sync.Mutex
	writes int
	open   chan struct{}
	first  chan struct{}
}

func (g *gateConn) Write(b []byte) (int, error) {
	g.mu.Lock()
	g.writes++
	n := g.writes
	g.mu.Unlock()
	if n > 1 {
		<-g.open
	}
	c, err := g.Conn.Write(b)
	if n == 1 {
		close(g.first)
	}
	return c, err
}

func TestC30Slots(t *testing.T) {
	l := theLab()
	ca := theCALab()
	kit.Check(t, "a maximum of 1-6 connections, then sequences of connections that stay (served by each type of backend, idle before or in the middle of the ClientHello, of the PROXY header or of the handshake), that fail (garbage, unknown name, denied address, missing client certificate, no upstream server, ACME), and of endings (FIN, RST, by the client or the upstream server, half-closed), with changes of the configuration and of the maximum; the model counts the connections that are open; at the end, exactly the maximum can be opened again; non-trivial: a connection over the maximum was attempted and slots were freed", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		// 0: TCP, 1: passthrough, 2: HTTP.
		l.httpUps(func(r *vreq) *vresp { return &vresp{body: []byte("hi")} })
		l.ups[0].handle(nil)
		l.ups[1].handle(nil)
		maxOpen := rapid.IntRange(1, 6).Draw(t, "max")
		gen := 0
		reconf := func() {
			gen++
			cfg := l.cfg(false)
			cfg.MaxOpen = maxOpen
			cfg.AcceptProxyHeaderFrom = []string{"127.0.0.99/32"}
			be := func(name, mode string, addr ...string) *Backend {
				b := &Backend{ServerNames: []string{name + ".example.com"}, Mode: mode, Addresses: addr, ForwardRateLimit: 100000}
				cfg.Backends = append(cfg.Backends, b)
				return b
			}
			be("tcp", "TCP", l.ups[0].addr)
			be("pass", "TLSPASSTHROUGH", l.ups[1].addr)
			be("http", "HTTP", l.ups[2].addr)
			be("local", "LOCAL")
			be("deny", "TCP", l.ups[0].addr).DenyIPs = &[]string{"127.0.0.0/8"}
			be("denyhttp", "HTTP", l.ups[2].addr).AllowIPs = &[]string{"192.0.2.0/24"}
			be("auth", "TCP", l.ups[0].addr).ClientAuth = &ClientAuth{RootCAs: []string{ca.ca1.pem}}
			be("authhttp", "HTTP", l.ups[2].addr).ClientAuth = &ClientAuth{RootCAs: []string{ca.ca1.pem}, ACL: &[]string{"SUBJECT:CN=nobody"}}
			be("dead", "TCP", deadAddrs()[0])
			be("deadpass", "TLSPASSTHROUGH", deadAddrs()[0])
			be(fmt.Sprintf("gen%d", gen), "LOCAL")
			if err := l.p.Reconfigure(cfg); err != nil {
				t.Fatalf("configuration refused: %v", err)
			}
		}
		reconf()
		var open []*slotConn
		var trace []string
		fatalf := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\nmaximum %d, open %v\nhistory: %s", fmt.Sprintf(f, a...), maxOpen, open, strings.Join(trace, "; "))
		}
		log := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
		shut := func(c *slotConn) {
			if c.gate != nil {
				select {
				case <-c.gate.open:
				default:
					c.c.Close()
					close(c.gate.open)
				}
			}
			if c.h1 != nil {
				c.h1.close()
			}
			c.c.Close()
		}
		defer func() {
			for _, c := range open {
				shut(c)
			}
		}()
		n := 0
		helloBytes := func(sni string) []byte {
			a, b := net.Pipe()
			go tls.Client(a, clientTLS(sni)).Handshake()
			buf := make([]byte, 65536)
			k, _ := b.Read(buf)
			// The record can be written in pieces.
			for k < 5 || k < 5+int(buf[3])<<8+int(buf[4]) {
				m, err := b.Read(buf[k:])
				if err != nil {
					break
				}
				k += m
			}
			a.Close()
			b.Close()
			return buf[:k]
		}
		// watch closes c.gone when the server closes the connection.
		watch := func(c *slotConn, r io.Reader) {
			c.gone = make(chan struct{})
			c.c.SetDeadline(time.Time{})
			go func() {
				io.Copy(io.Discard, r)
				close(c.gone)
			}()
		}
		isGone := func(c *slotConn) bool {
			if c.gone == nil {
				return false
			}
			select {
			case <-c.gone:
				return true
			default:
				return false
			}
		}
		// attempt opens a connection. It returns true if it was served, or
		// if it stays without being served yet.
		attempt := func(kind string, full bool) (*slotConn, bool) {
			n++
			c := &slotConn{n: n, kind: kind}
			if strings.HasPrefix(kind, "proxy") {
				c.c = l.dialFrom("127.0.0.99")
			} else {
				c.c = l.dial()
			}
			served0 := len(l.ups[0].seen()) + len(l.ups[1].seen())
			handshake := func(sni string, protos ...string) bool {
				c.tc = tls.Client(c.c, clientTLS(sni+".example.com", protos...))
				err := c.tc.Handshake()
				if isTimeout(err) {
					fatalf("the handshake of %v hangs", c)
				}
				return err == nil
			}
			greeting := func(r io.Reader, want string, up *vup) bool {
				got, err := bufio.NewReader(r).ReadString('\n')
				if isTimeout(err) {
					fatalf("%v hangs", c)
				}
				if err != nil {
					return false
				}
				if got != want {
					fatalf("%v received %q", c, got)
				}
				cs := up.seen()
				c.up = cs[len(cs)-1]
				c.sure = true
				return true
			}
			ok := false
			switch kind {
			case "tcp", "proxytcp":
				if kind == "proxytcp" {
					fmt.Fprintf(c.c, "PROXY TCP4 127.0.0.1 127.0.0.1 1000 443\r\n")
				}
				ok = handshake("tcp") && greeting(c.tc, "U0\n", l.ups[0])
			case "pass":
				c.c.Write(helloBytes("pass.example.com"))
				ok = greeting(c.c, "U1\n", l.ups[1])
			case "http", "h2", "local":
				proto := "http/1.1"
				if kind == "h2" {
					proto = "h2"
				}
				sni := kind
				if kind == "h2" {
					sni = "http"
				}
				if ok = handshake(sni, proto); ok {
					var err error
					if c.h1, err = httpOver(c.tc); err == nil {
						_, err = c.h1.do(&creq{method: "GET", target: "/", host: sni + ".example.com"})
					}
					if isTimeout(err) {
						fatalf("the request of %v hangs", c)
					}
					c.sure = err == nil
					ok = c.sure
				}
			case "stall", "stallhttp":
				c.gate = &gateConn{Conn: c.c, open: make(chan struct{}), first: make(chan struct{})}
				sni := "tcp"
				if kind == "stallhttp" {
					sni = rapid.SampledFrom([]string{"http", "local"}).Draw(t, "sni")
				}
				c.tc = tls.Client(c.gate, clientTLS(sni+".example.com", rapid.SampledFrom(clientProtos).Draw(t, "proto")))
				c.kind += "/" + sni
				c.c.SetDeadline(time.Time{})
				c.hs = make(chan error, 1)
				go func() { c.hs <- c.tc.Handshake() }()
				<-c.gate.first
				ok = true
			case "idle", "proxyidle":
				watch(c, c.c)
				ok = true
			case "partial", "proxypartial":
				b := helloBytes("tcp.example.com")
				if kind == "proxypartial" {
					b = []byte("PROXY TCP4 127.0.0.1 127.0.0.1 1000 443\r\n")
				}
				c.c.Write(b[:rapid.IntRange(1, len(b)-1).Draw(t, "len")])
				watch(c, c.c)
				ok = true
			default: // They fail.
				write := func(b []byte) {
					c.c.Write(b)
					if _, err := io.Copy(io.Discard, c.c); isTimeout(err) {
						fatalf("%v is not closed", c)
					}
				}
				switch kind {
				case "garbage":
					write([]byte("GET / HTTP/1.0\r\n\r\n"))
				case "unknown":
					handshake("nope")
				case "deny", "denyhttp", "auth", "authhttp":
					if handshake(kind, "http/1.1", "h2") {
						fmt.Fprintf(c.tc, "GET / HTTP/1.1\r\n\r\n")
						if _, err := io.Copy(io.Discard, c.tc); isTimeout(err) {
							fatalf("%v is not closed", c)
						}
					}
				case "dead":
					if handshake("dead") {
						if _, err := io.Copy(io.Discard, c.tc); isTimeout(err) {
							fatalf("%v is not closed", c)
						}
					}
				case "deadpass":
					write(helloBytes("deadpass.example.com"))
				case "acme":
					if handshake("tcp", "acme-tls/1") {
						if _, err := io.Copy(io.Discard, c.tc); isTimeout(err) {
							fatalf("%v is not closed", c)
						}
					}
				case "badproxy":
					c.c.Close()
					c.c = l.dialFrom("127.0.0.99")
					write([]byte("PROXY TCP4 nonsense\r\n"))
				case "gone":
					c.c.Write(helloBytes("tcp.example.com")[:20])
				case "goneproxy":
					c.c.Close()
					c.c = l.dialFrom("127.0.0.99")
				case "rst":
					c.c.Write(helloBytes("tcp.example.com"))
					c.c.(*net.TCPConn).SetLinger(0)
				case "stop":
					// It ends in the middle of the handshake.
					g := &gateConn{Conn: c.c, open: make(chan struct{}), first: make(chan struct{})}
					hs := make(chan error, 1)
					go func() {
						hs <- tls.Client(g, clientTLS(rapid.SampledFrom([]string{"tcp", "http", "auth"}).Draw(t, "sni")+".example.com", "h2")).Handshake()
					}()
					<-g.first
					if rapid.Bool().Draw(t, "rst") {
						c.c.(*net.TCPConn).SetLinger(0)
					}
					c.c.Close()
					close(g.open)
					<-hs
				}
				c.c.Close()
			}
			if !ok {
				shut(c)
			}
			if !c.sure && full {
				quiet()
			}
			if now := len(l.ups[0].seen()) + len(l.ups[1].seen()); !c.sure && full && now > served0 {
				fatalf("%v was not served, and reached an upstream server", c)
			}
			return c, ok
		}
		// settle removes the connections that the server closed.
		settle := func() {
			open = slices.DeleteFunc(open, func(c *slotConn) bool {
				if isGone(c) {
					shut(c)
					return true
				}
				return false
			})
		}
		over, freed := false, false
		held := []string{"tcp", "tcp", "pass", "http", "h2", "local", "proxytcp"}
		raws := []string{"idle", "partial", "proxyidle", "proxypartial", "stall", "stallhttp"}
		fails := []string{"garbage", "unknown", "deny", "denyhttp", "auth", "authhttp", "dead", "deadpass", "acme", "badproxy", "gone", "goneproxy", "rst", "stop"}
		tryOpen := func(kind string, must bool) {
			if slices.Contains(fails, kind) {
				attempt(kind, false)
				freed = true
				log("%s", kind)
				return
			}
			settle()
			sure := 0
			for _, c := range open {
				if c.sure && !c.stale {
					sure++
				}
			}
			if sure >= maxOpen {
				over = true
				c, ok := attempt(kind, true)
				log("%v over", c)
				if c.sure {
					open = append(open, c)
					fatalf("%v is one more than the maximum", c)
				}
				if !ok {
					return
				}
				// It has to be closed.
				switch {
				case c.gone != nil:
					select {
					case <-c.gone:
					case <-time.After(patience):
						shut(c)
						fatalf("%v is over the maximum, and not closed", c)
					}
				case c.hs != nil:
					close(c.gate.open)
					var err error
					select {
					case err = <-c.hs:
					case <-time.After(patience):
					}
					if err == nil {
						shut(c)
						fatalf("%v is over the maximum, and was not refused", c)
					}
				}
				shut(c)
				return
			}
			raw := slices.Contains(raws, kind)
			if raw || len(open) >= maxOpen {
				// Nothing shows when the connections that are not served
				// yet are counted.
				k := len(open)
				c, ok := attempt(kind, false)
				log("%v ok=%v", c, ok)
				if ok {
					open = append(open, c)
				}
				if k = max(k, maxOpen); len(open) > k {
					over = true
					// One has to go.
					if !eventually(func() bool {
						settle()
						for i, c := range open {
							if c.hs != nil {
								select {
								case err := <-c.hs:
									if err == nil {
										fatalf("the handshake of %v cannot succeed", c)
									}
									shut(c)
									open = slices.Delete(open, i, i+1)
									return true
								default:
								}
							}
						}
						return len(open) <= k
					}) {
						fatalf("more connections are open than the maximum")
					}
				}
				return
			}
			var c *slotConn
			tries := 0
			if !eventually(func() (ok bool) {
				tries++
				c, ok = attempt(kind, false)
				return ok
			}) {
				fatalf("%s is refused (%d times)", kind, tries)
			}
			log("%v", c)
			open = append(open, c)
		}
		finish := func(i int) {
			// A handshake carries on.
			c := open[i]
			close(c.gate.open)
			var err error
			select {
			case err = <-c.hs:
			case <-time.After(patience):
				fatalf("the handshake of %v hangs", c)
			}
			c.hs = nil
			open = slices.Delete(open, i, i+1)
			freed = true
			log("finish %v: %v", c, err == nil)
			defer shut(c)
			if err != nil {
				// Over the maximum when it was opened, or its backend is
				// not the current one.
				return
			}
			c.c.SetDeadline(time.Now().Add(patience))
			if strings.HasSuffix(c.kind, "/tcp") {
				got, err := bufio.NewReader(c.tc).ReadString('\n')
				if isTimeout(err) || err == nil && got != "U0\n" {
					fatalf("%v received %q %v after the handshake", c, got, err)
				}
				if err != nil && !c.stale {
					fatalf("%v is not served after the handshake: %v", c, err)
				}
				return
			}
			cl, err := httpOver(c.tc)
			if err == nil {
				_, err = cl.do(&creq{method: "GET", target: "/", host: strings.Split(c.kind, "/")[1] + ".example.com"})
				cl.close()
			}
			if err != nil && (isTimeout(err) || !c.stale || strings.Contains(err.Error(), "timeout")) {
				fatalf("%v is not served after the handshake: %v", c, err)
			}
		}
		for range rapid.IntRange(1, 25).Draw(t, "ops") {
			switch op := rapid.SampledFrom([]string{"held", "held", "held", "raw", "raw", "fail", "fail", "end", "end", "finish", "fill", "conf"}).Draw(t, "op"); op {
			case "held":
				tryOpen(rapid.SampledFrom(held).Draw(t, "kind"), true)
			case "raw":
				tryOpen(rapid.SampledFrom(raws).Draw(t, "kind"), true)
			case "fail":
				tryOpen(rapid.SampledFrom(fails).Draw(t, "kind"), true)
			case "fill":
				for len(open) < maxOpen {
					k := len(open)
					tryOpen("tcp", true)
					if len(open) <= k {
						break
					}
				}
			case "finish":
				for i, c := range open {
					if c.hs != nil {
						finish(i)
						break
					}
				}
			case "conf":
				if rapid.Bool().Draw(t, "change") {
					maxOpen = rapid.IntRange(1, 6).Draw(t, "max")
				}
				reconf()
				log("maximum %d", maxOpen)
				// HTTP servers close the connections that have no request.
				open = slices.DeleteFunc(open, func(c *slotConn) bool {
					c.stale = c.stale || !(c.kind == "tcp" || c.kind == "proxytcp" || c.kind == "pass")
					if c.h1 != nil {
						freed = true
						shut(c)
						return true
					}
					return false
				})
			case "end":
				if len(open) == 0 {
					continue
				}
				i := rapid.IntRange(0, len(open)-1).Draw(t, "i")
				c := open[i]
				freed = true
				how := rapid.SampledFrom([]string{"fin", "rst", "tls", "up", "uprst", "half"}).Draw(t, "how")
				log("%s %v", how, c)
				open = slices.Delete(open, i, i+1)
				switch {
				case how == "rst":
					c.c.(*net.TCPConn).SetLinger(0)
				case how == "tls" && c.tc != nil && c.gate == nil:
					c.tc.Close()
				case (how == "up" || how == "uprst") && c.up != nil:
					if how == "uprst" {
						c.up.Conn.(*net.TCPConn).SetLinger(0)
					}
					c.up.Close()
					var r net.Conn = c.c
					if c.tc != nil {
						r = c.tc
					}
					r.SetReadDeadline(time.Now().Add(patience))
					if _, err := io.Copy(io.Discard, r); isTimeout(err) {
						fatalf("%v stays open after its upstream server closed it", c)
					}
				case how == "half" && c.up != nil:
					if c.tc != nil {
						c.tc.CloseWrite()
					} else {
						c.c.(*net.TCPConn).CloseWrite()
					}
					// The upstream server then closes its end too.
					var r net.Conn = c.c
					if c.tc != nil {
						r = c.tc
					}
					r.SetReadDeadline(time.Now().Add(patience))
					if _, err := io.Copy(io.Discard, r); isTimeout(err) {
						fatalf("%v stays open after both ends closed it", c)
					}
				}
				shut(c)
			}
		}
		for _, c := range open {
			if c.sure && c.up != nil && !c.stale {
				// Still served.
				select {
				case <-c.up.done:
					fatalf("%v was closed by the proxy", c)
				default:
				}
			}
		}
		// Everything ends, and the full capacity is there.
		for _, c := range open {
			shut(c)
		}
		open = nil
		log("end")
		for range maxOpen {
			var c *slotConn
			if !eventually(func() (ok bool) {
				c, ok = attempt("tcp", false)
				return ok
			}) {
				fatalf("only %d connections can be opened", len(open))
			}
			open = append(open, c)
		}
		if c, _ := attempt("tcp", true); c.sure {
			open = append(open, c)
			fatalf("one more than the maximum at the end")
		}
		for _, c := range open {
			shut(c)
		}
		open = nil
		key := ""
		if over && freed {
			key = kit.Hash(trace, maxOpen)
		}
		s.Class(fmt.Sprintf("over=%v freed=%v", over, freed))
		s.Case(key, func() string { return fmt.Sprintf("maximum %d: %s", maxOpen, strings.Join(trace, "; ")) })
	})
}
