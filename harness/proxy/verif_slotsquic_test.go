package proxy

import (
	"bufio"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/quic-go/quic-go"
	"pgregory.net/rapid"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

// qslot is a connection that was served.
type qslot struct {
	kind  string
	close func()
	up    quic.Connection // its other end, at the upstream server
	alive func() error
}

func TestC30QUIC(t *testing.T) {
	l := theLab()
	ca := theCALab()
	kit.Check(t, "a maximum of 1-5 connections, then sequences of TCP, HTTP/1, HTTP/2, HTTP/3 and QUIC connections (to TCP and QUIC servers) that stay, that fail (denied address, missing client certificate, no upstream server, unknown name), that end in any way (client, QUIC upstream server), and changes of the maximum; the model counts the connections that stay: with the maximum open, each other one is refused without reaching a server, and below it, it is served once the earlier ones have ended; at the end, exactly the maximum can be opened again; non-trivial: a QUIC connection over the maximum was attempted, and slots were freed", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		l.httpUps(func(r *vreq) *vresp { return &vresp{body: []byte("hi")} })
		l.ups[0].handle(nil)
		conns := make(chan quic.Connection, 1000)
		l.quicUps(func(up int, c quic.Connection) {
			conns <- c
			for {
				st, err := c.AcceptStream(context.Background())
				if err != nil {
					return
				}
				go func() {
					fmt.Fprintf(st, "Q%d\n", up)
					io.Copy(st, st)
					st.Close()
				}()
			}
		})
		maxOpen := rapid.IntRange(1, 5).Draw(t, "max")
		var trace []string
		var open []*qslot
		fatalf := func(f string, a ...any) {
			t.Helper()
			var ks []string
			for _, c := range open {
				ks = append(ks, c.kind)
			}
			t.Fatalf("%s\nmaximum %d, open %v\nhistory: %s", fmt.Sprintf(f, a...), maxOpen, ks, strings.Join(trace, "; "))
		}
		gen := 0
		reconf := func() {
			gen++
			cfg := l.cfg(true)
			cfg.MaxOpen = maxOpen
			be := func(name, mode string, addr ...string) *Backend {
				b := &Backend{ServerNames: []string{name + ".example.com"}, Mode: mode, Addresses: addr, ForwardRateLimit: 100000}
				if mode == "QUIC" || mode == "TCP" && name != "tcp" {
					b.ALPNProtos, b.InsecureSkipVerify = &[]string{"x"}, true
				}
				cfg.Backends = append(cfg.Backends, b)
				return b
			}
			be("tcp", "TCP", l.ups[0].addr)
			be("qtcp", "TCP", l.ups[0].addr)
			be("qquic", "QUIC", l.ups[1].addr)
			be("http", "HTTP", l.ups[2].addr)
			be("denytcp", "TCP", l.ups[0].addr).DenyIPs = &[]string{"127.0.0.0/8"}
			be("denyquic", "QUIC", l.ups[1].addr).AllowIPs = &[]string{"192.0.2.0/24"}
			be("denyhttp", "HTTP", l.ups[2].addr).AllowIPs = &[]string{"192.0.2.0/24"}
			be("authquic", "QUIC", l.ups[1].addr).ClientAuth = &ClientAuth{RootCAs: []string{ca.ca1.pem}}
			be("deadtcp", "TCP", deadAddrs()[0])
			be(fmt.Sprintf("gen%d", gen), "LOCAL")
			if err := l.p.Reconfigure(cfg); err != nil {
				t.Fatalf("configuration refused: %v", err)
			}
		}
		reconf()
		defer func() {
			for _, c := range open {
				c.close()
			}
		}()
		reached := func() int64 {
			return int64(len(l.ups[0].seen())+len(l.ups[2].seen())) + quicTotal()
		}
		// attempt returns nil if the connection was not served.
		attempt := func(kind string) *qslot {
			sni := kind
			switch kind {
			case "tcp", "h1", "h2":
				raw := l.dial()
				protos := []string{"http/1.1"}
				if kind != "tcp" {
					sni = "http"
					protos = []string{map[string]string{"h1": "http/1.1", "h2": "h2"}[kind]}
				}
				tc := tls.Client(raw, clientTLS(sni+".example.com", protos...))
				if err := tc.Handshake(); err != nil {
					raw.Close()
					if isTimeout(err) {
						fatalf("the handshake of %s hangs", kind)
					}
					return nil
				}
				c := &qslot{kind: kind, close: func() { raw.Close() }}
				if kind == "tcp" {
					br := bufio.NewReader(tc)
					if got, err := br.ReadString('\n'); err != nil || got != "U0\n" {
						raw.Close()
						return nil
					}
					c.alive = func() error { return nil }
					return c
				}
				h, err := httpOver(tc)
				if err == nil {
					c.alive = func() error {
						_, err := h.do(&creq{method: "GET", target: "/", host: "http.example.com"})
						return err
					}
					err = c.alive()
				}
				if err != nil {
					raw.Close()
					return nil
				}
				return c
			}
			proto := "x"
			if kind == "h3" || kind == "denyhttp" {
				proto = "h3"
			}
			if kind == "h3" {
				sni = "http"
			}
			for len(conns) > 0 {
				<-conns
			}
			qc, err := l.dialQUIC(net.IPv4(127, 0, 0, 1), clientTLS(sni+".example.com", proto), &quic.Config{KeepAlivePeriod: 2 * time.Second})
			if err != nil {
				if isTimeout(err) {
					fatalf("the handshake of %s hangs: %v", kind, err)
				}
				return nil
			}
			c := &qslot{kind: kind, close: func() { qc.CloseWithError(0, "") }}
			if proto == "h3" {
				h, err := h3On(qc)
				if err == nil {
					c.alive = func() error {
						resp, err := h.do(&creq{method: "GET", target: "/", host: sni + ".example.com"})
						if err == nil && resp.status != 200 {
							err = fmt.Errorf("status %d", resp.status)
						}
						return err
					}
					err = c.alive()
				}
				if err != nil {
					qc.CloseWithError(0, "")
					return nil
				}
				return c
			}
			c.alive = func() error {
				st, err := qc.OpenStream()
				if err != nil {
					return err
				}
				st.SetDeadline(time.Now().Add(patience))
				if _, err := st.Write([]byte("hello\n")); err != nil {
					return err
				}
				got, err := bufio.NewReader(st).ReadString('\n')
				if isTimeout(err) {
					fatalf("%s hangs", kind)
				}
				if err != nil {
					return err
				}
				if got != "U0\n" && got != "Q1\n" {
					return fmt.Errorf("received %q", got)
				}
				return nil
			}
			if err := c.alive(); err != nil {
				qc.CloseWithError(0, "")
				return nil
			}
			if kind == "qquic" {
				c.up = <-conns
			}
			return c
		}
		over, freed := false, 0
		good := []string{"tcp", "h1", "h2", "h3", "h3", "qtcp", "qtcp", "qquic", "qquic"}
		add := func(kind string) {
			var c *qslot
			if !eventually(func() bool { c = attempt(kind); return c != nil }) {
				fatalf("%s is refused", kind)
			}
			open = append(open, c)
		}
		refused := func(kind string) {
			before := reached()
			if c := attempt(kind); c != nil {
				c.close()
				fatalf("%s was served over the maximum", kind)
			}
			if reached() != before {
				fatalf("%s was refused, and reached a server", kind)
			}
			over = over || kind == "h3" || kind[0] == 'q'
		}
		for range rapid.IntRange(2, 12).Draw(t, "steps") {
			switch op := rapid.SampledFrom([]string{"open", "open", "open", "open", "fail", "close", "close", "upclose", "max", "alive"}).Draw(t, "op"); op {
			case "open":
				kind := rapid.SampledFrom(good).Draw(t, "kind")
				trace = append(trace, "open "+kind)
				if len(open) < maxOpen {
					add(kind)
				} else {
					refused(kind)
				}
			case "fail":
				kind := rapid.SampledFrom([]string{"denytcp", "denyquic", "denyhttp", "authquic", "deadtcp", "unknown"}).Draw(t, "kind")
				trace = append(trace, "fail "+kind)
				refused(kind)
			case "close":
				if len(open) > 0 {
					i := rapid.IntRange(0, len(open)-1).Draw(t, "which")
					trace = append(trace, "close "+open[i].kind)
					open[i].close()
					open = slices.Delete(open, i, i+1)
					freed++
				}
			case "upclose":
				for i, c := range open {
					if c.up != nil {
						trace = append(trace, "upstream closes "+c.kind)
						c.up.CloseWithError(7, "bye")
						open = slices.Delete(open, i, i+1)
						freed++
						break
					}
				}
			case "max":
				maxOpen = rapid.IntRange(max(1, len(open)), 6).Draw(t, "newmax")
				trace = append(trace, fmt.Sprintf("maximum %d", maxOpen))
				// Idle HTTP connections don't survive that.
				open = slices.DeleteFunc(open, func(c *qslot) bool {
					if c.kind[0] == 'h' {
						c.close()
						freed++
						return true
					}
					return false
				})
				reconf()
			case "alive":
				for _, c := range open {
					if err := c.alive(); err != nil {
						fatalf("%s is not served anymore: %v", c.kind, err)
					}
				}
			}
		}
		trace = append(trace, "close all")
		for _, c := range open {
			c.close()
		}
		open = nil
		for range maxOpen {
			add(rapid.SampledFrom(good).Draw(t, "kind"))
		}
		refused(rapid.SampledFrom(good).Draw(t, "kind"))
		key := ""
		if over && freed > 0 {
			key = kit.Hash(fmt.Sprint(maxOpen, trace))
		}
		s.Class(fmt.Sprintf("over=%v freed=%v", over, freed > 0))
		s.Case(key, func() string { return strings.Join(trace, "; ") })
	})
}
