package proxy

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pires/go-proxyproto"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// pipeEnd is one end of a bridged connection. What arrives is collected in the
// background.
type pipeEnd struct {
	name string
	c    net.Conn
	raw  *net.TCPConn

	mu      sync.Mutex
	cond    *sync.Cond
	got     []byte
	err     error
	expired bool
}

func newPipeEnd(name string, c net.Conn, raw net.Conn, bufSize int, pause time.Duration) *pipeEnd {
	e := &pipeEnd{name: name, c: c, raw: raw.(*net.TCPConn)}
	e.cond = sync.NewCond(&e.mu)
	go func() {
		buf := make([]byte, bufSize)
		for {
			n, err := c.Read(buf)
			e.mu.Lock()
			e.got = append(e.got, buf[:n]...)
			e.err = err
			e.cond.Broadcast()
			e.mu.Unlock()
			if err != nil {
				return
			}
			if pause > 0 {
				time.Sleep(pause)
			}
		}
	}()
	return e
}

// wait waits for n bytes in total, or the end.
func (e *pipeEnd) wait(n int) error {
	return e.until(fmt.Sprintf("%d bytes", n), func() bool { return len(e.got) >= n })
}

// end waits for the end.
func (e *pipeEnd) end() error {
	return e.until("the end", func() bool { return e.err != nil })
}

func (e *pipeEnd) until(what string, f func() bool) error {
	tm := time.AfterFunc(patience, func() {
		e.mu.Lock()
		defer e.mu.Unlock()
		e.expired = true
		e.cond.Broadcast()
	})
	defer tm.Stop()
	e.mu.Lock()
	defer e.mu.Unlock()
	for !f() {
		if e.err != nil {
			return fmt.Errorf("the %s got %d bytes, then %v, while waiting for %s", e.name, len(e.got), e.err, what)
		}
		if e.expired {
			return fmt.Errorf("the %s got only %d bytes, and no end, while waiting for %s", e.name, len(e.got), what)
		}
		e.cond.Wait()
	}
	return nil
}

func (e *pipeEnd) received() ([]byte, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	return bytes.Clone(e.got), e.err
}

// send writes in pieces.
func (e *pipeEnd) send(b []byte, pieces []int) error {
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if len(pieces) > 0 {
			n = min(n, pieces[i%len(pieces)])
		}
		if _, err := e.c.Write(b[:n]); err != nil {
			return fmt.Errorf("the %s can't send: %w", e.name, err)
		}
		b = b[n:]
	}
	return nil
}

// halfClose closes the sending direction.
func (e *pipeEnd) halfClose(tcpToo bool) {
	if tc, ok := e.c.(*tls.Conn); ok {
		tc.CloseWrite()
		if !tcpToo {
			return
		}
	}
	e.raw.CloseWrite()
}

func (e *pipeEnd) reset() {
	e.raw.SetLinger(0)
	e.raw.Close()
}

// rng makes different content for each connection and direction.
func streamBytes(seed int64, n int) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(seed)).Read(b)
	return b
}

func TestC22Streams(t *testing.T) {
	l := theLab()
	sizes := []int{0, 1, 2, 100, 5000, 16383, 16384, 16385, 33000, 70000, 70001, 200000, 1000000}
	chunks := []int{1000000, 1, 7, 100, 1460, 4096, 16384, 20000, 65536}
	var nonce int64
	kit.Check(t, "1-3 concurrent connections (TLS 1.2 or 1.3 clients) to a TCP, TLS or passthrough backend, with or without PROXY headers on either side, with any half-close options; both sides send 0 to 1500000 bytes at the same time in pieces of 1 to 1000000 bytes to readers with buffers of 1 to 65536 bytes, some of them slow; then one side closes its sending direction or everything or aborts, right after its last byte where nothing may be lost; the other side goes on sending and closes too; every byte of each direction must arrive at the right place, then the end, and both sides must be closed; non-trivial: at least 1000 bytes flow", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		mode := rapid.SampledFrom([]string{"TCP", "TLS", "TLSPASSTHROUGH"}).Draw(t, "mode")
		serverClose := rapid.SampledFrom([]*bool{nil, ptr(true), ptr(false), ptr(false)}).Draw(t, "serverclose")
		clientClose := rapid.SampledFrom([]*bool{nil, ptr(true), ptr(false), ptr(false)}).Draw(t, "clientclose")
		sc, cc := serverClose == nil || *serverClose, clientClose != nil && *clientClose
		inHeader := rapid.IntRange(0, 3).Draw(t, "inheader") == 0
		outHeader := rapid.SampledFrom([]string{"", "", "", "v1", "v2"}).Draw(t, "outheader")
		var timeout *time.Duration
		if rapid.IntRange(0, 3).Draw(t, "timeout") == 0 {
			timeout = ptr(rapid.SampledFrom([]time.Duration{time.Minute, time.Hour}).Draw(t, "halfclosetimeout"))
		}
		short := rapid.IntRange(0, 29).Draw(t, "short") == 0
		if short {
			timeout = ptr(150 * time.Millisecond)
		}
		cfg := l.cfg(false)
		if inHeader {
			cfg.AcceptProxyHeaderFrom = []string{"127.0.0.0/8"}
		}
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: mode, ForwardRateLimit: 100000, Addresses: []string{l.ups[0].addr}, InsecureSkipVerify: true, ALPNProtos: &[]string{},
			ServerCloseEndsConnection: serverClose, ClientCloseEndsConnection: clientClose, HalfCloseTimeout: timeout, ProxyProtocolVersion: outHeader}
		if mode == "TLSPASSTHROUGH" {
			be.InsecureSkipVerify = false
		}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		type conn struct {
			client, server *pipeEnd
			c2s, s2c       []byte // everything that is sent
			desc           string
		}
		accepted := make(chan *pipeEnd, 10)
		l.ups[0].handle(func(vc *vconn) {
			raw := vc.Conn
			br := bufio.NewReader(vc.Conn)
			if outHeader != "" {
				if _, err := proxyproto.Read(br); err != nil {
					vc.Close()
					return
				}
			}
			var c net.Conn = &bufConn{vc.Conn, br}
			if mode != "TCP" {
				s := tls.Server(c, l.cm.TLSConfig())
				if err := s.Handshake(); err != nil {
					vc.Close()
					return
				}
				c = s
			}
			accepted <- &pipeEnd{c: c, raw: raw.(*net.TCPConn)}
		})
		what := fmt.Sprintf("%s, server close ends=%v, client close ends=%v, half-close timeout %v, PROXY in=%v out=%q", mode, sc, cc, be.HalfCloseTimeout, inHeader, outHeader)
		n := rapid.IntRange(1, 3).Draw(t, "conns")
		if short {
			n = 1
		}
		// The client may close its direction before the proxy is even
		// connected to the server.
		early := n == 1 && !short && !cc && rapid.IntRange(0, 3).Draw(t, "early") == 0
		var conns []*conn
		defer func() {
			for _, c := range conns {
				c.client.raw.Close()
				if c.server != nil {
					c.server.raw.Close()
				}
			}
		}()
		for i := range n {
			raw := l.dial()
			if inHeader {
				fmt.Fprintf(raw, "PROXY TCP4 10.0.0.%d 10.1.1.1 1234 443\r\n", i)
			}
			tc := clientTLS("www.example.com")
			if rapid.Bool().Draw(t, "tls12") {
				tc.MaxVersion = tls.VersionTLS12
			}
			cl := tls.Client(raw, tc)
			cn := &conn{}
			bufs := rapid.SampledFrom([]int{65536, 32768, 4096, 512, 100000}).Draw(t, "buffer")
			pause := time.Duration(0)
			if bufs >= 4096 && rapid.IntRange(0, 3).Draw(t, "pause") == 0 {
				pause = 50 * time.Microsecond
			}
			if err := cl.Handshake(); err != nil {
				raw.Close()
				t.Fatalf("handshake: %v: %s", err, what)
			}
			cn.client = newPipeEnd("client", cl, raw, bufs, pause)
			conns = append(conns, cn)
			if early {
				cn.client.halfClose(mode == "TLSPASSTHROUGH")
			}
			var se *pipeEnd
			select {
			case se = <-accepted:
			case <-time.After(patience):
				t.Fatalf("no connection to the server: %s", what)
			}
			se.raw.SetDeadline(time.Now().Add(patience))
			bufs = rapid.SampledFrom([]int{65536, 32768, 4096, 512, 100000}).Draw(t, "serverbuffer")
			cn.server = newPipeEnd("server", se.c, se.raw, bufs, pause)
		}
		errs := make(chan error, 10)
		var wg sync.WaitGroup
		total := 0
		for i, cn := range conns {
			nc, ns := rapid.SampledFrom(sizes).Draw(t, "clientbytes"), rapid.SampledFrom(sizes).Draw(t, "serverbytes")
			pc, ps := rapid.SliceOfN(rapid.SampledFrom(chunks), 1, 3).Draw(t, "clientpieces"), rapid.SliceOfN(rapid.SampledFrom(chunks), 1, 3).Draw(t, "serverpieces")
			// There are not more than a few hundred pieces.
			small := func(n int, p []int) []int {
				p = slices.Clone(p)
				for i := range p {
					p[i] = max(p[i], n/200)
				}
				return p
			}
			ending := rapid.SampledFrom([]string{"client half", "client half", "server half", "server half", "client full", "server full", "client reset", "server reset", "both half"}).Draw(t, "ending")
			if short {
				ending = "client half"
				if !sc {
					ending = rapid.SampledFrom([]string{"client half", "server half"}).Draw(t, "shortending")
				}
			}
			if early {
				nc, ns, ending = 0, 0, "client half"
			}
			eager := rapid.Bool().Draw(t, "eager")
			tcpToo := mode == "TLSPASSTHROUGH" || rapid.Bool().Draw(t, "tcptoo")
			more := rapid.SampledFrom(sizes[:9]).Draw(t, "more")
			moreWait := rapid.Bool().Draw(t, "morewait")
			nonce += 2
			cn.c2s, cn.s2c = streamBytes(nonce, nc+more), streamBytes(nonce+1, ns+more)
			total += nc + ns
			cn.desc = fmt.Sprintf("connection %d: client sends %d in %v, server %d in %v, then %s (eager=%v early=%v), %d more", i, nc, pc, ns, ps, ending, eager, early, more)
			what += "; " + cn.desc
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs <- func() error {
					cl, sv := cn.client, cn.server
					cdone, sdone := make(chan error, 1), make(chan error, 1)
					go func() { cdone <- cl.send(cn.c2s[:nc], small(nc, pc)) }()
					go func() { sdone <- sv.send(cn.s2c[:ns], small(ns, ps)) }()
					sentC, sentS := nc, ns
					both := func() error {
						if err := <-cdone; err != nil {
							return err
						}
						return <-sdone
					}
					arrived := func() error {
						if err := cl.wait(sentS); err != nil {
							return err
						}
						return sv.wait(sentC)
					}
					// The first one to close. Data of the other
					// direction must arrive before when closing
					// ends the connection.
					if err := both(); err != nil {
						return err
					}
					a, z := cl, sv // the first one to close, the other one
					sentA, sentZ := &sentC, &sentS
					if strings.HasPrefix(ending, "server") {
						a, z = sv, cl
						sentA, sentZ = &sentS, &sentC
					}
					ends := a == cl && cc || a == sv && sc
					if !eager || strings.Contains(ending, "reset") {
						if err := arrived(); err != nil {
							return err
						}
					} else if err := a.wait(*sentZ); err != nil {
						return err
					}
					switch {
					case strings.Contains(ending, "reset"):
						a.reset()
						z.until("the end", func() bool { return z.err != nil })
						if _, err := z.received(); err == nil {
							return fmt.Errorf("the %s aborted, but the %s is not closed", a.name, z.name)
						}
					case strings.Contains(ending, "full"):
						a.c.Close()
						if err := z.end(); err != nil {
							return err
						}
						z.c.Close()
					case ending == "both half":
						if err := arrived(); err != nil {
							return err
						}
						cl.halfClose(tcpToo)
						sv.halfClose(tcpToo)
						if err := cl.end(); err != nil {
							return err
						}
						if err := sv.end(); err != nil {
							return err
						}
					case short && !ends:
						t0 := time.Now()
						a.halfClose(tcpToo)
						if err := z.end(); err != nil {
							return err
						}
						// The other one stays silent.
						if err := a.end(); err != nil {
							return fmt.Errorf("half-close timeout: %w", err)
						}
						if d := time.Since(t0); d < 140*time.Millisecond {
							return fmt.Errorf("the %s closed one direction, and the other one ended after %v", a.name, d)
						}
						*sentZ += 0
					default:
						if !early {
							a.halfClose(tcpToo)
						}
						if err := z.end(); err != nil {
							return err
						}
						if !ends {
							msg := cn.s2c[ns:]
							if z == cl {
								msg = cn.c2s[nc:]
							}
							if moreWait {
								time.Sleep(2 * time.Millisecond)
							}
							if err := z.send(msg, small(len(msg), pc)); err != nil {
								return err
							}
							*sentZ += len(msg)
							z.halfClose(true)
						}
						if err := a.end(); err != nil {
							return err
						}
						// Nothing is left open, even if nobody
						// else closes.
					}
					_ = sentA
					if strings.Contains(ending, "reset") {
						return nil
					}
					for _, d := range []struct {
						e    *pipeEnd
						want []byte
					}{{cl, cn.s2c[:sentS]}, {sv, cn.c2s[:sentC]}} {
						got, err := d.e.received()
						if strings.Contains(ending, "full") && d.e == a {
							continue
						}
						if !bytes.Equal(got, d.want) {
							i := 0
							for i < len(got) && i < len(d.want) && got[i] == d.want[i] {
								i++
							}
							return fmt.Errorf("the %s got %d bytes (%v) instead of %d, that differ after %d", d.e.name, len(got), err, len(d.want), i)
						}
					}
					return nil
				}()
			}()
		}
		wg.Wait()
		for range conns {
			if err := <-errs; err != nil {
				t.Fatalf("%v: %s", err, what)
			}
		}
		key := ""
		if total > 1000 {
			key = what
		}
		s.Class(mode)
		s.Case(key, func() string { return what })
	})
}


