//go:build !noquic

package proxy

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/quic-go/quic-go"

	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
	"pgregory.net/rapid"
)

// atEOF waits for the end.
func atEOF(r io.Reader) error {
	n, err := io.Copy(io.Discard, r)
	if n > 0 {
		return fmt.Errorf("%d more bytes than expected", n)
	}
	return err
}

// c34Stream is the plan for one stream. The header, the first bytes in either
// direction, is the number of the stream.
type c34Stream struct {
	id       uint32
	kind     string // client bidi, client uni, server bidi, server uni
	order    string // initiator, acceptor, both
	out, in  flow   // from the initiator, and from the acceptor
	buf      int
	sc       bool // when the server ends its direction, the stream ends
	gate     *streamGate
	fail     atomic.Pointer[error]
	initDone chan struct{}
	accDone  chan struct{}
}

func (p *c34Stream) String() string {
	return fmt.Sprintf("{%d %s ends first: %s, out %v, in %v, buffer %d}", p.id, p.kind, p.order, &p.out, &p.in, p.buf)
}

func (p *c34Stream) failed(format string, args ...any) {
	err := fmt.Errorf(format, args...)
	p.fail.CompareAndSwap(nil, &err)
}

// initiate is what the end that opens the stream does.
func (p *c34Stream) initiate(r io.Reader, w io.WriteCloser) {
	defer close(p.initDone)
	hdr := binary.BigEndian.AppendUint32(nil, p.id)
	if _, err := w.Write(hdr); err != nil {
		p.failed("initiator, header: %v", err)
		return
	}
	if !p.gate.wait() {
		p.failed("not all the streams arrive while the others are open")
		w.Close()
		return
	}
	if r == nil {
		if err := p.out.send(w); err != nil {
			p.failed("initiator, sending: %v", err)
		}
		w.Close()
		return
	}
	switch p.order {
	case "initiator":
		if err := p.out.send(w); err != nil {
			p.failed("initiator, sending: %v", err)
		}
		w.Close()
		if err := p.in.expect(r, p.buf); err != nil {
			p.failed("initiator, receiving: %v", err)
		}
		if err := atEOF(r); err != nil {
			p.failed("initiator, end: %v", err)
		}
	case "both":
		ch := make(chan error)
		go func() {
			err := p.out.send(w)
			w.Close()
			ch <- err
		}()
		if err := p.in.expect(r, p.buf); err != nil {
			p.failed("initiator, receiving: %v", err)
		}
		if err := <-ch; err != nil {
			p.failed("initiator, sending: %v", err)
		}
		if err := atEOF(r); err != nil {
			p.failed("initiator, end: %v", err)
		}
	case "acceptor":
		if err := p.in.expect(r, p.buf); err != nil {
			p.failed("initiator, receiving: %v", err)
		}
		if err := atEOF(r); err != nil {
			p.failed("initiator, end: %v", err)
		}
		if p.sc {
			break
		}
		if err := p.out.send(w); err != nil {
			p.failed("initiator, the other end ended its direction, sending: %v", err)
		}
		w.Close()
	}
}

// streamGate opens when all the streams have arrived. It can be nil.
type streamGate struct {
	left atomic.Int64
	open chan struct{}
}

func (g *streamGate) arrived() {
	if g != nil && g.left.Add(-1) == 0 {
		close(g.open)
	}
}

func (g *streamGate) wait() bool {
	if g == nil {
		return true
	}
	select {
	case <-g.open:
		return true
	case <-time.After(patience - time.Second):
		return false
	}
}

// accept is what the other end does.
func (p *c34Stream) accept(r io.Reader, w io.WriteCloser) {
	defer close(p.accDone)
	p.gate.arrived()
	if w == nil {
		if err := p.out.expect(r, p.buf); err != nil {
			p.failed("acceptor, receiving: %v", err)
		}
		if err := atEOF(r); err != nil {
			p.failed("acceptor, end: %v", err)
		}
		return
	}
	switch p.order {
	case "initiator":
		if err := p.out.expect(r, p.buf); err != nil {
			p.failed("acceptor, receiving: %v", err)
		}
		if err := atEOF(r); err != nil {
			p.failed("acceptor, end: %v", err)
		}
		if err := p.in.send(w); err != nil {
			p.failed("acceptor, sending: %v", err)
		}
	case "both":
		ch := make(chan error)
		go func() { ch <- p.in.send(w) }()
		if err := p.out.expect(r, p.buf); err != nil {
			p.failed("acceptor, receiving: %v", err)
		}
		if err := <-ch; err != nil {
			p.failed("acceptor, sending: %v", err)
		}
		if err := atEOF(r); err != nil {
			p.failed("acceptor, end: %v", err)
		}
	case "acceptor":
		if err := p.in.send(w); err != nil {
			p.failed("acceptor, sending: %v", err)
		}
		if p.sc {
			break
		}
		// The other direction is still open.
		if err := endOf(w); err != nil {
			p.failed("acceptor, ending: %v", err)
		}
		if err := p.out.expect(r, p.buf); err != nil {
			p.failed("acceptor, receiving: %v", err)
		}
		if err := atEOF(r); err != nil {
			p.failed("acceptor, end: %v", err)
		}
	}
	w.Close()
}

// endOf ends one direction.
func endOf(w io.WriteCloser) error {
	if c, ok := w.(interface{ CloseWrite() error }); ok {
		return c.CloseWrite()
	}
	return w.Close()
}

func TestC34Streams(t *testing.T) {
	l := theLab()
	sizes := []int{0, 1, 2, 1000, 5000, 33000, 70001, 300000, 1000000}
	pieces := []int{1000000, 1, 7, 1000, 1460, 4096, 16384, 65536}
	var nonce int64
	kit.Check(t, "a QUIC connection to a QUIC, TCP or TLS backend (any options for the closing of one side), with 1-8 concurrent streams (in half of the cases, nothing else is sent before all of them have arrived), bidirectional and unidirectional, opened by the client or (QUIC backends) the server, with 0-1000000 bytes in each direction in pieces of any size, ended by either side first or by both, and datagrams of 0-1000 bytes both ways; all the data must arrive on the right stream, unmodified, then its end; the other direction of a stream that the server ends, ends too when the options say so; in the end, one side closes the connection, and the other side is closed; non-trivial: at least 1000 bytes or a datagram go through", func(t *rapid.T, s *kit.Stats) {
		l.reset()
		mode := rapid.SampledFrom([]string{"QUIC", "QUIC", "TCP", "TLS"}).Draw(t, "mode")
		serverClose := rapid.SampledFrom([]*bool{nil, nil, ptr(true), ptr(false)}).Draw(t, "serverclose")
		clientClose := rapid.SampledFrom([]*bool{nil, nil, nil, ptr(false)}).Draw(t, "clientclose")
		sc := mode != "QUIC"
		if serverClose != nil {
			sc = *serverClose
		}
		be := &Backend{ServerNames: []string{"www.example.com"}, Mode: mode, ForwardRateLimit: 100000, Addresses: []string{l.ups[0].addr}, InsecureSkipVerify: true, ALPNProtos: &[]string{"x"},
			ServerCloseEndsConnection: serverClose, ClientCloseEndsConnection: clientClose}
		cfg := l.cfg(true)
		if rapid.IntRange(0, 3).Draw(t, "limit") == 0 {
			cfg.BWLimits = []*BWLimit{{Name: "bw", Ingress: 100000000, Egress: 100000000}}
			be.BWLimit = "bw"
		}
		cfg.Backends = append(cfg.Backends, be)
		if err := l.p.Reconfigure(cfg); err != nil {
			t.Fatalf("configuration refused: %v", err)
		}
		plans := map[uint32]*c34Stream{}
		var list []*c34Stream
		what := fmt.Sprintf("%s server close ends=%v limit=%q:", mode, sc, be.BWLimit)
		total := 0
		for i := range rapid.IntRange(1, 8).Draw(t, "streams") {
			p := &c34Stream{id: uint32(i), sc: sc, initDone: make(chan struct{}), accDone: make(chan struct{}), buf: rapid.SampledFrom([]int{65536, 1, 1000, 4096}).Draw(t, "buf")}
			p.kind = "client bidi"
			if mode == "QUIC" {
				p.kind = rapid.SampledFrom([]string{"client bidi", "client bidi", "client uni", "server bidi", "server uni"}).Draw(t, "kind")
			}
			p.order = rapid.SampledFrom([]string{"initiator", "both", "acceptor"}).Draw(t, "order")
			if p.kind == "server bidi" && p.order == "acceptor" {
				// Who is the server here?
				p.order = "initiator"
			}
			g := func(label string) flow {
				n := rapid.SampledFrom(sizes).Draw(t, label)
				f := flow{pieces: rapid.SliceOfN(rapid.SampledFrom(pieces), 1, 3).Draw(t, "pieces")}
				small := n / 500
				if p.buf < 1000 {
					n = min(n, 5000)
				}
				for i := range f.pieces {
					f.pieces[i] = max(f.pieces[i], small)
				}
				nonce++
				f.data = streamBytes(nonce<<20+int64(kit.Seed()), n)
				total += n
				return f
			}
			p.out = g("out")
			if p.kind == "client uni" || p.kind == "server uni" {
				p.order = ""
			} else {
				p.in = g("in")
			}
			plans[p.id] = p
			list = append(list, p)
			what += " " + p.String()
		}
		if rapid.Bool().Draw(t, "all at once") {
			g := &streamGate{open: make(chan struct{})}
			g.left.Store(int64(len(list)))
			for _, p := range list {
				p.gate = g
			}
			what += " all open at once"
		}
		// find reads the header.
		find := func(r io.Reader) *c34Stream {
			var hdr [4]byte
			if _, err := io.ReadFull(r, hdr[:]); err != nil {
				return nil
			}
			return plans[binary.BigEndian.Uint32(hdr[:])]
		}
		up := make(chan quic.Connection, 10)
		l.quicUps(func(_ int, c quic.Connection) { up <- c })
		var mu sync.Mutex
		var ends []net.Conn
		l.ups[0].handle(func(vc *vconn) {
			var c net.Conn = vc.Conn
			if mode == "TLS" {
				tc := l.cm.TLSConfig()
				tc.NextProtos = []string{"x"}
				c = tls.Server(c, tc)
			}
			c.SetDeadline(time.Now().Add(patience))
			mu.Lock()
			ends = append(ends, c)
			mu.Unlock()
			p := find(c)
			if p == nil {
				c.Close()
				return
			}
			p.accept(c, c)
		})
		datagrams := rapid.Bool().Draw(t, "datagrams")
		c, err := l.dialQUIC(net.IPv4(127, 0, 0, 1), clientTLS("www.example.com", "x"), &quic.Config{EnableDatagrams: datagrams})
		if err != nil {
			t.Fatalf("connection refused: %v: %s", err, what)
		}
		defer c.CloseWithError(0, "")
		ctx, cancel := context.WithTimeout(context.Background(), patience)
		defer cancel()
		serve := func(c quic.Connection) {
			go func() {
				for {
					st, err := c.AcceptStream(context.Background())
					if err != nil {
						return
					}
					st.SetDeadline(time.Now().Add(patience))
					go func() {
						if p := find(st); p != nil {
							p.accept(st, st)
						}
					}()
				}
			}()
			go func() {
				for {
					st, err := c.AcceptUniStream(context.Background())
					if err != nil {
						return
					}
					st.SetReadDeadline(time.Now().Add(patience))
					go func() {
						if p := find(st); p != nil {
							p.accept(st, nil)
						}
					}()
				}
			}()
		}
		var uc quic.Connection
		if mode == "QUIC" {
			select {
			case uc = <-up:
			case <-ctx.Done():
				t.Fatalf("the backend got no connection: %s", what)
			}
			serve(uc)
			defer uc.CloseWithError(0, "")
		}
		serve(c)
		streams := make([]quic.Stream, len(list))
		for i, p := range list {
			from := c
			if p.kind == "server bidi" || p.kind == "server uni" {
				from = uc
			}
			if p.kind == "client uni" || p.kind == "server uni" {
				st, err := from.OpenUniStreamSync(ctx)
				if err != nil {
					t.Fatalf("can't open stream: %v: %s", err, what)
				}
				st.SetWriteDeadline(time.Now().Add(patience))
				go p.initiate(nil, st)
				continue
			}
			st, err := from.OpenStreamSync(ctx)
			if err != nil {
				t.Fatalf("can't open stream: %v: %s", err, what)
			}
			st.SetDeadline(time.Now().Add(patience))
			streams[i] = st
			go p.initiate(st, st)
		}
		gotDatagram := false
		if datagrams && mode == "QUIC" {
			what += " datagrams"
			gotDatagram = true
			for _, d := range []struct {
				name     string
				from, to quic.Connection
			}{{"to the server", c, uc}, {"to the client", uc, c}} {
				if !d.from.ConnectionState().SupportsDatagrams || !d.to.ConnectionState().SupportsDatagrams {
					t.Fatalf("datagrams aren't supported %s: %s", d.name, what)
				}
				sent := map[string]int{}
				ch := make(chan string)
				dctx, dcancel := context.WithCancel(ctx)
				go func() {
					for {
						b, err := d.to.ReceiveDatagram(dctx)
						if err != nil {
							close(ch)
							return
						}
						ch <- string(b)
					}
				}()
				n := rapid.IntRange(1, 5).Draw(t, "n")
				var msgs [][]byte
				for range n {
					nonce++
					msgs = append(msgs, streamBytes(nonce, rapid.SampledFrom([]int{0, 1, 8, 100, 999, 1000}).Draw(t, "size")))
				}
				arrived := 0
				tick := time.NewTicker(200 * time.Millisecond)
				send := func() {
					for _, m := range msgs {
						sent[string(m)]++
						if err := d.from.SendDatagram(m); err != nil {
							t.Fatalf("can't send a datagram: %v: %s", err, what)
						}
					}
				}
				send()
				for arrived < n {
					select {
					case m, ok := <-ch:
						if !ok {
							t.Fatalf("no datagram gets %s: %s", d.name, what)
						}
						if sent[m]--; sent[m] < 0 {
							t.Fatalf("a datagram of %d bytes gets %s that wasn't sent: %s", len(m), d.name, what)
						}
						arrived++
					case <-tick.C:
						// They may get lost.
						send()
					}
				}
				tick.Stop()
				dcancel()
				for range ch {
				}
			}
		}
		wait := func(ch chan struct{}, p *c34Stream, who string) {
			select {
			case <-ch:
			case <-time.After(patience + 5*time.Second):
				t.Fatalf("the %s of stream %d hangs: %s", who, p.id, what)
			}
		}
		for i, p := range list {
			wait(p.initDone, p, "initiator")
			if f := p.fail.Load(); f != nil {
				t.Fatalf("stream %v: %v: %s", p, *f, what)
			}
			wait(p.accDone, p, "acceptor")
			if f := p.fail.Load(); f != nil {
				t.Fatalf("stream %v: %v: %s", p, *f, what)
			}
			if p.order != "acceptor" || !sc {
				continue
			}
			st := streams[i]
			{
				// The client may not send anymore.
				select {
				case <-st.Context().Done():
				case <-time.After(patience):
					t.Fatalf("stream %v: the server ended it, which ends the other direction too, but the client can still send: %s", p, what)
				}
				var se *quic.StreamError
				if _, err := st.Write([]byte("x")); !errors.As(err, &se) {
					t.Fatalf("stream %v: the server ended it, but the client can still send (%v): %s", p, err, what)
				}
			}
		}
		// In the end, the connections are closed.
		how := rapid.SampledFrom([]string{"client", "server"}).Draw(t, "close")
		what += " closed by the " + how
		if mode != "QUIC" {
			c.CloseWithError(0, "")
			mu.Lock()
			defer mu.Unlock()
			for _, e := range ends {
				e.SetDeadline(time.Now().Add(patience))
				if _, err := io.Copy(io.Discard, e); isTimeout(err) {
					t.Fatalf("a connection to the server stays open: %s", what)
				}
				e.Close()
			}
		} else {
			x, y := c, uc
			if how == "server" {
				x, y = y, x
			}
			x.CloseWithError(0, "")
			if ending(y) == nil {
				t.Fatalf("the other connection stays open: %s", what)
			}
		}
		key := ""
		if total >= 1000 || gotDatagram {
			key = what
		}
		s.Class(mode)
		for _, p := range list {
			s.Class(fmt.Sprintf("%s %s end: %s", mode, p.kind, p.order))
		}
		s.Case(key, func() string { return what })
	})
}
