package proxy

import (
	"context"
	"net"
	"sync/atomic"

	"github.com/quic-go/quic-go"
)

// When this file is part of the suite, the clients use QUIC too.
func init() {
	var seq atomic.Int64
	countsQUIC = func(l *vlab, kind, host string) (*countConn, error) {
		// The address tells which one it is.
		c, err := l.dialQUIC(net.IPv4(127, 0, 9, byte(seq.Add(1)%100)), clientTLS(host, "x"), &quic.Config{})
		if err != nil {
			return nil, err
		}
		t := &tallied{Conn: &h3conn{c: c}}
		cc := &countConn{kind: kind, host: host, t: t, close: func() { c.CloseWithError(0, "") }}
		cc.exchange = func(n, m int) error {
			// Each with its own stream.
			s, err := c.OpenStream()
			if err != nil {
				return err
			}
			st := &tallied{Conn: quicNetConn{s, c}}
			defer func() {
				t.sent.Add(st.sent.Load())
				t.got.Add(st.got.Load())
			}()
			if err := countExchange(st)(n, m); err != nil {
				return err
			}
			return s.Close()
		}
		cc.end = func() error { return c.CloseWithError(0, "") }
		return cc, nil
	}
	countsQUICUps = func(l *vlab) {
		l.quicUps(func(_ int, c quic.Connection) {
			for {
				s, err := c.AcceptStream(context.Background())
				if err != nil {
					return
				}
				go countEcho(s)
			}
		})
	}
}
