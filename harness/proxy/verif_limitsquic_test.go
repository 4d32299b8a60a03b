package proxy

import (
	"context"
	"crypto/tls"
	"io"
	"net"
	"net/http"
	"time"

	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

// limStream is the only stream of a connection.
type limStream struct{ quicNetConn }

func (s limStream) Close() error {
	s.Stream.CancelRead(0)
	return s.c.CloseWithError(0, "")
}

// When this file is part of the suite, the clients use QUIC too.
func init() {
	limQUICConn = func(l *vlab, host string) (net.Conn, error) {
		c, err := l.dialQUIC(net.IPv4(127, 0, 0, 1), clientTLS(host, "x"), &quic.Config{KeepAlivePeriod: 2 * time.Second})
		if err != nil {
			return nil, err
		}
		s, err := c.OpenStream()
		if err != nil {
			c.CloseWithError(0, "")
			return nil, err
		}
		s.SetDeadline(time.Now().Add(2 * patience))
		return limStream{quicNetConn{s, c}}, nil
	}
	limQUICClient = func(l *vlab, host string) (func(req *http.Request) (*http.Response, error), func(), error) {
		rt := &http3.RoundTripper{
			TLSClientConfig: clientTLS(host, "h3"),
			QUICConfig:      &quic.Config{KeepAlivePeriod: 2 * time.Second},
			Dial: func(ctx context.Context, _ string, tc *tls.Config, qc *quic.Config) (quic.EarlyConnection, error) {
				return quicTransportFor(net.IPv4(127, 0, 0, 1)).DialEarly(ctx, l.quicAddr(), tc, qc)
			},
		}
		return rt.RoundTrip, func() { rt.Close() }, nil
	}
	limQUICUps = func(l *vlab, serve func(c io.ReadWriteCloser)) {
		l.quicUps(func(_ int, c quic.Connection) {
			for {
				s, err := c.AcceptStream(context.Background())
				if err != nil {
					return
				}
				go func() {
					serve(s)
					s.CancelRead(0)
				}()
			}
		})
	}
}
