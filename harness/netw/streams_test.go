package verif_netw

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"testing"
	"time"

	"golang.org/x/time/rate"
	"pgregory.net/rapid"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	kit "github.com/c2FmZQ/tlsproxy/proxy/internal/verifkit"
)

func TestC22Conn(t *testing.T) {
	kit.Check(t, "histories, in virtual time, of one connection whose peer sends pieces of 1 to 40000 bytes, and reads, with pauses of up to a day, while the proxy peeks at the beginning, reads with buffers of any size, pauses, and writes, with or without bandwidth limits; the bytes that are read must be those that were sent, in order, then the end, whatever the pauses, and the same the other way; non-trivial: there is a pause after a peek, or several peeks", func(t *rapid.T, s *kit.Stats) {
		pause := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 5000), rapid.IntRange(0, 86400000)) // ms
		type piece struct{ Wait, Size int }
		pieces := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) piece {
			return piece{pause.Draw(t, "wait"), rapid.OneOf(rapid.IntRange(1, 50), rapid.IntRange(1, 40000)).Draw(t, "size")}
		}), 0, 6)
		in, out := pieces.Draw(t, "in"), pieces.Draw(t, "out")
		peeks := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) piece {
			return piece{pause.Draw(t, "wait"), rapid.OneOf(rapid.IntRange(1, 60), rapid.IntRange(1, 60000)).Draw(t, "size")}
		}), 0, 3).Draw(t, "peeks")
		readBuf := rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 40000)).Draw(t, "readBuf")
		readWait := pause.Draw(t, "readWait")
		limited := rapid.Bool().Draw(t, "limited")

		total := 0
		for _, p := range in {
			total += p.Size
		}
		stream := make([]byte, total)
		for i := range stream {
			stream[i] = byte(i*7 + i/251)
		}
		failed := ""
		var outGot, outWant []byte
		kit.Bubble(func() {
			a, b := net.Pipe()
			c := netw.NewConn(a)
			if limited {
				c.SetLimiters(rate.NewLimiter(10000, 50000), rate.NewLimiter(10000, 50000))
			}
			done := make(chan bool)
			go func() { // The peer sends.
				defer close(done)
				rest := stream
				for _, p := range in {
					time.Sleep(time.Duration(p.Wait) * time.Millisecond)
					if _, err := b.Write(rest[:p.Size]); err != nil {
						failed = fmt.Sprintf("the peer's write: %v", err)
						break
					}
					rest = rest[p.Size:]
				}
			}()
			outDone := make(chan bool)
			go func() { // The peer receives.
				defer close(outDone)
				want := 0
				for _, p := range out {
					want += p.Size
				}
				buf := make([]byte, want)
				n, _ := io.ReadFull(b, buf)
				outGot = buf[:n]
			}()
			writeErr := make(chan error, 1)
			go func() {
				for i, p := range out {
					time.Sleep(time.Duration(p.Wait) * time.Millisecond)
					w := bytes.Repeat([]byte{byte('a' + i)}, p.Size)
					outWant = append(outWant, w...)
					if n, err := c.Write(w); n != len(w) || err != nil {
						writeErr <- fmt.Errorf("Write(%d) = %d, %v", len(w), n, err)
						return
					}
				}
				writeErr <- nil
			}()
			for _, p := range peeks {
				time.Sleep(time.Duration(p.Wait) * time.Millisecond)
				buf := make([]byte, p.Size)
				n, err := c.Peek(buf)
				if n > total || !bytes.Equal(buf[:n], stream[:n]) {
					failed = fmt.Sprintf("Peek(%d) returned other bytes (%d) than those sent", p.Size, n)
					break
				}
				if (err == nil) != (n == p.Size) {
					failed = fmt.Sprintf("Peek(%d) = %d, %v", p.Size, n, err)
					break
				}
			}
			var got []byte
			buf := make([]byte, readBuf)
			for failed == "" && len(got) < total {
				n, err := c.Read(buf)
				got = append(got, buf[:n]...)
				if err != nil {
					failed = fmt.Sprintf("Read after %d of %d bytes: %v", len(got), total, err)
					break
				}
				if n > 0 && len(got) < 10*readBuf {
					time.Sleep(time.Duration(readWait) * time.Millisecond)
				}
			}
			if failed == "" {
				if err := <-writeErr; err != nil {
					failed = err.Error()
				}
			}
			if failed == "" {
				<-outDone
				<-done
				go func() {
					time.Sleep(time.Duration(readWait) * time.Millisecond)
					b.Close()
				}()
				if n, err := c.Read(buf); n != 0 || !errors.Is(err, io.EOF) {
					if errors.Is(err, os.ErrDeadlineExceeded) {
						failed = "the wait for the end times out"
					} else {
						failed = fmt.Sprintf("Read at the end = %d, %v", n, err)
					}
				} else if !bytes.Equal(got, stream) {
					failed = "the bytes read aren't those sent"
				} else if !bytes.Equal(outGot, outWant) {
					failed = "the bytes received by the peer aren't those written"
				}
			}
			c.Close()
			b.Close()
			<-done
			<-outDone
		})
		if failed != "" {
			t.Fatalf("%s", failed)
		}
		key := ""
		if len(peeks) > 0 && (len(peeks) > 1 || readWait > 0) {
			key = fmt.Sprint(in, out, peeks, readBuf, readWait, limited)
		}
		s.Case(key, func() string {
			return fmt.Sprintf("in %v out %v peeks %v readBuf %d readWait %d ms limited %v", in, out, peeks, readBuf, readWait, limited)
		})
	})
}
