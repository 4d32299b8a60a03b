package proxy

import (
	"bytes"
	"fmt"
	"io"
)

// flow is one direction of a stream.
type flow struct {
	data   []byte
	pieces []int
}

func (f *flow) String() string { return fmt.Sprintf("%d bytes in %v", len(f.data), f.pieces) }

func (f *flow) send(w io.Writer) error {
	b := f.data
	for i := 0; len(b) > 0; i++ {
		n := min(len(b), f.pieces[i%len(f.pieces)])
		if _, err := w.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

// expect reads all of the flow, without its end.
func (f *flow) expect(r io.Reader, buf int) error {
	got := make([]byte, 0, len(f.data))
	b := make([]byte, buf)
	for len(got) < len(f.data) {
		n, err := r.Read(b[:min(buf, len(f.data)-len(got))])
		got = append(got, b[:n]...)
		if err != nil && len(got) < len(f.data) {
			return fmt.Errorf("%d of %d bytes, then %w", len(got), len(f.data), err)
		}
	}
	if !bytes.Equal(got, f.data) {
		return fmt.Errorf("%d bytes are wrong", len(got))
	}
	return nil
}
