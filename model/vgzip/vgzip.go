// Package zz_vgzip models compress/gzip as lossless framing: a header is written with the
// first byte, the data when the stream is flushed or closed, and a stream that was never
// closed does not read back.
package zz_vgzip

import (
	real "compress/gzip"
	"errors"
	"io"
)

type Header = real.Header

const magic = "\x1f\x8bGZ"

type wstate struct {
	w      io.Writer
	buf    []byte
	header bool
	closed bool
	err    error
}

// Writer may be copied before its first use, like the real one.
type Writer struct {
	Header
	s     *wstate
	level int
}

func NewWriter(w io.Writer) *Writer { return &Writer{s: &wstate{w: w}} }

func NewWriterLevel(w io.Writer, level int) (*Writer, error) {
	if level < real.HuffmanOnly || level > real.BestCompression {
		return nil, errors.New("gzip: invalid compression level")
	}
	return NewWriter(w), nil
}

func (z *Writer) Reset(w io.Writer) { z.s = &wstate{w: w} }

func (z *Writer) head() error {
	s := z.s
	if s.err != nil {
		return s.err
	}
	if !s.header {
		s.header = true
		_, s.err = s.w.Write([]byte(magic))
	}
	return s.err
}

func (z *Writer) Write(p []byte) (int, error) {
	if z.s.closed {
		return 0, errors.New("gzip: write to closed writer")
	}
	if err := z.head(); err != nil {
		return 0, err
	}
	z.s.buf = append(z.s.buf, p...)
	return len(p), nil
}

func (z *Writer) Flush() error {
	if z.s.closed {
		return nil
	}
	if err := z.head(); err != nil {
		return err
	}
	return z.s.data()
}

func (s *wstate) data() error {
	for len(s.buf) > 0 && s.err == nil {
		n := len(s.buf)
		if n > 60000 {
			n = 60000
		}
		f := []byte{'D', byte(n >> 8), byte(n)}
		f = append(f, s.buf[:n]...)
		s.buf = s.buf[n:]
		_, s.err = s.w.Write(f)
	}
	return s.err
}

func (z *Writer) Close() error {
	if z.s.err != nil {
		return z.s.err
	}
	if z.s.closed {
		return nil
	}
	z.s.closed = true
	if err := z.head(); err != nil {
		return err
	}
	if err := z.s.data(); err != nil {
		return err
	}
	_, z.s.err = z.s.w.Write([]byte{'E'})
	return z.s.err
}

type rstate struct {
	r    io.Reader
	left int
	err  error
}

type Reader struct {
	Header
	s *rstate
}

func NewReader(r io.Reader) (*Reader, error) {
	z := &Reader{}
	if err := z.Reset(r); err != nil {
		return nil, err
	}
	return z, nil
}

func (z *Reader) Multistream(ok bool) {}

func (z *Reader) Reset(r io.Reader) error {
	z.s = &rstate{r: r}
	b := make([]byte, len(magic))
	n, err := io.ReadFull(r, b)
	if err == io.EOF {
		z.s.err = io.EOF
		return io.EOF
	}
	if err != nil && n > 0 && err != io.ErrUnexpectedEOF {
		z.s.err = err
		return err
	}
	if err != nil || string(b) != magic {
		if err != nil && err != io.ErrUnexpectedEOF {
			z.s.err = err
			return err
		}
		z.s.err = real.ErrHeader
		return real.ErrHeader
	}
	return nil
}

func (z *Reader) Read(p []byte) (int, error) {
	s := z.s
	if s.err != nil {
		return 0, s.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	for s.left == 0 {
		b := make([]byte, 1)
		if _, err := io.ReadFull(s.r, b); err != nil {
			return s.fail(err)
		}
		switch b[0] {
		case 'E':
			s.err = io.EOF
			return 0, io.EOF
		case 'D':
			l := make([]byte, 2)
			if _, err := io.ReadFull(s.r, l); err != nil {
				return s.fail(err)
			}
			s.left = int(l[0])<<8 | int(l[1])
		default:
			s.err = real.ErrChecksum
			return 0, s.err
		}
	}
	if len(p) > s.left {
		p = p[:s.left]
	}
	n, err := s.r.Read(p)
	s.left -= n
	if err == io.EOF && n > 0 {
		err = nil
	}
	if err != nil {
		return s.fail(err)
	}
	return n, nil
}

func (s *rstate) fail(err error) (int, error) {
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	s.err = err
	return 0, err
}

func (z *Reader) Close() error { return nil }
