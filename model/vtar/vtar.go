// Package zz_vtar models archive/tar as lossless framing with the real package's contract:
// an entry must get exactly the announced number of bytes, and the archive its trailer.
package zz_vtar

import (
	real "archive/tar"
	"errors"
	"io"
)

type Header = real.Header

const (
	magic = "TAR!"
	trail = "TEND"
)

type wstate struct {
	w      io.Writer
	left   int64
	closed bool
	err    error
}

type Writer struct{ s *wstate }

func NewWriter(w io.Writer) *Writer { return &Writer{&wstate{w: w}} }

func (t *Writer) Flush() error {
	s := t.s
	if s.err != nil {
		return s.err
	}
	if s.left > 0 {
		return errors.New("archive/tar: missed writing bytes")
	}
	return nil
}

func (t *Writer) WriteHeader(h *Header) error {
	if err := t.Flush(); err != nil {
		return err
	}
	s := t.s
	if s.closed {
		return real.ErrWriteAfterClose
	}
	if h.Size < 0 || len(h.Name) > 60000 {
		return real.ErrHeader
	}
	n := h.Size
	b := []byte(magic)
	tf := h.Typeflag
	if tf == 0 {
		tf = real.TypeReg
		if len(h.Name) > 0 && h.Name[len(h.Name)-1] == '/' {
			tf = real.TypeDir
		}
	}
	b = append(b, tf, byte(h.Mode>>8), byte(h.Mode), byte(n>>24), byte(n>>16), byte(n>>8), byte(n), byte(len(h.Name)>>8), byte(len(h.Name)))
	b = append(b, h.Name...)
	if _, s.err = s.w.Write(b); s.err != nil {
		return s.err
	}
	s.left = n
	if tf != real.TypeReg {
		s.left = 0
	}
	return nil
}

func (t *Writer) Write(p []byte) (int, error) {
	s := t.s
	if s.err != nil {
		return 0, s.err
	}
	if s.closed {
		return 0, real.ErrWriteAfterClose
	}
	var e error
	if int64(len(p)) > s.left {
		p = p[:s.left]
		e = real.ErrWriteTooLong
	}
	n := 0
	if len(p) > 0 {
		n, s.err = s.w.Write(p)
		s.left -= int64(n)
	}
	if s.err != nil {
		return n, s.err
	}
	return n, e
}

func (t *Writer) Close() error {
	s := t.s
	if s.closed {
		return nil
	}
	if err := t.Flush(); err != nil {
		if s.err == nil {
			s.err = err
		}
		return err
	}
	s.closed = true
	_, s.err = s.w.Write([]byte(trail))
	return s.err
}

type rstate struct {
	r    io.Reader
	left int64
	err  error
}

type Reader struct{ s *rstate }

func NewReader(r io.Reader) *Reader { return &Reader{&rstate{r: r}} }

func (t *Reader) Next() (*Header, error) {
	s := t.s
	if s.err != nil {
		return nil, s.err
	}
	h, err := s.next()
	if err != nil {
		s.err = err
	}
	return h, err
}

func (s *rstate) next() (*Header, error) {
	if s.left > 0 {
		if _, err := io.ReadFull(s.r, make([]byte, s.left)); err != nil {
			return nil, short(err)
		}
		s.left = 0
	}
	b := make([]byte, 4)
	if _, err := io.ReadFull(s.r, b); err != nil {
		return nil, err
	}
	if string(b) == trail {
		return nil, io.EOF
	}
	if string(b) != magic {
		return nil, real.ErrHeader
	}
	h := make([]byte, 9)
	if _, err := io.ReadFull(s.r, h); err != nil {
		return nil, short(err)
	}
	name := make([]byte, int(h[7])<<8|int(h[8]))
	if _, err := io.ReadFull(s.r, name); err != nil {
		return nil, short(err)
	}
	size := int64(h[3])<<24 | int64(h[4])<<16 | int64(h[5])<<8 | int64(h[6])
	hd := &Header{Typeflag: h[0], Mode: int64(h[1])<<8 | int64(h[2]), Size: size, Name: string(name)}
	s.left = size
	if h[0] != real.TypeReg {
		s.left = 0
	}
	return hd, nil
}

func (t *Reader) Read(p []byte) (int, error) {
	s := t.s
	if s.err != nil {
		return 0, s.err
	}
	if s.left == 0 {
		return 0, io.EOF
	}
	if int64(len(p)) > s.left {
		p = p[:s.left]
	}
	n, err := s.r.Read(p)
	s.left -= int64(n)
	if err == io.EOF {
		err = nil
		if s.left > 0 {
			err = io.ErrUnexpectedEOF
		}
	}
	if err != nil {
		s.err = err
	}
	return n, err
}

func short(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}
