// Package zz_vzip models archive/zip as lossless framing with the real package's contract:
// everything is buffered until the writer is closed, and an archive without its directory
// does not open.
package zz_vzip

import (
	real "archive/zip"
	"bytes"
	"errors"
	"io"
)

type FileHeader = real.FileHeader

const (
	magic = "PKZ!"
	trail = "PEND"
)

type entry struct {
	name   string
	data   []byte
	closed bool
	dir    bool
}

type wstate struct {
	w      io.Writer
	ents   []*entry
	closed bool
}

type Writer struct{ s *wstate }

func NewWriter(w io.Writer) *Writer { return &Writer{&wstate{w: w}} }

func (z *Writer) Flush() error { return nil }

func (z *Writer) SetComment(c string) error { return nil }

func (z *Writer) Create(name string) (io.Writer, error) {
	return z.CreateHeader(&FileHeader{Name: name})
}

func (z *Writer) CreateHeader(h *FileHeader) (io.Writer, error) {
	s := z.s
	if n := len(s.ents); n > 0 {
		s.ents[n-1].closed = true
	}
	e := &entry{name: h.Name, dir: len(h.Name) > 0 && h.Name[len(h.Name)-1] == '/'}
	s.ents = append(s.ents, e)
	return e, nil
}

func (e *entry) Write(p []byte) (int, error) {
	if e.closed {
		return 0, errors.New("zip: write to closed file")
	}
	if e.dir {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, errors.New("zip: write to directory")
	}
	e.data = append(e.data, p...)
	return len(p), nil
}

func (z *Writer) Close() error {
	s := z.s
	if s.closed {
		return errors.New("zip: writer closed twice")
	}
	s.closed = true
	b := []byte(magic)
	for _, e := range s.ents {
		e.closed = true
		n := len(e.data)
		b = append(b, 'E', byte(len(e.name)>>8), byte(len(e.name)), byte(n>>16), byte(n>>8), byte(n))
		b = append(b, e.name...)
		b = append(b, e.data...)
	}
	b = append(b, trail...)
	_, err := s.w.Write(b)
	return err
}

type File struct {
	FileHeader
	data []byte
	zr   *bytes.Reader
}

type Reader struct {
	File    []*File
	Comment string
}

type ReadCloser struct {
	f io.Closer
	Reader
}

func NewReader(r io.ReaderAt, size int64) (*Reader, error) {
	if size < 0 {
		return nil, errors.New("zip: size cannot be negative")
	}
	b := make([]byte, size)
	if size > 0 {
		if n, err := r.ReadAt(b, 0); n < len(b) {
			if err == nil || err == io.EOF {
				err = real.ErrFormat
			}
			return nil, err
		}
	}
	if len(b) < 8 || string(b[:4]) != magic || string(b[len(b)-4:]) != trail {
		return nil, real.ErrFormat
	}
	z := &Reader{}
	b = b[4 : len(b)-4]
	for len(b) > 0 {
		if len(b) < 6 || b[0] != 'E' {
			return nil, real.ErrFormat
		}
		ln, n := int(b[1])<<8|int(b[2]), int(b[3])<<16|int(b[4])<<8|int(b[5])
		b = b[6:]
		if len(b) < ln+n {
			return nil, real.ErrFormat
		}
		f := &File{data: b[ln : ln+n : ln+n]}
		f.Name = string(b[:ln])
		f.UncompressedSize64 = uint64(n)
		z.File = append(z.File, f)
		b = b[ln+n:]
	}
	return z, nil
}

func (f *File) Open() (io.ReadCloser, error) { return &fileReader{r: bytes.NewReader(f.data)}, nil }

type fileReader struct {
	r      *bytes.Reader
	closed bool
}

func (f *fileReader) Read(p []byte) (int, error) {
	if f.closed {
		return 0, errors.New("zip: read from closed file")
	}
	return f.r.Read(p)
}

func (f *fileReader) Close() error {
	f.closed = true
	return nil
}
