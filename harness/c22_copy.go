package internal

import (
	"bytes"
	"errors"
	"io"
	"io/ioutil"

	"github.com/xtfly/log4g/internal/archive"
	agzip "github.com/xtfly/log4g/internal/archive/gzip"
	atar "github.com/xtfly/log4g/internal/archive/tar"
	azip "github.com/xtfly/log4g/internal/archive/zip"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: the zip, gzip and tar encoders and decoders of the standard library are lossless (modelled by a framing with the contract of the real packages, which fails on truncated input); entries are files, gzip holds one entry whose name is what the reader was told; names and contents are of the bounded length.

const (
	zz22Zip = iota
	zz22Tar
	zz22Gzip
)

// zz22Src reads in pieces and may fail after some bytes.
type zz22Src struct {
	b      []byte
	off    int
	piece  int
	failAt int // -1: never
	eof    bool
}

var errZZ22 = errors.New("zz: failing")

func (s *zz22Src) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(s.b) - s.off
	if s.failAt >= 0 && s.failAt < len(s.b) {
		n = s.failAt - s.off
		if n <= 0 {
			return 0, errZZ22
		}
	}
	if n == 0 {
		return 0, io.EOF
	}
	if s.piece > 0 && n > s.piece {
		n = s.piece
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.b[s.off:s.off+n])
	s.off += n
	if s.eof && s.off == len(s.b) {
		return n, io.EOF
	}
	return n, nil
}

func (s *zz22Src) ReadAt(p []byte, off int64) (int, error) {
	n := copy(p, s.b[off:])
	if s.failAt >= 0 && int(off)+n > s.failAt {
		return 0, errZZ22
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// zz22Dst fails at its n-th write.
type zz22Dst struct {
	bytes.Buffer
	failAt, n int
}

func (d *zz22Dst) Write(p []byte) (int, error) {
	d.n++
	if d.failAt > 0 && d.n >= d.failAt {
		return 0, errZZ22
	}
	return d.Buffer.Write(p)
}

type zz22Entry struct {
	Name string
	Data []byte
}

func zz22Writer(kind int, w io.Writer) archive.WriteCloser {
	switch kind {
	case zz22Zip:
		return azip.NewWriter(w)
	case zz22Tar:
		return atar.NewWriter(w)
	}
	return agzip.NewWriter(w)
}

func zz22Reader(kind int, s *zz22Src, name string) (archive.Reader, error) {
	switch kind {
	case zz22Zip:
		r, err := azip.NewReader(s, int64(len(s.b)))
		if err != nil {
			return nil, err
		}
		return r, nil
	case zz22Tar:
		return atar.NewReader(s), nil
	}
	r, err := agzip.NewReader(s, name)
	if err != nil {
		return nil, err
	}
	return r, nil
}

// zz22Make writes an archive of the entries.
func zz22Make(kind int, ents []zz22Entry) []byte {
	var out bytes.Buffer
	w := zz22Writer(kind, &out)
	for i, e := range ents {
		p := "/src" + zzItoa(i)
		vos.Put(p, e.Data, 0640)
		fi, err := vos.Stat(p)
		v.Assert(err == nil, "made")
		v.Assert(w.NextFile(e.Name, fi) == nil, "written")
		h := len(e.Data) / 2
		for _, b := range [][]byte{e.Data[:h], e.Data[h:]} {
			n, err := w.Write(b)
			v.Assert(err == nil && n == len(b), "written")
		}
	}
	v.Assert(w.Close() == nil, "written")
	return out.Bytes()
}

// zz22Read reads all entries.
func zz22Read(kind int, s *zz22Src, name string) (ents []zz22Entry, err error) {
	r, err := zz22Reader(kind, s, name)
	if err != nil {
		return nil, err
	}
	for {
		n, err := r.NextFile()
		if err == io.EOF {
			_, err = r.NextFile()
			v.Assert(err == io.EOF, "stays-at-end")
			return ents, nil
		}
		if err != nil {
			return nil, err
		}
		b, err := ioutil.ReadAll(r)
		if err != nil {
			return nil, err
		}
		ents = append(ents, zz22Entry{n, b})
	}
}

func zz22Same(got, want []zz22Entry, label string) {
	v.Assert(len(got) == len(want), label+"-count")
	for i := range got {
		if i >= len(want) {
			return
		}
		v.Observe("entry", got[i].Name, want[i].Name, len(got[i].Data), len(want[i].Data))
		v.Assert(got[i].Name == want[i].Name, label+"-name")
		v.Assert(zzEqual(got[i].Data, want[i].Data), label+"-content")
	}
}

// zz22Entries are n entries with any names and contents.
func zz22Entries(n int) []zz22Entry {
	var r []zz22Entry
	suf := []string{"", ".log.gz", ".tar"}[v.Choose("suffix", 3)]
	for i := 0; i < n; i++ {
		name := "d/" + v.String("name", 1) + suf
		v.Assume(name[2] != '/')
		r = append(r, zz22Entry{name, v.Bytes("data", v.Choose("len", v.Bound("data", 4, 5)))})
	}
	return r
}

func zz22Count(kind, max int) int {
	if kind == zz22Gzip {
		return 1
	}
	return v.Choose("entries", max+1)
}

// what a writer wrote reads back
// zz: cover=two,none
func ZZRoundTrip() {
	vos.Reset()
	kind := v.Choose("kind", 3)
	n := zz22Count(kind, v.Bound("entries", 2, 3))
	ents := zz22Entries(n)
	name := "f.log"
	if kind == zz22Gzip {
		name = ents[0].Name
	}
	b := zz22Make(kind, ents)
	got, err := zz22Read(kind, &zz22Src{b: b, failAt: -1, piece: v.Choose("piece", 3), eof: v.Bool("eof")}, name)
	v.Assert(err == nil, "read")
	zz22Same(got, ents, "round-trip")
	if n == 2 {
		v.Cover("two")
	}
	if n == 0 {
		v.Cover("none")
	}
}

// Copy between any formats
// zz: cover=converted,streamed,wrapped,tartar
func ZZCopy() {
	vos.Reset()
	from, to := v.Choose("from", 3), v.Choose("to", 3)
	max := v.Bound("entries", 2, 3)
	if to == zz22Gzip {
		max = 1
	}
	n := 1
	if to != zz22Gzip {
		n = zz22Count(from, max)
	}
	ents := zz22Entries(n)
	name := "told"
	if from == zz22Gzip {
		name = ents[0].Name
	}
	src := &zz22Src{b: zz22Make(from, ents), failAt: -1, piece: v.Choose("piece", 2) * 3, eof: v.Bool("eof")}
	r, err := zz22Reader(from, src, name)
	v.Assert(err == nil, "opened")
	wrapped := v.Bool("wrapped")
	if wrapped {
		rc := archive.NopCloser(r)
		defer func() { v.Assert(rc.Close() == nil, "nop-close") }()
		r = rc
		v.Cover("wrapped")
	}
	var out bytes.Buffer
	w := zz22Writer(to, &out)
	err = archive.Copy(w, r)
	v.Assert(err == nil, "copied")
	v.Assert(w.Close() == nil, "closed")
	if to == zz22Gzip {
		name = ents[0].Name
	}
	got, err := zz22Read(to, &zz22Src{b: out.Bytes(), failAt: -1}, name)
	v.Assert(err == nil, "read-copy")
	zz22Same(got, ents, "copy")
	if from == to {
		v.Cover("streamed")
		if from == zz22Tar && n == 2 {
			v.Cover("tartar")
		}
	} else {
		v.Cover("converted")
	}
}

// adding to an archive that has entries: copied first, then another written
func ZZAppend() {
	vos.Reset()
	from, to := v.Choose("from", 3), v.Choose("to", 2)
	ents := zz22Entries(zz22Count(from, 2))
	r, err := zz22Reader(from, &zz22Src{b: zz22Make(from, ents), failAt: -1}, "d/x")
	v.Assert(err == nil, "opened")
	var out bytes.Buffer
	w := zz22Writer(to, &out)
	v.Assert(archive.Copy(w, r) == nil, "copied")
	more := zz22Entries(1)[0]
	vos.Put("/more", more.Data, 0600)
	fi, _ := vos.Stat("/more")
	v.Assert(w.NextFile(more.Name, fi) == nil, "written")
	_, err = w.Write(more.Data)
	v.Assert(err == nil, "written")
	v.Assert(w.Close() == nil, "closed")
	if from == zz22Gzip {
		ents[0].Name = "d/x"
	}
	got, err := zz22Read(to, &zz22Src{b: out.Bytes(), failAt: -1}, "")
	v.Assert(err == nil, "read-copy")
	zz22Same(got, append(ents, more), "appended")
}

// directories in the source are no entries: they may be dropped, and nothing else is
// zz: cover=between
func ZZDirectories() {
	vos.Reset()
	to := v.Choose("to", 2)
	ents := zz22Entries(2)
	at := v.Choose("at", 3)
	var b bytes.Buffer
	w := atar.NewWriter(&b)
	vos.MkdirAll("/dir", 0750)
	for i := 0; i <= len(ents); i++ {
		if i == at {
			fi, err := vos.Stat("/dir")
			v.Assert(err == nil && w.NextFile("d/", fi) == nil, "directory-written")
		}
		if i == len(ents) {
			break
		}
		vos.Put("/f"+zzItoa(i), ents[i].Data, 0640)
		fi, err := vos.Stat("/f" + zzItoa(i))
		v.Assert(err == nil && w.NextFile(ents[i].Name, fi) == nil, "written")
		_, err = w.Write(ents[i].Data)
		v.Assert(err == nil, "written")
	}
	v.Assert(w.Close() == nil, "written")
	if at == 1 {
		v.Cover("between")
	}
	var out bytes.Buffer
	c := zz22Writer(to, &out)
	v.Assert(archive.Copy(c, atar.NewReader(&zz22Src{b: b.Bytes(), failAt: -1})) == nil, "copied")
	v.Assert(c.Close() == nil, "closed")
	all, err := zz22Read(to, &zz22Src{b: out.Bytes(), failAt: -1}, "")
	v.Assert(err == nil, "read-copy")
	var got []zz22Entry
	for _, e := range all {
		if e.Name != "d/" {
			got = append(got, e)
		}
	}
	zz22Same(got, ents, "copy")
}

// gzip takes one entry; more are refused and not merged
func ZZTooMany() {
	vos.Reset()
	from := v.Choose("from", 2)
	ents := zz22Entries(2)
	// the names are in the message of the error
	ents[0].Name, ents[1].Name = "a", "b"
	r, err := zz22Reader(from, &zz22Src{b: zz22Make(from, ents), failAt: -1}, "")
	v.Assert(err == nil, "opened")
	var out bytes.Buffer
	v.Assert(archive.Copy(agzip.NewWriter(&out), r) != nil, "second-entry-refused")
}

// a source that fails or ends early, a destination that fails, or a failing temporary file
// zz: cover=source,truncated,destination,file
func ZZErrors() {
	vos.Reset()
	from, to := v.Choose("from", 3), v.Choose("to", 3)
	n := 1
	if from != zz22Gzip && to != zz22Gzip {
		n = 1 + v.Choose("entries", 2)
	}
	var ents []zz22Entry
	for i := 0; i < n; i++ {
		ents = append(ents, zz22Entry{"n" + zzItoa(i), []byte("da" + zzItoa(i))[:3-i]})
	}
	b := zz22Make(from, ents)
	src := &zz22Src{b: b, failAt: -1}
	dst := &zz22Dst{}
	what := v.Choose("what", 4)
	failed := true
	switch what {
	case 0:
		src.failAt = v.Choose("at", len(b))
		v.Cover("source")
	case 1:
		src.b = b[:v.Choose("at", len(b))]
		v.Cover("truncated")
	case 2:
		dst.failAt = 1 + v.Choose("write", 4)
		v.Cover("destination")
	case 3:
		vos.FaultBudget = 1
		vos.FaultFilter = func(op, path string) bool { return op != "remove" && op != "close" && op != "chmod" }
	}
	err := func() error {
		r, err := zz22Reader(from, src, "n0")
		if err != nil {
			return err
		}
		if v.Bool("wrapped") {
			r = archive.NopCloser(r)
		}
		w := zz22Writer(to, dst)
		if err := archive.Copy(w, r); err != nil {
			return err
		}
		return w.Close()
	}()
	vos.FaultBudget = 0
	switch what {
	case 2:
		failed = dst.n >= dst.failAt
	case 3:
		failed = vos.FaultCount > 0
		if failed {
			v.Cover("file")
		}
	}
	if what == 1 && from == zz22Tar && len(src.b) < len(b) {
		// an archive that ends between two entries is complete without its trailer (as archive/tar has it)
		got, rerr := zz22Read(from, &zz22Src{b: src.b, failAt: -1}, "n0")
		if rerr == nil {
			failed = false
			ents = got
		}
	}
	if failed {
		v.Observe("error", err == nil)
		v.Assert(err != nil, "error-reported")
	} else {
		v.Assert(err == nil, "no-error-invented")
		if to == zz22Gzip && len(ents) == 0 {
			return // no entry to name
		}
		got, err := zz22Read(to, &zz22Src{b: dst.Bytes(), failAt: -1}, "n0")
		v.Assert(err == nil, "read-copy")
		zz22Same(got, ents, "copy")
	}
}

type zz22Closer struct {
	name string
	err  error
	log  *[]string
	out  *zz22Dst
	got  int
}

func (c *zz22Closer) Close() error {
	*c.log = append(*c.log, c.name)
	c.got = c.out.Len()
	return c.err
}

type zz22WC struct {
	*zz22Dst
	io.Closer
}

// the closers of a tar writer are all closed, in order, after the data, and their errors reported
func ZZMultiClose() {
	vos.Reset()
	var log []string
	d := &zz22Dst{}
	if v.Bool("fails") {
		d.failAt = 1 + v.Choose("write", 3)
	}
	mk := func(n string) *zz22Closer {
		c := &zz22Closer{name: n, log: &log, out: d}
		if v.Bool("closefails") {
			c.err = errors.New(n)
		}
		return c
	}
	a, b := mk("a"), mk("b")
	w := atar.NewWriteMultiCloser(zz22WC{d, a}, a, b)
	vos.Put("/f", []byte("xy"), 0600)
	fi, _ := vos.Stat("/f")
	err := w.NextFile("f", fi)
	if err == nil {
		_, err = w.Write([]byte("xy"))
	}
	cerr := w.Close()
	v.Assert(len(log) == 2 && log[0] == "a" && log[1] == "b", "all-closed-in-order")
	if a.err != nil || b.err != nil || d.failAt > 0 {
		v.Assert(err != nil || cerr != nil, "error-reported")
	} else {
		v.Assert(err == nil && cerr == nil, "no-error-invented")
		v.Assert(a.got == d.Len() && b.got == d.Len(), "closed-after-the-data")
		got, err := zz22Read(zz22Tar, &zz22Src{b: d.Bytes(), failAt: -1}, "")
		v.Assert(err == nil, "read")
		zz22Same(got, []zz22Entry{{"f", []byte("xy")}}, "round-trip")
	}
}

// the reader of a reader: NextFile without reading the entry before, and partial reads
func ZZSkipping() {
	vos.Reset()
	kind := v.Choose("kind", 2)
	ents := zz22Entries(2)
	r, err := zz22Reader(kind, &zz22Src{b: zz22Make(kind, ents), failAt: -1}, "")
	v.Assert(err == nil, "opened")
	n, err := r.NextFile()
	v.Assert(err == nil && n == ents[0].Name, "first-name")
	if v.Bool("some") && len(ents[0].Data) > 0 {
		p := make([]byte, 1)
		k, _ := io.ReadFull(r, p)
		v.Assert(k == 1 && p[0] == ents[0].Data[0], "first-bytes")
	}
	n, err = r.NextFile()
	v.Assert(err == nil && n == ents[1].Name, "second-name")
	b, err := ioutil.ReadAll(r)
	v.Assert(err == nil && zzEqual(b, ents[1].Data), "second-content")
	_, err = r.NextFile()
	v.Assert(err == io.EOF, "end")
}

// long names, long contents and many entries
// zz: cover=many,long steps=60000000
func ZZLong() {
	vos.Reset()
	from, to := v.Choose("from", 3), v.Choose("to", 3)
	n := 1
	if from != zz22Gzip && to != zz22Gzip && v.Bool("many") {
		n = v.Bound("many", 12, 40)
		v.Cover("many")
	}
	var ents []zz22Entry
	for i := 0; i < n; i++ {
		name := "d/" + zzText('n', 4+40*(i%4)) + zzItoa(i)
		data := []byte{byte(i)}
		switch {
		case n == 1:
			name = zzText('d', []int{1, 99, 110, 260}[v.Choose("namelen", 4)]) + "/" + v.String("name", 1)
			v.Assume(name[len(name)-1] != '/')
			data = zzLong([]int{513, 40000, 70000}[v.Choose("len", 3)])
			v.Cover("long")
		case i%3 == 1:
			data = nil
		case i == n-1:
			data = zzLong(5000)
		}
		ents = append(ents, zz22Entry{name, data})
	}
	name := "told"
	if from == zz22Gzip {
		name = ents[0].Name
	}
	r, err := zz22Reader(from, &zz22Src{b: zz22Make(from, ents), failAt: -1, piece: []int{0, 4096}[v.Choose("piece", 2)]}, name)
	v.Assert(err == nil, "opened")
	var out bytes.Buffer
	w := zz22Writer(to, &out)
	v.Assert(archive.Copy(w, r) == nil, "copied")
	v.Assert(w.Close() == nil, "closed")
	if to == zz22Gzip {
		name = ents[0].Name
	}
	got, err := zz22Read(to, &zz22Src{b: out.Bytes(), failAt: -1}, name)
	v.Assert(err == nil, "read-copy")
	zz22Same(got, ents, "copy")
}
