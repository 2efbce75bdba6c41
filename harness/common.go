package internal

import (
	"bytes"
	"context"
	"io"
	"io/ioutil"
	"path"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	vgzip "github.com/xtfly/log4g/internal/zz_vgzip"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vsyslog "github.com/xtfly/log4g/internal/zz_vsyslog"
	vtar "github.com/xtfly/log4g/internal/zz_vtar"
	vtop "github.com/xtfly/log4g/internal/zz_vtop"
	vzip "github.com/xtfly/log4g/internal/zz_vzip"
)

// zzGetLogger and zzGetManager are the functions of the package users import.
func zzGetLogger(name string) api.Logger { return vtop.GetLogger(name) }
func zzGetManager() api.Manager          { return vtop.GetManager() }

// zzEvt is an event whose rendering by vcap.Fmt is msg followed by ';'.
func zzEvt(l api.Level, msg string) *api.Event {
	return &api.Event{Format: msg, Name: "n", Level: l, Ctx: context.Background()}
}

// zzDecimal is the integer a string spells, if it is an optional sign followed by digits.
func zzDecimal(s string) (n int, ok bool) {
	i := 0
	neg := false
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		i = 1
	}
	ok = i < len(s)
	for ; i < len(s); i++ {
		ok = v.And(ok, v.And(s[i] >= '0', s[i] <= '9'))
		n = n*10 + int(s[i]) - '0'
	}
	return v.IteInt(neg, -n, n), ok
}

func zzHas(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// zzRolling builds a rolling output from a configuration, with the records rendered as they are.
func zzRolling(cfg api.CfgOutput) api.Output {
	o, err := NewRollingOutput(cfg)
	v.Assert(err == nil, "output-created")
	o.SetFormatter(zzRaw{})
	return o
}

// zzRaw renders the message alone.
type zzRaw struct{}

func (zzRaw) Format(e *api.Event) []byte { return []byte(e.Format) }
func (zzRaw) CallerInfoFlag() int        { return 0 }

var _ = vcap.W{}
var _ = vos.Names

// zzMethod calls the i-th logging method at the given level; the methods that carry their level
// in their name are used when i is 0 (format) or 1 (plain), Printf otherwise.
func zzMethod(w api.Writer, i int, l api.Level, msg string, args ...interface{}) {
	switch i {
	case 0:
		switch l {
		case api.Trace:
			w.Tracef(msg, args...)
		case api.Debug:
			w.Debugf(msg, args...)
		case api.Info:
			w.Infof(msg, args...)
		case api.Warn:
			w.Warnf(msg, args...)
		case api.Error:
			w.Errorf(msg, args...)
		case api.Critical:
			w.Criticalf(msg, args...)
		}
	case 1:
		switch l {
		case api.Trace:
			w.Trace(msg)
		case api.Debug:
			w.Debug(msg)
		case api.Info:
			w.Info(msg)
		case api.Warn:
			w.Warn(msg)
		case api.Error:
			w.Error(msg)
		case api.Critical:
			w.Critical(msg)
		}
	default:
		w.Printf(l, msg, args...)
	}
}

// zzEnabled asks the predicate for one level.
func zzEnabled(l api.Logger, lv api.Level) bool {
	switch lv {
	case api.Trace:
		return l.TraceEnabled()
	case api.Debug:
		return l.DebugEnabled()
	case api.Info:
		return l.InfoEnabled()
	case api.Warn:
		return l.WarnEnabled()
	case api.Error:
		return l.ErrorEnabled()
	}
	return l.CriticalEnabled()
}

// zzWriter is the logger itself, a writer with fields or one with a context.
func zzWriter(l api.Logger, i int) api.Writer {
	switch i {
	case 0:
		return l
	case 1:
		return l.WithFields(api.Field{Key: "k", Value: "v"})
	}
	return l.WithCtx(context.WithValue(context.Background(), "k", "v"))
}

// zzCapTypes registers the output type "cap" and the format type "capf", whose instances record
// what they are given, and returns the list of outputs created.
func zzCapTypes() *[]*vcap.Out {
	r := &[]*vcap.Out{}
	m := zzGetManager()
	m.RegisterOutputCreator("cap", func(c api.CfgOutput) (api.Output, error) {
		o := &vcap.Out{Name: c["name"] + c["tag"]}
		*r = append(*r, o)
		return o, nil
	})
	m.RegisterFormatterCreator("capf", func(c api.CfgFormat) (api.Formatter, error) {
		return &vcap.Fmt{Pre: c["layout"]}, nil
	})
	return r
}

// zzFile is an expected file.
type zzFile struct {
	Path string
	Data []byte
}

// zzEqual compares without branching on the bytes.
func zzEqual(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = v.And(eq, a[i] == b[i])
	}
	return eq
}

// zzRef is the reference of a rolling log in one directory: what it should consist of.
type zzRef struct {
	Dir, Name string
	Prefix    bool
	Limit     int    // roll at this size
	Max       int    // backups kept
	Cur       []byte // current file
	Open      bool   // the current file exists
	Nums      []int  // numbers of the backups, ascending
	Data      [][]byte
	Other     []zzFile // files that are none of the log's
	Rolls     int
	Gone      int
	Taken     int // a number whose name is taken by something else
}

func (r *zzRef) Backup(n int) string {
	s := zzItoa(n)
	if r.Prefix {
		return r.Dir + s + "." + r.Name
	}
	return r.Dir + r.Name + "." + s
}

func zzItoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
	}
	return s
}

// Write is one record.
func (r *zzRef) Write(b []byte) {
	r.Open = true
	if len(r.Cur) >= r.Limit {
		n := 1
		if len(r.Nums) > 0 {
			n = r.Nums[len(r.Nums)-1] + 1
		}
		if n == r.Taken {
			n++
		}
		r.Nums = append(r.Nums, n)
		r.Data = append(r.Data, r.Cur)
		r.Cur = nil
		r.Rolls++
		for len(r.Nums) > r.Max {
			r.Nums, r.Data = r.Nums[1:], r.Data[1:]
			r.Gone++
		}
	}
	var c []byte
	c = append(c, r.Cur...)
	r.Cur = append(c, b...)
}

// Files lists what should be there.
func (r *zzRef) Files() []zzFile {
	var f []zzFile
	f = append(f, r.Other...)
	for i, n := range r.Nums {
		f = append(f, zzFile{r.Backup(n), r.Data[i]})
	}
	if r.Open {
		f = append(f, zzFile{r.Dir + r.Name, r.Cur})
	}
	return f
}

// zzCheckFiles asserts that the file system holds exactly these files.
func zzCheckFiles(want []zzFile) {
	for _, w := range want {
		got, ok := vos.Content(w.Path)
		if !ok {
			v.Observe("missing", w.Path)
		}
		v.Assert(ok, "file-present")
		if len(got) != len(w.Data) {
			v.Observe("length", w.Path, len(got), len(w.Data))
		}
		v.Assert(len(got) == len(w.Data), "file-length")
		v.Assert(zzEqual(got, w.Data), "file-content")
	}
	names := vos.Names()
	if len(names) != len(want) {
		for _, n := range names {
			v.Observe("file", n)
		}
	}
	v.Assert(len(names) == len(want), "no-other-files")
}

// zzNumber tells whether s is a positive decimal number without leading zeros.
func zzNumber(s string) bool {
	ok := len(s) > 0
	for i := range []byte(s) {
		ok = v.And(ok, v.And(s[i] >= '0', s[i] <= '9'))
		if i == 0 {
			ok = v.And(ok, s[i] != '0')
		}
	}
	return ok
}

// zzStdout is what was written to standard output.
func zzStdout() string { return vos.StdoutText() }

// zz03Name is a name of ASCII bytes.
func zz03Name(id string, max int) string {
	b := v.Bytes(id, v.Choose(id+"len", max+1))
	for i := range b {
		v.Assume(b[i] < 0x80)
	}
	return string(b)
}

func zz03IsRoot(s string) bool { return s == "" || s == "root" }

func zz03Sep(c byte) bool { return v.Or(c == '/', c == '.') }

// zz03Below reports whether p names an ancestor of x by its name.
func zz03Below(x, p string) bool {
	if len(p) == 0 || len(p) >= len(x) {
		return false
	}
	return v.And(x[:len(p)] == p, zz03Sep(x[len(p)]))
}

func zz25Bool(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

// zz25Text is everything a target received.
func zz25Text(kind int) string {
	switch kind {
	case 0:
		return zzStdout()
	case 1, 2:
		b, _ := vos.Content("/l/f")
		return string(b)
	}
	t := ""
	for _, r := range vsyslog.Log {
		t += r.Msg
	}
	return t
}

// zz25Out is an output of a kind.
func zz25Out(kind int, name string, async bool) api.CfgOutput {
	o := api.CfgOutput{"name": name, "format": "f", "async": zz25Bool(async), "batch_num": []string{"1", "2", "20"}[v.Choose("batch", 3)], "queue_size": "2"}
	switch kind {
	case 0:
		o["type"] = "console"
	case 1:
		o["type"], o["file"], o["size"] = "size_rolling_file", "/l/f", "1M"
	case 2:
		o["type"], o["file"], o["pattern"] = "time_rolling_file", "/l/f", "2006"
	default:
		o["type"] = "syslog"
	}
	return o
}

func zz25Config(lvl string, outs ...api.CfgOutput) *api.Config {
	c := &api.Config{Formats: []api.CfgFormat{{"type": "text", "name": "f", "layout": "%{module}:%{msg};"}}}
	var names []string
	for _, o := range outs {
		c.Outputs = append(c.Outputs, o)
		names = append(names, o["name"])
	}
	c.Loggers = []api.CfgLogger{{Name: "root", Level: lvl, OutputNames: names}}
	return c
}

// zz09Place is where the statement before the call of zz09Here is.
func zz09Here() string { return zz09At(3, 1) }

// zz09Above is where the caller of the caller is.
func zz09Above(n int) string { return zz09At(3+n, 0) }

func zz09At(skip, back int) string {
	pcs := make([]uintptr, 1)
	runtime.Callers(skip, pcs)
	fr, _ := runtime.CallersFrames(pcs).Next()
	i := strings.LastIndex(fr.Function, "/") + 1
	j := strings.Index(fr.Function[i:], ".")
	pkg, fn := strings.Replace(fr.Function[:i+j], "%2e", ".", -1), fr.Function[i+j+1:]
	k := strings.LastIndex(strings.TrimSuffix(fn, "[...]"), ".")
	return fr.File + " " + filepath.Base(fr.File) + " " + zzItoa(fr.Line-back) + " " + pkg + " " + path.Base(pkg) + " " + fn + " " + fn[k+1:] + ";"
}

type zz09Caller struct{}

// zz09Call makes one logging call and tells where that was; the skip-th function up the stack is reported.
func zz09Call(w api.Writer, m int) string {
	switch m {
	case 0:
		w.Tracef("f")
		return zz09Here()
	case 1:
		w.Trace("m")
		return zz09Here()
	case 2:
		w.Debugf("f")
		return zz09Here()
	case 3:
		w.Debug("m")
		return zz09Here()
	case 4:
		w.Infof("f")
		return zz09Here()
	case 5:
		w.Info("m")
		return zz09Here()
	case 6:
		w.Warnf("f")
		return zz09Here()
	case 7:
		w.Warn("m")
		return zz09Here()
	case 8:
		w.Errorf("f")
		return zz09Here()
	case 9:
		w.Error("m")
		return zz09Here()
	case 10:
		w.Criticalf("f")
		return zz09Here()
	case 11:
		w.Critical("m")
		return zz09Here()
	case 12:
		w.Printf(api.Info, "f %v", 1)
		return zz09Here()
	case 13:
		(&zz09Caller{}).log(w)
		return zz09Last
	}
	f := func() {
		w.Error("m")
		zz09Last = zz09Here()
	}
	f()
	return zz09Last
}

var zz09Last string

func (c *zz09Caller) log(w api.Writer) {
	w.Info("m")
	zz09Last = zz09Here()
}

func zz09Writer(l api.Logger, i int) api.Writer {
	switch i {
	case 0:
		return l
	case 1:
		return l.WithFields(api.Field{Key: "k", Value: "v"})
	}
	return l.WithCtx(context.WithValue(context.Background(), "k", "v"))
}

// zz19Entries are the entries of an archive, ok tells whether it is complete.
func zz19Entries(kind int, single bool, name string, b []byte) (ents []zzFile, ok bool) {
	if kind == 0 {
		z, err := vzip.NewReader(bytes.NewReader(b), int64(len(b)))
		if err != nil {
			return nil, false
		}
		for _, f := range z.File {
			r, err := f.Open()
			if err != nil {
				return nil, false
			}
			d, err := ioutil.ReadAll(r)
			if err != nil {
				return nil, false
			}
			ents = append(ents, zzFile{f.Name, d})
		}
		return ents, true
	}
	g, err := vgzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	if single {
		d, err := ioutil.ReadAll(g)
		return []zzFile{{name, d}}, err == nil
	}
	t := vtar.NewReader(g)
	for {
		h, err := t.Next()
		if err == io.EOF {
			return ents, true
		}
		if err != nil {
			return nil, false
		}
		d, err := ioutil.ReadAll(t)
		if err != nil {
			return nil, false
		}
		ents = append(ents, zzFile{h.Name, d})
	}
}

// zz31Make is an output of each bundled type, and what its target has.
func zz31Make(kind int, async, batch string) (api.Output, func() string) {
	cfg := api.CfgOutput{"name": "o", "format": "f", "async": async, "batch_num": batch, "queue_size": "2"}
	var o api.Output
	var err error
	text := func() string { b, _ := vos.Content("/l/f"); return string(b) }
	switch kind {
	case 0:
		cfg["type"] = "console"
		o, err = NewConsoleOutput(cfg)
		text = zzStdout
	case 1:
		cfg["type"], cfg["file"], cfg["size"] = "size_rolling_file", "/l/f", "1M"
		o, err = NewRollingOutput(cfg)
	case 2:
		cfg["type"], cfg["file"], cfg["pattern"] = "time_rolling_file", "/l/f", "2006"
		o, err = NewRollingOutput(cfg)
	case 3:
		cfg["type"] = "memory"
		o, err = NewMemoryOutput(cfg)
		if err == nil {
			text = o.(interface{ String() string }).String
		}
	default:
		cfg["type"] = "syslog"
		o, err = NewSyslogOutput(cfg)
		text = func() string {
			t := ""
			for _, r := range vsyslog.Log {
				t += r.Msg
			}
			return t
		}
	}
	v.Assert(err == nil, "output-created")
	return o, text
}

// zzLong is a record of n bytes, any first, last and middle one.
func zzLong(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	b[0], b[n/2], b[n-1] = v.Byte("first"), v.Byte("middle"), v.Byte("last")
	return b
}

// zzText is a text of n times the same byte.
func zzText(c byte, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return string(b)
}
