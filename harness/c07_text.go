package internal

import (
	"context"
	"errors"
	"fmt"

	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vsyslog "github.com/xtfly/log4g/internal/zz_vsyslog"
)

// ASSUME: what fmt would produce is computed by the model of fmt (derived from its source, without reflection), which the code under test uses too; a replay uses the real fmt for both. Arguments are of the listed kinds; formats are non-empty when arguments are given.

type zz07Str struct{ s string }

func (x zz07Str) String() string { return "<" + x.s + ">" }

type zz07Pair struct {
	A int
	B string
}

// zz07Arg is an argument of one of several kinds.
func zz07Arg(k int) interface{} {
	switch k {
	case 0:
		return v.Int("int", v.Bound("intlo", 0, -1), v.Bound("inthi", 9, 12))
	case 1:
		return v.String("str", 2)
	case 2:
		return zz07Str{v.String("str", 1)}
	case 3:
		return errors.New("e" + v.String("str", 1))
	case 4:
		return nil
	case 5:
		return []byte(v.String("str", 1))
	case 6:
		return v.Bool("bool")
	case 7:
		return []interface{}{v.Int("int", 0, 9), "%d"}
	case 8:
		return zz07Pair{v.Int("int", 0, 9), "%s"}
	}
	return map[string]int{"b%": 2, "a": 1}
}

// zz07Log makes one call; plain methods are given the arguments alone.
func zz07Log(w api.Writer, method int, l api.Level, format string, args []interface{}) {
	switch method {
	case 0:
		switch l {
		case api.Trace:
			w.Tracef(format, args...)
		case api.Debug:
			w.Debugf(format, args...)
		case api.Info:
			w.Infof(format, args...)
		case api.Warn:
			w.Warnf(format, args...)
		case api.Error:
			w.Errorf(format, args...)
		case api.Critical:
			w.Criticalf(format, args...)
		}
	case 1:
		switch l {
		case api.Trace:
			w.Trace(args...)
		case api.Debug:
			w.Debug(args...)
		case api.Info:
			w.Info(args...)
		case api.Warn:
			w.Warn(args...)
		case api.Error:
			w.Error(args...)
		case api.Critical:
			w.Critical(args...)
		}
	default:
		w.Printf(l, format, args...)
	}
}

// zz07Want is the text by definition.
func zz07Want(method int, format string, args []interface{}) string {
	if method == 1 {
		return fmt.Sprint(args...)
	}
	if len(args) == 0 {
		return format
	}
	return fmt.Sprintf(format, args...)
}

func zz07Config(out api.CfgOutput, layout string) {
	out["name"], out["format"] = "o", "f"
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "text", "name": "f", "layout": layout}},
		Outputs: []api.CfgOutput{out},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}},
	}
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
}

// zz07Got is what the output of one kind received.
func zz07Got(kind int) string {
	zzGetManager().Close()
	switch kind {
	case 0, 1:
		return zzStdout()
	case 2:
		b, _ := vos.Content("/l/f")
		return string(b)
	}
	if len(vsyslog.Log) != 1 {
		return "?"
	}
	return vsyslog.Log[0].Msg
}

func zz07Out(kind int) api.CfgOutput {
	switch kind {
	case 0:
		return api.CfgOutput{"type": "console"}
	case 1:
		return api.CfgOutput{"type": "console", "async": "true"}
	case 2:
		return api.CfgOutput{"type": "size_rolling_file", "file": "/l/f"}
	}
	return api.CfgOutput{"type": "syslog"}
}

// every method and kind of writer, any format of the bounded length, one argument of any kind or none
// zz: cover=percent,verb,none
func ZZFormat() {
	n := v.Choose("len", v.Bound("len", 2, 3)) + 1
	f := v.String("format", n)
	m := 2 * v.Choose("method", 2)
	var args []interface{}
	k := v.Choose("arg", 4)
	if k > 0 {
		args = append(args, zz07Arg(k-1))
	}
	w := &zzSink{}
	l := zz07Logger(w, "%{msg}")
	zz07Log(l, m, api.Info, f, args)
	want := zz07Want(m, f, args)
	v.Observe("text", w.text(), want)
	v.Assert(w.text() == want, "text")
	if len(args) == 0 {
		v.Cover("none")
	} else if f[0] == '%' {
		if f[n-1] == '%' {
			v.Cover("percent")
		} else {
			v.Cover("verb")
		}
	}
}

// zzSink is a writer that keeps everything.
type zzSink struct{ b []byte }

func (s *zzSink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }
func (s *zzSink) text() string                { return string(s.b) }

func zz07Logger(w *zzSink, layout string) api.Logger {
	o := NewBaseOutput(w, api.All)
	f, err := NewTextFormatter(api.CfgFormat{"layout": layout})
	v.Assert(err == nil, "layout-accepted")
	o.SetFormatter(f)
	l := zzGetLogger("x")
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{o})
	return l
}

// every method that carries its level in its name
func ZZLevels() {
	m := v.Choose("method", 3)
	lv := api.Trace + api.Level(v.Choose("level", 6))
	args := []interface{}{v.String("str", 2), v.Int("int", 0, 9)}
	w := &zzSink{}
	l := zz07Logger(w, "%{level} %{msg}")
	zz07Log(l, m, lv, "%v%% %v", args)
	want := lv.String() + " " + zz07Want(m, "%v%% %v", args)
	v.Assert(w.text() == want, "text")
}

// every kind of method and writer; up to three arguments of any kinds; formats with fewer, as many and more verbs
// zz: cover=plain,format
func ZZArguments() {
	m := v.Choose("method", 3)
	lv := api.Info
	n := v.Choose("args", v.Bound("args", 3, 3))
	var args []interface{}
	for i := 0; i < n; i++ {
		args = append(args, zz07Arg([]int{0, 1, 3, 4, 6, 2, 5, 7, 8, 9}[v.Choose("arg", v.Bound("kinds", 4, 10))]))
	}
	f := ""
	if m != 1 {
		f = []string{"%v", "%s|%d", "%%", "100%", "%[2]v %v", "{%+v}", "%{msg}", "%5.1v-%x", "%!d"}[v.Choose("format", 9)]
	}
	w := &zzSink{}
	l := zz07Logger(w, "%{msg}")
	zz07Log(zzWriter(l, m), m, lv, f, args)
	want := zz07Want(m, f, args)
	v.Observe("text", w.text(), want)
	v.Assert(w.text() == want, "text")
	if m == 1 {
		v.Cover("plain")
	} else {
		v.Cover("format")
	}
}

// what comes out of every kind of output is the text, whatever it contains
// zz: cover=brace,percent
func ZZLiteral() {
	kind := v.Choose("kind", 4)
	zz07Config(zz07Out(kind), "<%{msg}|%{k}|%{j}>")
	s, t := v.String("s", 4), v.String("t", 2)
	m := v.Choose("how", 4)
	var w api.Writer = zzGetLogger("a/b").WithFields(api.Field{Key: "k", Value: t}, api.Field{Key: "j", Value: s})
	if v.Bool("ctx") {
		w = zzGetLogger("a/b").WithCtx(context.WithValue(context.WithValue(context.Background(), "j", s), "k", t))
	}
	want := s
	switch m {
	case 0:
		w.Info(s)
	case 1:
		w.Infof(s)
	case 2:
		w.Infof("%s", s)
	default:
		w.Printf(api.Error, "%v%s", s, t)
		want = s + t
	}
	want = "<" + want + "|" + t + "|" + s + ">"
	got := zz07Got(kind)
	v.Observe("text", got, want)
	v.Assert(got == want, "literal")
	if s == "%{k}" {
		v.Cover("brace")
	}
	if s == "%d%s" {
		v.Cover("percent")
	}
}

// the same arguments reach every output, also when they are rendered later, and are left alone
func ZZRepeated() {
	a, b := &zzSink{}, &zzSink{}
	l := zz07Logger(a, "%{msg}%{msg}")
	o := NewBaseOutput(b, api.All)
	f, _ := NewTextFormatter(api.CfgFormat{"layout": "%{msg}"})
	o.SetFormatter(f)
	first := NewBaseOutput(a, api.All)
	ff, _ := NewTextFormatter(api.CfgFormat{"layout": "%{msg}%{msg}"})
	first.SetFormatter(ff)
	l.SetOutputs([]api.Output{first, o})
	s := v.String("s", 3)
	args := []interface{}{s, v.Int("i", 0, 99)}
	m := v.Choose("method", 3)
	zz07Log(l, m, api.Warn, "%v%%-%v", args)
	want := zz07Want(m, "%v%%-%v", args)
	v.Assert(a.text() == want+want, "text-twice")
	v.Assert(b.text() == want, "text")
	// the message of the next call is its own
	zz07Log(l, m, api.Warn, "n", nil)
	next := zz07Want(m, "n", nil)
	v.Assert(b.text() == want+next, "next-text")
}

// types that fmt treats in its own way
type zz07Both struct{ s string }

func (x zz07Both) String() string { return "S" + x.s }
func (x zz07Both) Error() string  { return "E" + x.s }

type zz07Fmter struct{ s string }

func (x zz07Fmter) Format(f fmt.State, c rune) { fmt.Fprint(f, "F", string([]rune{c}), x.s) }
func (x zz07Fmter) Error() string              { return "E" + x.s }

type zz07Go struct{ s string }

func (x zz07Go) GoString() string { return "G" + x.s }

type zz07Panics struct{ s string }

func (x zz07Panics) String() string { panic("p" + x.s) }

type zz07Ptr struct{ s string }

func (x *zz07Ptr) String() string { return "P" + x.s }
func (x *zz07Ptr) Error() string  { return "E" + x.s }

type zz07Strs []string

func (x zz07Strs) String() string { return "L" + x[0] }

func zz07Special(k int) interface{} {
	s := v.String("str", 1)
	switch k {
	case 0:
		return zz07Both{s}
	case 1:
		return zz07Fmter{s}
	case 2:
		return zz07Go{s}
	case 3:
		return zz07Panics{s}
	case 4:
		return (*zz07Ptr)(nil)
	case 5:
		return &zz07Ptr{s}
	case 6:
		return zz07Strs{s}
	case 7:
		return []string{s, "b"}
	case 8:
		return 'x'
	case 9:
		return fmt.Errorf("w: %w", errors.New(s))
	}
	return []error{errors.New(s), zz07Both{s}}
}

// arguments of types with methods, alone and among others, through every kind of method
func ZZSpecial() {
	k := v.Choose("kind", 11)
	args := []interface{}{zz07Special(k)}
	switch v.Choose("others", 4) {
	case 1:
		args = append(args, "t")
	case 2:
		args = append([]interface{}{1}, args...)
	case 3:
		args = append(args, args[0])
	}
	m := v.Choose("method", 3)
	f := ""
	if m != 1 {
		n := 5
		if k > 8 {
			n = 3 // the others print addresses
		}
		f = []string{"%v", "%s", "%v %v", "%+v|%#v", "%d"}[v.Choose("format", n)]
	}
	w := &zzSink{}
	l := zz07Logger(w, "%{msg}")
	zz07Log(zzWriter(l, m), m, api.Info, f, args)
	want := zz07Want(m, f, args)
	v.Observe("text", w.text(), want)
	v.Assert(w.text() == want, "text")
}

// many arguments and long texts, through every kind of output
// zz: cover=long,many
func ZZLong() {
	kind := v.Choose("output", 4)
	zz07Config(zz07Out(kind), "<%{msg}>")
	m := v.Choose("method", 3)
	var args []interface{}
	f := ""
	if v.Bool("many") {
		n := []int{9, 33, 130}[v.Choose("args", 3)]
		for i := 0; i < n; i++ {
			if i%7 == 3 {
				args = append(args, v.String("str", 1))
			} else {
				args = append(args, i)
			}
			f += "%v,"
		}
		v.Cover("many")
	} else {
		n := []int{255, 1025, 4097, 70000}[v.Choose("longlen", 4)]
		args = append(args, string(zzLong(n)))
		f = string(zzText('x', []int{1, 257, 5000}[v.Choose("formatlen", 3)])) + "%s"
		if v.Bool("no arguments") && m != 1 {
			args = nil
		}
		v.Cover("long")
	}
	zz07Log(zzGetLogger("a"), m, api.Info, f, args)
	want := "<" + zz07Want(m, f, args) + ">"
	v.Assert(zz07Got(kind) == want, "text")
}
