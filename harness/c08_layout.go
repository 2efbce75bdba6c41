package internal

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/xtfly/log4g/api"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: literal text is any bytes that contain no "%{"; a name is letters and digits; a format is non-empty without '}', '\\' and line breaks. Regular expressions are executed as they are; the text around verbs is symbolic, its length and the verbs are chosen.

var zz08T0 = time.Date(2021, 3, 4, 5, 6, 7, 89000000, time.FixedZone("ZZT", 5*3600+1800))

func zz08Format(layout string, e *api.Event) string {
	f, err := NewTextFormatter(api.CfgFormat{"type": "text", "name": "f", "layout": layout})
	v.Assert(err == nil, "layout-accepted")
	return string(f.Format(e))
}

// zz08Plain is literal text.
func zz08Plain(name string, n int) string {
	s := v.String(name, n)
	for i := 0; i+1 < len(s); i++ {
		v.Assume(!v.And(s[i] == '%', s[i+1] == '{'))
	}
	return s
}

func zz08Event() *api.Event {
	return &api.Event{
		Time:      zz08T0,
		Name:      v.String("name", 2),
		Level:     api.Level(v.Int("level", int(api.Trace), int(api.Critical))),
		Format:    v.String("msg", 2),
		Ctx:       context.Background(),
		CallDepth: 3,
	}
}

// zz08Value is the property that a verb stands for.
func zz08Value(verb string, e *api.Event) interface{} {
	switch verb {
	case "module":
		return e.Name
	case "msg":
		return e.Message()
	case "level":
		return e.Level.String()
	case "lvl":
		return e.Level.ShortStr()
	case "pid":
		return os.Getpid()
	case "program":
		return filepath.Base(os.Args[0])
	}
	return e.Ctx.Value(verb)
}

// text around and between two verbs comes out as it is
// zz: cover=percent,brace,multibyte
func ZZLiterals() {
	n := v.Bound("len", 3, 4)
	a := zz08Plain("a", v.Choose("alen", n+1))
	b := zz08Plain("b", v.Choose("blen", v.Bound("blen", 2, 3)))
	c := zz08Plain("c", v.Choose("clen", n+1))
	e := zz08Event()
	two := [][2]string{{"level", "msg"}, {"msg", "module"}, {"lvl", "k"}}[v.Choose("verbs", v.Bound("verbs", 2, 3))]
	e.Ctx = context.WithValue(e.Ctx, "k", "V")
	got := zz08Format(a+"%{"+two[0]+"}"+b+"%{"+two[1]+"}"+c, e)
	want := a + fmt.Sprint(zz08Value(two[0], e)) + b + fmt.Sprint(zz08Value(two[1], e)) + c
	v.Observe("text", got, want)
	v.Assert(got == want, "literals-and-verbs")
	if len(a) > 0 && a[len(a)-1] == '%' {
		v.Cover("percent")
	}
	if len(b) > 0 && b[0] == '}' {
		v.Cover("brace")
	}
	if c == "\xc3\xa9" {
		v.Cover("multibyte")
	}
}

// every verb, alone and with a format, in any place among others
// zz: cover=time,format
func ZZVerbs() {
	verbs := []string{"module", "msg", "level", "lvl", "pid", "program", "time"}
	e := zz08Event()
	for i := range e.Name {
		v.Assume(v.And(e.Name[i] < 0x80, e.Format[i] < 0x80))
	}
	var layout, want string
	at := v.Choose("at", 2)
	for i := 0; i < 2; i++ {
		verb := verbs[v.Choose("verb", len(verbs))]
		if verb == "time" {
			v.Cover("time")
			tf := []string{"", "2006-01-02", "15:04:05.000", "Jan _2 at 3PM", "%s"}[v.Choose("timefmt", 5)]
			if tf == "" {
				layout += "%{time}"
				want += e.Time.Format("2006-01-02T15:04:05.000Z07:00")
			} else {
				layout += "%{time:" + tf + "}"
				want += e.Time.Format(tf)
			}
		} else {
			ff := ""
			if i == at {
				ff = []string{"", "v", "5s", "-4v", "x", "06d", "q", ".1s"}[v.Choose("fmt", v.Bound("fmts", 6, 8))]
			}
			if ff == "" {
				layout += "%{" + verb + "}"
				want += fmt.Sprintf("%v", zz08Value(verb, e))
			} else {
				v.Cover("format")
				layout += "%{" + verb + ":" + ff + "}"
				want += fmt.Sprintf("%"+ff, zz08Value(verb, e))
			}
		}
		layout += "|"
		want += "|"
	}
	got := zz08Format(layout, e)
	v.Observe("text", layout, got, want)
	v.Assert(got == want, "verbs")
}

// fields by any name: of several kinds, repeated, absent, with and without format
// zz: cover=absent,repeated,builtin
func ZZFields() {
	name := "k" + v.String("name", v.Choose("namelen", 2))
	for i := range name {
		c := name[i]
		v.Assume(v.Or(v.And(c >= '0', c <= '9'), v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z'))))
	}
	val := func() interface{} {
		switch v.Choose("kind", 7) {
		case 0:
			return v.String("str", 2)
		case 5:
			return zz08Point{1, "q"}
		case 6:
			return errors.New("e%d")
		case 1:
			return v.Int("int", 0, 12)
		case 2:
			return []string{"%d", "b"}
		case 3:
			return nil
		}
		return v.Bool("bool")
	}
	var fields []api.Field
	var last interface{}
	n := v.Choose("fields", 3)
	for i := 0; i < n; i++ {
		x := val()
		fields = append(fields, api.Field{Key: name, Value: x})
		last = x
		if i == 0 {
			// neighbours with other names, one of them that of a verb
			fields = append(fields, api.Field{Key: "kkk", Value: "no"}, api.Field{Key: "msg", Value: "no"})
		}
	}
	if n == 0 {
		v.Cover("absent")
	} else if n == 2 {
		v.Cover("repeated")
	}
	sink := &zz08Sink{}
	ff := []string{"", "v", "s", "4v"}[v.Choose("fmt", v.Bound("fmts", 3, 4))]
	layout, want := "%{"+name+"}", fmt.Sprintf("%v", last)
	if ff != "" {
		layout, want = "%{"+name+":"+ff+"}", fmt.Sprintf("%"+ff, last)
	}
	f, err := NewTextFormatter(api.CfgFormat{"layout": layout + ">%{msg}"})
	v.Assert(err == nil, "layout-accepted")
	o := NewBaseOutput(sink, api.All)
	o.SetFormatter(f)
	l := zzGetLogger("x")
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{o})
	if v.Bool("ctx") {
		ctx := context.Background()
		for _, x := range fields {
			ctx = context.WithValue(ctx, x.Key, x.Value)
		}
		l.WithCtx(ctx).Info("m")
	} else {
		l.WithFields(fields...).Info("m")
	}
	v.Cover("builtin")
	v.Observe("text", string(sink.b), want)
	v.Assert(string(sink.b) == want+">m", "field")
	// the next event has fields of its own
	sink.b = nil
	l.WithFields(api.Field{Key: name, Value: "z"}).Info("m")
	w2 := "z"
	if ff != "" {
		w2 = fmt.Sprintf("%"+ff, "z")
	}
	v.Assert(string(sink.b) == w2+">m", "next-field")
}

type zz08Point struct {
	X int
	s string
}

type zz08Sink struct{ b []byte }

func (s *zz08Sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

// a name of any characters: the longer and shorter relatives of the verbs are fields
// zz: cover=field,verb
func ZZNames() {
	base := []string{"ms", "lv", "leve", "modul", "pi", "tim", "Msg", "MSG"}[v.Choose("base", 8)]
	t := v.String("tail", v.Choose("taillen", 2))
	for i := range t {
		c := t[i]
		v.Assume(v.Or(v.And(c >= '0', c <= '9'), v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z'))))
	}
	name := base + t
	e := zz08Event()
	e.Ctx = context.WithValue(e.Ctx, name, "F")
	got := zz08Format("<%{"+name+"}>", e)
	want := "F"
	switch name {
	case "msg", "lvl", "level", "module", "pid":
		want = fmt.Sprint(zz08Value(name, e))
		v.Cover("verb")
	case "time":
		want = e.Time.Format("2006-01-02T15:04:05.000Z07:00")
		v.Cover("verb")
	default:
		v.Cover("field")
	}
	v.Observe("text", name, got, want)
	v.Assert(got == "<"+want+">", "name")
}

// formats with any characters
// zz: cover=width
func ZZFormats() {
	ff := v.String("fmt", 1+v.Choose("len", v.Bound("len", 2, 2)))
	for i := range ff {
		c := ff[i]
		v.Assume(v.And(c < 0x80, v.And(c != '}', v.And(c != '\\', c != '\n'))))
	}
	e := zz08Event()
	if v.Bool("time") {
		// as a layout of time
		got := zz08Format("a%{time:"+ff+"}b", e)
		v.Assert(got == "a"+e.Time.Format(ff)+"b", "time-format")
		return
	}
	got := zz08Format("a%{level:"+ff+"}b", e)
	want := "a" + fmt.Sprintf("%"+ff, e.Level.String()) + "b"
	v.Observe("text", got, want)
	v.Assert(got == want, "format")
	if ff == "9s" {
		v.Cover("width")
	}
}

// a layout without a verb is rejected, one with a verb is not
// zz: cover=rejected,accepted
func ZZNoVerb() {
	s := zz08Plain("s", v.Choose("len", v.Bound("len", 4, 6)))
	_, err := NewTextFormatter(api.CfgFormat{"layout": s})
	v.Assert(err != nil, "no-verb-rejected")
	t := zz08Plain("t", v.Choose("tlen", 3))
	v.Assume(len(t) == 0 || t[len(t)-1] != '%')
	if v.Bool("verb") {
		_, err = NewTextFormatter(api.CfgFormat{"layout": t + "%{x}" + t})
		v.Assert(err == nil, "verb-accepted")
		v.Cover("accepted")
	} else {
		_, err = NewTextFormatter(api.CfgFormat{"layout": t + []string{"%{}", "{x}", "%x", "%{x", "%[x]", "$msg"}[v.Choose("like", 6)]})
		v.Assert(err != nil, "no-verb-rejected")
		v.Cover("rejected")
	}
}

// events formatted by the same formatter one after the other, and at once by two outputs
func ZZSuccessive() {
	f, err := NewTextFormatter(api.CfgFormat{"layout": "%{level:-6s}%{msg} %{time:15h} %{k}\n"})
	v.Assert(err == nil, "layout-accepted")
	one := func(e *api.Event) string {
		return fmt.Sprintf("%-6s", e.Level.String()) + e.Message() + " " + e.Time.Format("15h") + " " + fmt.Sprint(e.Ctx.Value("k")) + "\n"
	}
	var bufs [][]byte
	var want []string
	for i := 0; i < 3; i++ {
		e := zz08Event()
		e.Time = zz08T0.Add(time.Duration(i) * time.Hour)
		e.Format = e.Format[:i%3]
		if i > 0 {
			e.Ctx = context.WithValue(e.Ctx, "k", i)
		}
		bufs = append(bufs, f.Format(e))
		want = append(want, one(e))
	}
	for i := range bufs {
		v.Assert(string(bufs[i]) == want[i], "each-its-own")
	}
	_ = vtime.Clock
}

func zz08Alnum(c byte) bool {
	return v.Or(v.And(c >= '0', c <= '9'), v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z')))
}

// zz08NoCaller leaves out the verbs of time and of the caller.
func zz08NoCaller(n string) string {
	v.Assume(n != "time" && n != "line" && n != "longpkg")
	return n
}

// any text after a verb is split into literals and verbs as the definition says
// zz: cover=literal,verb,formatted
func ZZAnyLayout() {
	n := v.Choose("len", v.Bound("len", 4, 5)) + 1
	s := v.String("s", n)
	if v.Bool("opened") {
		s = "%{" + s
	}
	e := &api.Event{Name: "N", Level: api.Info, Format: "M", Time: zz08T0, Ctx: context.Background()}
	want := "INFO"
	for i := 0; i < len(s); {
		if s[i] == '%' && i+1 < len(s) && s[i+1] == '{' {
			j := i + 2
			for j < len(s) && zz08Alnum(s[j]) {
				j++
			}
			if j > i+2 && j < len(s) && s[j] == '}' {
				want += fmt.Sprintf("%v", zz08Value(zz08NoCaller(s[i+2:j]), e))
				i = j + 1
				v.Cover("verb")
				continue
			}
			if j > i+2 && j < len(s) && s[j] == ':' {
				k := j + 1
				for k < len(s) && s[k] != '}' {
					// an escape or a line break inside a format is not covered
					v.Assume(v.And(s[k] != '\\', s[k] != '\n'))
					k++
				}
				// nor is an empty format
				v.Assume(k > j+1)
				if k < len(s) {
					v.Assume(s[j+1:k] == "v" || s[j+1:k] == "s")
					want += fmt.Sprintf("%"+s[j+1:k], zz08Value(zz08NoCaller(s[i+2:j]), e))
					i = k + 1
					v.Cover("formatted")
					continue
				}
			}
		}
		want += s[i : i+1]
		i++
	}
	got := zz08Format("%{level}"+s, e)
	if want == "INFO"+s {
		v.Cover("literal")
	}
	v.Observe("text", s, got, want)
	v.Assert(got == want, "definition")
}

type zz08Stringer struct{ s string }

func (z zz08Stringer) String() string { return "<" + z.s + ">" }

type zz08Err struct{ s string }

func (z *zz08Err) Error() string { return "err " + z.s }

// instants in several zones, before and after the epoch, with and without a fraction
// zz: cover=zero,year
func ZZTimes() {
	ts := []time.Time{
		zz08T0, zz08T0.UTC(), {}, time.Unix(0, 0).UTC(), time.Unix(0, 1).UTC(),
		time.Date(1969, 12, 31, 23, 59, 59, 999999999, time.UTC),
		time.Date(2024, 2, 29, 0, 0, 0, 500, time.FixedZone("W", -11*3600)),
		time.Date(2099, 12, 31, 23, 59, 59, 999000000, time.FixedZone("", 14*3600)),
		time.Date(12345, 6, 7, 8, 9, 10, 0, time.UTC),
		time.Date(2021, 3, 4, 12, 0, 0, 120000, time.UTC),
	}
	i := v.Choose("time", len(ts))
	e := zz08Event()
	e.Time = ts[i]
	fm := []string{"", "2006-01-02T15:04:05.999999999Z07:00", "Mon Jan _2 15:04:05.000 MST 2006", "06/1/2 3:4:5 pm -0700", ".000000", "15", "15:04:05", "2006/01/02 15:04:05", "Jan 2 15:04:05 2006", "2006-01-02 15:04:05.000"}[v.Choose("fmt", 10)]
	layout, want := "%{time}", "2006-01-02T15:04:05.000Z07:00"
	if fm != "" {
		layout, want = "%{time:"+fm+"}", fm
	}
	if i == 2 {
		v.Cover("zero")
	}
	if i == 8 {
		v.Cover("year")
	}
	f, err := NewTextFormatter(api.CfgFormat{"layout": layout + "|%{msg}|" + layout})
	v.Assert(err == nil, "layout-accepted")
	first := v.Choose("first", len(ts))
	f.Format(&api.Event{Time: ts[first], Ctx: context.Background()})
	got := string(f.Format(e))
	want = e.Time.Format(want)
	v.Observe("text", got, want)
	v.Assert(got == want+"|"+e.Format+"|"+want, "time")
}

// many verbs, long texts between them, long values, and values of several kinds
// zz: cover=long,many steps=60000000
func ZZLong() {
	lit := []int{0, 1, 300, 5000}[v.Choose("literal", 4)]
	n := []int{1, 3, 40}[v.Choose("verbs", 3)]
	e := zz08Event()
	if v.Bool("long value") {
		e.Format = string(zzLong(5000))
		v.Cover("long")
	}
	ctx := context.WithValue(context.Background(), "E", &zz08Err{"x"})
	ctx = context.WithValue(ctx, "S", zz08Stringer{"y"})
	ctx = context.WithValue(ctx, "F", 1.5)
	ctx = context.WithValue(ctx, "B", []byte("by"))
	ctx = context.WithValue(ctx, "M", map[string]int{"z": 1, "a": 2})
	ctx = context.WithValue(ctx, "D", time.Minute)
	ctx = context.WithValue(ctx, "P", (*zz08Err)(nil))
	e.Ctx = ctx
	vals := []string{"msg", "E", "S", "F", "B", "M", "D", "level", "module", "absent"}
	at := v.Choose("from", len(vals))
	layout, want := "", ""
	for i := 0; i < n; i++ {
		l := zzText(byte('a'+i%26), lit)
		k := vals[(at+i)%len(vals)]
		layout += l + "%{" + k + "}"
		want += l + fmt.Sprint(zz08Value(k, e))
	}
	if n > 3 {
		v.Cover("many")
	}
	got := zz08Format(layout+"%", e)
	v.Assert(zzEqual([]byte(got), []byte(want+"%")), "long-layout")
}
