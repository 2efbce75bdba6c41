package internal

import (
	"strings"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	vdot "github.com/xtfly/log4g/internal/zz_vdot.v2"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: the call stack of the code under test is that of its SSA form, which names functions, files and lines as runtime does (inlining is transparent to runtime.Caller); callers are functions, methods and closures of the package of the code itself or of another one.

const zz09Layout = "%{longfile} %{shortfile} %{line} %{longpkg} %{shortpkg} %{longfunc} %{shortfunc};"

// zz09Outputs gives the logger outputs of a kind with a layout and returns the text they wrote.
func zz09Outputs(owner string, kind int, layout string) func() string {
	switch kind {
	case 0, 1:
		o := api.CfgOutput{"type": "console", "name": "o", "format": "f"}
		if kind == 1 {
			o["async"] = "true"
		}
		cfg := &api.Config{
			Formats: []api.CfgFormat{{"type": "text", "name": "f", "layout": layout}},
			Outputs: []api.CfgOutput{o},
			Loggers: []api.CfgLogger{{Name: owner, Level: "all", OutputNames: []string{"o"}}},
		}
		v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
		return func() string { zzGetManager().Close(); return zzStdout() }
	}
	o, err := NewMemoryOutput(nil)
	v.Assert(err == nil, "output-created")
	f, err := NewTextFormatter(api.CfgFormat{"layout": layout})
	v.Assert(err == nil, "layout-accepted")
	o.SetFormatter(f)
	l := zzGetLogger(owner)
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{o})
	return func() string { return o.(interface{ String() string }).String() }
}

// every method, on a logger or a derived writer, with outputs of any kind anywhere up the tree
// zz: cover=own,inherited,async,elsewhere
func ZZStatement() {
	names := []string{"root", "a", "a/b", "a/b/c"}
	d := v.Choose("owner", 4)
	at := d + v.Choose("depth", 4-d)
	kind := v.Choose("kind", 3)
	text := zz09Outputs(names[d], kind, zz09Layout)
	w := zz09Writer(zzGetLogger(names[at]), v.Choose("via", 3))
	want := ""
	if m := v.Choose("method", 20); m < 15 {
		want = zz09Call(w, m)
	} else {
		want = vcap.Call(w, m-15, zz09Here)
		v.Cover("elsewhere")
	}
	got := text()
	v.Observe("caller", got, want)
	v.Assert(got == want, "caller")
	if at == d {
		v.Cover("own")
	} else {
		v.Cover("inherited")
	}
	if kind == 1 {
		v.Cover("async")
	}
}

// each verb alone, so that what one collects does not serve another
// zz: cover=each
func ZZVerb() {
	verbs := strings.Split(strings.TrimSuffix(zz09Layout, ";"), " ")
	i := v.Choose("verb", len(verbs))
	text := zz09Outputs("root", v.Choose("kind", 3), "%{msg} "+verbs[i]+";")
	m := v.Choose("method", 4) + 11
	w := zz09Writer(zzGetLogger("x"), v.Choose("via", 3))
	want := ""
	if m == 14 {
		want = vcap.Call(w, v.Choose("call", 5), zz09Here)
	} else {
		want = zz09Call(w, m)
	}
	want = strings.Split(strings.TrimSuffix(want, ";"), " ")[i] + ";"
	got := text()
	got = got[strings.LastIndex(got, " ")+1:]
	v.Observe("caller", verbs[i], got, want)
	v.Assert(got == want, "caller")
	v.Cover("each")
}

// statements in a package whose path ends with a dotted element, and in functions and methods with type parameters
// zz: cover=dotted,generic
func ZZDotted() {
	names := []string{"root", "a", "a/b"}
	d := v.Choose("owner", 3)
	text := zz09Outputs(names[d], v.Choose("kind", 3), zz09Layout)
	w := zz09Writer(zzGetLogger(names[d+v.Choose("depth", 3-d)]), v.Choose("via", 3))
	m := v.Choose("call", 7)
	want := vdot.Call(w, m, zz09Here)
	got := text()
	v.Observe("caller", got, want)
	v.Assert(got == want, "caller")
	if m < 2 {
		v.Cover("dotted")
	} else {
		v.Cover("generic")
	}
}

// zz09Deep calls down to the logging statement and lists the places on the way.
func zz09Deep(w api.Writer, m, n int, up []string) []string {
	if n == 0 {
		var r []string
		switch m {
		case 0:
			w.Info("m")
			r = append(r, zz09Here())
		case 1:
			w.Errorf("f")
			r = append(r, zz09Here())
		default:
			w.Printf(api.Warn, "f")
			r = append(r, zz09Here())
		}
		for i := len(up) - 1; i >= 0; i-- {
			r = append(r, up[i])
		}
		return r
	}
	if n == 2 {
		return zz09Deeper(w, m, n, up)
	}
	// the call is on the line after the place
	here := zz09Next()
	return zz09Deep(w, m, n-1, append(up, here))
}

func zz09Deeper(w api.Writer, m, n int, up []string) []string {
	up = append(up, zz09Above(1))
	here := zz09Next()
	return zz09Deep(w, m, n-1, append(up, here))
}

func zz09Next() string { return zz09At(3, -1) }

// SetCallerSkip moves the place up by exactly that many frames, for this logger alone
// zz: cover=none,three
func ZZSkip() {
	names := []string{"root", "a", "a/b"}
	d := v.Choose("owner", 3)
	at := d + v.Choose("depth", 3-d)
	text := zz09Outputs(names[d], v.Choose("kind", 3), zz09Layout)
	l := zzGetLogger(names[at])
	n := v.Choose("skip", 4)
	if v.Bool("twice") {
		l.SetCallerSkip(2)
	}
	l.SetCallerSkip(n)
	// the other loggers on the path keep theirs
	for i := range names {
		if i != at && v.Bool("others") {
			zzGetLogger(names[i]).SetCallerSkip(1)
		}
	}
	places := zz09Deep(zz09Writer(l, v.Choose("via", 3)), v.Choose("method", 3), 3, nil)
	got := text()
	v.Observe("caller", got, places[n])
	v.Assert(got == places[n], "skipped")
	if n == 0 {
		v.Cover("none")
	}
	if n == 3 {
		v.Cover("three")
	}
}

// from far down the stack, skipping many frames
// zz: cover=far,near
func ZZFar() {
	depth := v.Bound("frames", 40, 150)
	text := zz09Outputs("a", v.Choose("kind", 3), zz09Layout)
	l := zzGetLogger([]string{"a", "a/b"}[v.Choose("at", 2)])
	n := []int{0, 1, 9, 15, 16, 17, 31, 32, 33, depth - 1}[v.Choose("skip", 10)]
	l.SetCallerSkip(n)
	places := zz09Deep(zz09Writer(l, v.Choose("via", 3)), v.Choose("method", 3), depth, nil)
	got := text()
	v.Observe("caller", got, places[n])
	v.Assert(got == places[n], "skipped")
	if n > 0 {
		v.Cover("far")
	} else {
		v.Cover("near")
	}
}

// two outputs, of which one or both want the caller, get the same
// zz: cover=both
func ZZTwoOutputs() {
	a, b := zz09Sink{}, zz09Sink{}
	la := []string{"%{msg}", "%{line};", "%{shortfunc};", "%{shortfile};"}[v.Choose("first", 4)]
	lb := []string{"%{line};", "%{longfunc};"}[v.Choose("second", 2)]
	mk := func(s *zz09Sink, layout string, async bool) api.Output {
		f, err := NewTextFormatter(api.CfgFormat{"layout": layout})
		v.Assert(err == nil, "layout-accepted")
		var o api.Output
		if async {
			o = NewAsyncOutput(s, api.All, 2, 2)
		} else {
			o = NewBaseOutput(s, api.All)
		}
		o.SetFormatter(f)
		return o
	}
	oa, ob := mk(&a, la, v.Bool("asynca")), mk(&b, lb, v.Bool("asyncb"))
	l := zzGetLogger("x")
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{oa, ob})
	want := zz09Call(zz09Writer(zzGetLogger("x/y"), v.Choose("via", 3)), 5+v.Choose("method", 2)*7)
	oa.Close()
	ob.Close()
	p := strings.Split(strings.TrimSuffix(want, ";"), " ")
	f := map[string]string{"%{line};": p[2] + ";", "%{shortfunc};": p[6] + ";", "%{shortfile};": p[1] + ";", "%{longfunc};": p[5] + ";"}
	if la != "%{msg}" {
		v.Assert(string(a.b) == f[la], "caller-first")
		v.Cover("both")
	}
	v.Observe("caller", string(b.b), f[lb])
	v.Assert(string(b.b) == f[lb], "caller-second")
}

type zz09Sink struct{ b []byte }

func (s *zz09Sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

// two statements through the same writer are told apart
func ZZSuccession() {
	text := zz09Outputs("root", v.Choose("kind", 3), zz09Layout)
	w := zz09Writer(zzGetLogger("x"), v.Choose("via", 3))
	a := zz09Call(w, v.Choose("m", 15))
	b := zz09Call(w, v.Choose("m", 15))
	got := text()
	v.Observe("caller", got, a+b)
	v.Assert(got == a+b, "each-its-own")
}

// zz09Forwarder is an output that logs what it gets through another writer.
type zz09Forwarder struct {
	flag int
	to   string
	with int
	want string
}

func (o *zz09Forwarder) Send(e *api.Event) {
	w := api.Writer(zzGetLogger(o.to))
	if o.with == 0 {
		w = zzGetLogger(o.to).WithCtx(e.Ctx)
	} else if o.with == 1 {
		w = zzGetLogger(o.to).WithFields(api.Field{Key: "k", Value: 1})
	}
	w.Infof("forwarded")
	o.want = zz09Here()
}
func (o *zz09Forwarder) SetFormatter(api.Formatter) {}
func (o *zz09Forwarder) CallerInfoFlag() int        { return o.flag }
func (o *zz09Forwarder) Close()                     {}

// an output may log in its turn, with the context of the event it got: both statements are right
// zz: cover=context
func ZZForward() {
	text := zz09Outputs("y", 2, zz09Layout)
	f := &zz09Forwarder{flag: v.Choose("flag", 3), to: []string{"y", "y/z"}[v.Choose("to", 2)], with: v.Choose("with", 3)}
	s := zz09Sink{}
	own := NewBaseOutput(&s, api.All)
	fm, err := NewTextFormatter(api.CfgFormat{"layout": []string{"%{msg}", zz09Layout}[v.Choose("own", 2)]})
	v.Assert(err == nil, "layout-accepted")
	own.SetFormatter(fm)
	l := zzGetLogger("x")
	l.SetLevel(api.All)
	if v.Bool("first") {
		l.SetOutputs([]api.Output{own, f})
	} else {
		l.SetOutputs([]api.Output{f, own})
	}
	want := zz09Call(zz09Writer(l, v.Choose("via", 3)), 5)
	got := text()
	v.Observe("caller", got, f.want)
	v.Assert(got == f.want, "forwarding-statement")
	if !strings.HasPrefix(string(s.b), "m") {
		v.Observe("own", string(s.b), want)
		v.Assert(string(s.b) == want, "own-statement")
	}
	if f.with == 0 {
		v.Cover("context")
	}
}

// outputs, and the formatter of an output, may be set in any order; a later formatter replaces an earlier one
// zz: cover=late
func ZZLate() {
	o, err := NewMemoryOutput(nil)
	v.Assert(err == nil, "output-created")
	set := func(layout string) {
		f, err := NewTextFormatter(api.CfgFormat{"layout": layout})
		v.Assert(err == nil, "layout-accepted")
		o.SetFormatter(f)
	}
	l := zzGetLogger("x")
	l.SetLevel(api.All)
	if v.Bool("before") {
		set("%{msg}")
	}
	l.SetOutputs([]api.Output{o})
	verbs := strings.Split(strings.TrimSuffix(zz09Layout, ";"), " ")
	i := v.Choose("verb", len(verbs))
	set(verbs[i] + ";")
	at := []string{"x", "x/y", "x/y/z"}[v.Choose("at", 3)]
	want := strings.Split(strings.TrimSuffix(zz09Call(zz09Writer(zzGetLogger(at), v.Choose("via", 3)), v.Choose("m", 15)), ";"), " ")[i] + ";"
	got := o.(interface{ String() string }).String()
	v.Observe("caller", got, want)
	v.Assert(got == want, "caller")
	v.Cover("late")
}

// a field of any name, also one the library might use for itself, does no harm
func ZZKeys() {
	text := zz09Outputs("root", v.Choose("kind", 3), zz09Layout)
	keys := []string{"__caller_info", "caller", "line", "ci", "callerInfo", ""}
	k := keys[v.Choose("key", len(keys))]
	f := []api.Field{{Key: k, Value: []interface{}{"x", 1, nil}[v.Choose("value", 3)]}}
	w := zzGetLogger([]string{"root", "a"}[v.Choose("at", 2)]).WithFields(f...)
	want := zz09Call(w, v.Choose("m", 15))
	got := text()
	v.Observe("caller", got, want)
	v.Assert(got == want, "caller")
}
