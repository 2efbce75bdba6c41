package internal

import (
	"errors"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: two outputs and two formats per configuration, of symbolic or bundled type names; a creator returns a new instance or, where said so, an error; what a logger does whose output cannot be created is only required not to disturb others.

// zz29Made is what a creator was given and returned.
type zz29Made struct {
	by    int // which registration
	cfg   map[string]string
	f     *vcap.Fmt
	o     *vcap.Out
	calls int
}

type zz29Log struct {
	fs, os []*zz29Made
}

func zz29Copy(c map[string]string) map[string]string {
	r := map[string]string{}
	for k, x := range c {
		r[k] = x
	}
	return r
}

func (s *zz29Log) format(by int) api.FormatterFuncCreator {
	return func(c api.CfgFormat) (api.Formatter, error) {
		m := &zz29Made{by: by, cfg: zz29Copy(c), f: &vcap.Fmt{Pre: "x"}}
		s.fs = append(s.fs, m)
		return m.f, nil
	}
}

func (s *zz29Log) output(by int) api.OutputFuncCreator {
	return func(c api.CfgOutput) (api.Output, error) {
		m := &zz29Made{by: by, cfg: zz29Copy(c), o: &vcap.Out{}}
		s.os = append(s.os, m)
		return m.o, nil
	}
}

func zz29Same(got, want map[string]string) bool {
	if len(got) != len(want) {
		return false
	}
	eq := true
	for k, x := range want {
		g, ok := got[k]
		eq = v.And(eq, v.And(ok, g == x))
	}
	return eq
}

// the creator registered for exactly that type name makes it, from exactly that definition
// zz: cover=first,second,replaced,builtin
func ZZCreators() {
	m := zzGetManager()
	s := &zz29Log{}
	// two type names, possibly that of a bundled type, registered for formats and outputs alike
	t1, t2 := v.String("t1", v.Choose("t1len", 3)), v.String("t2", 1)
	if v.Bool("bundled") {
		t1 = []string{"console", "memory", "text", "syslog", "size_rolling_file"}[v.Choose("which", 5)]
		v.Cover("builtin")
	}
	v.Assume(t1 != t2)
	late := v.Bool("late")
	use := func() {
		m.RegisterOutputCreator(t1, s.output(1))
		m.RegisterFormatterCreator(t1, s.format(1))
		m.RegisterOutputCreator(t2, s.output(2))
		m.RegisterFormatterCreator(t2, s.format(2))
	}
	if !late {
		use()
	}
	again := v.Bool("again")
	if again {
		m.RegisterOutputCreator(t2, s.output(3))
		m.RegisterFormatterCreator(t1, s.format(3))
		if late {
			// registered again below
			again = false
		}
	}
	ot, ft := []string{t1, t2}[v.Choose("otype", 2)], []string{t1, t2}[v.Choose("ftype", 2)]
	val := v.String("value", v.Choose("valuelen", 3))
	oc := api.CfgOutput{"type": ot, "name": "o", "format": "f", "async": val}
	fc := api.CfgFormat{"type": ft, "name": "f", "layout": val}
	cfg := &api.Config{Formats: []api.CfgFormat{fc}, Outputs: []api.CfgOutput{oc},
		Loggers: []api.CfgLogger{{Name: "root", Level: "info", OutputNames: []string{"o"}}, {Name: "a", Level: "debug", OutputNames: []string{"o"}}}}
	if late {
		// before any logger is requested
		use()
	}
	v.Assert(m.SetConfig(cfg) == nil, "accepted")
	for i := 0; i < 2; i++ {
		for _, n := range []string{"a", "", "a/b"} {
			zzGetLogger(n).Info("m")
		}
		if v.Bool("set again") {
			v.Assert(m.SetConfig(cfg) == nil, "accepted")
		}
	}
	v.Assert(len(s.os) == 1 && len(s.fs) == 1, "created-once")
	o, f := s.os[0], s.fs[0]
	wo, wf := 1, 1
	if ot == t2 {
		wo = 2
		if again {
			wo = 3
		}
	}
	if ft == t2 {
		wf = 2
	} else if again {
		wf = 3
	}
	switch {
	case wo == 3 || wf == 3:
		v.Cover("replaced")
	case wo == 1:
		v.Cover("first")
	default:
		v.Cover("second")
	}
	v.Assert(o.by == wo, "output-creator-of-that-type")
	v.Assert(f.by == wf, "format-creator-of-that-type")
	v.Assert(zz29Same(o.cfg, map[string]string{"type": ot, "name": "o", "format": "f", "async": val}), "output-definition")
	v.Assert(zz29Same(f.cfg, map[string]string{"type": ft, "name": "f", "layout": val}), "format-definition")
	v.Assert(o.o.F == api.Formatter(f.f), "format-attached")
	v.Assert(len(o.o.Evts) == 6, "events-delivered")
	// the definition given is left as it was
	v.Assert(len(oc) == 4 && len(fc) == 3, "definition-unchanged")
}

// several definitions of one type are several instances, each with its own format
// zz: cover=shared,own
func ZZInstances() {
	m := zzGetManager()
	s := &zz29Log{}
	m.RegisterOutputCreator("t", s.output(1))
	m.RegisterFormatterCreator("t", s.format(1))
	cfg := &api.Config{}
	for _, n := range []string{"f", "g", "unused"} {
		cfg.Formats = append(cfg.Formats, api.CfgFormat{"type": "t", "name": n})
	}
	fx, fy := []string{"f", "g"}[v.Choose("fx", 2)], []string{"f", "g"}[v.Choose("fy", 2)]
	cfg.Outputs = []api.CfgOutput{{"type": "t", "name": "x", "format": fx}, {"type": "t", "name": "y", "format": fy}}
	// keys the bundled types know, which mean nothing here
	switch v.Choose("keys", 3) {
	case 1:
		for _, c := range cfg.Outputs {
			c["async"], c["threshold"], c["queue_size"], c["batch_num"] = "true", "off", "0", "1"
			c["file"], c["size"], c["pattern"], c["prefix"] = "/x", "1", "2006", "p"
		}
	case 2:
		key := v.String("key", 1)
		for _, c := range cfg.Outputs {
			c[key] = c["name"]
		}
		for _, c := range cfg.Formats {
			c["layout"], c["async"], c[key] = "%{nothing}", "true", "v"
		}
	}
	perm := [][]string{{"x"}, {"y"}, {"x", "y"}, {"y", "x"}}
	r, a := perm[v.Choose("root", 4)], perm[v.Choose("a", 4)]
	cfg.Loggers = []api.CfgLogger{{Name: "root", Level: "info", OutputNames: r}, {Name: "a", Level: "debug", OutputNames: a}}
	if v.Bool("early") {
		zzGetLogger("a")
	}
	v.Assert(m.SetConfig(cfg) == nil, "accepted")
	zzGetLogger([]string{"a", ""}[v.Choose("first", 2)]).Info("m")
	zzGetLogger("").Infof("r")
	zzGetLogger("a").Infof("a")
	seen := map[string]int{}
	var of = map[string]*zz29Made{}
	for _, x := range s.os {
		seen["o"+x.cfg["name"]]++
		of["o"+x.cfg["name"]] = x
	}
	for _, x := range s.fs {
		seen["f"+x.cfg["name"]]++
		of["f"+x.cfg["name"]] = x
	}
	for _, c := range seen {
		v.Assert(c == 1, "created-once")
	}
	for _, x := range []string{"x", "y"} {
		o := of["o"+x]
		if o == nil {
			v.Assert(!zzHas(r, x) && !zzHas(a, x), "used-output-created")
			continue
		}
		f := of["f"+o.cfg["format"]]
		v.Assert(f != nil && o.o.F == api.Formatter(f.f), "format-attached")
		n, k := 0, 0
		for _, e := range o.o.Evts {
			if e.Format == "r" {
				n++
			}
			if e.Format == "a" {
				k++
			}
		}
		v.Assert((n == 1) == zzHas(r, x) && n < 2, "delivered-to-named")
		v.Assert((k == 1) == zzHas(a, x) && k < 2, "delivered-to-named")
	}
	if fx == fy {
		v.Cover("shared")
	} else {
		v.Cover("own")
	}
}

// a creator that fails, or a type nobody registered, breaks nothing else
// zz: cover=fails,unregistered
func ZZFailing() {
	m := zzGetManager()
	s := &zz29Log{}
	m.RegisterOutputCreator("t", s.output(1))
	m.RegisterFormatterCreator("t", s.format(1))
	m.RegisterOutputCreator("bad", func(api.CfgOutput) (api.Output, error) { return nil, errors.New("no output") })
	m.RegisterFormatterCreator("bad", func(api.CfgFormat) (api.Formatter, error) { return nil, errors.New("no format") })
	bad := "bad"
	if v.Bool("unregistered") {
		bad = v.String("type", 2)
		v.Assume(bad != "t")
		v.Cover("unregistered")
	} else {
		v.Cover("fails")
	}
	ot, ft := "t", "t"
	if v.Bool("format") {
		ft = bad
	} else {
		ot = bad
	}
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "t", "name": "f"}, {"type": ft, "name": "g"}},
		Outputs: []api.CfgOutput{{"type": "t", "name": "x", "format": "f"}, {"type": ot, "name": "y", "format": "g"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "info", OutputNames: []string{"x"}}, {Name: "b", Level: "warn", OutputNames: []string{"y"}}, {Name: "c", Level: "error", OutputNames: []string{"x"}}},
	}
	if v.Bool("early") {
		zzGetLogger("b/c")
	}
	m.SetConfig(cfg)
	zzGetLogger("b").Critical("m")
	zzGetLogger("b/c").Critical("m")
	n := 0
	for _, o := range s.os {
		n -= len(o.o.Evts)
	}
	zzGetLogger("").Info("m")
	zzGetLogger("c").Error("m")
	zzGetLogger("c").Warn("no")
	for _, o := range s.os {
		n += len(o.o.Evts)
	}
	v.Assert(n == 2, "others-deliver")
	v.Assert(zzGetLogger("c").Level() == api.Error && zzGetLogger("").Level() == api.Info, "others-levels")
	m.Close()
}

// a creator may write to the map it was given: that changes no definition
// zz: cover=output,format
func ZZScribble() {
	m := zzGetManager()
	s := &zz29Log{}
	key := []string{"name", "type", "format", "layout", "extra"}[v.Choose("key", 5)]
	val := v.String("value", v.Choose("valuelen", 2))
	scribble := func(c map[string]string) {
		if v.Choose("how", 2) == 0 {
			c[key] = val
		} else {
			for k := range c {
				delete(c, k)
			}
		}
	}
	inOutput := v.Bool("output")
	m.RegisterOutputCreator("t", func(c api.CfgOutput) (api.Output, error) {
		o, err := s.output(1)(c)
		if inOutput {
			scribble(c)
			v.Cover("output")
		}
		return o, err
	})
	m.RegisterFormatterCreator("t", func(c api.CfgFormat) (api.Formatter, error) {
		f, err := s.format(1)(c)
		if !inOutput {
			scribble(c)
			v.Cover("format")
		}
		return f, err
	})
	cfg := &api.Config{Formats: []api.CfgFormat{{"type": "t", "name": "f"}}, Outputs: []api.CfgOutput{{"type": "t", "name": "x", "format": "f"}, {"type": "t", "name": "y", "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "info", OutputNames: []string{"x"}}, {Name: "a", Level: "info", OutputNames: []string{"x", "y"}}}}
	if v.Bool("early") {
		zzGetLogger("a")
	}
	v.Assert(m.SetConfig(cfg) == nil, "accepted")
	zzGetLogger("").Info("1")
	zzGetLogger("a").Info("2")
	if v.Bool("again") {
		v.Assert(m.SetConfig(cfg) == nil, "accepted")
	}
	zzGetLogger("a").Info("3")
	v.Assert(len(s.os) == 2 && len(s.fs) == 1, "created-once")
	v.Assert(len(cfg.Outputs[0]) == 3 && len(cfg.Formats[0]) == 2, "definition-unchanged")
	for _, o := range s.os {
		v.Assert(o.o.F == api.Formatter(s.fs[0].f), "format-attached")
		v.Assert(zz29Same(o.cfg, map[string]string{"type": "t", "name": o.cfg["name"], "format": "f"}), "output-definition")
		want := 2
		if o.cfg["name"] == "x" {
			want = 3
		}
		v.Assert(len(o.o.Evts) == want, "delivered-to-named")
	}
}
