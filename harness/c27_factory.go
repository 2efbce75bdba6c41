package internal

import (
	"sync"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: two or three goroutines with one to three operations each; every schedule is covered up to equivalence of independent steps. Data races, panics and deadlocks are violations.

// zz27Go runs the functions concurrently and waits for them.
func zz27Go(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			f()
			wg.Done()
		}()
	}
	wg.Wait()
}

func zz27Config(tag string, ls ...api.CfgLogger) *api.Config {
	return &api.Config{
		Formats: []api.CfgFormat{{"type": "capf", "name": "f"}},
		Outputs: []api.CfgOutput{{"type": "cap", "name": "c1", "format": "f", "tag": tag}, {"type": "cap", "name": "c2", "format": "f", "tag": tag}},
		Loggers: ls,
	}
}

// zz27Count tells how many events with this format the outputs of a name received.
func zz27Count(all []*vcap.Out, name, msg string) int {
	n := 0
	for _, o := range all {
		for _, e := range o.Evts {
			if e.Format == msg && (name == "" || o.Name == name) {
				n++
			}
		}
	}
	return n
}

// the same name gives the same logger, in one tree
func ZZGet() {
	names := []string{"a/b", "a", "a/b.c", "root", "d"}
	n := v.Bound("getters", 2, 3)
	pick := make([][]string, n)
	for i := range pick {
		k := v.Choose("first", len(names))
		pick[i] = []string{names[k], names[(k+1+v.Choose("second", 2))%len(names)]}
	}
	got := make([][]api.Logger, n)
	var fs []func()
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func() {
			for _, s := range pick[i] {
				got[i] = append(got[i], zzGetLogger(s))
			}
		})
	}
	zz27Go(fs...)
	for i := range pick {
		for j, s := range pick[i] {
			v.Assert(got[i][j] == zzGetLogger(s), "same-logger")
		}
	}
	// parents are in place
	zzGetLogger("root").SetLevel(api.Error)
	v.Assert(zzGetLogger("a/b.c").Level() == api.Error, "tree")
	zzGetLogger("a").SetLevel(api.Warn)
	v.Assert(zzGetLogger("a/b.c").Level() == api.Warn, "tree")
	zzGetLogger("a/b").SetLevel(api.Info)
	v.Assert(zzGetLogger("a/b.c").Level() == api.Info, "tree")
	v.Assert(zzGetLogger("a").Level() == api.Warn, "tree")
	v.Assert(zzGetLogger("d").Level() == api.Error, "tree")
}

// messages during a reconfiguration are treated the old or the new way
// zz: cover=old,new,filtered
func ZZSetConfig() {
	outs := zzCapTypes()
	m := zzGetManager()
	oldL := api.Level(v.Choose("old", 2)*3 + 2) // debug or error
	newL := api.Level(v.Choose("new", 2)*3 + 2)
	name := []string{"info", "debug", "info", "warn", "error", "error"}
	newTag := []string{"x", "y"}[v.Choose("tag", 2)]
	own := v.Bool("own")
	oldCfg := zz27Config("x", api.CfgLogger{Name: "root", Level: name[oldL-1], OutputNames: []string{"c1"}})
	newCfg := zz27Config(newTag, api.CfgLogger{Name: "root", Level: name[newL-1], OutputNames: []string{"c2"}})
	oldL, newL = api.LevelFrom(name[oldL-1]), api.LevelFrom(name[newL-1])
	if own {
		newCfg.Loggers = append(newCfg.Loggers, api.CfgLogger{Name: "a", Level: "", OutputNames: []string{"c2"}})
	}
	v.Assert(m.SetConfig(oldCfg) == nil, "accepted")
	early := v.Bool("early")
	var l api.Logger
	if early {
		l = zzGetLogger("a/b")
	}
	var lv api.Level
	zz27Go(func() {
		v.Assert(m.SetConfig(newCfg) == nil, "accepted")
	}, func() {
		if !early {
			l = zzGetLogger("a/b")
		}
		l.Warnf("w")
		l.Criticalf("c")
		lv = l.Level()
	})
	v.Assert(lv == oldL || lv == newL, "old-or-new-level")
	count := func(msg string) (int, int) {
		return zz27Count(*outs, "c1x", msg), zz27Count(*outs, "c2"+newTag, msg)
	}
	o, n := count("c")
	v.Assert(o+n == 1 && zz27Count(*outs, "", "c") == 1, "delivered-once")
	if o == 1 {
		v.Cover("old")
	} else {
		v.Cover("new")
	}
	o, n = count("w")
	v.Assert(zz27Count(*outs, "", "w") == o+n && o+n <= 1, "delivered-once")
	if oldL <= api.Warn && newL <= api.Warn {
		v.Assert(o+n == 1, "old-or-new-level")
	}
	if oldL > api.Warn && newL > api.Warn {
		v.Assert(o+n == 0, "old-or-new-level")
		v.Cover("filtered")
	}
	// from now on only the new one counts
	v.Assert(l.Level() == newL, "new-level")
	l.Warnf("z")
	o, n = count("z")
	v.Assert(o == 0 && n == v.IteInt(newL <= api.Warn, 1, 0), "new-settings")
	for _, x := range *outs {
		v.Assert(x.Closes == 0, "not-closed")
	}
}

// of two configurations set at the same time one is followed by all
// zz: cover=first,second
func ZZTwoConfigs() {
	outs := zzCapTypes()
	m := zzGetManager()
	ab := v.Bool("a/b")
	mk := func(tag, lvl, al, out string) *api.Config {
		c := zz27Config(tag, api.CfgLogger{Name: "root", Level: lvl, OutputNames: []string{out}})
		if al != "" {
			c.Loggers = append(c.Loggers, api.CfgLogger{Name: "a", Level: al, OutputNames: []string{out}})
		}
		return c
	}
	tag := []string{"x", "y"}[v.Choose("tag", 2)]
	c1 := mk("x", "debug", "info", "c1")
	c2 := mk(tag, "error", "", "c2")
	if ab {
		c2.Loggers = append(c2.Loggers, api.CfgLogger{Name: "a/b", Level: "warn", OutputNames: nil})
	}
	start := v.Choose("start", 3)
	if start > 0 {
		v.Assert(m.SetConfig(mk("x", "critical", "trace", "c1")) == nil, "accepted")
	}
	if start > 1 {
		zzGetLogger("a/b")
	}
	fs := []func(){
		func() { v.Assert(m.SetConfig(c1) == nil, "accepted") },
		func() { v.Assert(m.SetConfig(c2) == nil, "accepted") },
	}
	if v.Bound("getter", 0, 1) == 1 || start == 1 {
		fs = append(fs, func() { zzGetLogger("a/b") })
	}
	zz27Go(fs...)
	r, a, b := zzGetLogger("root").Level(), zzGetLogger("a").Level(), zzGetLogger("a/b").Level()
	first := r == api.Debug && a == api.Info && b == api.Info
	second := r == api.Error && a == api.Error && b == api.Error
	if ab {
		second = r == api.Error && a == api.Error && b == api.Warn
	}
	v.Assert(first || second, "one-configuration")
	for i, s := range []string{"root", "a", "a/b"} {
		msg := "m" + string([]byte{byte('0' + i)})
		zzGetLogger(s).Criticalf(msg)
		want := "c1x"
		if second {
			want = "c2" + tag
		}
		v.Assert(zz27Count(*outs, want, msg) == 1 && zz27Count(*outs, "", msg) == 1, "one-configuration")
	}
	if first {
		v.Cover("first")
	} else {
		v.Cover("second")
	}
	n := 0
	for _, o := range *outs {
		v.Assert(o.Closes == 0, "not-closed")
		if len(o.Evts) > 0 {
			n++
		}
	}
	v.Assert(n == 1, "shared-instance")
}

// a logger's own settings may be changed while it is used
func ZZSetters() {
	c1, c2 := &vcap.Out{Name: "c1"}, &vcap.Out{Name: "c2"}
	all := []*vcap.Out{c1, c2}
	r, l := zzGetLogger("root"), zzGetLogger("a/b")
	r.SetOutputs([]api.Output{c1})
	r.SetLevel(api.Debug)
	target := []api.Logger{r, l, zzGetLogger("a")}[v.Choose("target", 3)]
	what := v.Choose("what", 3)
	zz27Go(func() {
		switch what {
		case 0:
			target.SetLevel(api.Error)
		case 1:
			target.SetOutputs([]api.Output{c2})
		case 2:
			target.SetOutputs([]api.Output{c2})
			target.SetLevel(api.Error)
			target.SetCallerSkip(1)
		}
	}, func() {
		l.Infof("i")
		l.Errorf("e")
		if l.InfoEnabled() {
			l.Level()
		}
		l.WithFields(api.Field{Key: "k", Value: 1}).Criticalf("c")
	})
	v.Assert(zz27Count(all, "", "i") <= 1, "delivered-once")
	v.Assert(what != 1 || zz27Count(all, "", "i") == 1, "old-or-new-level")
	v.Assert(zz27Count(all, "", "e") == 1, "delivered-once")
	v.Assert(zz27Count(all, "", "c") == 1, "delivered-once")
	if zz27Count(all, "c2", "i") == 1 {
		v.Assert(zz27Count(all, "c2", "e") == 1, "never-back")
	}
	if zz27Count(all, "c2", "e") == 1 {
		v.Assert(zz27Count(all, "c2", "c") == 1, "never-back")
	}
	l.Errorf("z")
	v.Assert(zz27Count(all, []string{"c1", "c2", "c2"}[what], "z") == 1, "new-settings")
	v.Assert(what == 1 || !l.WarnEnabled(), "new-settings")
}

// loggers sharing outputs with a text format: every message arrives whole, in the order of its goroutine
func ZZText() {
	vos.Reset()
	m := zzGetManager()
	kind := []string{"memory", "console", "size_rolling_file"}[v.Choose("kind", 3)]
	layout := []string{"%{module}:%{msg};", "%{module}:%{msg};%{shortfunc:.0s}"}[v.Choose("layout", 2)]
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "text", "name": "f", "layout": layout}},
		Outputs: []api.CfgOutput{{"type": kind, "name": "o", "format": "f", "file": "/l/f"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}},
	}
	v.Assert(m.SetConfig(cfg) == nil, "accepted")
	ops, _, err := m.GetLoggerOutputs("root")
	v.Assert(err == nil && len(ops) == 1, "created")
	n := 2
	var fs []func()
	for g := 0; g < n; g++ {
		l := zzGetLogger([]string{"a", "a/b"}[g])
		fs = append(fs, func() {
			for i := 0; i < 2; i++ {
				l.Info(i)
			}
		})
	}
	zz27Go(fs...)
	t := ""
	switch kind {
	case "memory":
		t = ops[0].(interface{ String() string }).String()
	case "console":
		t = zzStdout()
	default:
		b, _ := vos.Content("/l/f")
		t = string(b)
	}
	var seen [2]int
	for len(t) > 0 {
		g := 0
		if len(t) > 1 && t[1] == '/' {
			g = 1
		}
		w := []string{"a", "a/b"}[g] + ":" + zzItoa(seen[g]) + ";"
		v.Assert(len(t) >= len(w) && t[:len(w)] == w, "message-whole")
		seen[g]++
		t = t[len(w):]
	}
	v.Assert(seen[0] == 2 && seen[1] == 2, "delivered-once")
}

// any two (thorough: some three) operations at once: no call gets stuck
func ZZMixed() {
	outs := zzCapTypes()
	m := zzGetManager()
	v.Assert(m.SetConfig(zz27Config("x", api.CfgLogger{Name: "root", Level: "debug", OutputNames: []string{"c1"}})) == nil, "accepted")
	l := zzGetLogger("a")
	n := 0
	op := func(k int) func() {
		return func() {
			switch k {
			case 0:
				v.Assert(m.SetConfig(zz27Config("y", api.CfgLogger{Name: "root", Level: "info", OutputNames: []string{"c2"}})) == nil, "accepted")
			case 1:
				n++
				zzGetLogger("a/b").Errorf("e")
			case 2:
				m.Close()
			case 3:
				m.RegisterOutputCreator("other", NewConsoleOutput)
				m.RegisterFormatterCreator("other", NewTextFormatter)
			case 4:
				_, _, err := m.GetLoggerOutputs("root")
				v.Assert(err == nil, "outputs-found")
			case 5:
				v.Assert(m.SetConfig(zz27Config("y", api.CfgLogger{Name: "root", OutputNames: []string{"c3"}})) != nil, "refused")
			case 6:
				v.Assert(m.LoadConfig(nil, "txt") != nil, "refused")
				l.SetLevel(api.Error)
			}
		}
	}
	a := v.Choose("a", 7)
	b := v.Int("b", 0, 6)
	v.Assume(b >= a && (b != a || b != 1))
	b = v.Concrete(b)
	if v.Bound("three", 0, 1) == 1 && a != 1 && b != 1 && a+b > 3 {
		zz27Go(op(a), op(b), func() { l.Errorf("e") })
		n++
	} else {
		zz27Go(op(a), op(b))
	}
	v.Assert(zz27Count(*outs, "", "e") == n, "delivered-once")
}
