package internal

import (
	"errors"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: lists of up to the bound of entries whose names are symbolic strings of up to two bytes, different within a list; entries are maps or nil.

func zz35Names(tag string, n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = v.String(tag, v.Choose(tag+"len", 3))
		for j := 0; j < i; j++ {
			v.Assume(r[i] != r[j])
		}
	}
	return r
}

// the entry of exactly that name, or none
// zz: cover=found,none,nil-entry
func ZZEntries() {
	names := zz35Names("name", v.Choose("entries", v.Bound("entries", 3, 4)))
	c := &api.Config{}
	for i, n := range names {
		k := zzItoa(i)
		c.Loggers = append(c.Loggers, api.CfgLogger{Name: n, Level: "l" + k, OutputNames: []string{"x" + k, "y" + k}})
		o, f := api.CfgOutput{"name": n, "type": "o" + k, "format": "f" + k}, api.CfgFormat{"name": n, "type": "t" + k}
		if n == "" && v.Bool("nil entry") {
			o, f = nil, nil
			v.Cover("nil-entry")
		}
		c.Outputs, c.Formats = append(c.Outputs, o), append(c.Formats, f)
	}
	ask := v.String("ask", v.Choose("asklen", 3))
	l, o, f := c.GetCfgLogger(ask), c.GetCfgOutput(ask), c.GetCfgFormat(ask)
	for i, n := range names {
		if n != ask {
			continue
		}
		k := zzItoa(i)
		v.Assert(l != nil && l.Name == ask && l.Level == "l"+k, "logger-entry")
		v.Assert(len(l.OutputNames) == 2 && l.OutputNames[0] == "x"+k && l.OutputNames[1] == "y"+k, "logger-entry")
		if c.Outputs[i] == nil {
			v.Assert(o == nil && o.Type() == "" && o.FormatName() == "" && f.Type() == "", "nil-entry")
			return
		}
		v.Assert(o.Name() == ask && o.Type() == "o"+k && o.FormatName() == "f"+k && len(o) == 3, "output-entry")
		v.Assert(f.Name() == ask && f.Type() == "t"+k && len(f) == 2, "format-entry")
		v.Cover("found")
		return
	}
	v.Assert(l == nil && o == nil && f == nil, "no-entry")
	v.Assert(o.Name() == "" && o.Type() == "" && o.FormatName() == "" && f.Name() == "" && f.Type() == "", "no-entry")
	v.Cover("none")
}

// level and instances of what is configured, which are those the logger of that name delivers to
// zz: cover=listed,unlisted,failing,before,after
func ZZOutputs() {
	m := zzGetManager()
	fails := v.Choose("fails", 3) // an output that cannot be created, by an error or for its type
	made := map[string]*vcap.Out{}
	count := 0
	m.RegisterFormatterCreator("f", func(c api.CfgFormat) (api.Formatter, error) { return &vcap.Fmt{}, nil })
	m.RegisterOutputCreator("o", func(c api.CfgOutput) (api.Output, error) {
		if c["fail"] != "" {
			return nil, errors.New("no")
		}
		o := &vcap.Out{}
		count++
		made[c.Name()] = o
		return o, nil
	})
	bad := api.CfgOutput{"name": "bad", "type": "o", "format": "f", "fail": "1"}
	if fails == 2 {
		bad = api.CfgOutput{"name": "bad", "type": "none", "format": "f"}
	}
	lists := [][]string{nil, {"p"}, {"p", "q"}, {"q", "p"}, {"q"}}
	if fails > 0 {
		lists = append(lists, []string{"p", "bad"}, []string{"bad"})
	}
	names := []string{"root", "a", "a/b"}
	lvs := []string{"info", "OFF", "", "none"}
	pars := []api.Level{api.Info, api.Off, api.Uninitialized, api.Uninitialized}
	ask := v.Choose("ask", 5)
	name := append(names, "", "b")[ask]
	has, lst, lvl := [3]bool{}, [3]int{}, [3]int{}
	cfg := &api.Config{Formats: []api.CfgFormat{{"name": "f", "type": "f"}},
		Outputs: []api.CfgOutput{{"name": "p", "type": "o", "format": "f"}, bad, {"name": "q", "type": "o", "format": "f"}}}
	for i, n := range names {
		if has[i] = v.Bool("listed"); has[i] {
			// what is asked for is of any kind, the others of a few
			if i == ask {
				lst[i], lvl[i] = v.Choose("outputs", len(lists)), v.Choose("level", len(lvs))
			} else if lst[i] = 2; fails > 0 {
				lst[i] = 5
			}
			cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: n, Level: lvs[lvl[i]], OutputNames: lists[lst[i]]})
		}
	}
	var ls [3]api.Logger
	get := func() {
		for i, n := range names {
			ls[i] = zzGetLogger(n)
		}
	}
	first := v.Bool("before")
	if first {
		get()
		v.Cover("before")
	}
	v.Assert(m.SetConfig(cfg) == nil, "accepted")
	if !first && v.Bool("loggers") {
		get()
		v.Cover("after")
	}
	var lvBefore [3]api.Level
	for i := range ls {
		if ls[i] != nil {
			lvBefore[i] = ls[i].Level()
		}
	}
	ops, lv, err := m.GetLoggerOutputs(name)
	for i := range ls {
		v.Assert(ls[i] == nil || ls[i].Level() == lvBefore[i], "asking-changes-nothing")
	}
	if ask > 2 || !has[ask] {
		v.Assert(err != nil && len(ops) == 0, "error-for-unlisted")
		v.Cover("unlisted")
		return
	}
	if lst[ask] > 4 {
		v.Assert(err != nil, "error-for-failing")
		v.Cover("failing")
		return
	}
	want := lists[lst[ask]]
	v.Assert(err == nil && lv == pars[lvl[ask]], "level")
	v.Assert(len(ops) == len(want), "outputs")
	for i, o := range want {
		v.Assert(ops[i] == api.Output(made[o]), "outputs")
	}
	v.Cover("listed")
	v.Observe("listed", name, int(lv), len(ops))
	// again, and by the logger itself
	n := count
	ops2, _, _ := m.GetLoggerOutputs(name)
	v.Assert(len(ops2) == len(ops), "same-again")
	for i := range ops {
		v.Assert(ops2[i] == ops[i], "same-again")
	}
	l := zzGetLogger(name)
	l.SetLevel(api.All)
	l.Error("m")
	for _, o := range want {
		v.Assert(len(made[o].Evts) == 1, "the-logger-delivers-there")
	}
	v.Assert(count == n || n < 2, "created-once")
}

// of a later configuration, and after one that was rejected
// zz: cover=later,rejected
func ZZLater() {
	m := zzGetManager()
	mem := func(level string, outs ...string) *api.Config {
		c := &api.Config{Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}"}}}
		for _, o := range []string{"p", "q"} {
			c.Outputs = append(c.Outputs, api.CfgOutput{"name": o, "type": "memory", "format": "f"})
		}
		c.Loggers = []api.CfgLogger{{Name: "a", Level: level, OutputNames: outs}}
		return c
	}
	v.Assert(m.SetConfig(mem("info", "p", "q")) == nil, "accepted")
	old, _, err := m.GetLoggerOutputs("a")
	v.Assert(err == nil && len(old) == 2 && old[0] != old[1], "outputs")
	_, _, err = m.GetLoggerOutputs("root")
	v.Assert(err != nil, "error-for-unlisted") // the default configuration is not in effect any more
	if v.Bool("rejected") {
		v.Assert(m.SetConfig(mem("error", "p", "r")) != nil, "rejected")
		ops, lv, err := m.GetLoggerOutputs("a")
		v.Assert(err == nil && lv == api.Info && len(ops) == 2 && ops[0] == old[0] && ops[1] == old[1], "rejected-changes-nothing")
		v.Cover("rejected")
	}
	c := mem("error", "q")
	c.Loggers[0].Name = []string{"a", "b"}[v.Choose("name", 2)]
	v.Assert(m.SetConfig(c) == nil, "accepted")
	ops, lv, err := m.GetLoggerOutputs(c.Loggers[0].Name)
	v.Assert(err == nil && lv == api.Error && len(ops) == 1 && ops[0] == old[1], "later-configuration")
	if c.Loggers[0].Name == "b" {
		_, _, err = m.GetLoggerOutputs("a")
		v.Assert(err != nil, "error-for-unlisted")
	}
	v.Cover("later")
}

// only the listed names, of all names
// zz: cover=listed,unlisted
func ZZName() {
	m := zzGetManager()
	names := []string{"a", "a.b", "", "Root", "é"}
	c := &api.Config{}
	for i, n := range names {
		c.Loggers = append(c.Loggers, api.CfgLogger{Name: n, Level: []string{"info", "warn", "error", "off", "debug"}[i]})
	}
	v.Assert(m.SetConfig(c) == nil, "accepted")
	ask := v.String("ask", v.Choose("asklen", v.Bound("len", 4, 5)+1))
	ops, lv, err := m.GetLoggerOutputs(ask)
	v.Assert(len(ops) == 0, "outputs")
	for i, n := range names {
		if ask == n {
			v.Assert(err == nil && lv == []api.Level{api.Info, api.Warn, api.Error, api.Off, api.Debug}[i], "level")
			v.Cover("listed")
			return
		}
	}
	v.Assert(err != nil, "error-for-unlisted")
	v.Cover("unlisted")
}
