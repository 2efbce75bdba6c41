package internal

import (
	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: five logger names (root, a, a/b, a/b/c, d), any subset of them configured with one of four settings (debug to c1, warn without outputs, no level to c2, off to both); up to the bound requests in any order before and after the configuration is set; a configuration that lists a logger lists at least one output for it or none.

var zz04Names = []string{"root", "a", "a/b", "a/b/c", "d"}
var zz04Parent = []int{-1, 0, 1, 2, 0}

type zz04Set struct {
	listed bool
	lvl    api.Level
	outs   int // bit set of outputs c1, c2
}

// zz04Config builds a configuration and what it says about each logger.
func zz04Config(which []int) (*api.Config, []zz04Set) {
	sets := make([]zz04Set, len(zz04Names))
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "capf", "name": "f"}},
		Outputs: []api.CfgOutput{{"type": "cap", "name": "c1", "format": "f"}, {"type": "cap", "name": "c2", "format": "f"}},
	}
	for _, i := range which {
		k := v.Choose("setting", 5)
		if k == 0 {
			continue
		}
		str := []string{"", "debug", "WARN", "", "off"}[k]
		s := zz04Set{listed: true}
		s.lvl = []api.Level{0, api.Debug, api.Warn, api.Uninitialized, api.Off}[k]
		s.outs = []int{0, 1, 0, 2, 3}[k]
		var names []string
		if s.outs&1 != 0 {
			names = append(names, "c1")
		}
		if s.outs&2 != 0 {
			names = append(names, "c2")
		}
		cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: zz04Names[i], Level: str, OutputNames: names})
		sets[i] = s
	}
	return cfg, sets
}

// zz04Check asks every logger for its level and what a message reaches.
func zz04Check(sets []zz04Set, outs map[string]*vcap.Out, what []int) {
	for _, i := range what {
		l := zzGetLogger(zz04Names[i])
		lv, bits := api.Off, 0
		hasL, hasO := false, false
		for j := i; j >= 0; j = zz04Parent[j] {
			s := sets[j]
			if j == 0 && !s.listed {
				break
			}
			if s.listed && !hasL && s.lvl != api.Uninitialized {
				lv, hasL = s.lvl, true
			}
			if s.listed && !hasO && s.outs != 0 {
				bits, hasO = s.outs, true
			}
		}
		if !sets[0].listed {
			// an unlisted root keeps what it had before: decided in C06
			if !hasL || !hasO {
				continue
			}
		}
		v.Observe("level", zz04Names[i], int(l.Level()))
		v.Assert(l.Level() == lv, "configured-level")
		before := [2]int{zz04N(outs["c1"]), zz04N(outs["c2"])}
		l.Critical("m")
		on := 0
		if lv <= api.Critical {
			on = 1
		}
		v.Assert(zz04N(outs["c1"])-before[0] == on*(bits&1), "configured-output-1")
		v.Assert(zz04N(outs["c2"])-before[1] == on*(bits>>1), "configured-output-2")
	}
}

func zz04N(o *vcap.Out) int {
	if o == nil {
		return 0
	}
	return len(o.Evts)
}

func zz04Outs(all *[]*vcap.Out) map[string]*vcap.Out {
	r := map[string]*vcap.Out{}
	for _, o := range *all {
		_, dup := r[o.Name]
		v.Assert(!dup, "one-instance-per-output")
		r[o.Name] = o
	}
	return r
}

// loggers requested in any order around one SetConfig
// zz: cover=before,after
func ZZOrder() {
	all := zzCapTypes()
	v.MapOrder(false)
	n := v.Bound("requests", 2, 3)
	before := v.Choose("before", n+1)
	for i := 0; i < before; i++ {
		zzGetLogger(zz04Names[v.Choose("req", len(zz04Names))])
		v.Cover("before")
	}
	cfg, sets := zz04Config([]int{0, 1, 2})
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
	for i := before; i < n; i++ {
		zzGetLogger(zz04Names[v.Choose("req", len(zz04Names))])
		v.Cover("after")
	}
	zz04Check(sets, nil, nil)
	what := []int{3, 2, 1, 0, 4}
	for _, i := range what {
		zzGetLogger(zz04Names[i])
	}
	zz04Check(sets, zz04Outs(all), what)
}

// the deepest logger is requested first, or last
func ZZDeep() {
	all := zzCapTypes()
	deep := v.Bool("deep first")
	late := v.Bool("config last")
	if deep && late {
		zzGetLogger("a/b/c")
	}
	cfg, sets := zz04Config([]int{0, 1, 3})
	cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: "a/b", Level: "error", OutputNames: []string{"c2"}})
	sets[2] = zz04Set{true, api.Error, 2}
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
	what := []int{3, 2, 1, 0}
	if !deep {
		what = []int{0, 1, 2, 3}
	}
	for _, i := range what {
		zzGetLogger(zz04Names[i])
	}
	zz04Check(sets, zz04Outs(all), what)
}

// the order in which loggers are listed in the configuration and visited afterwards is irrelevant
func ZZListOrder() {
	all := zzCapTypes()
	v.MapOrder(true)
	for _, n := range zz04Names[:3] {
		zzGetLogger(n)
	}
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "capf", "name": "f"}},
		Outputs: []api.CfgOutput{{"type": "cap", "name": "c1", "format": "f"}, {"type": "cap", "name": "c2", "format": "f"}},
	}
	ls := []api.CfgLogger{{Name: "root", Level: "warn", OutputNames: []string{"c1"}}, {Name: "a", Level: "debug"}, {Name: "a/b", OutputNames: []string{"c2"}}}
	p := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}}[v.Choose("perm", v.Bound("perms", 2, 6))]
	for _, i := range p {
		cfg.Loggers = append(cfg.Loggers, ls[i])
	}
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
	v.MapOrder(false)
	sets := []zz04Set{{true, api.Warn, 1}, {true, api.Debug, 0}, {true, api.Uninitialized, 2}, {}, {}}
	zz04Check(sets, zz04Outs(all), []int{0, 1, 2, 3, 4})
}

// the settings of a logger are those of that very name: no other one, however alike, gets them
// except by inheritance
// zz: cover=same,below,other
func ZZNames() {
	all := zzCapTypes()
	x := zz03Name("x", v.Bound("len", 3, 4))
	y := zz03Name("y", v.Bound("ylen", 2, 3))
	v.Assume(!zz03IsRoot(y))
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "capf", "name": "f"}},
		Outputs: []api.CfgOutput{{"type": "cap", "name": "c1", "format": "f"}, {"type": "cap", "name": "c2", "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "error", OutputNames: []string{"c1"}}, {Name: y, Level: "debug", OutputNames: []string{"c2"}}},
	}
	early := v.Bool("early")
	if early {
		zzGetLogger(x)
	}
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
	l := zzGetLogger(x)
	l.Critical("m")
	outs := zz04Outs(all)
	n1, n2 := zz04N(outs["c1"]), zz04N(outs["c2"])
	v.Observe("level", x, y, int(l.Level()))
	if x == y || zz03Below(x, y) {
		if x == y {
			v.Cover("same")
		} else {
			v.Cover("below")
		}
		v.Assert(l.Level() == api.Debug, "configured-level")
		v.Assert(n1 == 0 && n2 == 1, "configured-outputs")
	} else {
		v.Cover("other")
		v.Assert(l.Level() == api.Error, "inherited-level")
		v.Assert(n1 == 1 && n2 == 0, "inherited-outputs")
	}
}

// many loggers, wide and deep, with long names; the settings are those of each
// zz: cover=wide,deep steps=60000000
func ZZMany() {
	all := zzCapTypes()
	n := v.Bound("many", 12, 60)
	deep := v.Bool("deep")
	cfg := &api.Config{Formats: []api.CfgFormat{{"type": "capf", "name": "f"}},
		Outputs: []api.CfgOutput{{"type": "cap", "name": "c0", "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "critical", OutputNames: []string{"c0"}}}}
	lvls := []string{"trace", "debug", "info", "warn", "error", ""}
	names, want := []string{}, []api.Level{}
	name := ""
	last := api.Critical
	for i := 0; i < n; i++ {
		if deep {
			if i > 0 {
				name += "/"
			}
			name += "l" + zzItoa(i)
		} else {
			name = zzText('x', 20) + zzItoa(i)
			last = api.Critical
		}
		k := i % len(lvls)
		if k < 5 {
			last = api.Trace + api.Level(k)
		}
		names, want = append(names, name), append(want, last)
		cfg.Outputs = append(cfg.Outputs, api.CfgOutput{"type": "cap", "name": "o" + zzItoa(i), "format": "f"})
		cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: name, Level: lvls[k], OutputNames: []string{"o" + zzItoa(i)}})
	}
	if deep {
		v.Cover("deep")
	} else {
		v.Cover("wide")
	}
	first := v.Choose("first", n)
	late := v.Bool("late")
	if !late {
		zzGetLogger(names[first])
	}
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
	if late {
		zzGetLogger(names[first])
	}
	for i, x := range names {
		l := zzGetLogger(x)
		v.Assert(l.Level() == want[i], "configured-level")
		l.Critical("m")
		u := zzGetLogger(x + "/unlisted")
		v.Assert(u.Level() == want[i], "inherited-level")
		u.Critical("u")
	}
	outs := zz04Outs(all)
	for i := range names {
		v.Assert(zz04N(outs["o"+zzItoa(i)]) == 2, "configured-outputs")
	}
}
