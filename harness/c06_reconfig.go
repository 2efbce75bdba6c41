package internal

import (
	"context"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: two (thorough: three) configurations in a row, each listing root, and a, a/b as chosen; two formats and two outputs whose definitions vary; loggers are requested before, between or after. The bundled output types are covered by C10 and C25.

type zz06State struct {
	layout [2]string // of formats f, g
	tag    [2]string // of outputs c1, c2
	format [2]int    // of outputs
	lvl    [3]api.Level
	outs   [3][]int
	listed [3]bool
}

var zz06Names = []string{"root", "a", "a/b"}

func zz06Config(rich bool) (*api.Config, zz06State) {
	var s zz06State
	s.layout = [2]string{"A", "G"}
	if v.Bool("layout") {
		s.layout[0] = "B"
	}
	s.tag = [2]string{"x", "z"}
	if v.Bool("tag") {
		s.tag[0] = "y"
	}
	s.format = [2]int{v.Choose("format", 2), 1}
	fn := []string{"f", "g"}
	on := []string{"c1", "c2"}
	cfg := &api.Config{}
	for i, n := range fn {
		cfg.Formats = append(cfg.Formats, api.CfgFormat{"type": "capf", "name": n, "layout": s.layout[i]})
	}
	for i, n := range on {
		cfg.Outputs = append(cfg.Outputs, api.CfgOutput{"type": "cap", "name": n, "tag": s.tag[i], "format": fn[s.format[i]]})
	}
	add := func(i int, l string, lv api.Level, outs ...int) {
		s.listed[i], s.lvl[i], s.outs[i] = true, lv, outs
		c := api.CfgLogger{Name: zz06Names[i], Level: l}
		for _, o := range outs {
			c.OutputNames = append(c.OutputNames, on[o])
		}
		cfg.Loggers = append(cfg.Loggers, c)
	}
	switch v.Choose("root", 2) {
	case 0:
		add(0, "debug", api.Debug, 0)
	case 1:
		add(0, "error", api.Error, 1, 0)
	}
	switch v.Choose("a", 3) {
	case 1:
		add(1, "trace", api.Trace, 0)
	case 2:
		add(1, "", api.Uninitialized, 1)
	}
	if rich {
		switch v.Choose("ab", 2) {
		case 1:
			add(2, "warn", api.Warn)
		}
	}
	return cfg, s
}

// zz06Writers are writers obtained before the configurations.
func zz06Writers() (ws [3]api.Writer) {
	for i, n := range zz06Names {
		l := zzGetLogger(n)
		switch i {
		case 1:
			ws[i] = l.WithFields(api.Field{Key: "k", Value: i})
		case 2:
			ws[i] = l.WithCtx(context.Background())
		default:
			ws[i] = l
		}
	}
	return
}

func zz06Verify(s zz06State, pall *[]*vcap.Out, ws ...api.Writer) {
	for i := range zz06Names {
		l := zzGetLogger(zz06Names[i])
		w := api.Writer(l)
		if ws != nil {
			w = ws[i]
		}
		all := *pall
		lv, outs := api.Uninitialized, []int(nil)
		for j := i; j >= 0; j-- {
			if lv == api.Uninitialized {
				lv = s.lvl[j]
			}
			if len(outs) == 0 {
				outs = s.outs[j]
			}
		}
		v.Assert(l.Level() == lv, "new-level")
		n := make([]int, len(all))
		for k, o := range all {
			n[k] = len(o.Evts)
		}
		w.Critical("m")
		got := 0
		for k, o := range all {
			if len(o.Evts) > n[k] {
				got += len(o.Evts) - n[k]
			}
		}
		v.Assert(got == len(outs), "new-outputs-only")
		// each expected output got it, with its present definition and format
		var seen []*vcap.Out
		for _, x := range outs {
			var hit *vcap.Out
			for k, o := range all {
				if len(o.Evts) > n[k] && o.Name == []string{"c1", "c2"}[x]+s.tag[x] {
					hit = o
				}
			}
			v.Assert(hit != nil, "new-output-definition")
			if hit == nil {
				continue
			}
			f, _ := hit.F.(*vcap.Fmt)
			v.Assert(f != nil && f.Pre == s.layout[s.format[x]], "new-format")
			v.Assert(hit.Closes == 0, "output-open")
			seen = append(seen, hit)
		}
	}
}

// zz06Shared: loggers naming the same output use one instance of it.
func zz06Shared(s zz06State, all []*vcap.Out) {
	for x := 0; x < 2; x++ {
		var hits []*vcap.Out
		for i := range zz06Names {
			if !s.listed[i] {
				continue
			}
			for _, o := range s.outs[i] {
				if o != x {
					continue
				}
				n := make([]int, len(all))
				for k, q := range all {
					n[k] = len(q.Evts)
				}
				zzGetLogger(zz06Names[i]).Critical("m")
				for k, q := range all {
					if len(q.Evts) > n[k] && q.Name == []string{"c1", "c2"}[x]+s.tag[x] {
						hits = append(hits, q)
					}
				}
			}
		}
		for _, h := range hits {
			v.Assert(h == hits[0], "shared-instance")
		}
	}
}

// reconfigured loggers follow the latest configuration
// zz: cover=changed,same
func ZZReconfigure() {
	all := zzCapTypes()
	early := v.Choose("early", 3)
	if early == 1 {
		zzGetLogger("a/b")
	}
	var last zz06State
	for i := 0; i < v.Bound("configs", 2, 2); i++ {
		cfg, s := zz06Config(i == 0 || v.Bound("rich", 0, 1) == 1)
		v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
		if early == 2 && i == 0 {
			zzGetLogger("a/b").Critical("m")
		}
		if i > 0 {
			if s.tag == last.tag && s.layout == last.layout && s.format == last.format {
				v.Cover("same")
			} else {
				v.Cover("changed")
			}
		}
		last = s
		zz06Verify(s, all)
	}
	zz06Shared(last, *all)
}

// three configurations: to another definition and back
func ZZBackAndForth() {
	all := zzCapTypes()
	zzGetLogger("a")
	var ws [3]api.Writer
	k := v.Choose("writer", 3) // obtained before the first configuration, or the second
	for i := 0; i < 3; i++ {
		if i == k {
			ws = zz06Writers()
		}
		tag, lay := "x", "A"
		if v.Bool("tag") {
			tag = "y"
		}
		if v.Bool("layout") {
			lay = "B"
		}
		s := zz06State{layout: [2]string{lay, "G"}, tag: [2]string{tag, "z"}, lvl: [3]api.Level{api.Debug, api.Info}, outs: [3][]int{{0}}, listed: [3]bool{true, false, false}}
		cfg := &api.Config{Formats: []api.CfgFormat{{"type": "capf", "name": "f", "layout": lay}, {"type": "capf", "name": "g", "layout": "G"}}}
		if v.Bool("listed") {
			s.outs[1], s.listed[1] = []int{1}, true
		} else {
			s.lvl[1] = api.Uninitialized
		}
		if v.Bool("defined") {
			// the first output is dropped altogether for a while
			cfg.Outputs = []api.CfgOutput{{"type": "cap", "name": "c1", "tag": tag, "format": "f"}, {"type": "cap", "name": "c2", "tag": "z", "format": "g"}}
			s.format = [2]int{0, 1}
			cfg.Loggers = []api.CfgLogger{{Name: "root", Level: "debug", OutputNames: []string{"c1"}}}
		} else {
			cfg.Outputs = []api.CfgOutput{{"type": "cap", "name": "c2", "tag": "z", "format": "g"}}
			s.format, s.outs[0] = [2]int{0, 1}, []int{1}
			cfg.Loggers = []api.CfgLogger{{Name: "root", Level: "debug", OutputNames: []string{"c2"}}}
		}
		if s.listed[1] {
			cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: "a", Level: "info", OutputNames: []string{"c2"}})
		}
		v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
		if i >= k {
			zz06Verify(s, all, ws[:]...)
		} else {
			zz06Verify(s, all)
		}
	}
	zz06Shared(zz06State{}, *all)
}

// an output whose definition did not change keeps working and is not closed
func ZZUnchanged() {
	all := zzCapTypes()
	cfg, s := zz06Config(true)
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
	zzGetLogger("a/b").Critical("m")
	// an equal configuration, built anew
	c2 := &api.Config{Loggers: cfg.Loggers}
	for _, f := range cfg.Formats {
		g := api.CfgFormat{}
		for k, x := range f {
			g[k] = x
		}
		c2.Formats = append(c2.Formats, g)
	}
	for _, f := range cfg.Outputs {
		g := api.CfgOutput{}
		for k, x := range f {
			g[k] = x
		}
		c2.Outputs = append(c2.Outputs, g)
	}
	v.Assert(zzGetManager().SetConfig(c2) == nil, "accepted")
	zz06Verify(s, all)
	zz06Shared(s, *all)
}

// a later configuration need not list the root, or any logger: those it does not list inherit again
// zz: cover=none,some
func ZZUnlisted() {
	all := zzCapTypes()
	names := []string{"a", "a/b", "c"}
	m := zzGetManager()
	if v.Bool("early") {
		zzGetLogger("a/b")
	}
	mk := func(which int) *api.Config {
		c := &api.Config{
			Formats: []api.CfgFormat{{"type": "capf", "name": "f"}},
			Outputs: []api.CfgOutput{{"type": "cap", "name": "c1", "format": "f"}, {"type": "cap", "name": "c2", "format": "f"}, {"type": "cap", "name": "c3", "format": "f"}},
		}
		if which&1 != 0 {
			c.Loggers = append(c.Loggers, api.CfgLogger{Name: "root", Level: "info", OutputNames: []string{"c1"}})
		}
		if which&2 != 0 {
			c.Loggers = append(c.Loggers, api.CfgLogger{Name: "a", Level: "error", OutputNames: []string{"c2", "c3"}})
		}
		if which&4 != 0 {
			c.Loggers = append(c.Loggers, api.CfgLogger{Name: "a/b", Level: "debug", OutputNames: []string{"c3"}})
		}
		return c
	}
	first, second := v.Choose("first", 8), v.Choose("second", 8)
	v.Assert(m.SetConfig(mk(first)) == nil, "accepted")
	for _, n := range names {
		zzGetLogger(n)
	}
	v.Assert(m.SetConfig(mk(second)) == nil, "accepted")
	if second == 0 {
		v.Cover("none")
	} else {
		v.Cover("some")
	}
	// where a message of a logger arrives
	where := func(n string) (api.Level, [4]int) {
		var r [4]int
		for i := range *all {
			(*all)[i].Evts = nil
		}
		zzGetLogger(n).Critical("m")
		for i, o := range *all {
			if len(o.Evts) > 0 {
				r[i] = len(o.Evts)
			}
		}
		return zzGetLogger(n).Level(), r
	}
	rl, ro := where("")
	if second&1 != 0 {
		n := 0
		for i, k := range ro {
			n += k
			v.Assert(k == 0 || (*all)[i].Name == "c1", "new-output")
		}
		v.Assert(rl == api.Info && n == 1, "new-level")
	} else {
		v.Assert(ro == [4]int{}, "dropped-root")
	}
	cl, co := where("c")
	v.Assert(cl == rl && co == ro, "never-listed-follows-root")
	al, ao := where("a")
	bl, bo := where("a/b")
	if second&2 == 0 {
		v.Assert(al == rl && ao == ro, "dropped-follows-root")
	} else {
		v.Assert(al == api.Error, "new-level")
	}
	if second&4 == 0 {
		v.Assert(bl == al && bo == ao, "dropped-follows-parent")
	} else {
		v.Assert(bl == api.Debug, "new-level")
	}
}

// zz06Def is a definition with any of some further keys, with any of some values.
func zz06Def(base map[string]string, what string) map[string]string {
	for _, k := range []string{"p", "q"} {
		switch v.Choose(what+"-"+k, 4) {
		case 1:
			base[k] = "1"
		case 2:
			base[k] = "2"
			if k == "q" {
				base[k] = zzText('v', 70) + "2"
			}
		case 3:
			base[k] = ""
			if k == "q" {
				base[k] = zzText('v', 70) + "3"
			}
		}
	}
	return base
}

func zz06Same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		if y, ok := b[k]; !ok || x != y {
			return false
		}
	}
	return true
}

// a key that is added to a definition, removed from it or has another value makes another
// definition; the output in use is always one created from the present one
// zz: cover=changed,same,added,removed
func ZZDefinitions() {
	var outs []*vcap.Out
	var defs []map[string]string
	last := map[api.Formatter]map[string]string{}
	m := zzGetManager()
	m.RegisterOutputCreator("cap", func(c api.CfgOutput) (api.Output, error) {
		o := &vcap.Out{}
		d := map[string]string{}
		for k, x := range c {
			d[k] = x
		}
		outs, defs = append(outs, o), append(defs, d)
		return o, nil
	})
	m.RegisterFormatterCreator("capf", func(c api.CfgFormat) (api.Formatter, error) {
		f := &vcap.Fmt{}
		d := map[string]string{}
		for k, x := range c {
			d[k] = x
		}
		last[f] = d
		return f, nil
	})
	var od, fd map[string]string
	n := v.Bound("definitions", 2, 3)
	varied := v.Choose("varied", 2)
	for i := 0; i < n; i++ {
		po, pf := od, fd
		od = map[string]string{"type": "cap", "name": "o", "format": "f"}
		fd = map[string]string{"type": "capf", "name": "f"}
		if varied == 0 {
			od = zz06Def(od, "out")
		} else {
			fd = zz06Def(fd, "format")
		}
		co, cf := map[string]string{}, map[string]string{}
		for k, x := range od {
			co[k] = x
		}
		for k, x := range fd {
			cf[k] = x
		}
		cfg := &api.Config{Formats: []api.CfgFormat{cf}, Outputs: []api.CfgOutput{co},
			Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}}}
		v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
		if i > 0 {
			if zz06Same(po, od) && zz06Same(pf, fd) {
				v.Cover("same")
			} else {
				v.Cover("changed")
			}
			if len(po) < len(od) || len(pf) < len(fd) {
				v.Cover("added")
			}
			if len(po) > len(od) || len(pf) > len(fd) {
				v.Cover("removed")
			}
		}
		before := make([]int, len(outs))
		for k, o := range outs {
			before[k] = len(o.Evts)
		}
		zzGetLogger("a").Info("m")
		got, hit := 0, -1
		for k, o := range outs {
			if k >= len(before) && len(o.Evts) > 0 || k < len(before) && len(o.Evts) > before[k] {
				got++
				hit = k
			}
		}
		v.Assert(got == 1, "one-output")
		if hit < 0 {
			return
		}
		v.Assert(zz06Same(defs[hit], od), "present-output-definition")
		v.Assert(outs[hit].Closes == 0, "output-open")
		d := last[outs[hit].F]
		v.Assert(d != nil && zz06Same(d, fd), "present-format-definition")
	}
}

// the same configuration value, changed in place and set again, is a new configuration; changed
// but not set it has no effect
// zz: cover=output,format,level,outputs,unset
func ZZInPlace() {
	all := zzCapTypes()
	s := zz06State{layout: [2]string{"A", "G"}, tag: [2]string{"x", "z"}, format: [2]int{0, 1}, lvl: [3]api.Level{api.Debug, api.Info}, outs: [3][]int{{0}, {1}}, listed: [3]bool{true, true, false}}
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "capf", "name": "f", "layout": "A"}, {"type": "capf", "name": "g", "layout": "G"}},
		Outputs: []api.CfgOutput{{"type": "cap", "name": "c1", "tag": "x", "format": "f"}, {"type": "cap", "name": "c2", "tag": "z", "format": "g"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "debug", OutputNames: []string{"c1"}}, {Name: "a", Level: "info", OutputNames: []string{"c2"}}},
	}
	if v.Bool("early") {
		zzGetLogger("a/b")
	}
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
	if v.Bool("used") {
		zz06Verify(s, all)
	}
	for i := 0; i < v.Bound("inplace", 1, 2); i++ {
		n := s
		switch v.Choose("change", 5) {
		case 0:
			cfg.Outputs[0]["tag"] = "y"
			n.tag[0] = "y"
			v.Cover("output")
		case 1:
			cfg.Formats[1]["layout"] = "B"
			n.layout[1] = "B"
			v.Cover("format")
		case 2:
			cfg.Loggers[1].Level = "error"
			n.lvl[1] = api.Error
			v.Cover("level")
		case 3:
			cfg.Loggers[1].OutputNames[0] = "c1"
			n.outs[1] = []int{0}
			v.Cover("outputs")
		case 4:
			cfg.Loggers[1].OutputNames = nil
			cfg.Outputs[1]["format"] = "f"
			n.outs[1] = nil
			n.format[1] = 0
		}
		if v.Bool("set") {
			s = n
			v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
			zz06Verify(s, all)
		} else {
			zz06Verify(s, all)
			v.Cover("unset")
			return
		}
	}
}

// many outputs, formats and loggers: each follows the second configuration, those that did not
// change are kept
// zz: cover=output,format steps=60000000
func ZZMany() {
	all := zzCapTypes()
	n := v.Bound("many", 10, 40)
	changed, kind := v.Choose("changed", n), v.Choose("kind", 3)
	mk := func(second bool) *api.Config {
		cfg := &api.Config{}
		for i := 0; i < n; i++ {
			lay, tag, lvl := "A", "x", "info"
			if second && i == changed {
				switch kind {
				case 0:
					tag = "y"
				case 1:
					lay = "B"
				case 2:
					lvl = "error"
				}
			}
			cfg.Formats = append(cfg.Formats, api.CfgFormat{"type": "capf", "name": "f" + zzItoa(i), "layout": lay})
			cfg.Outputs = append(cfg.Outputs, api.CfgOutput{"type": "cap", "name": "o" + zzItoa(i) + "-", "tag": tag, "format": "f" + zzItoa(i)})
			cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: "l" + zzItoa(i), Level: lvl, OutputNames: []string{"o" + zzItoa(i) + "-"}})
		}
		return cfg
	}
	v.Assert(zzGetManager().SetConfig(mk(false)) == nil, "accepted")
	for i := 0; i < n; i++ {
		zzGetLogger("l" + zzItoa(i)).Error("m")
	}
	if v.Bool("rejected between") {
		v.Assert(zzGetManager().SetConfig(&api.Config{Loggers: []api.CfgLogger{{Name: "l0", Level: "off", OutputNames: []string{"undefined"}}}}) != nil, "rejected")
	}
	v.Assert(zzGetManager().SetConfig(mk(true)) == nil, "accepted")
	for i := 0; i < n; i++ {
		l := zzGetLogger("l" + zzItoa(i))
		tag, lay, lvl := "x", "A", api.Info
		if i == changed {
			tag, lay, lvl = []string{"y", "x", "x"}[kind], []string{"A", "B", "A"}[kind], []api.Level{api.Info, api.Info, api.Error}[kind]
			if kind == 0 {
				v.Cover("output")
			}
			if kind == 1 {
				v.Cover("format")
			}
		}
		v.Assert(l.Level() == lvl, "new-level")
		before := 0
		for _, o := range *all {
			before += len(o.Evts)
		}
		l.Error("second")
		after := 0
		var hit *vcap.Out
		for _, o := range *all {
			after += len(o.Evts)
			if o.Name == "o"+zzItoa(i)+"-"+tag && len(o.Evts) > 0 && o.Evts[len(o.Evts)-1].Format == "" {
				hit = o
			}
		}
		v.Assert(after == before+1, "new-outputs-only")
		v.Assert(hit != nil && hit.Closes == 0, "output-open")
		f, _ := hit.F.(*vcap.Fmt)
		v.Assert(f != nil && f.Pre == lay, "new-format")
	}
}
