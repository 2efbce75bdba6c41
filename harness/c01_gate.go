package internal

import (
	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: messages have one of the six logging levels; logger names are fixed, their tree is decided in C03.

// a chain root, a, a/b, ...: any level at each, any of them with outputs of its own
// zz: cover=emitted,suppressed,inherited,off
func ZZGate() {
	n := v.Bound("chain", 3, 4)
	names := []string{"", "a", "a/b", "a/b/c"}
	var ls []api.Logger
	var outs []*vcap.Out
	eff := api.Off
	owner := 0
	for i := 0; i < n; i++ {
		l := zzGetLogger(names[i])
		lv := api.Level(v.Int("level", int(api.Uninitialized), int(api.Off)))
		l.SetLevel(lv)
		eff = api.Level(v.IteInt(lv == api.Uninitialized, int(eff), int(lv)))
		var o *vcap.Out
		if i == 0 || v.Bool("own") {
			o = &vcap.Out{}
			l.SetOutputs([]api.Output{o})
			owner = i
		}
		outs = append(outs, o)
		ls = append(ls, l)
	}
	l := ls[n-1]
	if eff == api.Off {
		v.Cover("off")
	}
	v.Assert(l.Level() == eff, "effective-level")
	lv := api.Trace + api.Level(v.Choose("lv", 6))
	on := lv >= eff
	v.Assert(l.LevelEnabled(lv) == on, "level-enabled")
	v.Assert(zzEnabled(l, lv) == on, "xxx-enabled")
	zzMethod(zzWriter(l, v.Choose("via", 3)), v.Choose("method", 3), lv, "m")
	v.Observe("gate", int(lv), on, len(outs[owner].Evts))
	if on {
		v.Cover("emitted")
		v.Assert(len(outs[owner].Evts) == 1, "emitted-when-enabled")
		if owner != n-1 {
			v.Cover("inherited")
		}
	} else {
		v.Cover("suppressed")
		v.Assert(len(outs[owner].Evts) == 0, "suppressed-when-disabled")
	}
	for i, o := range outs {
		if o != nil && i != owner {
			v.Assert(len(o.Evts) == 0, "no-other-output")
		}
	}
}

// levels changed over time: every message is judged by the level in force when it is logged
func ZZChanges() {
	root, l := zzGetLogger(""), zzGetLogger("a.b")
	o := &vcap.Out{}
	root.SetOutputs([]api.Output{o})
	lr := api.All
	root.SetLevel(lr)
	ll := api.Uninitialized
	want := 0
	for i := 0; i < v.Bound("changes", 3, 4); i++ {
		x := api.Level(v.Int("level", int(api.Uninitialized), int(api.Off)))
		if v.Bool("root") {
			lr = x
			root.SetLevel(x)
		} else {
			ll = x
			l.SetLevel(x)
		}
		eff := api.Level(v.IteInt(lr == api.Uninitialized, int(api.Off), int(lr)))
		eff = api.Level(v.IteInt(ll == api.Uninitialized, int(eff), int(ll)))
		lv := api.Level(v.Int("lv", int(api.Trace), int(api.Critical)))
		want = v.IteInt(lv >= eff, want+1, want)
		l.Printf(lv, "m")
		v.Assert(len(o.Evts) == want, "level-in-force")
	}
}

// a long chain: the level may be set at any number of its loggers
// zz: cover=emitted,suppressed,far
func ZZDeep() {
	n := []int{6, 12, 40}[v.Choose("depth", v.Bound("depths", 2, 3))]
	sep := []string{"/", "."}[v.Choose("sep", 2)]
	o := &vcap.Out{}
	eff := api.Off
	name := ""
	far := 0
	var l api.Logger
	for i := 0; i < n; i++ {
		l = zzGetLogger(name)
		lv := api.Uninitialized
		if i == 0 || i == n-1 || i == n/2 {
			lv = api.Level(v.Int("level", int(api.Uninitialized), int(api.Off)))
			if lv != api.Uninitialized {
				far = i
			}
		}
		l.SetLevel(lv)
		eff = api.Level(v.IteInt(lv == api.Uninitialized, int(eff), int(lv)))
		if i == 0 {
			l.SetOutputs([]api.Output{o})
		} else {
			name += sep
		}
		name += "x"
	}
	lv := api.Level(v.Int("lv", int(api.Trace), int(api.Critical)))
	v.Assert(l.Level() == eff, "effective-level")
	v.Assert(l.LevelEnabled(lv) == (lv >= eff), "level-enabled")
	l.Printf(lv, "m")
	if lv >= eff {
		v.Cover("emitted")
		v.Assert(len(o.Evts) == 1, "emitted-when-enabled")
		if far == 0 {
			v.Cover("far")
		}
	} else {
		v.Cover("suppressed")
		v.Assert(len(o.Evts) == 0, "suppressed-when-disabled")
	}
}
