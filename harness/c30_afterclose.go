package internal

import (
	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: targets accept what is written; the periodic flush does not fire (C14); an output logs up to two messages before and three after Close. Whether a message logged after Close is written is left open.

// zz30Pre tells whether got is want followed by some of the later ones, each at most once, in order.
func zz30Pre(got, want string, later []string) bool {
	if len(got) < len(want) || got[:len(want)] != want {
		return false
	}
	got = got[len(want):]
	for _, l := range later {
		if len(got) >= len(l) && got[:len(l)] == l {
			got = got[len(l):]
		}
	}
	return got == ""
}

// logging, new loggers, new settings and more Closes after Close neither panic nor block
// zz: cover=async,sync,none
func ZZAfterClose() {
	vos.Reset()
	kind := v.Choose("kind", 4)
	async := v.Bool("async")
	o := zz25Out(kind, "x", async)
	m := zzGetManager()
	v.Assert(m.SetConfig(zz25Config("info", o)) == nil, "accepted")
	before := v.Choose("before", 3)
	want := ""
	for i := 0; i < before; i++ {
		zzGetLogger("a").Infof("%d", i)
		want += "a:" + zzItoa(i) + ";"
	}
	m.Close()
	v.Assert(zz25Text(kind) == want, "flushed")
	var later []string
	for i := 0; i < v.Bound("after", 2, 3); i++ {
		n := zzItoa(i)
		switch v.Choose("op", 6) {
		case 0:
			zzGetLogger("a").Warn(n)
			later = append(later, "a:"+n+";")
		case 1:
			zzGetLogger("b").WithFields(api.Field{Key: "k", Value: 1}).Errorf("%s", n)
			later = append(later, "b:"+n+";")
		case 2:
			zzGetLogger("").SetLevel(api.Error)
			zzGetLogger("").Critical(n)
			later = append(later, "root:"+n+";")
		case 3:
			m.Close()
		case 4:
			v.Assert(m.SetConfig(zz25Config("warn", o)) == nil, "accepted")
		case 5:
			zzGetLogger("c/d").Critical(n)
			later = append(later, "c/d:"+n+";")
		}
		got := zz25Text(kind)
		v.Observe("text", got)
		v.Assert(zz30Pre(got, want, later), "earlier-text-intact")
	}
	m.Close()
	v.Assert(zz30Pre(zz25Text(kind), want, later), "earlier-text-intact")
	switch {
	case before == 0:
		v.Cover("none")
	case async:
		v.Cover("async")
	default:
		v.Cover("sync")
	}
}

// a configuration set after Close, with outputs of its own, works like the first
// zz: cover=again
func ZZReopen() {
	vos.Reset()
	k1, k2 := v.Choose("first", 4), v.Choose("second", 4)
	m := zzGetManager()
	v.Assert(m.SetConfig(zz25Config("info", zz25Out(k1, "x", v.Bool("async")))) == nil, "accepted")
	zzGetLogger("a").Info("1")
	m.Close()
	before := zz25Text(k2)
	v.Assert(m.SetConfig(zz25Config("info", zz25Out(k2, "y", v.Bool("async")))) == nil, "accepted")
	zzGetLogger("a").Info("2")
	zzGetLogger("b").Error("3")
	m.Close()
	v.Assert(zz25Text(k2) == before+"a:2;b:3;", "works-again")
	v.Cover("again")
}
