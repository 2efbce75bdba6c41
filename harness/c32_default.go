package internal

import (
	"strings"

	"github.com/xtfly/log4g/api"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: the process is a new one; messages are ASCII strings up to the length bound; the process id is below a million.

func zz32Line(name string, lv api.Level, msg, place string) string {
	p := strings.Split(strings.TrimSuffix(place, ";"), " ")
	// longfile shortfile line longpkg shortpkg longfunc shortfunc
	s := lv.String()
	for len(s) < 5 {
		s += " "
	}
	return vtime.Clock.Format("2006-01-02T15:04:05.000Z07:00") + "|" + s + "|  4242|" + name + " >> " + msg + " (" + p[5] + "@" + p[3] + "/" + p[1] + ":" + p[2] + ") \n"
}

// without any configuration, or only rejected ones, all messages go to standard output
// zz: cover=none,rejected
func ZZDefault() {
	m := zzGetManager()
	rejected := v.Choose("rejected", 4)
	switch rejected {
	case 1:
		v.Assert(m.SetConfig(&api.Config{Outputs: []api.CfgOutput{{"type": "memory", "name": "m", "format": "none"}}}) != nil, "rejected")
	case 2:
		v.Assert(m.LoadConfig([]byte("x"), "ini") != nil, "rejected")
	case 3:
		v.Assert(m.LoadConfigFile("/no/such.yaml") != nil, "rejected")
	}
	if rejected > 0 {
		v.Cover("rejected")
	} else {
		v.Cover("none")
	}
	names := []string{"", "root", "a", "a/b", "a.b/c"}
	want := ""
	for i := 0; i < v.Bound("messages", 1, 2); i++ {
		if i == 1 && rejected == 0 && v.Bool("later") {
			// one that is rejected while loggers are in use
			v.Assert(m.SetConfig(&api.Config{Loggers: []api.CfgLogger{{Name: "a", Level: "off", OutputNames: []string{"none"}}}}) != nil, "rejected")
		}
		n := names[v.Choose("logger", len(names))]
		l := zzGetLogger(n)
		v.Assert(l.Level() == api.All, "level-all")
		if n == "" {
			n = "root"
		}
		w := zz09Writer(l, v.Choose("via", 2))
		k := v.Choose("method", 13)
		place := zz09Call(w, k)
		lv := api.Info
		if k < 12 {
			lv = []api.Level{api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical}[k/2]
		}
		msg := "m"
		if k == 12 {
			msg = "f 1"
		} else if k%2 == 0 {
			msg = "f"
		}
		want += zz32Line(n, lv, msg, place)
		got := zzStdout()
		v.Observe("text", got)
		v.Assert(got == want, "default-output")
	}
	m.Close()
	v.Assert(zzStdout() == want, "default-output")
}

// any message
func ZZMessage() {
	msg := v.String("msg", v.Choose("len", v.Bound("len", 3, 4)))
	l := zzGetLogger("x")
	l.Info(msg)
	place := zz09Here()
	v.Assert(zzStdout() == zz32Line("x", api.Info, msg, place), "default-output")
}

// many messages, long ones, of loggers with long names
// zz: cover=long,many
func ZZLong() {
	want := ""
	if v.Bool("many") {
		for i := 0; i < v.Bound("many", 40, 200); i++ {
			n := "l/" + zzItoa(i%7)
			zzGetLogger(n).Warn(zzItoa(i))
			place := zz09Here()
			want += zz32Line(n, api.Warn, zzItoa(i), place)
		}
		v.Cover("many")
	} else {
		msg := string(zzLong([]int{130, 1025, 5000, 70000}[v.Choose("len", 4)]))
		n := zzText('n', []int{1, 40, 300}[v.Choose("namelen", 3)])
		zzGetLogger(n).Error(msg)
		place := zz09Here()
		want = zz32Line(n, api.Error, msg, place)
		v.Cover("long")
	}
	v.Assert(zzEqual([]byte(zzStdout()), []byte(want)), "default-output")
}

// a configuration that does not list the root: it is as without any, from Debug on
// zz: cover=before,after,again
func ZZRoot() {
	m := zzGetManager()
	own := api.CfgLogger{Name: "own", Level: "all", OutputNames: []string{"m"}}
	lists := [][]api.CfgLogger{nil, {own}, {{Name: "a", Level: ""}, own}}
	cfg := func(ls []api.CfgLogger) *api.Config {
		return &api.Config{Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}"}},
			Outputs: []api.CfgOutput{{"name": "m", "type": "memory", "format": "f"}}, Loggers: ls}
	}
	if v.Bool("before") {
		zzGetLogger("a/b")
		v.Cover("before")
	} else {
		v.Cover("after")
	}
	if v.Bool("again") {
		ls := []api.CfgLogger{{Name: "root", Level: "off", OutputNames: []string{"m"}}}
		v.Assert(m.SetConfig(cfg(ls)) == nil, "accepted")
		if v.Bool("used") {
			zzGetLogger("a").Info("m")
		}
		v.Cover("again")
	}
	v.Assert(m.SetConfig(cfg(lists[v.Choose("loggers", 3)])) == nil, "accepted")
	names := []string{"", "a", "a/b", "c"}
	n := names[v.Choose("logger", 4)]
	l := zzGetLogger(n)
	if n == "" {
		n = "root"
	}
	v.Assert(l.Level() == api.Debug, "level-debug")
	lv := api.Level(v.Int("lv", int(api.Trace), int(api.Critical)))
	msg := v.String("msg", 2)
	v.Assume(v.And(msg[0] < 0x80, msg[1] < 0x80))
	before := zzStdout()
	l.Printf(lv, "%s", msg)
	got := zzStdout()[len(before):]
	v.Assert(len(before) == 0, "nothing-before")
	if lv < api.Debug {
		v.Assert(got == "", "root-default")
		return
	}
	s := lv.String()
	for len(s) < 5 {
		s += " "
	}
	want := s + " [" + vtime.Clock.Format("2006-01-02T15:04:05.000Z07:00") + "] " + n + ": " + msg + "\n"
	v.Observe("line", got)
	v.Assert(got == want, "root-default")
}
