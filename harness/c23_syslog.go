package internal

import (
	"log/syslog"

	"github.com/xtfly/log4g/api"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vsyslog "github.com/xtfly/log4g/internal/zz_vsyslog"
)

// ASSUME: the syslog daemon is a model that records severity, text and tag of each message; its connection does not fail. Messages and tags are strings of the bounded length, all bytes.

func zz23Want(l api.Level) vsyslog.Priority {
	switch l {
	case api.Trace, api.Debug:
		return vsyslog.Priority(syslog.LOG_DEBUG)
	case api.Info:
		return vsyslog.Priority(syslog.LOG_INFO)
	case api.Warn:
		return vsyslog.Priority(syslog.LOG_WARNING)
	case api.Error:
		return vsyslog.Priority(syslog.LOG_ERR)
	}
	return vsyslog.Priority(syslog.LOG_CRIT)
}

// events of any levels through an output with any threshold
// zz: cover=debug,crit,dropped
func ZZSeverity() {
	tag := v.String("tag", v.Choose("taglen", 3))
	t := v.Choose("t", 9)
	names := []string{"", "all", "trace", "debug", "info", "warn", "error", "critical", "off"}
	o, err := NewSyslogOutput(api.CfgOutput{"type": "syslog", "name": "s", "prefix": tag, "threshold": names[t]})
	v.Assert(err == nil, "output-created")
	fm := v.Bool("formatter")
	if fm {
		o.SetFormatter(zzRaw{})
	}
	var want []vsyslog.Rec
	for i := 0; i < v.Bound("events", 3, 4); i++ {
		l := api.Level(v.Int("lvl", int(api.Trace), int(api.Critical)))
		m := v.String("msg", i%3)
		o.Send(zzEvt(l, m))
		if int(l) >= t {
			want = append(want, vsyslog.Rec{zz23Want(l), m, tag})
			if l == api.Debug {
				v.Cover("debug")
			}
			if l == api.Critical {
				v.Cover("crit")
			}
		} else {
			v.Cover("dropped")
		}
	}
	v.Assert(len(vsyslog.Log) == len(want), "each-passing-event-once")
	for i, r := range vsyslog.Log {
		v.Observe("sent", int(r.Sev), r.Msg)
		v.Assert(r.Sev == want[i].Sev, "severity")
		v.Assert(r.Msg == want[i].Msg, "text")
		v.Assert(r.Tag == tag, "tag")
	}
	o.Close()
	v.Assert(len(vsyslog.Log) == len(want), "each-passing-event-once")
}

// through the logging API and a configured layout
func ZZLogged() {
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "text", "name": "f", "layout": "[%{msg}]"}},
		Outputs: []api.CfgOutput{{"type": "syslog", "name": "s", "format": "f", "prefix": "p"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"s"}}},
	}
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
	l := api.Level(v.Int("lvl", int(api.Trace), int(api.Critical)))
	m := v.String("msg", 2)
	zzMethod(zzGetLogger("x"), v.Choose("method", 3), l, m)
	v.Assert(len(vsyslog.Log) == 1, "each-passing-event-once")
	r := vsyslog.Log[0]
	v.Assert(r.Sev == zz23Want(l), "severity")
	v.Assert(r.Msg == "["+m+"]", "text")
	v.Assert(r.Tag == "p", "tag")
}

// many events, long and odd texts, two outputs
// zz: cover=long,many steps=60000000
func ZZLong() {
	mk := func(tag, thr string) api.Output {
		o, err := NewSyslogOutput(api.CfgOutput{"type": "syslog", "name": tag, "prefix": tag, "threshold": thr})
		v.Assert(err == nil, "output-created")
		o.SetFormatter(zzRaw{})
		return o
	}
	a, b := mk("a", "trace"), mk("b", "error")
	var want []vsyslog.Rec
	send := func(l api.Level, m string) {
		a.Send(zzEvt(l, m))
		b.Send(zzEvt(l, m))
		want = append(want, vsyslog.Rec{zz23Want(l), m, "a"})
		if l >= api.Error {
			want = append(want, vsyslog.Rec{zz23Want(l), m, "b"})
		}
	}
	if v.Bool("many") {
		for i := 0; i < v.Bound("many", 30, 120); i++ {
			send(api.Trace+api.Level(i*5%6), zzItoa(i/3))
		}
		v.Cover("many")
	} else {
		m := []string{"", "\n", "a\nb\r\n", "%s %d%%", "\x00", "\xff\xfe", " x "}[v.Choose("odd", 7)]
		if v.Bool("long") {
			m = string(zzLong([]int{900, 1025, 2049, 70000}[v.Choose("len", 4)]))
			v.Cover("long")
		}
		l := api.Level(v.Int("lvl", int(api.Trace), int(api.Critical)))
		send(l, m)
		send(l, m)
	}
	v.Assert(len(vsyslog.Log) == len(want), "each-passing-event-once")
	for i, r := range vsyslog.Log {
		v.Assert(r.Sev == want[i].Sev, "severity")
		v.Assert(r.Msg == want[i].Msg, "text")
		v.Assert(r.Tag == want[i].Tag, "tag")
	}
}
