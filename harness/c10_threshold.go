package internal

import (
	"context"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vsyslog "github.com/xtfly/log4g/internal/zz_vsyslog"
)

// ASSUME: event levels are those from All to Off (Printf takes any level), through syslog the six logging levels; threshold settings are every string up to the bound, or a level name in any letter case.

func zz10EventOf(i int, from, to api.Level) *api.Event {
	return &api.Event{Format: string([]byte{'a' + byte(i)}), Name: "n", Level: api.Level(v.Int("lvl", int(from), int(to))), Ctx: context.Background()}
}

// the wanted output of the events with that threshold, as records
func zz10Want(es []*api.Event, t api.Level) string {
	w := ""
	for _, e := range es {
		if e.Level >= t {
			w += e.Format + ";"
		}
	}
	return w
}

func zz10Threshold() (string, api.Level) {
	i := v.Choose("thr", 11)
	if i == 10 { // a name with something before or after it is none
		n, c := []string{"OFF", "error"}[v.Choose("near", 2)], v.String("extra", 1)
		v.Assume(c[0] < 0x80)
		if v.Bool("before") {
			return c + n, api.All
		}
		return n + c, api.All
	}
	if i == 9 {
		return "", api.All
	}
	if i == 8 {
		return zz10Bad(), api.All
	}
	s := []byte(zzThrNames[i])
	low := v.Bool("lower")
	for k := range s {
		s[k] = v.IteByte(low, s[k]+32, s[k])
	}
	return string(s), api.All + api.Level(i)
}

var zzThrNames = []string{"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "CRITICAL", "OFF"}

// a synchronous output over any writer: events of arbitrary levels, any threshold
// zz: cover=pass,drop
func ZZBase() {
	w := &vcap.W{}
	t := api.Level(v.Int("t", int(api.Uninitialized), int(api.Off)))
	o := NewBaseOutput(w, t)
	o.SetFormatter(&vcap.Fmt{})
	var es []*api.Event
	for i := 0; i < v.Bound("events", 3, 4); i++ {
		e := zz10EventOf(i, api.Uninitialized, api.Off+1)
		es = append(es, e)
		o.Send(e)
		if e.Level >= t {
			v.Cover("pass")
		} else {
			v.Cover("drop")
		}
	}
	o.Close()
	v.Observe("got", w.Text())
	v.Assert(w.Text() == zz10Want(es, t), "threshold-base")
}

// without a formatter the default layout is used, with the same filtering
func ZZBaseNoFormat() {
	w := &vcap.W{}
	t := api.Level(v.Int("t", int(api.Uninitialized), int(api.Off)))
	o := NewBaseOutput(w, t)
	e := zz10EventOf(0, api.All, api.Off)
	o.Send(e)
	v.Assert(v.Or(e.Level < t, len(w.Recs) == 1), "threshold-noformat-pass")
	v.Assert(v.Or(e.Level >= t, len(w.Recs) == 0), "threshold-noformat-drop")
}

// an asynchronous output, every schedule of sender and writer goroutine
// zz: cover=pass,drop
func ZZAsync() {
	w := &vcap.W{}
	t := api.Level(v.Int("t", int(api.Uninitialized), int(api.Off)))
	o := NewAsyncOutput(w, t, 2, 1+v.Choose("batch", 2))
	o.SetFormatter(&vcap.Fmt{})
	var es []*api.Event
	for i := 0; i < v.Bound("aevents", 2, 3); i++ {
		e := zz10EventOf(i, api.Uninitialized, api.Off+1)
		es = append(es, e)
		o.Send(e)
		if e.Level >= t {
			v.Cover("pass")
		} else {
			v.Cover("drop")
		}
	}
	o.Close()
	v.Observe("got", w.Text())
	v.Assert(w.Text() == zz10Want(es, t), "threshold-async")
}

// the threshold setting of console, rolling file and syslog outputs, synchronous and asynchronous
// zz: cover=console,file,time,syslog
func ZZConfigured() {
	vos.Reset()
	thr, t := zz10Threshold()
	if t == api.All && len(thr) == 2 {
		v.Assume(GetThresholdLvl(thr) == api.All) // two letters are never a level (decided in C11)
	}
	cfg := api.CfgOutput{"threshold": thr, "file": "/logs/f.log", "size": "1G", "pattern": "2006", "queue_size": "2", "batch_num": "2"}
	if v.Bool("async") {
		cfg["async"] = "true"
	}
	var o api.Output
	var err error
	k := v.Choose("kind", 4)
	switch k {
	case 0:
		cfg["type"] = "console"
		o, err = NewConsoleOutput(cfg)
		v.Cover("console")
	case 1:
		cfg["type"] = "size_rolling_file"
		o, err = NewRollingOutput(cfg)
		v.Cover("file")
	case 2:
		cfg["type"] = "time_rolling_file"
		o, err = NewRollingOutput(cfg)
		v.Cover("time")
	case 3:
		cfg["type"] = "syslog"
		o, err = NewSyslogOutput(cfg)
		v.Cover("syslog")
	}
	v.Assert(err == nil && o != nil, "output-created")
	o.SetFormatter(&vcap.Fmt{})
	var es []*api.Event
	for i := 0; i < 2; i++ {
		from, to := api.All, api.Off
		if k == 3 {
			from, to = api.Trace, api.Critical
		}
		e := zz10EventOf(i, from, to)
		es = append(es, e)
		o.Send(e)
	}
	o.Close()
	got := ""
	switch k {
	case 0:
		got = vos.StdoutText()
	case 1, 2:
		b, _ := vos.Content("/logs/f.log")
		got = string(b)
	case 3:
		for _, r := range vsyslog.Log {
			got += r.Msg
		}
	}
	v.Observe("got", k, got)
	v.Assert(got == zz10Want(es, t), "threshold-configured")
}

// what an event passes does not depend on another output having dropped or taken it
func ZZIndependent() {
	w1, w2 := &vcap.W{}, &vcap.W{}
	t1 := api.Level(v.Int("t1", int(api.All), int(api.Off)))
	t2 := api.Level(v.Int("t2", int(api.All), int(api.Off)))
	o1, o2 := NewBaseOutput(w1, t1), NewBaseOutput(w2, t2)
	o1.SetFormatter(&vcap.Fmt{})
	o2.SetFormatter(&vcap.Fmt{})
	l := newLogger("x")
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{o1, o2})
	lv := api.Level(v.Int("lv", int(api.All), int(api.Off)))
	l.Printf(lv, "m")
	v.Assert((len(w1.Recs) == 1) == (lv >= t1), "threshold-first")
	v.Assert((len(w2.Recs) == 1) == (lv >= t2), "threshold-second")
}

func zz10Bad() string {
	b := v.Bytes("bad", 2)
	v.Assume(v.And(b[0] < 0x80, b[1] < 0x80))
	return string(b)
}
