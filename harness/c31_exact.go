package internal

import (
	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vsyslog "github.com/xtfly/log4g/internal/zz_vsyslog"
)

// ASSUME: targets accept what is written; a formatter returns a new slice per event, of any bytes up to the length bound; the periodic flush does not fire (C14).

// zz31Fmt returns what it was prepared to, and counts.
type zz31Fmt struct {
	text map[*api.Event]string
	n    map[*api.Event]int
}

func (f *zz31Fmt) Format(e *api.Event) []byte {
	v.Enter()
	defer v.Leave()
	f.n[e]++
	return []byte(f.text[e])
}
func (f *zz31Fmt) CallerInfoFlag() int { return 0 }

// the bytes of each event's rendering, in order, and nothing else
// zz: cover=console,size,time,memory,syslog,empty
func ZZBytes() {
	vos.Reset()
	kind := v.Choose("kind", 5)
	async := v.Choose("async", 3)
	o, text := zz31Make(kind, []string{"", "true", "false"}[async], []string{"1", "2", "9"}[v.Choose("batch", 3)])
	f := &zz31Fmt{map[*api.Event]string{}, map[*api.Event]int{}}
	o.SetFormatter(f)
	want := ""
	var es []*api.Event
	for i := 0; i < v.Bound("events", 3, 4); i++ {
		e := zzEvt(api.Level(v.Int("lv", int(api.Trace), int(api.Critical))), "not this")
		t := v.String("text", v.Choose("textlen", v.Bound("text", 2, 4)))
		if t == "" {
			v.Cover("empty")
		}
		f.text[e] = t
		es = append(es, e)
		want += t
		o.Send(e)
		if kind > 2 || async != 1 {
			v.Assert(text() == want, "written-at-once")
		}
	}
	o.Close()
	v.Assert(text() == want, "exact-bytes")
	for _, e := range es {
		v.Assert(f.n[e] == 1, "rendered-once")
		v.Assert(e.Format == "not this", "event-unchanged")
	}
	if kind == 4 {
		v.Assert(len(vsyslog.Log) == len(es), "one-message-per-event")
	}
	v.Cover([]string{"console", "size", "time", "memory", "syslog"}[kind])
}

// two outputs of one type do not mix
// zz: cover=files,memories
func ZZTwo() {
	vos.Reset()
	raw := zzRaw{}
	var a, b api.Output
	var ta, tb func() string
	async := []string{"true", "false"}[v.Choose("async", 2)]
	if v.Bool("memory") {
		a, ta = zz31Make(3, "", "")
		b, tb = zz31Make(3, "", "")
		v.Cover("memories")
	} else {
		mk := func(p, async string) (api.Output, func() string) {
			o, err := NewRollingOutput(api.CfgOutput{"type": "size_rolling_file", "file": p, "size": "1K", "async": async, "queue_size": "4"})
			v.Assert(err == nil, "output-created")
			return o, func() string { x, _ := vos.Content(p); return string(x) }
		}
		a, ta = mk("/l/f", async)
		b, tb = mk([]string{"/l/g", "/m/f", "/l/f.f", "f"}[v.Choose("path", 4)], "false")
		v.Cover("files")
	}
	a.SetFormatter(raw)
	b.SetFormatter(raw)
	wa, wb := "", ""
	for i := 0; i < 4; i++ {
		t := v.String("t", 1)
		if v.Bool("which") {
			a.Send(zzEvt(api.Info, t))
			wa += t
		} else {
			b.Send(zzEvt(api.Info, t))
			wb += t
		}
	}
	a.Close()
	b.Close()
	v.Assert(ta() == wa && tb() == wb, "own-text-only")
}

// long texts: one write and, in the system log, one message each
// zz: cover=console,size,time,memory,syslog
func ZZLong() {
	vos.Reset()
	kind := v.Choose("kind", 5)
	async := v.Choose("async", 2)
	o, text := zz31Make(kind, []string{"", "true"}[async], []string{"1", "9"}[v.Choose("batch", 2)])
	o.SetFormatter(zzRaw{})
	want := ""
	n := 0
	for i := 0; i < v.Bound("longevents", 2, 3); i++ {
		t := string(zzLong([]int{1, 1025, 4097, 8193, 70000}[v.Choose("longlen", 5)]))
		want += t
		n++
		o.Send(zzEvt(api.Info, t))
		if kind > 2 || async == 0 {
			v.Assert(text() == want, "written-at-once")
		}
	}
	o.Close()
	v.Assert(text() == want, "exact-bytes")
	if kind == 4 {
		v.Assert(len(vsyslog.Log) == n, "one-message-per-event")
	}
	v.Cover([]string{"console", "size", "time", "memory", "syslog"}[kind])
}
