package internal

import (
	"time"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: as C14; one sender, so that the sequence is defined.

// zz16Fmt renders the message between brackets and counts what it rendered.
type zz16Fmt struct {
	w       *vcap.W
	batch   int
	size    int // bytes of one rendered event
	done    int
	counted bool
}

func (f *zz16Fmt) CallerInfoFlag() int { return 0 }
func (f *zz16Fmt) Format(e *api.Event) []byte {
	if f.counted {
		// when an event is rendered those waiting do not fill a batch
		written := 0
		v.Enter()
		for _, r := range f.w.Recs {
			written += len(r)
		}
		v.Leave()
		v.Assert(f.done-written/f.size < f.batch, "flushed-when-the-batch-is-full")
		f.done++
	}
	return []byte("[" + e.Format + "]")
}

// any events, levels, threshold, batch and queue sizes
// zz: cover=differs
func ZZSameBytes() {
	vtime.MaxTicks = 1
	t := api.Level(v.Int("t", int(api.Uninitialized), int(api.Off)))
	a, s := &vcap.W{}, &vcap.W{}
	n := v.Bound("events", 3, 4)
	sync := NewBaseOutput(s, t)
	sync.SetFormatter(&zz16Fmt{w: s})
	var es []*api.Event
	for i := 0; i < n; i++ {
		e := zzEvt(api.Level(v.Int("lvl", int(api.Trace), int(api.Critical))), v.String("msg", []int{1, 0, 2, 1, 3}[i]))
		es = append(es, e)
		sync.Send(e)
	}
	async := NewAsyncOutput(a, t, 1+v.Choose("queue", 2), v.Int("batch", 1, 500))
	async.SetFormatter(&zz16Fmt{w: a})
	for _, e := range es {
		async.Send(e)
	}
	async.Close()
	v.Assert(zzEqual([]byte(a.Text()), []byte(s.Text())), "same-bytes")
	if len(s.Recs) > 0 && len(s.Recs) < n {
		v.Cover("differs")
	}
}

// a batch is written by the event that fills it, at the latest
// zz: cover=one,many
func ZZFlush() {
	vtime.MaxTicks = v.Bound("ticks", 1, 2)
	a := &vcap.W{}
	batch := v.Int("batch", 1, 4)
	async := NewAsyncOutput(a, api.Info, 1+v.Choose("queue", 2), batch)
	async.SetFormatter(&zz16Fmt{w: a, batch: batch, size: 3, counted: true})
	want := ""
	for i := 0; i < v.Bound("flushed", 5, 5); i++ {
		m := string([]byte{byte('a' + i)})
		l := api.Info
		if i == 1 && v.Bool("filtered") {
			l = api.Debug
		} else {
			want += "[" + m + "]"
		}
		async.Send(zzEvt(l, m))
	}
	async.Close()
	v.Assert(a.Text() == want, "same-bytes")
	for _, r := range a.Recs {
		v.Assert(len(r)%3 == 0, "events-whole")
		v.Assert(len(r)/3 <= batch, "no-more-than-a-batch")
	}
	if batch == 1 {
		v.Cover("one")
	} else {
		v.Cover("many")
	}
}

// the same through the configured outputs and a layout
func ZZConfigured() {
	vtime.MaxTicks = 1
	layout := "%{lvl} %{msg}|"
	f, err := NewTextFormatter(api.CfgFormat{"type": "text", "name": "f", "layout": layout})
	v.Assert(err == nil, "layout-accepted")
	thr := []string{"", "info", "error"}[v.Choose("thr", 3)]
	o, err := NewConsoleOutput(api.CfgOutput{"type": "console", "threshold": thr, "async": "true", "queue_size": "2", "batch_num": zzItoa(1 + v.Choose("batch", 3))})
	v.Assert(err == nil, "output-created")
	o.SetFormatter(f)
	s := &vcap.W{}
	sync := NewBaseOutput(s, GetThresholdLvl(thr))
	sync.SetFormatter(f)
	for i := 0; i < 3; i++ {
		l := api.Info
		if i == 1 {
			l = api.Level(v.Int("lvl", int(api.Trace), int(api.Critical)))
		}
		e := zzEvt(l, string([]byte{byte('a' + i)}))
		sync.Send(e)
		o.Send(e)
	}
	o.Close()
	v.Assert(zzStdout() == s.Text(), "same-bytes")
}

// periods pass without events: only periods with events have files
// zz: cover=rolled,stayed
func ZZIdle() {
	vos.Reset()
	vtime.MaxTicks = v.Bound("idleticks", 2, 3)
	base := time.Date(2026, 1, 1, 10, 0, 0, 0, time.UTC)
	vtime.SetNow(base)
	o, err := NewRollingOutput(api.CfgOutput{"type": "time_rolling_file", "file": "/l/f", "pattern": "2006-01-02_15", "backups": "9",
		"async": "true", "queue_size": "1", "batch_num": zzItoa(1 + v.Choose("batch", 2))})
	v.Assert(err == nil, "output-created")
	o.SetFormatter(&zz16Fmt{})
	o.Send(zzEvt(api.Info, "a"))
	vtime.SetNow(base.Add(time.Hour))
	if v.Bool("another") {
		o.Send(zzEvt(api.Info, "b"))
	}
	vtime.SetNow(base.Add(2 * time.Hour))
	o.Close()
	text := ""
	for _, n := range []string{"/l/f.2026-01-01_10", "/l/f.2026-01-01_11", "/l/f.2026-01-01_12", "/l/f"} {
		b, ok := vos.Content(n)
		if !ok {
			continue
		}
		v.Assert(len(b) > 0, "no-file-without-events")
		if n == "/l/f" {
			v.Cover("stayed")
		} else {
			v.Cover("rolled")
		}
		text += string(b)
	}
	v.Assert(text == "[a]" || text == "[a][b]", "same-bytes")
}

// long records and long batches
// zz: steps=60000000
func ZZLong() {
	vtime.MaxTicks = 0
	a := &vcap.W{}
	async := NewAsyncOutput(a, api.All, 2, 1+v.Choose("batch", 3))
	async.SetFormatter(&zz16Fmt{w: a})
	n := []int{700, 1500, 5000, 70000}[v.Choose("len", 4)]
	want := ""
	for i := 0; i < 5; i++ {
		m := string(zzLong(n - 100*i))
		want += "[" + m + "]"
		async.Send(zzEvt(api.Info, m))
	}
	async.Close()
	v.Assert(zzEqual([]byte(a.Text()), []byte(want)), "same-bytes")
}
