package internal

import (
	"time"

	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: content found in the file at start-up counts as written in the first period; different periods have different labels (ZZRecurring covers the others) and the clock does not run backwards, except in ZZBack to a period without backup; the local zone has a fixed offset. No operation fails (C21).

type zz20Kind struct {
	pattern string
	base    time.Time
	period  time.Duration // length of the first period
}

// the labels are those of the local time, whatever the zone
func zz20Kinds() []zz20Kind {
	east, west := time.FixedZone("ZZT", 14*3600), time.FixedZone("", -12600)
	return []zz20Kind{
		{"2006-01-02", time.Date(2025, 12, 31, 0, 0, 0, 0, east), 24 * time.Hour},
		{"02.Jan.06", time.Date(2024, 2, 28, 0, 0, 0, 0, west), 24 * time.Hour},
		{"2006-01-02_15", time.Date(2026, 3, 1, 23, 0, 0, 0, time.UTC), time.Hour},
		{"2006-01", time.Date(2024, 2, 1, 0, 0, 0, 0, east), 29 * 24 * time.Hour},
		{"20060102150405", time.Date(2026, 1, 1, 23, 59, 59, 0, west), time.Second},
		{"2006", time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC), 365 * 24 * time.Hour},
		{"2006-01-02.15-04", time.Date(2026, 1, 1, 9, 59, 0, 0, east), time.Minute},
		{"20060102150405.000", time.Date(2026, 1, 1, 23, 59, 59, 999000000, west), time.Millisecond},
		{"Jan _2 Mon MST", time.Date(2026, 12, 30, 0, 0, 0, 0, time.UTC), 24 * time.Hour},
	}
}

// the reference: the current label and content, and the finished periods
type zz20Ref struct {
	prefix bool
	label  string
	cur    []byte
	open   bool
	past   []zzFile
}

func (r *zz20Ref) path(label string) string {
	if r.prefix {
		return "/l/" + label + ".f"
	}
	return "/l/f." + label
}

func (r *zz20Ref) write(label string, b []byte) {
	r.open = true
	if r.label != "" && r.label != label {
		r.past = append(r.past, zzFile{r.path(r.label), r.cur})
		r.cur = nil
		v.Cover("rolled")
	} else {
		v.Cover("stayed")
	}
	r.label = label
	var c []byte
	c = append(c, r.cur...)
	r.cur = append(c, b...)
}

func (r *zz20Ref) check(other []zzFile) {
	w := append([]zzFile{}, other...)
	w = append(w, r.past...)
	if r.open {
		w = append(w, zzFile{"/l/f", r.cur})
	}
	zzCheckFiles(w)
}

// writes at any of these instants: the start of a period, within, its last nanosecond, later ones
// zz: cover=rolled,stayed
func ZZPeriods() {
	vos.Reset()
	ks := zz20Kinds()
	k := ks[v.Choose("pattern", len(ks))]
	r := &zz20Ref{prefix: v.Bool("prefix")}
	other := []zzFile{{"/l/f.keep", []byte("k")}}
	vos.Put("/l/f.keep", []byte("k"), 0600)
	cfg := api.CfgOutput{"type": "time_rolling_file", "file": "/l/f", "pattern": k.pattern, "backups": "20"}
	if r.prefix {
		cfg["name_mode"] = "prefix"
	}
	if v.Bool("content") {
		r.cur = v.Bytes("cur", 2)
		r.open = true
		vos.Put("/l/f", r.cur, 0600)
	}
	o := zzRolling(cfg)
	now := k.base
	for i := 0; i < v.Bound("writes", 4, 5); i++ {
		next := now.Add(k.period)
		switch v.Choose("step", 5) {
		case 1:
			now = now.Add(k.period / 3)
		case 2:
			now = k.base.Add(k.period - 1)
			if now.Before(next.Add(-k.period)) {
				now = next.Add(-k.period)
			}
		case 3:
			now = next
		case 4:
			now = now.Add(3 * k.period)
		}
		vtime.SetNow(now)
		rec := v.Bytes("rec", 1+i%2)
		r.write(now.Format(k.pattern), rec)
		o.Send(zzEvt(api.Info, string(rec)))
		r.check(other)
	}
}

// the clock moves on while a write is under way
// zz: cover=jumped
func ZZBoundary() {
	vos.Reset()
	ks := zz20Kinds()
	k := ks[v.Choose("pattern", len(ks))]
	now := k.base
	jumps := v.Bound("jumps", 2, 3)
	var seen []string // labels seen during the current call
	vtime.OnNow = func() time.Time {
		if jumps > 0 && v.Bool("jump") {
			jumps--
			now = now.Add(k.period)
			v.Cover("jumped")
		}
		seen = append(seen, now.Format(k.pattern))
		return now
	}
	o := zzRolling(api.CfgOutput{"type": "time_rolling_file", "file": "/l/f", "pattern": k.pattern, "backups": "20"})
	type done struct {
		rec    byte
		labels []string
	}
	var all []done
	for i := 0; i < v.Bound("boundarywrites", 3, 4); i++ {
		seen = nil
		rec := v.Byte("rec")
		o.Send(zzEvt(api.Info, string([]byte{rec})))
		v.Assert(len(seen) > 0, "clock-consulted")
		all = append(all, done{rec, seen})
	}
	// walk through the periods in time order; every record must be in the file of a period the
	// clock showed during its write, in order
	at := 0
	files := 0
	t, prev := k.base, ""
	for p := 0; p < 8 && !t.After(now); p++ {
		l := t.Format(k.pattern)
		t = t.Add(k.period)
		if l == prev { // a longer period than the first
			continue
		}
		prev = l
		b, ok := vos.Content("/l/f." + l)
		if !ok {
			continue
		}
		files++
		for i := range b {
			v.Assert(at < len(all), "no-extra-record")
			v.Assert(b[i] == all[at].rec, "records-in-order")
			v.Assert(zzHas(all[at].labels, l), "record-under-its-period")
			at++
		}
	}
	b, ok := vos.Content("/l/f")
	v.Assert(ok, "file-present")
	for i := range b {
		v.Assert(at < len(all), "no-extra-record")
		v.Assert(b[i] == all[at].rec, "records-in-order")
		at++
	}
	v.Assert(at == len(all), "no-record-lost")
	v.Assert(len(vos.Names()) == files+1, "no-other-files")
	// the records of the current file share the period of the last one
	last := all[len(all)-1].labels
	for i := range b {
		ls := all[len(all)-1-i].labels
		v.Assert(zzHas(ls, last[0]) || zzHas(ls, last[len(last)-1]), "current-file-one-period")
	}
}

// a restart within or after the period
// zz: cover=rolled
func ZZRestart() {
	vos.Reset()
	ks := zz20Kinds()
	k := ks[v.Choose("pattern", len(ks))]
	r := &zz20Ref{}
	cfg := api.CfgOutput{"type": "time_rolling_file", "file": "/l/f", "pattern": k.pattern, "backups": "20"}
	now := k.base
	o := zzRolling(cfg)
	for i := 0; i < v.Bound("restartwrites", 4, 5); i++ {
		if v.Bool("restart") {
			o.Close()
			o = zzRolling(cfg)
			r.label = "" // what is there counts as of the first period
		}
		if v.Bool("next") {
			now = now.Add(k.period)
		}
		vtime.SetNow(now)
		rec := v.Bytes("rec", 1)
		r.write(now.Format(k.pattern), rec)
		o.Send(zzEvt(api.Info, string(rec)))
		r.check(nil)
	}
}

// an asynchronous output writes each batch under the period of its flush
func ZZAsync() {
	vos.Reset()
	vtime.MaxTicks = 1
	pattern := "2006-01-02"
	vtime.SetNow(time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC))
	o := zzRolling(api.CfgOutput{"type": "time_rolling_file", "file": "/l/f", "pattern": pattern, "async": "true", "batch_num": zzItoa(1 + v.Choose("batch", 2))})
	var all []byte
	for i := 0; i < 3; i++ {
		rec := v.Bytes("rec", 2)
		all = append(all, rec...)
		o.Send(zzEvt(api.Info, string(rec)))
		v.Enter()
		vtime.SetNow(time.Date(2026, 1, 2+i, 0, 0, 0, 0, time.UTC))
		v.Leave()
	}
	o.Close()
	var got []byte
	n := 0
	for d := 1; d < 5; d++ {
		b, ok := vos.Content("/l/f.2026-01-0" + zzItoa(d))
		if ok {
			n++
			v.Assert(len(b)%2 == 0, "records-whole")
			got = append(got, b...)
		}
	}
	b, ok := vos.Content("/l/f")
	v.Assert(ok, "file-present")
	got = append(got, b...)
	v.Assert(zzEqual(got, all), "every-record-once-in-order")
	v.Assert(len(vos.Names()) == n+1, "no-other-files")
}

// a label that comes again: the earlier backup of that name must survive
func ZZRecurring() {
	vos.Reset()
	// the hour alone recurs a day later; a clock set back recurs with any pattern
	how := v.Choose("how", 3)
	pattern := "15"
	t := time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	ts := []time.Time{t, t.Add(time.Hour), t.Add(24 * time.Hour), t.Add(25 * time.Hour)}
	switch how {
	case 1:
		pattern = "2006-01-02_15"
		ts = []time.Time{t, t.Add(time.Hour), t, t.Add(time.Hour)}
	case 2: // the same hours told apart
		pattern = "2006-01-02_15"
	}
	o := zzRolling(api.CfgOutput{"type": "time_rolling_file", "file": "/l/f", "pattern": pattern, "backups": "20"})
	for i, x := range ts {
		vtime.SetNow(x)
		o.Send(zzEvt(api.Info, string([]byte{byte('a' + i)})))
	}
	total := 0
	for _, n := range vos.Names() {
		b, _ := vos.Content(n)
		total += len(b)
	}
	v.Assert(total == len(ts), "backup-survives-recurring-label")
}

// many periods with many and long records each
// zz: cover=rolled,stayed steps=60000000
func ZZMany() {
	vos.Reset()
	ks := zz20Kinds()
	k := ks[v.Choose("pattern", len(ks))]
	r := &zz20Ref{}
	o := zzRolling(api.CfgOutput{"type": "time_rolling_file", "file": "/l/f", "pattern": k.pattern, "backups": "20"})
	now := k.base
	for i := 0; i < v.Bound("manyperiods", 8, 18); i++ {
		for j := 0; j <= i%4; j++ {
			vtime.SetNow(now)
			rec := []byte{byte(i), byte(j)}
			if j == 1 {
				rec = zzLong(1 + 1000*i)
			}
			r.write(now.Format(k.pattern), rec)
			o.Send(zzEvt(api.Info, string(rec)))
		}
		now = now.Add(k.period)
	}
	r.check(nil)
}

// a clock that was set back, to a period that has no backup yet: another period than before all the same
// zz: cover=back,on
func ZZBack() {
	vos.Reset()
	ks := zz20Kinds()
	k := ks[v.Choose("pattern", len(ks))]
	r := &zz20Ref{prefix: v.Bool("prefix")}
	cfg := api.CfgOutput{"type": "time_rolling_file", "file": "/l/f", "pattern": k.pattern, "backups": "20"}
	if r.prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	left, last := []int{0, 1, 2, 3}, 0
	for i := 0; i < 3; i++ {
		j := v.Choose("period", len(left))
		if left[j] < last {
			v.Cover("back")
		} else {
			v.Cover("on")
		}
		last = left[j]
		left = append(append([]int(nil), left[:j]...), left[j+1:]...)
		now := k.base.Add(time.Duration(last) * k.period)
		vtime.SetNow(now)
		for n := v.Choose("records", 2); n >= 0; n-- {
			rec := v.Bytes("rec", 1)
			r.write(now.Format(k.pattern), rec)
			o.Send(zzEvt(api.Info, string(rec)))
		}
		r.check(nil)
	}
}
