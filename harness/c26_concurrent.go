package internal

import (
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: the goroutines write through the same output (or the same writer); no file operation fails; every operation on the file system is a scheduling point; every schedule is covered up to equivalence of independent steps. Data races are violations.

// zz26Record is the i-th record of a goroutine, between brackets.
func zz26Record(g, i int) string { return "<" + string([]byte{byte('A' + g), byte('0' + i)}) + ">" }

// zz26Files are the contents of the backups in order of their number, and of the current file last.
func zz26Files(path string) []string {
	var r []string
	for n := 1; ; n++ {
		b, ok := vos.Content(path + "." + zzItoa(n))
		if !ok {
			break
		}
		r = append(r, string(b))
	}
	b, _ := vos.Content(path)
	return append(r, string(b))
}

// zz26Check asserts that the text is made of whole records, each at most once (exactly once when
// all is set), those of one goroutine in order.
func zz26Check(text string, gs, per int, all bool) {
	next := make([]int, gs)
	n := 0
	for i := 0; i < len(text); i += 4 {
		v.Assert(i+4 <= len(text) && text[i] == '<' && text[i+3] == '>', "record-whole")
		g, k := int(text[i+1])-'A', int(text[i+2])-'0'
		v.Assert(g >= 0 && g < gs && k < per, "record-whole")
		v.Assert(k >= next[g], "order-and-once")
		if all {
			v.Assert(k == next[g], "none-lost")
		}
		next[g] = k + 1
		n++
	}
	if all {
		v.Assert(n == gs*per, "none-lost")
	}
}

// zz26Run starts the goroutines and waits for them.
func zz26Run(gs int, f func(g int)) {
	var wg sync.WaitGroup
	for g := 0; g < gs; g++ {
		g := g
		wg.Add(1)
		go func() {
			f(g)
			wg.Done()
		}()
	}
	wg.Wait()
}

// goroutines sending to one size-rolling output
// zz: cover=rolled,mixed
func ZZSize() {
	vos.Reset()
	gs, per := v.Bound("goroutines", 3, 3), v.Bound("records", 2, 3)
	limit := []int{1, 4, 5, 8, 9, 3}[v.Choose("limit", v.Bound("limits", 5, 6))]
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": zzItoa(limit), "backups": "20"})
	zz26Run(gs, func(g int) {
		for i := 0; i < per; i++ {
			o.Send(zzEvt(api.Info, zz26Record(g, i)))
		}
	})
	fs := zz26Files("/l/f")
	v.Assert(len(vos.Names()) == len(fs), "no-other-files")
	t := ""
	for i, f := range fs {
		zz26Check(f, gs, per, false)
		v.Assert(len(f)-4 < limit, "rolled-in-time")
		if i < len(fs)-1 {
			v.Assert(len(f) >= limit, "rolled-not-early")
			v.Cover("rolled")
		}
		t += f
	}
	zz26Check(t, gs, per, true)
	if len(t) >= 16 && t[1] == t[9] && t[5] == t[13] && t[1] != t[5] {
		v.Cover("mixed")
	}
}

// with a retention of one backup: the last records remain
func ZZRetention() {
	vos.Reset()
	vos.Put("/l/f", []byte("<A0>"), 0600)
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "4", "backups": "1"})
	zz26Run(2, func(g int) {
		for i := 1; i < 3; i++ {
			o.Send(zzEvt(api.Info, zz26Record(g, i)))
		}
	})
	b, ok := vos.Content("/l/f.4")
	v.Assert(ok, "backup-kept")
	c, ok := vos.Content("/l/f")
	v.Assert(ok, "current-kept")
	v.Assert(len(vos.Names()) == 2, "retention")
	v.Assert(len(b) == 4 && len(c) == 4, "record-whole")
	zz26Check(string(b)+string(c), 2, 3, false)
	v.Assert(string(c) == "<A2>" || string(c) == "<B2>", "order-and-once")
}

// goroutines logging through different loggers to a time-rolling output, while the period changes
// zz: cover=rolled
func ZZTime() {
	vos.Reset()
	vtime.SetNow(time.Date(2020, 1, 1, 5, 0, 0, 0, time.UTC))
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"type": "text", "name": "f", "layout": "%{msg}"}},
		Outputs: []api.CfgOutput{{"type": "time_rolling_file", "name": "o", "format": "f", "file": "/l/f", "pattern": "15", "backups": "20"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}},
	}
	v.Assert(zzGetManager().SetConfig(cfg) == nil, "accepted")
	ls := []api.Logger{zzGetLogger("a"), zzGetLogger("a/b")}
	per := v.Bound("trecords", 1, 2)
	vtime.Yields = true
	later := make(chan bool)
	go func() {
		v.Point("clock")
		vtime.SetNow(time.Date(2020, 1, 1, 6, 0, 0, 0, time.UTC))
		later <- true
	}()
	zz26Run(2, func(g int) {
		for i := 0; i < per; i++ {
			ls[g].Info(zz26Record(g, i))
		}
	})
	<-later
	vtime.Yields = false
	ls[0].Info(zz26Record(0, per))
	old, rolled := vos.Content("/l/f.05")
	cur, ok := vos.Content("/l/f")
	v.Assert(ok, "current-kept")
	n := 1
	if rolled {
		n = 2
		v.Cover("rolled")
	}
	v.Assert(len(vos.Names()) == n, "no-other-files")
	t := string(old) + string(cur)
	v.Assert(len(t) == 4*(2*per+1), "none-lost")
	zz26Check(t, 2, per+1, false)
	v.Assert(len(cur) >= 4 && string(cur[len(cur)-4:]) == zz26Record(0, per), "order-and-once")
}

// an asynchronous and a synchronous sender, the former flushing in batches
func ZZBatches() {
	vos.Reset()
	vtime.MaxTicks = 0
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "4", "backups": "20", "async": "true", "batch_num": "2", "queue_size": "1"})
	zz26Run(2, func(g int) {
		for i := 0; i < 2; i++ {
			o.Send(zzEvt(api.Info, zz26Record(g, i)))
		}
	})
	o.Close()
	fs := zz26Files("/l/f")
	t := ""
	for _, f := range fs {
		zz26Check(f, 2, 2, false)
		t += f
	}
	zz26Check(t, 2, 2, true)
	v.Assert(len(vos.Names()) == len(fs), "no-other-files")
}

// long records through every kind of output: none is interrupted by another
// zz: cover=first,second,console,size,time,memory,syslog
func ZZLong() {
	vos.Reset()
	vtime.MaxTicks = 0
	kind := v.Choose("kind", 5)
	o, text := zz31Make(kind, []string{"", "true"}[v.Choose("async", 2)], "1")
	o.SetFormatter(zzRaw{})
	n := []int{3, 1025, 5000, 70000}[v.Choose("longlen", v.Bound("lengths", 3, 4))]
	a, b := zzText('a', n), zzText('b', n)
	zz26Run(2, func(g int) { o.Send(zzEvt(api.Info, []string{a, b}[g])) })
	o.Close()
	t := text()
	v.Assert(t == a+b || t == b+a, "record-whole")
	if t == a+b {
		v.Cover("first")
	} else {
		v.Cover("second")
	}
	v.Cover([]string{"console", "size", "time", "memory", "syslog"}[kind])
}
