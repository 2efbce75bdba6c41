package internal

import (
	"sync"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: the periodic flush fires at most the given number of times, at any instants; the underlying writer succeeds; every scheduling of senders, flusher, timer and closer is covered up to equivalence of independent steps. Sequential consistency: data races are reported as violations instead.

// zz14Check compares what was written with what was sent: every message of must once, every
// message of may at most once, nothing else, each sender's messages in order.
func zz14Check(text string, must, may []string, senders [][]string) {
	var got []string
	for i := 0; i+2 < len(text)+1; i += 3 {
		v.Assert(i+2 < len(text) && text[i+2] == ';', "events-whole")
		got = append(got, text[i:i+2])
	}
	for _, m := range must {
		n := 0
		for _, g := range got {
			if g == m {
				n++
			}
		}
		if n != 1 {
			v.Observe("written", m, n, text)
		}
		v.Assert(n > 0, "sent-event-written")
		v.Assert(n == 1, "written-once")
	}
	for _, m := range may {
		n := 0
		for _, g := range got {
			if g == m {
				n++
			}
		}
		v.Assert(n <= 1, "written-once")
	}
	for _, g := range got {
		v.Assert(zzHas(must, g) || zzHas(may, g), "nothing-else-written")
	}
	for _, s := range senders {
		at := 0
		for _, g := range got {
			for k, m := range s {
				if g == m {
					v.Assert(k >= at, "sender-order")
					at = k
				}
			}
		}
	}
}

func zz14Msg(s, i int) string { return string([]byte{byte('A' + s), byte('0' + i)}) }

// zz14Level is a level and whether it passes the threshold.
func zz14Level(t api.Level) (api.Level, bool) {
	l := api.Level(v.Int("lvl", int(api.All), int(api.Off)))
	return l, l >= t
}

// one sender, any queue and batch size, the timer firing at any time
// zz: cover=all,some
func ZZOneSender() {
	vtime.MaxTicks = v.Bound("ticks", 1, 2)
	w := &vcap.W{}
	batch := v.Int("batch", 1, 500)
	t := api.Level(v.Int("t", int(api.All), int(api.Off)))
	o := NewAsyncOutput(w, t, 1+v.Choose("queue", 3), batch)
	o.SetFormatter(&vcap.Fmt{})
	var must []string
	n := v.Bound("events", 4, 4)
	for i := 0; i < n; i++ {
		l, pass := zz14Level(t)
		m := zz14Msg(0, i)
		if pass {
			must = append(must, m)
		}
		o.Send(zzEvt(l, m))
	}
	o.Close()
	zz14Check(w.Text(), must, nil, [][]string{must})
	if len(must) == n {
		v.Cover("all")
	} else {
		v.Cover("some")
	}
}

// several senders, all done before Close
func ZZSenders() {
	vtime.MaxTicks = v.Bound("ticks2", 1, 1)
	w := &vcap.W{}
	o := NewAsyncOutput(w, api.Info, 1+v.Choose("queue", 2), 1+v.Choose("batch", 3))
	o.SetFormatter(&vcap.Fmt{})
	var must []string
	var senders [][]string
	var wg sync.WaitGroup
	ns := v.Bound("senders", 2, 2)
	for s := 0; s < ns; s++ {
		s := s
		var mine []string
		k := v.Bound("each", 2, 3)
		for i := 0; i < k; i++ {
			mine = append(mine, zz14Msg(s, i))
		}
		must = append(must, mine...)
		senders = append(senders, mine)
		wg.Add(1)
		go func() {
			for _, m := range mine {
				o.Send(zzEvt(api.Info, m))
			}
			wg.Done()
		}()
	}
	wg.Wait()
	o.Close()
	zz14Check(w.Text(), must, nil, senders)
}

// three senders of one event each
func ZZThree() {
	w := &vcap.W{}
	lv := api.Level(v.Int("lvl", int(api.Trace), int(api.Off)))
	o := NewAsyncOutput(w, api.All, 1+v.Choose("queue", 2), 1+v.Choose("batch", 2))
	o.SetFormatter(&vcap.Fmt{})
	var must []string
	var wg sync.WaitGroup
	for s := 0; s < 3; s++ {
		m := zz14Msg(s, 0)
		must = append(must, m)
		wg.Add(1)
		go func() {
			o.Send(zzEvt(lv, m))
			wg.Done()
		}()
	}
	wg.Wait()
	o.Close()
	zz14Check(w.Text(), must, nil, nil)
}

// a sender that is still sending when Close is called
// zz: cover=before,after
func ZZOverlap() {
	vtime.MaxTicks = v.Bound("ticks2", 1, 1)
	w := &vcap.W{}
	o := NewAsyncOutput(w, api.Info, 1+v.Choose("queue", 2), 1+v.Choose("batch", 3))
	o.SetFormatter(&vcap.Fmt{})
	var must, may, all []string
	n := v.Bound("overlapping", 3, 5)
	for i := 0; i < n; i++ {
		all = append(all, zz14Msg(0, i))
	}
	done := make(chan bool)
	sent := 0
	closing := false
	go func() {
		for _, m := range all {
			o.Send(zzEvt(api.Info, m))
			v.Point("close")
			v.Enter()
			if !closing {
				sent++
			}
			v.Leave()
		}
		done <- true
	}()
	v.Point("close")
	v.Enter()
	closing = true
	must, may = all[:sent], all[sent:]
	v.Leave()
	if len(must) > 0 {
		v.Cover("before")
	}
	if len(may) > 0 {
		v.Cover("after")
	}
	o.Close()
	text := w.Text()
	zz14Check(text, must, may, [][]string{all})
	<-done
	v.Assert(w.Text() == text, "nothing-after-close")
}

// the configured rolling and console outputs built asynchronous
func ZZConfigured() {
	vtime.MaxTicks = 1
	w := &vcap.W{}
	o, err := NewConsoleOutput(api.CfgOutput{"type": "console", "async": "true", "queue_size": "1", "batch_num": zzItoa(1 + v.Choose("batch", 3)), "threshold": "info"})
	v.Assert(err == nil, "output-created")
	o.SetFormatter(&vcap.Fmt{})
	var must []string
	for i := 0; i < 3; i++ {
		m := zz14Msg(0, i)
		must = append(must, m)
		o.Send(zzEvt(api.Info, m))
	}
	o.Close()
	zz14Check(zzStdout(), must, nil, [][]string{must})
	_ = w
}
