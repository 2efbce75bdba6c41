package internal

import (
	"sync"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: as C14. Every call returning is decided as the absence of deadlocks in every schedule; goroutines are scheduled fairly.

// zz15Written checks that every message was written at most once.
func zz15Written(text string, msgs []string) {
	left := text
	for len(left) > 0 {
		v.Assert(len(left) >= 2 && left[1] == ';', "events-whole")
		m := left[:1]
		left = left[2:]
		v.Assert(zzHas(msgs, m), "only-sent-events")
		for i := 0; i+1 < len(left); i += 2 {
			v.Assert(left[i:i+1] != m, "delivered-once")
		}
	}
}

// senders and closers at the same time
// zz: cover=written,dropped
func ZZConcurrent() {
	vtime.MaxTicks = v.Bound("ticks", 1, 1)
	w := &vcap.W{}
	o := NewAsyncOutput(w, api.Info, 1+v.Choose("queue", 2), 1+v.Choose("batch", 2))
	o.SetFormatter(&vcap.Fmt{})
	closed := false
	w.OnWrite = func(b []byte) {
		v.Assert(!closed || len(b) == 0, "nothing-after-close")
	}
	var wg sync.WaitGroup
	msgs := []string{"a", "b", "c"}
	senders := v.Bound("senders", 2, 3)
	closers := v.Bound("closers", 2, 2)
	for s := 0; s < senders; s++ {
		m := msgs[s]
		wg.Add(1)
		go func() {
			o.Send(zzEvt(api.Info, m))
			wg.Done()
		}()
	}
	for c := 0; c < closers; c++ {
		wg.Add(1)
		go func() {
			o.Close()
			v.Point("w")
			v.Enter()
			closed = true
			v.Leave()
			wg.Done()
		}()
	}
	wg.Wait()
	o.Send(zzEvt(api.Info, "c"))
	o.Close()
	t := w.Text()
	zz15Written(t, msgs)
	if len(t) == 2*senders {
		v.Cover("written")
	} else {
		v.Cover("dropped")
	}
}

// one goroutine sends and closes repeatedly while another does the same
func ZZRepeated() {
	w := &vcap.W{}
	o := NewAsyncOutput(w, api.Info, 1, 1+v.Choose("batch", 2))
	o.SetFormatter(&vcap.Fmt{})
	closed := false
	w.OnWrite = func(b []byte) {
		v.Assert(!closed || len(b) == 0, "nothing-after-close")
	}
	done := make(chan bool)
	run := func(a, b string) {
		o.Send(zzEvt(api.Info, a))
		o.Close()
		v.Point("w")
		v.Enter()
		closed = true
		v.Leave()
		o.Send(zzEvt(api.Info, b))
		o.Close()
	}
	go func() {
		run("a", "b")
		done <- true
	}()
	run("c", "d")
	<-done
	zz15Written(w.Text(), []string{"a", "c"})
}

// Close, Send and Close again in one goroutine, with the timer firing at any time
func ZZSequential() {
	vtime.MaxTicks = 2
	w := &vcap.W{}
	n := v.Choose("before", 3)
	o := NewAsyncOutput(w, api.Info, 1+v.Choose("queue", 2), 1+v.Choose("batch", 3))
	o.SetFormatter(&vcap.Fmt{})
	want := ""
	for i := 0; i < n; i++ {
		m := string([]byte{byte('a' + i)})
		o.Send(zzEvt(api.Info, m))
		want += m + ";"
	}
	for i := 0; i < 3; i++ {
		o.Close()
		v.Assert(w.Text() == want, "close-keeps-what-was-sent")
		o.Send(zzEvt(api.Critical, "z"))
		v.Assert(w.Text() == want, "nothing-after-close")
	}
}

// the queue is full and the writer slow while Close is called
func ZZFull() {
	w := &vcap.W{}
	o := NewAsyncOutput(w, api.Info, 1, 1)
	o.SetFormatter(&vcap.Fmt{})
	var wg sync.WaitGroup
	n := v.Bound("fullsenders", 4, 4)
	msgs := []string{"a", "b", "c", "d"}
	for s := 0; s < n; s++ {
		m := msgs[s]
		wg.Add(1)
		go func() {
			o.Send(zzEvt(api.Info, m))
			wg.Done()
		}()
	}
	o.Close()
	t := w.Text()
	wg.Wait()
	v.Assert(w.Text() == t, "nothing-after-close")
	zz15Written(t, msgs)
}
