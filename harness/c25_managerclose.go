package internal

import (
	"os"
	"sync"
	"syscall"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vsignal "github.com/xtfly/log4g/internal/zz_vsignal"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: targets accept what is written; the periodic flush fires at most the given number of times; signals are delivered as os/signal does to a channel that has room.

// events through any loggers to two outputs are there when Close returns
// zz: cover=async,sync
func ZZClose() {
	vos.Reset()
	k1, k2 := v.Choose("first", 4), v.Choose("second", 2)*3
	if k1 == k2 {
		k1 = 1
	}
	async := v.Bool("async")
	m := zzGetManager()
	v.Assert(m.SetConfig(zz25Config("info", zz25Out(k1, "x", async), zz25Out(k2, "y", v.Bound("async2", 0, 1) == 1 && v.Bool("async2")))) == nil, "accepted")
	want := ""
	names := []string{"root", "a", "a/b"}
	start := v.Choose("logger", 3)
	for i := 0; i < v.Bound("events", 3, 3); i++ {
		n := names[(i+start)%3]
		zzGetLogger(n).Infof("%d", i)
		want += n + ":" + zzItoa(i) + ";"
		zzGetLogger(n).Debug("d")
	}
	for i := 0; i < 2; i++ {
		m.Close()
		v.Assert(zz25Text(k1) == want, "first-flushed")
		v.Assert(zz25Text(k2) == want, "second-flushed")
	}
	if async {
		v.Cover("async")
	} else {
		v.Cover("sync")
	}
}

// zz25Caps registers asynchronous outputs over recording writers, and counts closes.
func zz25Caps() (map[string]*vcap.W, map[string]*int) {
	ws, closes := map[string]*vcap.W{}, map[string]*int{}
	zzGetManager().RegisterOutputCreator("capa", func(c api.CfgOutput) (api.Output, error) {
		w := &vcap.W{}
		n := new(int)
		ws[c["name"]+c["tag"]], closes[c["name"]+c["tag"]] = w, n
		return &zz25Counted{NewAsyncOutput(w, api.All, 4, 20), n}, nil
	})
	return ws, closes
}

type zz25Counted struct {
	api.Output
	n *int
}

func (c *zz25Counted) Close() {
	v.Enter()
	*c.n++
	v.Leave()
	c.Output.Close()
}

// outputs of loggers of their own, created early or late, of the present and an earlier configuration
// zz: cover=replaced,kept,unused
func ZZReconfigured() {
	ws, closes := zz25Caps()
	m := zzGetManager()
	mk := func(tag string, uses int) *api.Config {
		c := &api.Config{
			Formats: []api.CfgFormat{{"type": "text", "name": "f", "layout": "%{msg};"}},
			Outputs: []api.CfgOutput{
				{"type": "capa", "name": "x", "format": "f", "tag": tag},
				{"type": "capa", "name": "y", "format": "f"},
				{"type": "capa", "name": "unused", "format": "f"}},
		}
		switch uses {
		case 0:
			c.Loggers = []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"x"}}, {Name: "a", Level: "", OutputNames: []string{"y"}}}
		case 1:
			// nothing uses y any more
			c.Loggers = []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"x"}}}
		case 2:
			// nothing uses x any more
			c.Loggers = []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"y"}}}
		default:
			// x is not defined any more either
			c.Outputs = c.Outputs[1:]
			c.Loggers = []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"y"}}}
		}
		return c
	}
	v.Assert(m.SetConfig(mk("1", 0)) == nil, "accepted")
	x1, x2, y := "", "", ""
	if v.Bool("early") {
		zzGetLogger("a/b").Info("A")
		y += "A;"
	}
	zzGetLogger("").Info("B")
	x1 += "B;"
	tag, uses := []string{"1", "2"}[v.Choose("tag", 2)], v.Choose("uses", 4)
	v.Assert(m.SetConfig(mk(tag, uses)) == nil, "accepted")
	zzGetLogger("q").Info("C")
	zzGetLogger("a").Info("D")
	xn, yn := "C;", "D;"
	switch uses {
	case 1:
		xn, yn = "C;D;", ""
	case 2, 3:
		xn, yn = "", "C;D;"
	}
	y += yn
	if tag == "2" {
		v.Cover("replaced")
		x2 += xn
	} else {
		v.Cover("kept")
		x1 += xn
	}
	if uses > 0 {
		v.Cover("unused")
	}
	m.Close()
	check := func() {
		// an output that got nothing may not exist
		text := func(n string) string {
			if ws[n] == nil {
				return ""
			}
			return ws[n].Text()
		}
		v.Assert(text("x1") == x1, "earlier-output-flushed")
		v.Assert(text("x2") == x2, "present-output-flushed")
		v.Assert(text("y") == y, "present-output-flushed")
	}
	check()
	for _, c := range closes {
		v.Assert(*c >= 1, "every-output-closed")
	}
	m.Close()
	check()
}

// several goroutines log, the last of their calls is before Close
func ZZGoroutines() {
	vtime.MaxTicks = v.Bound("ticks", 0, 1)
	m := zzGetManager()
	v.Assert(m.SetConfig(zz25Config("info", api.CfgOutput{"type": "console", "name": "c", "format": "f", "async": "true", "queue_size": "1", "batch_num": "2"})) == nil, "accepted")
	zzGetLogger("p")
	zzGetLogger("q")
	var wg sync.WaitGroup
	for _, n := range []string{"p", "q"} {
		n := n
		wg.Add(1)
		go func() {
			zzGetLogger(n).Info("1")
			zzGetLogger(n).Info("2")
			wg.Done()
		}()
	}
	wg.Wait()
	m.Close()
	t := zzStdout()
	v.Assert(len(t) == 4*4, "all-flushed")
	for _, n := range []string{"p", "q"} {
		got := ""
		for i := 0; i+3 < len(t); i += 4 {
			if t[i:i+1] == n {
				got += t[i : i+4]
			}
		}
		v.Assert(got == n+":1;"+n+":2;", "all-flushed")
	}
}

// Close called by several goroutines at once, while another logs
func ZZConcurrentClose() {
	m := zzGetManager()
	v.Assert(m.SetConfig(zz25Config("info", api.CfgOutput{"type": "console", "name": "c", "format": "f", "async": "true", "queue_size": "1"})) == nil, "accepted")
	zzGetLogger("").Info("1")
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			m.Close()
			t := zzStdout()
			v.Assert(t == "root:1;" || t == "root:1;root:2;", "flushed")
			wg.Done()
		}()
	}
	zzGetLogger("").Info("2")
	wg.Wait()
	m.Close()
	t := zzStdout()
	v.Assert(t == "root:1;" || t == "root:1;root:2;", "flushed")
}

// SIGINT and SIGTERM flush
// zz: cover=int,term
func ZZSignal() {
	done := make(chan bool, 8)
	w := &vcap.W{}
	w.OnWrite = func(b []byte) {
		if len(b) > 0 {
			done <- true
		}
	}
	m := zzGetManager()
	m.RegisterOutputCreator("capa", func(c api.CfgOutput) (api.Output, error) {
		return NewAsyncOutput(w, api.All, 4, 20), nil
	})
	if v.Bool("configured") {
		v.Assert(m.SetConfig(zz25Config("info", api.CfgOutput{"type": "capa", "name": "c", "format": "f"})) == nil, "accepted")
	} else {
		// the default configuration, replaced later
		zzGetLogger("").Trace("")
		v.Assert(m.SetConfig(zz25Config("info", api.CfgOutput{"type": "capa", "name": "c", "format": "f"}, api.CfgOutput{"type": "console", "name": "c1", "format": "f"})) == nil, "accepted")
	}
	zzGetLogger("a").Info("1")
	zzGetLogger("").Info("2")
	s := os.Signal(syscall.SIGTERM)
	if v.Bool("int") {
		s = os.Interrupt
		v.Cover("int")
	} else {
		v.Cover("term")
	}
	v.Assert(vsignal.Deliver(s), "signal-handled")
	// never flushed is a deadlock here
	<-done
	v.Assert(w.Text() == "a:1;root:2;", "flushed")
	// a Close after that is harmless
	m.Close()
	v.Assert(w.Text() == "a:1;root:2;", "second-close-harmless")
}

// many outputs, of two configurations, used or not: every one that was created is closed
// zz: cover=many,few
func ZZMany() {
	all := zzCapTypes()
	m := zzGetManager()
	n := []int{1, 5, v.Bound("outputs", 24, 60)}[v.Choose("n", 3)]
	mk := func(tag string) *api.Config {
		c := &api.Config{Formats: []api.CfgFormat{{"type": "capf", "name": "f"}}}
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, "o"+zzItoa(i))
			t := tag
			if i%3 == 0 {
				t = "same"
			}
			c.Outputs = append(c.Outputs, api.CfgOutput{"type": "cap", "name": names[i], "format": "f", "tag": t})
		}
		c.Loggers = []api.CfgLogger{{Name: "root", Level: "all", OutputNames: names[:n/2]}, {Name: "a", Level: "info", OutputNames: names[n/2:]}}
		return c
	}
	configs := 1 + v.Choose("configs", 4)
	for i := 0; i < configs; i++ {
		v.Assert(m.SetConfig(mk(zzItoa(i))) == nil, "accepted")
		if v.Bool("used") {
			zzGetLogger("a").Info("m")
			zzGetLogger("").Info("m")
		}
	}
	zzGetLogger("a/b").Info("m")
	m.Close()
	for _, o := range *all {
		v.Assert(o.Closes >= 1, "every-output-closed")
	}
	v.Assert(len(*all) >= n-n/2, "created")
	m.Close()
	if n > 5 {
		v.Cover("many")
	} else {
		v.Cover("few")
	}
}
