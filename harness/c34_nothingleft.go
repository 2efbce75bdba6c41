package internal

import (
	"io"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: a file is open from a successful open until its Close, which releases it even when it reports an error; any file operation may fail, up to the given number, chosen by the solver; the zip, gzip and tar encoders hold no resources of their own; the periodic flush fires at most the given number of times.

// zz34Temps counts the files left where temporary files go.
func zz34Temps() int {
	n := 0
	for _, p := range vos.Names() {
		for i := 0; i+len(".log4g_tmp/") <= len(p); i++ {
			if p[i:i+len(".log4g_tmp/")] == ".log4g_tmp/" {
				n++
				break
			}
		}
		if len(p) > 5 && p[:5] == "/tmp/" {
			n++
		}
	}
	return n
}

// zz34Run writes and looks at what is left after every call.
func zz34Run(write func(b []byte) error, base, writes, quietFrom int) {
	for i := 0; i < writes; i++ {
		if i == quietFrom {
			vos.FaultBudget = 0
		}
		vtime.SetNow(time.Date(2026, 1, 1+i, 0, 0, 0, 0, time.UTC))
		write([]byte{byte(i + 1)})
		v.Observe("left", i, vos.OpenFiles-base, zz34Temps(), zz34Removes())
		v.Assert(vos.OpenFiles-base <= 1, "one-file-open")
		v.Assert(zz34Temps() <= zz34Removes(), "no-temporary-file-left")
	}
}

// zz34Removes counts the removals that failed: what they were to remove may stay.
func zz34Removes() int {
	n := 0
	for _, op := range vos.Faults {
		if op == "remove" {
			n++
		}
	}
	return n
}

// a configured output, any archive type, size and time rolling, any single failing operation
// zz: cover=faulted,archived
func ZZConfigured() {
	vos.Reset()
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": "1", "archive": []string{"", "zip", "gzip"}[v.Choose("archive", 3)]}
	if v.Bool("time") {
		cfg["type"], cfg["pattern"] = "time_rolling_file", "2006-01-02"
	}
	base := vos.OpenFiles
	o := zzRolling(cfg)
	vos.FaultBudget = v.Bound("faults", 1, 2)
	w := v.Bound("writes", 3, 4)
	zz34Run(func(b []byte) error { o.Send(zzEvt(api.Info, string(b))); return nil }, base, w+1, w)
	if vos.FaultCount > 0 {
		v.Cover("faulted")
	}
	if cfg["archive"] != "" && len(vos.Names()) > 2 {
		v.Cover("archived")
	}
}

// one common archive, which may already have entries
// zz: cover=faulted,existing
func ZZCommon() {
	vos.Reset()
	kind := v.Choose("kind", 2)
	archive := []string{"/l/f.zip", "/arch/f.tar.gz"}[kind]
	base := vos.OpenFiles
	rw := newRollingFileWriter("/l/f", archive)
	rw.archiveType = rollingArchiveZip
	if kind == 1 {
		rw.archiveType = rollingArchiveGzip
	}
	rw.archiveExploded = false
	rw.maxRolls = 1
	rw.nameMode = rollingNameModePostfix
	rws := &rollingFileWriterSize{rw, 1}
	rws.self = rws
	var w io.Writer = rws
	for i := 0; i < 3; i++ {
		w.Write([]byte{byte(100 + i)})
	}
	if v.Bool("existing") {
		w.Write([]byte{110})
		v.Cover("existing")
	}
	vos.FaultBudget = v.Bound("faults1", 1, 1)
	zz34Run(func(b []byte) error { _, err := w.Write(b); return err }, base, v.Bound("commonwrites", 3, 4), v.Bound("faultwrites", 2, 3))
	if vos.FaultCount > 0 {
		v.Cover("faulted")
	}
}

// an asynchronous output that was closed: its goroutine has ended, its timer is stopped
// zz: cover=overlap
func ZZAsync() {
	vtime.MaxTicks = v.Bound("ticks", 1, 2)
	w := &vcap.W{}
	t0, s0 := vtime.Tickers, vtime.Stopped
	o := NewAsyncOutput(w, api.Info, 1+v.Choose("queue", 2), 1+v.Choose("batch", 2))
	o.SetFormatter(&vcap.Fmt{})
	var wg sync.WaitGroup
	wg.Add(1)
	n := v.Bound("events", 2, 3)
	go func() {
		for i := 0; i < n; i++ {
			o.Send(zzEvt(api.Info, zzItoa(i)))
		}
		wg.Done()
	}()
	if v.Bool("overlap") {
		v.Cover("overlap")
	} else {
		wg.Wait()
	}
	for i := v.Choose("closes", 2); i >= 0; i-- {
		o.Close()
	}
	left := v.Settle()
	v.Observe("left", left, vtime.Tickers-t0, vtime.Stopped-s0)
	v.Assert(left == 0, "no-goroutine-left")
	v.Assert(vtime.Tickers-t0 == vtime.Stopped-s0, "timer-stopped")
}

// after the manager's Close nothing runs any more, for outputs of the present and of an earlier configuration
// zz: cover=twice
func ZZManager() {
	vos.Reset()
	t0, s0 := vtime.Tickers, vtime.Stopped
	m := zzGetManager()
	kind := v.Choose("kind", 4)
	v.Assert(m.SetConfig(zz25Config("info", zz25Out(kind, "x", true))) == nil, "accepted")
	zzGetLogger("a").Infof("%d", 1)
	if v.Bool("again") {
		c := zz25Config("info", zz25Out(kind, "x", true))
		c.Outputs[0]["tag"] = "new"
		v.Assert(m.SetConfig(c) == nil, "accepted")
		zzGetLogger("a").Infof("%d", 2)
		v.Cover("twice")
	}
	m.Close()
	left := v.Settle()
	v.Observe("left", left)
	v.Assert(left == 0, "no-goroutine-left")
	v.Assert(vtime.Tickers-t0 == vtime.Stopped-s0, "timer-stopped")
}

// logging, requesting loggers and setting configurations with synchronous outputs start nothing
func ZZSync() {
	vos.Reset()
	t0, s0 := vtime.Tickers, vtime.Stopped
	m := zzGetManager()
	for i := 0; i < 3; i++ {
		c := zz25Config("info", zz25Out(v.Choose("kind", 4), "x", false))
		v.Assert(m.SetConfig(c) == nil, "accepted")
		zzGetLogger("a").Infof("%d", i)
		zzGetLogger("b/" + zzItoa(i)).WithFields(api.Field{Key: "k", Value: i}).Warn("w")
	}
	left := v.Settle()
	v.Observe("left", left)
	v.Assert(left == 0, "no-goroutine-started")
	v.Assert(vtime.Tickers-t0 == vtime.Stopped-s0, "no-timer-started")
}
