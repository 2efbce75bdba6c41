package internal

import (
	"io"
	"time"

	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: any file operation may fail, up to the given number per run, chosen by the solver; a failed write may have written any proper part, a failed close releases the file, a failed rename, remove, mkdir, open, chmod changes nothing. A record whose write failed may be present in part.

// zz21Writer is a size (limit>0) or time rolling writer, made as the repository's own tests do.
func zz21Writer(limit int64, max int, prefix bool) io.Writer {
	rw := newRollingFileWriter("/l/f", "")
	rw.archiveType = rollingArchiveNone
	rw.maxRolls = max
	rw.nameMode = rollingNameModePostfix
	if prefix {
		rw.nameMode = rollingNameModePrefix
	}
	if limit > 0 {
		rws := &rollingFileWriterSize{rw, limit}
		rws.self = rws
		return rws
	}
	rwt := &rollingFileWriterTime{rw, "2006-01-02", ""}
	rwt.self = rwt
	return rwt
}

// zz21Rec is one attempted write.
type zz21Rec struct {
	data []byte
	ok   bool // reported success
}

// zz21Scan consumes the records from the concatenated files: whole if accepted, a prefix if not.
func zz21Scan(all []byte, recs []zz21Rec) {
	at := 0
	for _, r := range recs {
		k := 0
		for k < len(r.data) && at+k < len(all) && all[at+k] == r.data[k] {
			k++
		}
		v.Assert(!r.ok || k == len(r.data), "accepted-record-present-in-order")
		at += k
	}
	v.Assert(at == len(all), "nothing-else-written")
}

// size rolling under faults
// zz: cover=faulted,rolled,faulted-write-accepted,faulted-write-rejected
func ZZSize() {
	vos.Reset()
	prefix := v.Bool("prefix")
	limit := int64(1 + v.Choose("limit", 3))
	var recs []zz21Rec
	if v.Bool("content") {
		vos.Put("/l/f", []byte{1, 2, 3}, 0600)
		recs = append(recs, zz21Rec{[]byte{1, 2, 3}, true})
	}
	w := zz21Writer(limit, 20, prefix)
	budget := v.Bound("faults", 2, 3)
	vos.FaultBudget = budget
	n := v.Bound("writes", 4, 4)
	for i := 0; i < n+2; i++ {
		if i == n {
			vos.FaultBudget = 0 // operations succeed again
		}
		l := 2
		rec := []byte{byte(16 * (i + 1)), byte(16*(i+1) + 1)}[:l]
		faults := vos.FaultCount
		m, err := w.Write(rec)
		recs = append(recs, zz21Rec{rec, err == nil})
		if err == nil {
			v.Assert(m == len(rec), "success-means-all")
		}
		v.Observe("write", i, m, err == nil)
		if vos.FaultCount > faults {
			v.Cover("faulted")
			if err == nil {
				v.Cover("faulted-write-accepted")
			} else {
				v.Cover("faulted-write-rejected")
			}
		} else {
			v.Assert(err == nil, "recovers")
			b, _ := vos.Content("/l/f")
			v.Assert(int64(len(b)-len(rec)) < limit, "rolling-resumes")
		}
	}
	var all []byte
	files := 0
	for i := 1; i < 20; i++ {
		p := "/l/f." + zzItoa(i)
		if prefix {
			p = "/l/" + zzItoa(i) + ".f"
		}
		b, ok := vos.Content(p)
		if !ok {
			continue
		}
		v.Assert(int64(len(b)) >= limit, "rolled-only-at-the-limit")
		files++
		all = append(all, b...)
	}
	b, _ := vos.Content("/l/f")
	all = append(all, b...)
	if files > 0 {
		v.Cover("rolled")
	}
	v.Assert(len(vos.Names()) == files+1, "no-other-files")
	zz21Scan(all, recs)
}

// size rolling with retention under faults: only whole backups older than the ones to keep may be
// gone (of those, any: one that could not be deleted stays although a newer one goes)
// zz: cover=faulted,removed
func ZZRetention() {
	vos.Reset()
	limit := int64(1)
	w := zz21Writer(limit, 2, false)
	for i := 1; i < 3; i++ {
		vos.Put("/l/f."+zzItoa(i), []byte{byte(i)}, 0500)
	}
	vos.Put("/l/f", []byte{3}, 0600)
	type one struct {
		b  byte
		ok bool
	}
	recs := []one{{1, true}, {2, true}, {3, true}}
	vos.FaultBudget = v.Bound("faults", 2, 3)
	n := v.Bound("retentionwrites", 3, 4)
	for i := 0; i < n+2; i++ {
		if i == n {
			vos.FaultBudget = 0
		}
		c := byte(4 + i)
		faults := vos.FaultCount
		_, err := w.Write([]byte{c})
		recs = append(recs, one{c, err == nil})
		if vos.FaultCount == faults {
			v.Assert(err == nil, "recovers")
		} else {
			v.Cover("faulted")
		}
		// what is there is the tail of what was accepted, with at least two backups
		var have []byte
		backups := 0
		for k := 1; k < 20; k++ {
			if b, ok := vos.Content("/l/f." + zzItoa(k)); ok {
				v.Assert(len(b) == 1, "backup-whole")
				have = append(have, b[0])
				backups++
			}
		}
		cur := 0
		if b, ok := vos.Content("/l/f"); ok {
			v.Assert(len(b) <= 1, "rolled-at-the-limit")
			have = append(have, b...)
			cur = len(b)
		}
		v.Assert(len(vos.Names()) >= backups && len(vos.Names()) <= backups+1, "no-other-files")
		at := len(have)
		for k := len(recs) - 1; k >= 0 && at > 0; k-- {
			if have[at-1] == recs[k].b {
				at--
			} else {
				v.Assert(!recs[k].ok || len(have)-at >= cur+2, "accepted-record-kept-in-order")
			}
		}
		v.Assert(at == 0, "nothing-else-written")
		v.Assert(backups >= 2, "no-backup-removed-within-the-limit")
		if backups == 2 && len(recs) > 3 {
			v.Cover("removed")
		}
		if i == n+1 {
			v.Assert(backups == 2, "retention-resumes")
		}
	}
}

// time rolling under faults
// zz: cover=faulted,rolled
func ZZTime() {
	vos.Reset()
	w := zz21Writer(0, 20, v.Bool("prefix"))
	now := time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	var recs []zz21Rec
	vos.FaultBudget = v.Bound("faults", 2, 3)
	n := v.Bound("timewrites", 3, 4)
	start := now
	for i := 0; i < n+3; i++ {
		if i == n {
			vos.FaultBudget = 0
		}
		next := i >= n || v.Bool("next")
		if next {
			now = now.Add(24 * time.Hour)
		}
		vtime.SetNow(now)
		rec := []byte{byte(16 * (i + 1)), byte(16*(i+1) + 1)}
		faults := vos.FaultCount
		m, err := w.Write(rec)
		recs = append(recs, zz21Rec{rec, err == nil})
		if err == nil {
			v.Assert(m == len(rec), "success-means-all")
		}
		if vos.FaultCount > faults {
			v.Cover("faulted")
		} else {
			v.Assert(err == nil, "recovers")
		}
		if i > n { // the write before was without fault, the period has changed
			b, _ := vos.Content("/l/f")
			v.Assert(len(b) == len(rec), "rolling-resumes")
		}
	}
	var all []byte
	files := 0
	for t := start; !t.After(now); t = t.Add(24 * time.Hour) {
		l := t.Format("2006-01-02")
		b, ok := vos.Content("/l/f." + l)
		if !ok {
			b, ok = vos.Content("/l/" + l + ".f")
		}
		if ok {
			files++
			all = append(all, b...)
			v.Cover("rolled")
		}
	}
	b, _ := vos.Content("/l/f")
	all = append(all, b...)
	v.Assert(len(vos.Names()) == files+1, "no-other-files")
	zz21Scan(all, recs)
}

// through the configured outputs: what is sent while nothing fails is recorded
// zz: cover=faulted
func ZZOutput() {
	vos.Reset()
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/d/f", "size": "2", "backups": "20"}
	tm := v.Bool("time")
	if tm {
		cfg = api.CfgOutput{"type": "time_rolling_file", "file": "/l/d/f", "pattern": "2006-01-02", "backups": "20"}
	}
	o := zzRolling(cfg)
	now := time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	vos.FaultBudget = v.Bound("faults", 2, 3)
	var recs []zz21Rec
	for i := 0; i < v.Bound("outputwrites", 4, 4); i++ {
		vtime.SetNow(now)
		rec := []byte{byte(16 * (i + 1)), byte(16*(i+1) + 1)}
		faults := vos.FaultCount
		o.Send(zzEvt(api.Info, string(rec)))
		recs = append(recs, zz21Rec{rec, vos.FaultCount == faults})
		if vos.FaultCount > faults {
			v.Cover("faulted")
		}
		now = now.Add(12 * time.Hour)
	}
	var all []byte
	for i := 1; i < 20; i++ {
		p := "/l/d/f." + zzItoa(i)
		if tm {
			p = "/l/d/f." + time.Date(2026, 1, i, 0, 0, 0, 0, time.UTC).Format("2006-01-02")
		}
		if b, ok := vos.Content(p); ok {
			all = append(all, b...)
		}
	}
	b, _ := vos.Content("/l/d/f")
	all = append(all, b...)
	zz21Scan(all, recs)
}

// an operation fails for a long time: whatever it is, all is well again afterwards
// zz: cover=rolled,accepted,rejected steps=20000000
func ZZOutage() {
	vos.Reset()
	what := []string{"open", "write", "rename", "mkdir", "chmod", "remove", "readdir", "close", "stat", "lstat", "read", "*"}[v.Choose("what", 12)]
	tm := v.Bool("time")
	limit := int64(v.Bound("limit", 2, 8))
	if tm {
		limit = 0
	}
	start := time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	dir := "/l"
	if v.Bool("missing") {
		vos.PutDir("/l")
	} else {
		vos.Put("/l/f", []byte{1, 2}, 0600)
	}
	w := zz21Writer(limit, 20, v.Bool("prefix"))
	var recs []zz21Rec
	if _, ok := vos.Content("/l/f"); ok {
		recs = append(recs, zz21Rec{[]byte{1, 2}, true})
	}
	before, n := v.Choose("before", 3), v.Bound("outage", 12, 40)
	day := 0
	vos.Short = v.Choose("short", 2)
	for i := 0; i < before+n+4; i++ {
		vos.Outage = nil
		if i >= before && i < before+n {
			vos.Outage = func(op, path string) bool { return what == "*" || op == what }
		}
		if tm && (i < before || i >= before+n || i == before+2) {
			day++
		}
		vtime.SetNow(start.Add(time.Duration(day) * 24 * time.Hour))
		rec := []byte{byte(16 + i), byte(16 + i)}
		faults := vos.FaultCount
		m, err := w.Write(rec)
		recs = append(recs, zz21Rec{rec, err == nil})
		if err == nil {
			v.Assert(m == len(rec), "success-means-all")
			v.Cover("accepted")
		} else {
			v.Cover("rejected")
		}
		if vos.FaultCount == faults {
			v.Assert(err == nil, "recovers")
			b, _ := vos.Content("/l/f")
			if !tm {
				v.Assert(int64(len(b)-len(rec)) < limit, "rolling-resumes")
			} else if i > before+n {
				v.Assert(len(b) == len(rec), "rolling-resumes")
			}
		}
	}
	var all []byte
	take := func(l string) {
		b, ok := vos.Content(dir + "/f." + l)
		if !ok {
			b, ok = vos.Content(dir + "/" + l + ".f")
		}
		if ok {
			all = append(all, b...)
			v.Cover("rolled")
		}
	}
	if tm {
		for t := 0; t <= day; t++ {
			take(start.Add(time.Duration(t) * 24 * time.Hour).Format("2006-01-02"))
		}
	} else {
		for i := 1; i <= before+2*n; i++ {
			take(zzItoa(i))
		}
	}
	b, _ := vos.Content("/l/f")
	all = append(all, b...)
	zz21Scan(all, recs)
}

// an asynchronous output survives a time in which nothing can be written
// zz: cover=recovered
func ZZAsync() {
	vos.Reset()
	vtime.MaxTicks = 0
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": "20", "async": "true", "queue_size": "3", "batch_num": "1"}
	if v.Bool("time") {
		cfg["type"], cfg["pattern"] = "time_rolling_file", "2006"
	}
	o := zzRolling(cfg)
	what := []string{"open", "write", "rename", "readdir", "*"}[v.Choose("what", 5)]
	// fails for some time once the first record was written; each later one tries it at least once
	written, left := false, 1+v.Choose("outage", 2)
	vos.Outage = func(op, path string) bool {
		if !written || left == 0 || what != "*" && op != what {
			written = written || op == "write"
			return false
		}
		left--
		return true
	}
	for _, m := range []string{"a", "x", "x", "y"} {
		o.Send(zzEvt(api.Info, m))
	}
	o.Close()
	t := ""
	for _, p := range vos.Names() {
		b, _ := vos.Content(p)
		t += string(b)
	}
	n := 0
	for _, c := range []byte(t) {
		if c == 'a' || c == 'y' {
			n++
		}
	}
	v.Assert(n == 2, "accepted-records-present")
	v.Cover("recovered")
}
