package internal

import (
	"time"

	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: a backup of a size log is <file>.<n> or <n>.<file> with n a positive decimal number without leading zeros, of a time log <file>.<label> or <label>.<file> with a label its pattern parses; directories, other suffixes and other logs are foreign. No operation fails (C21).

// zz18Char is a byte a file name may have.
func zz18Char(name string) byte {
	c := v.Byte(name)
	v.Assume(v.And(c < 0x80, v.And(c != '/', c != 0)))
	return c
}

// a foreign file whose name shares the log's name and has any other suffix of up to three bytes
// zz: cover=kept
func ZZForeign() {
	vos.Reset()
	prefix := v.Bool("prefix")
	n := v.Choose("len", v.Bound("suffix", 3, 4))
	b := make([]byte, n)
	for i := range b {
		b[i] = zz18Char("c")
	}
	s := string(b)
	v.Assume(!zzNumber(s))
	r := &zzRef{Dir: "/l/", Name: "f", Prefix: prefix, Limit: 1, Max: 1, Open: true, Cur: []byte("z")}
	name := "/l/f." + s
	if prefix {
		name = "/l/" + s + ".f"
	}
	other := zzFile{name, v.Bytes("data", 2)}
	r.Other = append(r.Other, other)
	r.Nums, r.Data = []int{7}, [][]byte{[]byte("seven")}
	if v.Bool("first") {
		vos.Put(other.Path, other.Data, 0600)
	}
	vos.Put(r.Backup(7), r.Data[0], 0500)
	vos.Put("/l/f", r.Cur, 0600)
	vos.Put(other.Path, other.Data, 0600)
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": "1"}
	if prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	for i := 0; i < 2; i++ {
		r.Write([]byte{'a'})
		o.Send(zzEvt(api.Info, "a"))
		zzCheckFiles(r.Files())
	}
	v.Cover("kept")
}

// any limit and any number of backups before
// zz: cover=none,some,many
func ZZLimit() {
	vos.Reset()
	r := &zzRef{Dir: "/l/", Name: "f", Limit: 1, Open: true, Cur: []byte("z")}
	r.Prefix = v.Bool("prefix")
	have := v.Choose("have", v.Bound("have", 5, 8))
	gap := 1 + 3*v.Choose("gap", 2)
	for i := 0; i < have; i++ {
		r.Nums = append(r.Nums, 8+gap*i)
		r.Data = append(r.Data, v.Bytes("old", 1))
	}
	for _, i := range [][]int{{0, 1, 2, 3, 4, 5, 6}, {6, 5, 4, 3, 2, 1, 0}, {3, 0, 5, 2, 6, 1, 4}}[v.Choose("order", 3)] {
		if i < have {
			vos.Put(r.Backup(r.Nums[i]), r.Data[i], 0500)
		}
	}
	vos.Put("/l/f", r.Cur, 0600)
	r.Max = 1 + v.Choose("max", 4)
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": zzItoa(r.Max)}
	if r.Prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	for i := 0; i < 3; i++ {
		g := r.Gone
		rec := v.Bytes("rec", 1)
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
		switch r.Gone - g {
		case 0:
			v.Cover("none")
		case 1:
			v.Cover("some")
		default:
			v.Cover("many")
		}
	}
}

// neighbours: other logs in the same directory, directories, archives, look-alikes
func ZZNeighbours() {
	vos.Reset()
	r := &zzRef{Dir: "/l/", Name: "app.log", Limit: 1, Max: 1, Open: true, Cur: []byte("z")}
	r.Prefix = v.Bool("prefix")
	others := []string{"app.log2", "app.log2.1", "app.log-1", "app.log1", "xapp.log.1", "app.logs.1", "app.lo.1", "app.log.1.bak", "app.log.0x1", "app.log.1e1",
		"app.log.", "app.log.gz", "app.log.3.gz", "app.log.2.zip", "app.log.-1", "app.log.+1", "app.log.01", "app.log.0", "app.log.99999999999999999999", ".app.log", "x.app.log", "01.app.log", "-1.app.log", "1.xapp.log", "1app.log", "1-app.log", "3.gz.app.log", "app.log.1.app.log", "1.app.log.1", "APP.LOG.1", "sub/app.log.1", "sub/1.app.log"}
	if !r.Prefix {
		others = append(others, "1.app.log", "2.app.log")
	} else {
		others = append(others, "app.log.1", "app.log.2")
	}
	for _, n := range others {
		f := zzFile{"/l/" + n, []byte(n)}
		r.Other = append(r.Other, f)
		vos.Put(f.Path, f.Data, 0600)
	}
	vos.Put("/app.log.1", []byte("parent"), 0600)
	vos.Put("/1.app.log", []byte("parent"), 0600)
	r.Other = append(r.Other, zzFile{"/app.log.1", []byte("parent")}, zzFile{"/1.app.log", []byte("parent")})
	if r.Prefix {
		vos.PutDir("/l/4.app.log")
	} else {
		vos.PutDir("/l/app.log.4")
	}
	r.Nums, r.Data = []int{7}, [][]byte{[]byte("seven")}
	vos.Put(r.Backup(7), r.Data[0], 0500)
	vos.Put("/l/app.log", r.Cur, 0600)
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/app.log", "size": "1", "backups": "1"}
	if r.Prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	for i := 0; i < 3; i++ {
		rec := v.Bytes("rec", 1)
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
		m, ok := vos.ModeOf("/l/app.log.4")
		if r.Prefix {
			m, ok = vos.ModeOf("/l/4.app.log")
		}
		v.Assert(ok && m.IsDir(), "directory-kept")
	}
}

// a directory with more entries than one read returns
func ZZCrowded() {
	vos.Reset()
	r := &zzRef{Dir: "/l/", Name: "f", Limit: 1, Max: 2, Open: true, Cur: []byte("z")}
	n := []int{61, 62, 63, 64, 126, 130}[v.Choose("others", 6)]
	first := v.Bool("first")
	put := func() {
		for i := 0; i < n; i++ {
			p := "/l/other" + zzItoa(i)
			r.Other = append(r.Other, zzFile{p, []byte{byte(i)}})
			vos.Put(p, []byte{byte(i)}, 0600)
		}
	}
	if first {
		put()
	}
	r.Nums, r.Data = []int{4, 5}, [][]byte{[]byte("four"), []byte("five")}
	vos.Put(r.Backup(5), r.Data[1], 0500)
	vos.Put(r.Backup(4), r.Data[0], 0500)
	vos.Put("/l/f", r.Cur, 0600)
	if !first {
		put()
	}
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": "2"})
	r.Write([]byte{'a'})
	o.Send(zzEvt(api.Info, "a"))
	zzCheckFiles(r.Files())
}

// zz18Labels are the pattern and, oldest first, the labels of days in a row (several of which do
// not sort alphabetically).
func zz18Labels(k int) (string, []string, time.Duration) {
	switch k {
	case 0:
		return "2006-01-02", []string{"2025-12-29", "2025-12-30", "2025-12-31", "2026-01-01"}, 24 * time.Hour
	case 1:
		return "02.Jan.06", []string{"29.Dec.25", "30.Dec.25", "31.Dec.25", "01.Jan.26"}, 24 * time.Hour
	case 2:
		return "01-02-2006_15", []string{"12-31-2025_22", "12-31-2025_23", "01-01-2026_00", "01-01-2026_01"}, time.Hour
	case 3:
		return "January-2-2006", []string{"December-29-2025", "December-30-2025", "December-31-2025", "January-1-2026"}, 24 * time.Hour
	case 4:
		return "2 Jan 2006 15:04", []string{"31 Dec 2025 23:58", "31 Dec 2025 23:59", "1 Jan 2026 00:00", "1 Jan 2026 00:01"}, time.Minute
	}
	return "15.02.01.2006", []string{"22.31.12.2025", "23.31.12.2025", "00.01.01.2026", "01.01.01.2026"}, time.Hour
}

// time rolling removes the oldest by time, not by name
// zz: cover=removed,kept
func ZZTime() {
	vos.Reset()
	// the directory is listed in any order, or has other files as well
	vos.ShuffleDirs = v.Bool("anyorder")
	pattern, labels, step := zz18Labels(v.Choose("pattern", 6))
	prefix := v.Bool("prefix")
	path := func(l string) string {
		if prefix {
			return "/l/" + l + ".f"
		}
		return "/l/f." + l
	}
	have := 1 + v.Choose("have", 3)
	max := 1 + v.Choose("max", 3)
	var old []zzFile
	for i := 0; i < have; i++ {
		f := zzFile{path(labels[4-have+i]), v.Bytes("old", 1)}
		old = append(old, f)
		vos.Put(f.Path, f.Data, 0500)
	}
	other := []zzFile{{"/l/f.bak", []byte("x")}, {"/l/bak.f", []byte("x")}, {"/l/g." + labels[0], []byte("x")}, {"/l/f." + labels[0] + "x", []byte("x")}, {"/l/" + labels[0] + "x.f", []byte("x")}}
	if vos.ShuffleDirs {
		other = nil
	}
	for _, f := range other {
		vos.Put(f.Path, f.Data, 0600)
	}
	now := time.Date(2026, 1, 2, 3, 4, 5, 0, time.UTC)
	vtime.SetNow(now)
	cfg := api.CfgOutput{"type": "time_rolling_file", "file": "/l/f", "pattern": pattern, "backups": zzItoa(max)}
	if prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	o.Send(zzEvt(api.Info, "a"))
	label := now.Format(pattern)
	now = now.Add(step)
	vtime.SetNow(now)
	o.Send(zzEvt(api.Info, "b"))
	old = append(old, zzFile{path(label), []byte("a")})
	if len(old) > max {
		v.Cover("removed")
		old = old[len(old)-max:]
	} else {
		v.Cover("kept")
	}
	want := append([]zzFile{}, other...)
	want = append(want, old...)
	want = append(want, zzFile{"/l/f", []byte("b")})
	zzCheckFiles(want)
}

// what is neither a regular file nor a directory is no backup, whatever its name
// zz: cover=link,pipe,next
func ZZSpecial() {
	vos.Reset()
	r := &zzRef{Dir: "/l/", Name: "f", Limit: 1, Open: true, Cur: []byte("z")}
	r.Prefix = v.Bool("prefix")
	r.Max = 1 + v.Choose("max", 2)
	kind := []vos.FileMode{vos.ModeSymlink, vos.ModeNamedPipe, vos.ModeSocket, vos.ModeDevice | vos.ModeCharDevice}[v.Choose("kind", 4)]
	n := []int{1, 3, 9, 11}[v.Choose("number", 4)]
	first := v.Bool("first")
	put := func() {
		vos.PutSpecial(r.Backup(n), kind)
		r.Other = append(r.Other, zzFile{r.Backup(n), nil})
		r.Taken = n
	}
	if first {
		put()
	}
	if v.Bool("own") {
		r.Nums, r.Data = []int{4, 8}, [][]byte{[]byte("four"), []byte("eight")}
		vos.Put(r.Backup(4), r.Data[0], 0500)
		vos.Put(r.Backup(8), r.Data[1], 0500)
	}
	vos.Put("/l/f", r.Cur, 0600)
	if !first {
		put()
	}
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": zzItoa(r.Max)}
	if r.Prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	for i := 0; i < 4; i++ {
		rec := v.Bytes("rec", 1)
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
		m, ok := vos.ModeOf(r.Backup(n))
		v.Assert(ok && m&vos.ModeType == kind, "special-file-kept")
	}
	switch {
	case n == 9 || n == 11:
		v.Cover("next")
	case kind == vos.ModeSymlink:
		v.Cover("link")
	case kind == vos.ModeNamedPipe:
		v.Cover("pipe")
	}
}

// a directory that has the name the next backup would have does not stop the log from rolling
// zz: cover=skipped
func ZZDirectory() {
	vos.Reset()
	r := &zzRef{Dir: "/l/", Name: "f", Limit: 1, Open: true, Cur: []byte("z"), Max: 2}
	r.Prefix = v.Bool("prefix")
	r.Taken = 1 + v.Choose("number", 3)
	vos.PutDir(r.Backup(r.Taken))
	inside := v.Bool("inside")
	if inside {
		f := zzFile{r.Backup(r.Taken) + "/x", []byte("x")}
		vos.Put(f.Path, f.Data, 0600)
		r.Other = append(r.Other, f)
	}
	vos.Put("/l/f", r.Cur, 0600)
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": "2"}
	if r.Prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	for i := 0; i < 4; i++ {
		rec := v.Bytes("rec", 1)
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
		m, ok := vos.ModeOf(r.Backup(r.Taken))
		v.Assert(ok && m.IsDir(), "directory-kept")
	}
	v.Cover("skipped")
}

// many more backups than are kept, of either naming and listed in any of three orders
// zz: cover=removed
func ZZSurplus() {
	vos.Reset()
	r := &zzRef{Dir: "/l/", Name: "f", Limit: 1, Open: true, Cur: []byte("z")}
	r.Prefix = v.Bool("prefix")
	have := []int{12, 25, 40}[v.Choose("have", 3)]
	first := []int{1, 5, 990}[v.Choose("firstnum", 3)]
	for i := 0; i < have; i++ {
		r.Nums = append(r.Nums, first+i)
		r.Data = append(r.Data, v.Bytes("old", 1))
	}
	step := []int{1, have - 1, 7}[v.Choose("order", 3)]
	for i, k := 0, 0; i < have; i, k = i+1, (k+step)%have {
		vos.Put(r.Backup(r.Nums[k]), r.Data[k], 0500)
	}
	vos.Put("/l/f", r.Cur, 0600)
	r.Max = []int{1, 2, 10, 11, 20}[v.Choose("max", 5)]
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": zzItoa(r.Max)}
	if r.Prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	for i := 0; i < v.Bound("surplusrolls", 2, 3); i++ {
		rec := v.Bytes("rec", 1)
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
	}
	if r.Gone > 0 {
		v.Cover("removed")
	}
}
