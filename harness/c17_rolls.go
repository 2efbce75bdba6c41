package internal

import (
	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: no operation fails (C21 covers failures) and no other process touches the files; backup numbers are below 2^63-1.

// zz17Start fills the directory and returns the reference.
func zz17Start(dir, name string, prefix bool, have int, curlen int) *zzRef {
	vos.Reset()
	r := &zzRef{Dir: dir, Name: name, Prefix: prefix, Max: 5}
	r.Nums = append(r.Nums, [][]int{{}, {1}, {1, 2}, {9, 10}, {2, 4, 7}, {99, 1000000}}[have]...)
	for range r.Nums {
		r.Data = append(r.Data, v.Bytes("old", 2))
	}
	// listed in descending order: the order of creation in the model is the order of listing
	for i := len(r.Nums) - 1; i >= 0; i-- {
		vos.Put(r.Backup(r.Nums[i]), r.Data[i], 0500)
	}
	if curlen >= 0 {
		r.Cur = v.Bytes("cur", curlen)
		r.Open = true
		vos.Put(dir+name, r.Cur, 0600)
	}
	return r
}

// zz17Limit is a size of one or two digits.
func zz17Limit() (string, int) {
	b := v.Bytes("size", 2)
	v.Assume(v.And(b[0] >= '0', b[0] <= '9'))
	v.Assume(v.And(b[1] >= '0', b[1] <= '9'))
	n := 10*(int(b[0])-'0') + int(b[1]) - '0'
	v.Assume(n > 0)
	return string(b), n
}

// any sequence of records of any bytes and any limit, the writer restarted at any time
// zz: cover=rolled,stayed,restarted
func ZZSequence() {
	r := zz17Start("/l/", "f", false, v.Choose("have", 2), v.Choose("cur", 3)-1)
	size, limit := zz17Limit()
	r.Limit = limit
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": size}
	o := zzRolling(cfg)
	n := v.Bound("writes", 4, 6)
	for i := 0; i < n; i++ {
		if i == n/2 && v.Bool("restart") {
			v.Assert(zzClose(o) == nil, "close")
			o = zzRolling(cfg)
			v.Cover("restarted")
		}
		rec := v.Bytes("rec", v.Choose("len", v.Bound("reclen", 3, 4)))
		k := r.Rolls
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
		if r.Rolls > k {
			v.Cover("rolled")
		} else {
			v.Cover("stayed")
		}
	}
}

func zzClose(o api.Output) error { o.Close(); return nil }

// existing backups with any numbers, in either naming, in directories that exist or not
// zz: cover=rolled,removed
func ZZNumbers() {
	dir := []string{"/l/", "/l/sub/", "/"}[v.Choose("dir", 3)]
	prefix := v.Bool("prefix")
	name := []string{"f", "app.log", "f.1"}[v.Choose("name", 3)]
	r := zz17Start(dir, name, prefix, v.Choose("have", 6), v.Choose("cur", 2)-1)
	r.Limit = 2
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": dir + name, "size": "2"}
	if prefix {
		cfg["name_mode"] = "prefix"
	}
	if v.Bool("few") {
		cfg["backups"] = "2"
		r.Max = 2
		// more may be there from before, they go at the first roll
	}
	o := zzRolling(cfg)
	for i := 0; i < v.Bound("rolls", 3, 4); i++ {
		rec := v.Bytes("rec", 2)
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
	}
	if r.Rolls > 0 {
		v.Cover("rolled")
	}
	if r.Gone > 0 {
		v.Cover("removed")
	}
}

// the directory is listed in any order
// zz: cover=rolled,removed
func ZZListing() {
	r := zz17Start("/l/", "f", v.Bool("prefix"), 2+v.Choose("have", 4), 0)
	vos.ShuffleDirs = true
	r.Limit = 2
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "2", "backups": "2"}
	r.Max = 2
	if r.Prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	for i := 0; i < v.Bound("shuffledrolls", 2, 3)+1; i++ {
		rec := v.Bytes("rec", 2)
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
	}
	if r.Rolls > 0 {
		v.Cover("rolled")
	}
	if r.Gone > 0 {
		v.Cover("removed")
	}
}

// a relative name without directory
func ZZRelative() {
	r := zz17Start("/cwd/", "f", false, v.Choose("have", 3), v.Choose("cur", 3)-1)
	size, limit := zz17Limit()
	v.Assume(limit <= 4)
	r.Limit = limit
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": []string{"f", "./f", "../cwd/f"}[v.Choose("path", 3)], "size": size})
	for i := 0; i < 3; i++ {
		rec := v.Bytes("rec", 2)
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
	}
}

// many rolls in a row, past the tenth backup
// zz: cover=tenth
func ZZMany() {
	r := zz17Start("/l/", "f", v.Bool("prefix"), 0, -1)
	r.Max = 20
	r.Limit = 1
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": "20"}
	if r.Prefix {
		cfg["name_mode"] = "prefix"
	}
	o := zzRolling(cfg)
	n := v.Bound("writes", 13, 24)
	for i := 0; i < n; i++ {
		rec := v.Bytes("rec", 1)
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
	}
	if r.Rolls >= 11 {
		v.Cover("tenth")
	}
}

// an asynchronous output: whatever the batches, nothing is lost, split or reordered
// zz: cover=rolled
func ZZAsync() {
	vos.Reset()
	vtime.MaxTicks = v.Bound("ticks", 1, 1)
	size, limit := zz17Limit()
	v.Assume(limit <= 4)
	batch := []string{"1", "2", "3"}[v.Choose("batch", 3)]
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": size, "async": "true", "batch_num": batch})
	var all []byte
	for i := 0; i < v.Bound("asyncwrites", 4, 5); i++ {
		rec := v.Bytes("rec", 2)
		all = append(all, rec...)
		o.Send(zzEvt(api.Info, string(rec)))
	}
	o.Close()
	var got []byte
	rolls := 0
	for i := 1; i < 9; i++ {
		b, ok := vos.Content("/l/f." + zzItoa(i))
		if !ok {
			break
		}
		rolls++
		v.Assert(len(b)%2 == 0, "records-whole")
		v.Assert(len(b) >= limit, "rolled-only-at-the-limit")
		got = append(got, b...)
	}
	b, ok := vos.Content("/l/f")
	v.Assert(ok, "file-present")
	got = append(got, b...)
	v.Assert(len(vos.Names()) == rolls+1, "no-other-files")
	v.Assert(zzEqual(got, all), "every-record-once-in-order")
	if rolls > 0 {
		v.Cover("rolled")
	}
}

// long records: each is in one file, whole, whatever its length
// zz: cover=rolled,longer steps=30000000
func ZZLong() {
	r := zz17Start("/l/", "f", false, v.Choose("have", 2), v.Choose("cur", 2)-1)
	r.Limit = []int{512, 1024, 8192}[v.Choose("limit", 3)]
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": zzItoa(r.Limit)})
	for i := 0; i < v.Bound("longwrites", 2, 3); i++ {
		rec := zzLong([]int{2, 1023, 4096, 4097, 70000}[v.Choose("longlen", 5)])
		r.Write(rec)
		o.Send(zzEvt(api.Info, string(rec)))
		zzCheckFiles(r.Files())
		if len(rec) > r.Limit {
			v.Cover("longer")
		}
	}
	if r.Rolls > 0 {
		v.Cover("rolled")
	}
}
