package internal

import (
	"os"
	"time"

	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: an integer is an optional sign followed by decimal digits; for permissions a literal is decimal, 0 or 0o octal, 0x hexadecimal or 0b binary, without underscores. Strings are ASCII up to the length bound; longer digit strings are covered up to 23 digits with an arbitrary tail.

func zz12ASCII(name string, n int) string {
	b := v.Bytes(name, n)
	for i := range b {
		v.Assume(b[i] < 0x80)
	}
	return string(b)
}

func zz12Clamp(n int, ok bool, def, max int) int {
	n = v.IteInt(v.And(ok, n > 0), n, def)
	return v.IteInt(n > max, max, n)
}

// queue_size for every string up to the bound
// zz: cover=used,default,capped
func ZZQueueSize() {
	s := zz12ASCII("s", v.Choose("len", v.Bound("len", 7, 8)+1))
	got := GetQueueSize(s)
	n, ok := zzDecimal(s)
	v.Observe("queue", s, got)
	v.Assert(got == zz12Clamp(n, ok, 1000, 100000), "queue-size")
	if got == 100000 {
		v.Cover("capped")
	} else if got == 1000 {
		v.Cover("default")
	} else {
		v.Cover("used")
	}
}

// batch_num for every string up to the bound
// zz: cover=used,default,capped
func ZZBatchNum() {
	s := zz12ASCII("s", v.Choose("len", v.Bound("len", 5, 7)+1))
	got := GetBatchNum(s)
	n, ok := zzDecimal(s)
	v.Observe("batch", s, got)
	v.Assert(got == zz12Clamp(n, ok, 20, 500), "batch-num")
	if got == 500 {
		v.Cover("capped")
	} else if got == 20 {
		v.Cover("default")
	} else {
		v.Cover("used")
	}
}

// numbers near and beyond the machine's integers, positive and negative
func ZZHuge() {
	// a fixed head with the last two digits arbitrary
	head := []string{"92233720368547758", "922337203685477580", "184467440737095516", "1844674407370955161", "42949672", "999999999999999999", "21474836", "100000000000000000000"}[v.Choose("head", 8)]
	b := v.Bytes("d", 2)
	for i := range b {
		v.Assume(v.And(b[i] >= '0', b[i] <= '9'))
	}
	s := head + string(b)
	if v.Bool("neg") {
		v.Assert(GetQueueSize("-"+s) == 1000, "queue-size-very-negative")
		v.Assert(GetBatchNum("-"+s) == 20, "batch-num-very-negative")
		return
	}
	v.Assert(GetQueueSize(s) == 100000, "queue-size-huge")
	v.Assert(GetBatchNum(s) == 500, "batch-num-huge")
}

// backups: as many backups as configured remain after a roll into a directory full of them
// zz: cover=one,twenty
func ZZBackups() {
	vos.Reset()
	var s string
	if v.Bool("huge") {
		s = []string{"9223372036854775807", "9223372036854775808", "99999999999999999999", "-9223372036854775809", "4294967297", "18446744073709551617"}[v.Choose("which", 6)]
	} else {
		s = zz12ASCII("s", v.Choose("len", v.Bound("blen", 3, 4)+1))
	}
	n, ok := zzDecimal(s)
	if len(s) > 9 {
		n = 1000
		if s[0] == '-' {
			n = -1000
		}
	}
	cfg := api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", "backups": s}
	label := func(i int) string { return zzItoa(i) }
	if v.Bool("time") {
		cfg["type"], cfg["pattern"] = "time_rolling_file", "2006"
		vtime.SetNow(time.Date(2026, 5, 5, 5, 5, 5, 0, time.UTC))
		label = func(i int) string { return zzItoa(1990 + i) }
	}
	for i := 1; i <= 25; i++ {
		vos.Put("/l/f."+label(i), []byte("o"), 0600)
	}
	o := zzRolling(cfg)
	o.Send(zzEvt(api.Info, "x"))
	vtime.SetNow(time.Date(2027, 5, 5, 5, 5, 5, 0, time.UTC))
	o.Send(zzEvt(api.Info, "y"))
	left := len(vos.Names()) - 1
	want := zz12Clamp(n, ok, 5, 20)
	v.Observe("backups", s, left)
	v.Assert(left == want, "backups-kept")
	if left == 1 {
		v.Cover("one")
	}
	if left == 20 {
		v.Cover("twenty")
	}
}

// zz12Mode is the number a permission literal spells.
func zz12Mode(s string) (n int, ok bool) {
	neg := false
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	base := 10
	if len(s) > 1 && s[0] == '0' {
		base = 8
		switch s[1] {
		case 'x', 'X':
			base, s = 16, s[2:]
		case 'o', 'O':
			s = s[2:]
		case 'b', 'B':
			base, s = 2, s[2:]
		default:
			s = s[1:]
		}
	}
	ok = len(s) > 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		d := 99
		dig := v.And(c >= '0', c <= '9')
		d = v.IteInt(dig, int(c)-'0', d)
		d = v.IteInt(v.And(c >= 'a', c <= 'f'), int(c)-'a'+10, d)
		d = v.IteInt(v.And(c >= 'A', c <= 'F'), int(c)-'A'+10, d)
		ok = v.And(ok, d < base)
		n = n*base + d
	}
	return v.IteInt(neg, -n, n), ok
}

// file_perm, back_perm and dir_perm: the modes a log's file, backup and directory end up with
// zz: cover=used,default
func ZZPerms() {
	vos.Reset()
	k := v.Choose("key", 3)
	key := []string{"file_perm", "back_perm", "dir_perm"}[k]
	def := []os.FileMode{0600, 0500, 0760}[k]
	var s string
	var n int
	ok := true
	if v.Bool("huge") {
		i := v.Choose("which", 5)
		s = []string{"2147483647", "2147483648", "4294967296", "99999999999999999999", "-1"}[i]
		n, ok = -1, false
	} else {
		s = zz12ASCII("s", v.Choose("len", v.Bound("plen", 4, 5)+1))
		for i := range s {
			v.Assume(s[i] != '_')
		}
		n, ok = zz12Mode(s)
	}
	use := v.And(ok, v.And(n > 0, n <= 0777))
	want := os.FileMode(v.IteInt(use, n, int(def)))
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": "1", key: s})
	o.Send(zzEvt(api.Info, "x"))
	o.Send(zzEvt(api.Info, "y"))
	path := []string{"/l/f", "/l/f.1", "/l"}[k]
	m, _ := vos.ModeOf(path)
	v.Observe("mode", key, s, int(m&os.ModePerm))
	v.Assert(m&os.ModePerm == want, "permission-"+key)
	if use {
		v.Cover("used")
	} else {
		v.Cover("default")
	}
}

// zz12Fmt holds back the first rendering until released, and knows how much was written.
type zz12Fmt struct {
	hold    chan bool
	batch   int
	done    int
	written func() int
}

func (f *zz12Fmt) CallerInfoFlag() int { return 0 }
func (f *zz12Fmt) Format(e *api.Event) []byte {
	if f.hold != nil {
		<-f.hold
		return []byte(e.Format)
	}
	// when an event is rendered, those waiting are fewer than a batch
	v.Assert(f.done-f.written() < f.batch, "batch-num-used")
	f.done++
	return []byte(e.Format)
}

// zz12Async is an asynchronous output of a kind, and how much it has written.
func zz12Async(cfg api.CfgOutput) (o api.Output, written func() int) {
	var err error
	cfg["async"] = "true"
	written = func() int {
		b, _ := vos.Content("/l/f")
		return len(b)
	}
	switch v.Choose("kind", 3) {
	case 0:
		cfg["type"] = "console"
		o, err = NewConsoleOutput(cfg)
		written = func() int { return len(vos.StdoutText()) }
	case 1:
		cfg["type"], cfg["file"], cfg["size"] = "size_rolling_file", "/l/f", "1G"
		o, err = NewRollingOutput(cfg)
	default:
		cfg["type"], cfg["file"], cfg["pattern"] = "time_rolling_file", "/l/f", "2006"
		o, err = NewRollingOutput(cfg)
	}
	v.Assert(err == nil && o != nil, "output-created")
	return o, written
}

// an output takes as many events as queue_size says while none is rendered
// zz: cover=one,many
func ZZQueueUsed() {
	vos.Reset()
	vtime.MaxTicks = 0
	q := []int{1, 2, 5, 9}[v.Choose("queue", 4)]
	o, _ := zz12Async(api.CfgOutput{"queue_size": zzItoa(q), "batch_num": zzItoa(1 + v.Choose("batch", 3))})
	f := &zz12Fmt{hold: make(chan bool)}
	o.SetFormatter(f)
	for i := 0; i < q; i++ {
		o.Send(zzEvt(api.Info, "m"))
	}
	close(f.hold)
	o.Close()
	if q == 1 {
		v.Cover("one")
	} else {
		v.Cover("many")
	}
}

// an output writes as soon as batch_num events wait
// zz: cover=one,many
func ZZBatchUsed() {
	vos.Reset()
	vtime.MaxTicks = 0
	b := 1 + v.Choose("batch", 3)
	o, written := zz12Async(api.CfgOutput{"queue_size": zzItoa(1 + 8*v.Choose("queue", 2)), "batch_num": zzItoa(b)})
	o.SetFormatter(&zz12Fmt{batch: b, written: written})
	for i := 0; i < 4; i++ {
		o.Send(zzEvt(api.Info, "m"))
	}
	o.Close()
	v.Assert(written() == 4, "written")
	if b == 1 {
		v.Cover("one")
	} else {
		v.Cover("many")
	}
}
