package internal

import (
	"github.com/xtfly/log4g/api"
	vos "github.com/xtfly/log4g/internal/zz_vos"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: size strings are ASCII, up to the length bound, or digit strings of up to 20 digits with an optional unit; lower-case or multi-letter units are malformed and give the plain default. The file's size is any value below 2^62.

func zz13Check(s string, limit int64) {
	vos.Reset()
	size := v.Int64("filesize")
	v.Assume(v.And(size >= 0, size < 1<<62))
	vos.PutSize("/l/f", size)
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": "/l/f", "size": s})
	// the first write finds the file at size
	o.Send(zzEvt(api.Info, "abc"))
	_, rolled := vos.Content("/l/f.1")
	v.Observe("roll", s, rolled)
	v.Assert(rolled == (size >= limit), "rolls-at-the-limit")
	if rolled {
		v.Cover("roll")
		return
	}
	// the second finds it three bytes larger
	o.Send(zzEvt(api.Info, "d"))
	_, rolled = vos.Content("/l/f.1")
	v.Assert(rolled == (size+3 >= limit), "rolls-at-the-limit-later")
	v.Cover("stay")
}

// any string up to the bound
// zz: cover=roll,stay
func ZZSize() {
	s := zz13ASCII("s", v.Choose("len", v.Bound("len", 4, 5)+1))
	num, unit, def := s, int64(1), int64(10<<20)
	if len(s) > 0 {
		switch s[len(s)-1] {
		case 'K':
			num, unit, def = s[:len(s)-1], 1<<10, 10<<20
		case 'M':
			num, unit, def = s[:len(s)-1], 1<<20, 10<<20
		case 'G':
			num, unit, def = s[:len(s)-1], 1<<30, 1<<30
		}
	}
	n, ok := zzDecimal(num)
	limit := def
	if ok && n > 0 {
		limit = int64(n) * unit
	}
	zz13Check(s, limit)
}

func zz13ASCII(name string, n int) string {
	b := v.Bytes(name, n)
	for i := range b {
		v.Assume(b[i] < 0x80)
	}
	return string(b)
}

// numbers whose product with the unit does or does not fit in 63 bits
// zz: cover=fits,overflows,roll,stay
func ZZBig() {
	u := v.Choose("unit", 4)
	suffix := []string{"", "K", "M", "G"}[u]
	unit := []int64{1, 1 << 10, 1 << 20, 1 << 30}[u]
	def := []int64{10 << 20, 10 << 20, 10 << 20, 1 << 30}[u]
	var num string
	var n int64
	fits := true
	switch v.Choose("case", 7) {
	case 0:
		num, n = "8589934591", 8589934591 // 2^33-1
	case 1:
		num, n = "8589934592", 8589934592
	case 2:
		num, n = "9007199254740991", 1<<53-1
	case 3:
		num, n = "9007199254740992", 1<<53
	case 4:
		num, n = "9223372036854775807", 1<<63-1
	case 5:
		num, n, fits = "9223372036854775808", 0, false
	case 6:
		num, n, fits = "36893488147419103233", 0, false // 2^65+1
	}
	limit := def
	if fits && n <= (1<<63-1)/unit {
		limit = n * unit
		v.Cover("fits")
	} else {
		v.Cover("overflows")
	}
	zz13Check(num+suffix, limit)
}

// every positive number of a given number of digits, with each unit
// zz: cover=roll,stay
func ZZDigits() {
	u := v.Choose("unit", 4)
	unit := []int64{1, 1 << 10, 1 << 20, 1 << 30}[u]
	b := v.Bytes("d", v.Choose("digits", v.Bound("digits", 4, 6))+1)
	n := int64(0)
	for i := range b {
		v.Assume(v.And(b[i] >= '0', b[i] <= '9'))
		n = n*10 + int64(b[i]) - '0'
	}
	v.Assume(n > 0)
	zz13Check(string(b)+[]string{"", "K", "M", "G"}[u], n*unit)
}

// no size at all
func ZZMissing() {
	vos.Reset()
	size := v.Int64("filesize")
	v.Assume(v.And(size >= 0, size < 1<<62))
	vos.PutSize("/l/f", size)
	o := zzRolling(api.CfgOutput{"type": "size_rolling_file", "file": "/l/f"})
	o.Send(zzEvt(api.Info, "abc"))
	_, rolled := vos.Content("/l/f.1")
	v.Assert(rolled == (size >= 10<<20), "default-limit")
}
