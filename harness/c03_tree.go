package internal

import (
	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// ASSUME: names are strings of ASCII bytes up to the length bound ("root" and names around it are added); two or three loggers are requested per path, in any order.

// same name, same logger; different names, different loggers; "" and "root" are the root
// zz: cover=same,different,root
func ZZIdentity() {
	n := v.Bound("len", 3, 4)
	x, y := zz03Name("x", n), zz03Name("y", n)
	if v.Bool("xroot") {
		x = "root"
	}
	lx := zzGetLogger(x)
	ly := zzGetLogger(y)
	lx2 := zzGetLogger(x)
	v.Assert(lx == lx2, "same-name-same-logger")
	if x == y || (zz03IsRoot(x) && zz03IsRoot(y)) {
		v.Cover("same")
		v.Assert(lx == ly, "same-name-same-logger")
	} else {
		v.Cover("different")
		v.Assert(lx != ly, "different-name-different-logger")
	}
	if zz03IsRoot(x) {
		v.Cover("root")
		v.Assert(lx == zzGetLogger("") && lx == zzGetLogger("root"), "root-names")
	}
}

// a logger inherits level and outputs from y exactly if y names a proper prefix ending before a separator
// zz: cover=parent,root,own
func ZZParent() {
	x := zz03Name("x", v.Bound("xlen", 4, 5))
	y := zz03Name("y", v.Bound("ylen", 3, 3))
	if v.Bool("around root") {
		x = []string{"root/a", "root.a", "roo", "rootx", "root/", "a/root", "a/root/b"}[v.Choose("xr", 7)]
	}
	out, rout := &vcap.Out{}, &vcap.Out{}
	zzGetLogger("").SetOutputs([]api.Output{rout})
	zzGetLogger("").SetLevel(api.Error)
	first := v.Bool("child first")
	var l api.Logger
	if first {
		l = zzGetLogger(x)
	}
	p := zzGetLogger(y)
	if zz03IsRoot(y) {
		v.Prune()
	}
	p.SetOutputs([]api.Output{out})
	p.SetLevel(api.Trace)
	if !first {
		l = zzGetLogger(x)
	}
	l.Error("m")
	v.Observe("inherit", x, y, len(out.Evts))
	if x == y || zz03Below(x, y) {
		if x == y {
			v.Cover("own")
		} else {
			v.Cover("parent")
		}
		v.Assert(l.Level() == api.Trace, "level-from-parent")
		v.Assert(len(out.Evts) == 1 && len(rout.Evts) == 0, "outputs-from-parent")
	} else {
		v.Cover("root")
		v.Assert(l.Level() == api.Error, "level-from-root")
		v.Assert(len(out.Evts) == 0 && len(rout.Evts) == 1, "outputs-from-root")
	}
}

// of two named ancestors the longer one counts, whatever the order of the requests
// zz: cover=longest
func ZZLongest() {
	n := v.Bound("seg", 2, 2)
	a, b, c := zz03Name("a", n), zz03Name("b", n), zz03Name("c", 1)
	v.Assume(len(a) > 0)
	s1, s2 := v.Byte("s1"), v.Byte("s2")
	v.Assume(v.And(zz03Sep(s1), zz03Sep(s2)))
	p1 := a
	p2 := a + string([]byte{s1}) + b
	x := p2 + string([]byte{s2}) + c
	o1, o2 := &vcap.Out{Name: "1"}, &vcap.Out{Name: "2"}
	r := &vcap.Out{}
	zzGetLogger("").SetOutputs([]api.Output{r})
	names := []string{p1, p2, x}
	perm := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[v.Choose("order", 6)]
	for _, i := range perm {
		zzGetLogger(names[i])
	}
	v.Assume(!zz03IsRoot(p1) && !zz03IsRoot(p2))
	v.Assume(p1 != p2)
	zzGetLogger(p1).SetOutputs([]api.Output{o1})
	zzGetLogger(p1).SetLevel(api.Warn)
	zzGetLogger(p2).SetOutputs([]api.Output{o2})
	zzGetLogger(p2).SetLevel(api.Info)
	l := zzGetLogger(x)
	l.Info("m")
	v.Cover("longest")
	v.Assert(l.Level() == api.Info, "longest-prefix-level")
	v.Assert(len(o2.Evts) == 1 && len(o1.Evts) == 0 && len(r.Evts) == 0, "longest-prefix-outputs")
	// without settings of its own the longer one inherits from the shorter one
	zzGetLogger(p2).SetOutputs(nil)
	zzGetLogger(p2).SetLevel(api.Uninitialized)
	l.Warn("m")
	v.Assert(l.Level() == api.Warn, "next-prefix-level")
	v.Assert(len(o1.Evts) == 1 && len(r.Evts) == 0, "next-prefix-outputs")
}

// names with bytes beyond ASCII: prefixes are those of the bytes
// zz: cover=parent,root
func ZZMultiByte() {
	parts := []string{"a", "é", "世", "𝄞", "\xff", "\xe4\xb8"}
	x := ""
	n := 2 + v.Choose("parts", v.Bound("parts", 2, 3)-1)
	for i := 0; i < n; i++ {
		if i > 0 {
			s := v.Byte("sep")
			v.Assume(v.Or(zz03Sep(s), s == 'b'))
			x += string([]byte{s})
		}
		x += parts[v.Choose("part", len(parts))]
	}
	y := x[:1+v.Choose("cut", len(x)-1)]
	if v.Bool("other") {
		y = y[:len(y)-1] + "é"
	}
	out, rout := &vcap.Out{}, &vcap.Out{}
	zzGetLogger("").SetOutputs([]api.Output{rout})
	zzGetLogger("").SetLevel(api.Error)
	if v.Bool("child first") {
		zzGetLogger(x)
	}
	p := zzGetLogger(y)
	p.SetOutputs([]api.Output{out})
	p.SetLevel(api.Trace)
	l := zzGetLogger(x)
	l.Error("m")
	v.Observe("inherit", x, y, len(out.Evts))
	if x == y || zz03Below(x, y) {
		v.Cover("parent")
		v.Assert(l.Level() == api.Trace, "level-from-parent")
		v.Assert(len(out.Evts) == 1 && len(rout.Evts) == 0, "outputs-from-parent")
	} else {
		v.Cover("root")
		v.Assert(l != p, "different-name-different-logger")
		v.Assert(l.Level() == api.Error, "level-from-root")
		v.Assert(len(out.Evts) == 0 && len(rout.Evts) == 1, "outputs-from-root")
	}
}

// zz03Long is a segment of a name of n bytes.
func zz03Long(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%25)
	}
	return string(b)
}

// long names: of many segments, or of long ones
// zz: cover=parent,root
func ZZLong() {
	segs, n := []int{3, 12, 70}[v.Choose("segs", 3)], []int{1, 40, 300}[v.Choose("seglen", 3)]
	if segs*n > 3000 {
		v.Prune()
	}
	x := zz03Long(n)
	for i := 1; i < segs; i++ {
		x += []string{"/", "."}[i%2] + zz03Long(n)
	}
	tail := zz03Name("tail", 2)
	x += tail
	// cut before, at or after a separator
	at := []int{1, 2, segs / 2, segs - 1}[v.Choose("at", 4)]
	y := x[:at*(n+1)-1+v.Choose("cut", 3)-1]
	if y == "" || zz03IsRoot(y) {
		v.Prune()
	}
	out, rout := &vcap.Out{}, &vcap.Out{}
	zzGetLogger("").SetOutputs([]api.Output{rout})
	zzGetLogger("").SetLevel(api.Error)
	if v.Bool("child first") {
		zzGetLogger(x)
	}
	p := zzGetLogger(y)
	p.SetOutputs([]api.Output{out})
	p.SetLevel(api.Trace)
	l := zzGetLogger(x)
	l.Error("m")
	v.Assert(zzGetLogger(x) == l && zzGetLogger(y) == p, "same-name-same-logger")
	if x == y || zz03Below(x, y) {
		v.Cover("parent")
		v.Assert(l.Level() == api.Trace, "level-from-parent")
		v.Assert(len(out.Evts) == 1 && len(rout.Evts) == 0, "outputs-from-parent")
	} else {
		v.Cover("root")
		v.Assert(l != p, "different-name-different-logger")
		v.Assert(l.Level() == api.Error, "level-from-root")
		v.Assert(len(out.Evts) == 0 && len(rout.Evts) == 1, "outputs-from-root")
	}
}

// two long names that differ in one byte anywhere are two loggers
func ZZLongPair() {
	n := []int{40, 70, 260}[v.Choose("len", 3)]
	x := zz03Long(n)
	i := []int{0, 1, n / 2, n - 2, n - 1}[v.Choose("where", 5)]
	b := []byte(x)
	b[i] = v.Byte("b")
	v.Assume(b[i] < 0x80)
	y := string(b)
	lx, ly := zzGetLogger(x), zzGetLogger(y)
	v.Assert((lx == ly) == (x == y), "same-name-same-logger")
}

// many loggers
func ZZMany() {
	n := []int{20, 100, 300}[v.Choose("loggers", 3)]
	var ls []api.Logger
	name := func(i int) string {
		return "m" + string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
	}
	for i := 0; i < n; i++ {
		ls = append(ls, zzGetLogger(name(i)))
	}
	i, j := v.Choose("i", 20), v.Choose("j", 20)
	v.Assert(zzGetLogger(name(i)) == ls[i], "same-name-same-logger")
	v.Assert((ls[i] == ls[n-1-j]) == (i == n-1-j), "different-name-different-logger")
}
