package internal

import (
	"context"
	"errors"
	"time"

	"github.com/xtfly/log4g/api"
	vcap "github.com/xtfly/log4g/internal/zz_vcap"
	v "github.com/xtfly/log4g/internal/zz_vrt"
	vtime "github.com/xtfly/log4g/internal/zz_vtime"
)

// ASSUME: one message per path through a chain of loggers; two configured outputs per logger at most three; field keys are distinct or equal as chosen.

// zz02Ctx is a context that is over.
type zz02Ctx struct{ context.Context }

func (zz02Ctx) Err() error { return context.Canceled }
func (zz02Ctx) Done() <-chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}

// the outputs of the nearest ancestor get the event once each, in order, unchanged
// zz: cover=own,parent,root
func ZZDelivery() {
	n := v.Bound("chain", 3, 4)
	names := []string{"", "a", "a/b", "a/b/c"}
	var order []string
	var evts []*api.Event
	l := zzGetLogger(names[n-1])
	owner, want := -1, []string(nil)
	for i := 0; i < n; i++ {
		k := v.Choose("outputs", 4)
		var os []api.Output
		var ids []string
		for j := 0; j < k; j++ {
			id := names[i] + ":" + string([]byte{'0' + byte(j)})
			o := &vcap.Out{Name: id}
			o.OnSend = func(e *api.Event) { order = append(order, id); evts = append(evts, e) }
			os = append(os, o)
			ids = append(ids, id)
		}
		x := zzGetLogger(names[i])
		if k == 0 && v.Bool("empty") {
			os = []api.Output{}
		}
		x.SetOutputs(os)
		// the ancestors' own levels must not matter for what the last one emits
		x.SetLevel(api.Level(v.Int("level", int(api.Uninitialized), int(api.Off))))
		if k > 0 {
			owner, want = i, ids
		}
	}
	l.SetLevel(api.Trace)
	vtime.SetNow(vtime.Clock.Add(time.Duration(v.Choose("at", 3)) * time.Hour))
	at := vtime.Clock
	fv, fv2 := v.Int64("fieldvalue"), v.Int64("fieldvalue2")
	dup := v.Bool("dup")
	k2 := "j"
	if dup {
		k2 = "k"
	}
	var w api.Writer = l
	via := v.Choose("via", 4)
	switch via {
	case 1:
		w = l.WithFields(api.Field{Key: "k", Value: fv}, api.Field{Key: k2, Value: fv2})
	case 2:
		w = l.WithCtx(context.WithValue(context.WithValue(context.Background(), "k", fv), k2, fv2))
	case 3:
		w = l.WithCtx(zz02Ctx{context.WithValue(context.WithValue(context.Background(), "k", fv), k2, fv2)})
	}
	lv := api.Level(v.Int("lv", int(api.Trace), int(api.Critical)))
	msg, arg := v.String("msg", 2), v.Int64("arg")
	w.Printf(lv, msg, arg, "z")
	// time passes, and the next message is another one
	vtime.SetNow(vtime.Clock.Add(time.Minute))
	v.Observe("order", order)
	v.Assert(len(order) == len(want), "once-per-output")
	for i := range want {
		if i < len(order) {
			v.Assert(order[i] == want[i], "configured-order")
		}
	}
	for _, e := range evts {
		v.Assert(e.Name == names[n-1], "own-name")
		v.Assert(e.Level == lv, "level")
		v.Assert(e.Format == msg, "format")
		v.Assert(len(e.Arguments) == 2, "arguments")
		a0, _ := e.Arguments[0].(int64)
		a1, _ := e.Arguments[1].(string)
		v.Assert(v.And(a0 == arg, a1 == "z"), "arguments")
		v.Assert(e.Time.Equal(at), "time")
		if via == 0 {
			v.Assert(e.Ctx != nil && e.Ctx.Value("k") == nil, "no-context")
			continue
		}
		x, ok := e.Ctx.Value("k").(int64)
		v.Assert(ok, "context")
		if dup {
			v.Assert(x == fv2, "context-last-wins")
		} else {
			y, _ := e.Ctx.Value("j").(int64)
			v.Assert(v.And(x == fv, y == fv2), "context")
		}
	}
	switch owner {
	case -1:
		v.Cover("none")
	case 0:
		v.Cover("root")
	case n - 1:
		v.Cover("own")
	default:
		v.Cover("parent")
	}
}

// messages of two loggers sharing inherited outputs, one after the other, do not mix
func ZZSeparate() {
	o := &vcap.Out{}
	zzGetLogger("").SetOutputs([]api.Output{o})
	zzGetLogger("").SetLevel(api.All)
	names := []string{"a", "a/b", "c"}
	i, j := v.Choose("first", 3), v.Choose("second", 3)
	x, y := v.Int64("x"), v.Int64("y")
	w1 := zzGetLogger(names[i]).WithFields(api.Field{Key: "k", Value: x})
	w2 := zzGetLogger(names[j]).WithFields(api.Field{Key: "k", Value: y})
	w1.Debug("p")
	w2.Error("q")
	w1.Infof("r")
	v.Assert(len(o.Evts) == 3, "all-delivered")
	ns := []string{names[i], names[j], names[i]}
	vs := []int64{x, y, x}
	ls := []api.Level{api.Debug, api.Error, api.Info}
	ms := []string{"p", "q", "r"}
	for k, e := range o.Evts {
		c, _ := e.Ctx.Value("k").(int64)
		v.Assert(e.Name == ns[k], "own-name")
		v.Assert(c == vs[k], "own-fields")
		v.Assert(e.Level == ls[k], "level")
		v.Assert(e.Message() == ms[k], "message")
	}
	// the logger itself has no fields left behind
	zzGetLogger(names[i]).Warn("s")
	v.Assert(o.Evts[3].Ctx.Value("k") == nil, "no-context")
}

// zz02Value is a field's value of some kind.
func zz02Value() interface{} {
	switch v.Choose("value", 5) {
	case 0:
		return nil
	case 1:
		return ""
	case 2:
		return 0
	case 3:
		return false
	}
	return v.Int64("field")
}

// any number of fields, of any value: the context has the last value of every key, and no more
// zz: cover=none,nil,again
func ZZFields() {
	keys := []string{"k", "j", ""}
	own := &vcap.Out{}
	l := zzGetLogger([]string{"", "a/b"}[v.Choose("logger", 2)])
	zzGetLogger("").SetOutputs([]api.Output{own})
	zzGetLogger("").SetLevel(api.All)
	var w api.Writer = l
	n := v.Choose("fields", v.Bound("fields", 4, 5))
	has, val := [3]bool{}, [3]interface{}{}
	var fs []api.Field
	for i := 0; i < n; i++ {
		k, x := v.Choose("key", 3), zz02Value()
		fs = append(fs, api.Field{Key: keys[k], Value: x})
		if has[k] {
			v.Cover("again")
		}
		if x == nil {
			v.Cover("nil")
		}
		has[k], val[k] = true, x
	}
	if n == 0 {
		v.Cover("none")
	}
	w = l.WithFields(fs...)
	// what the caller does with its slice afterwards does not matter
	for i := range fs {
		fs[i] = api.Field{Key: "k", Value: "later"}
	}
	w.Info("m")
	v.Assert(len(own.Evts) == 1, "once-per-output")
	for i, k := range keys {
		got := own.Evts[0].Ctx.Value(k)
		v.Observe("field", k, got)
		if has[i] {
			v.Assert(got == val[i], "context-last-wins")
		} else {
			v.Assert(got == nil, "context-only-fields")
		}
	}
}

// arguments are those of the call, however many and of whatever kind
// zz: cover=none,some
func ZZArgs() {
	o := &vcap.Out{}
	zzGetLogger("").SetOutputs([]api.Output{o})
	l := zzGetLogger("a")
	l.SetLevel(api.All)
	w := zzWriter(l, v.Choose("via", 3))
	n := v.Choose("args", v.Bound("args", 4, 5))
	special := v.Choose("special", n+1)
	var args []interface{}
	for i := 0; i < n; i++ {
		if i == special {
			args = append(args, zz02Special())
		} else {
			args = append(args, zz02Value())
		}
	}
	lv := api.Level(1 + v.Choose("lv", 6))
	lv = []api.Level{api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical}[int(lv)-1]
	how := v.Choose("how", 3)
	switch how {
	case 0, 2:
		zzMethod(w, how, lv, "m", args...)
	default:
		zzMethod(w, how, lv, "m%d")
		args = nil
	}
	v.Assert(len(o.Evts) == 1, "once-per-output")
	e := o.Evts[0]
	v.Assert(e.Level == lv, "level")
	if how == 1 {
		v.Assert(e.Message() == "m%d", "message")
		v.Cover("none")
		return
	}
	v.Assert(e.Format == "m", "format")
	v.Assert(len(e.Arguments) == len(args), "arguments")
	for i := range args {
		v.Assert(zz02Same(e.Arguments[i], args[i]), "arguments")
		v.Cover("some")
	}
}

type zz02T struct{ s []int }

// zz02Special is an argument of a kind that code is tempted to treat in its own way.
func zz02Special() interface{} {
	switch v.Choose("special kind", 6) {
	case 0:
		return []interface{}{"in", 1}
	case 1:
		return []string{"in"}
	case 2:
		return errors.New("e")
	case 3:
		return func() {}
	case 4:
		return &zz02T{}
	}
	return zz02T{[]int{1}}
}

func zz02Same(a, b interface{}) bool {
	switch b := b.(type) {
	case []interface{}:
		a, ok := a.([]interface{})
		return ok && len(a) == 2 && a[0] == b[0] && a[1] == b[1]
	case []string:
		a, ok := a.([]string)
		return ok && len(a) == 1 && a[0] == "in"
	case func():
		a, ok := a.(func())
		return ok && a != nil
	case zz02T:
		a, ok := a.(zz02T)
		return ok && len(a.s) == 1 && a.s[0] == 1
	}
	return a == b
}

// a long chain and many outputs
// zz: cover=far,near
func ZZDeep() {
	n := []int{6, 12, 40}[v.Choose("depth", v.Bound("depths", 2, 3))]
	at, no := v.Choose("owner", n), []int{1, 2, 9, 33}[v.Choose("outputs", 4)]
	var order []int
	var evts []*api.Event
	mk := func(k, base int) (r []api.Output) {
		for i := 0; i < k; i++ {
			id := base + i
			o := &vcap.Out{}
			o.OnSend = func(e *api.Event) { order = append(order, id); evts = append(evts, e) }
			r = append(r, o)
		}
		return
	}
	zzGetLogger("").SetOutputs(mk(1, 1000))
	zzGetLogger("").SetLevel(api.All)
	name := "x"
	var l api.Logger
	for i := 0; i < n; i++ {
		l = zzGetLogger(name)
		if i == at {
			l.SetOutputs(mk(no, 0))
		}
		if i < n-1 {
			name += "/x"
		}
	}
	l.Infof("m")
	v.Assert(len(order) == no, "once-per-output")
	for i, k := range order {
		v.Assert(k == i, "configured-order")
		v.Assert(evts[i].Name == name, "own-name")
	}
	if at < n-1 {
		v.Cover("far")
	} else {
		v.Cover("near")
	}
}

// many fields
func ZZManyFields() {
	o := &vcap.Out{}
	zzGetLogger("").SetOutputs([]api.Output{o})
	zzGetLogger("").SetLevel(api.All)
	n := []int{7, 20, 70}[v.Choose("fields", 3)]
	var fs []api.Field
	var vals []int64
	for i := 0; i < n; i++ {
		vals = append(vals, v.Int64("value"))
		fs = append(fs, api.Field{Key: "k" + string([]byte{byte('0' + i/10), byte('0' + i%10)}), Value: vals[i]})
	}
	zzGetLogger("a").WithFields(fs...).Info("m")
	v.Assert(len(o.Evts) == 1, "once-per-output")
	for i := range fs {
		x, ok := o.Evts[0].Ctx.Value(fs[i].Key).(int64)
		v.Assert(ok, "context-only-fields")
		v.Assert(x == vals[i], "context-last-wins")
	}
}

// every event has the time of its own call, however close the calls are
// zz: cover=close,back
func ZZTimes() {
	o := &vcap.Out{}
	root, l := zzGetLogger(""), zzGetLogger("a")
	root.SetOutputs([]api.Output{o})
	root.SetLevel(api.All)
	ws := []api.Writer{l, root, l.WithFields(api.Field{Key: "k", Value: 1})}
	steps := []time.Duration{1, time.Microsecond, 999 * time.Microsecond, time.Second, -time.Second, 0}
	var at []time.Time
	for i := 0; i < 3; i++ {
		if i > 0 {
			d := steps[v.Choose("step", len(steps))]
			vtime.SetNow(vtime.Clock.Add(d))
			if d == 1 {
				v.Cover("close")
			} else if d < 0 {
				v.Cover("back")
			}
		}
		at = append(at, vtime.Clock)
		ws[v.Choose("by", 3)].Info("m")
	}
	v.Assert(len(o.Evts) == 3, "once-per-output")
	for i, e := range o.Evts {
		v.Assert(e.Time.Equal(at[i]), "time-of-the-call")
	}
}
