// Package zz_vcap holds the observers harnesses attach to the code under test: a writer and an
// output that record what they are given.
package zz_vcap

import (
	"errors"

	"github.com/xtfly/log4g/api"
	v "github.com/xtfly/log4g/internal/zz_vrt"
)

// W records every Write.
type W struct {
	Recs    [][]byte // one entry per call
	Fails   bool     // every call fails
	OnWrite func(b []byte)
}

func (w *W) Write(b []byte) (int, error) {
	v.Point("w")
	v.Touch(b)
	v.Enter()
	defer v.Leave()
	w.Recs = append(w.Recs, append([]byte(nil), b...))
	if w.OnWrite != nil {
		w.OnWrite(b)
	}
	if w.Fails {
		return 0, errors.New("write failed")
	}
	return len(b), nil
}

// Text returns everything written so far.
func (w *W) Text() string {
	v.Point("w")
	v.Enter()
	defer v.Leave()
	var r []byte
	for _, b := range w.Recs {
		r = append(r, b...)
	}
	return string(r)
}

// Out records every event sent to it.
type Out struct {
	Name   string
	Flag   int
	Evts   []*api.Event
	Msgs   []string
	F      api.Formatter
	Closes int
	OnSend func(e *api.Event)
}

func (o *Out) Send(e *api.Event) {
	v.Enter()
	defer v.Leave()
	o.Evts = append(o.Evts, e)
	if o.OnSend != nil {
		o.OnSend(e)
	}
}

func (o *Out) SetFormatter(f api.Formatter) { o.F = f }
func (o *Out) CallerInfoFlag() int          { return o.Flag }
func (o *Out) Close() {
	v.Enter()
	o.Closes++
	v.Leave()
}

// Fmt renders an event as one byte naming it (its message) and a newline.
type Fmt struct {
	Flag int
	Pre  string
}

func (f *Fmt) Format(e *api.Event) []byte { return []byte(f.Pre + e.Format + ";") }
func (f *Fmt) CallerInfoFlag() int        { return f.Flag }

// Call logs from a function of this package; here tells where the statement before its call is.
func Call(w api.Writer, m int, here func() string) string {
	switch m {
	case 0:
		w.Info("m")
		return here()
	case 1:
		w.Errorf("f")
		return here()
	case 2:
		w.Printf(api.Warn, "f")
		return here()
	case 3:
		w.Critical("m")
		return here()
	}
	return (&Caller{w}).Log(here)
}

// Caller has a method that logs.
type Caller struct{ W api.Writer }

func (c *Caller) Log(here func() string) (r string) {
	func() {
		c.W.Debug("m")
		r = here()
	}()
	return
}
