// Package zz_vtime models the clock: Now returns what the harness set, tickers fire a bounded
// number of times at instants chosen by the scheduler.
package zz_vtime

import (
	"time"

	v "github.com/xtfly/log4g/internal/zz_vrt"
)

type (
	Time     = time.Time
	Duration = time.Duration
)

var (
	// Clock is the current instant; Advance and SetNow move it.
	Clock = time.Date(2026, 1, 2, 3, 4, 5, 678901234, time.UTC)
	// OnNow, when set, supplies the instant instead.
	OnNow func() Time
	// MaxTicks is how often each ticker created from now on may fire.
	MaxTicks int
	// Tickers counts tickers created, Stopped those stopped.
	Tickers, Stopped int

	// Yields makes every reading of the clock a scheduling point.
	Yields bool

	UTC   = time.UTC
	Local = time.UTC
)

func SetNow(t Time) { Clock = t }

func Now() Time {
	if Yields {
		v.Point("clock")
	}
	v.Enter()
	defer v.Leave()
	if OnNow != nil {
		return OnNow()
	}
	return Clock
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) { v.Point("sleep") }

type Ticker struct {
	C       <-chan Time
	c       chan Time
	stopped bool
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	v.Enter()
	Tickers++
	n := MaxTicks
	v.Leave()
	if n > 0 {
		go t.run(n)
	}
	return t
}

func (t *Ticker) run(n int) {
	for i := 0; i < n; i++ {
		v.Point("tick")
		v.Enter()
		s := t.stopped
		v.Leave()
		if s {
			return
		}
		select {
		case t.c <- Clock:
		default:
		}
	}
}

func (t *Ticker) Stop() {
	v.Enter()
	t.stopped = true
	Stopped++
	v.Leave()
}

func (t *Ticker) Reset(d Duration) {}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }

type Timer struct {
	C       <-chan Time
	stopped bool
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c}
	v.Enter()
	n := MaxTicks
	v.Leave()
	if n > 0 {
		go func() {
			v.Point("tick")
			v.Enter()
			s := t.stopped
			v.Leave()
			if !s {
				c <- Clock
			}
		}()
	}
	return t
}

func (t *Timer) Stop() bool {
	v.Enter()
	defer v.Leave()
	r := !t.stopped
	t.stopped = true
	return r
}

func (t *Timer) Reset(d Duration) bool { return true }

func After(d Duration) <-chan Time { return NewTimer(d).C }

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{}
	v.Enter()
	n := MaxTicks
	v.Leave()
	if n > 0 {
		go func() {
			v.Point("tick")
			f()
		}()
	}
	return t
}
