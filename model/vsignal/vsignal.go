// Package zz_vsignal models signal delivery.
package zz_vsignal

import (
	"os"

	v "github.com/xtfly/log4g/internal/zz_vrt"
)

type handler struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var handlers []handler

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	v.Enter()
	handlers = append(handlers, handler{c, sig})
	v.Leave()
}

func Stop(c chan<- os.Signal) {
	v.Enter()
	defer v.Leave()
	var r []handler
	for _, h := range handlers {
		if h.c != c {
			r = append(r, h)
		}
	}
	handlers = r
}

func Ignore(sig ...os.Signal) {}
func Reset(sig ...os.Signal)  {}

// Deliver hands a signal to every channel that asked for it; false if none did.
func Deliver(s os.Signal) bool {
	n := false
	for _, h := range handlers {
		for _, x := range h.sigs {
			if x == s {
				n = true
				select {
				case h.c <- s:
				default:
				}
				break
			}
		}
	}
	return n
}
