//go:build go1.18

// Package vdot has statements that log in a package whose path ends with a dotted element, as those of
// gopkg.in do, and in functions with type parameters.
package vdot

import "github.com/xtfly/log4g/api"

// Call logs; here tells where the statement before its call is.
func Call(w api.Writer, m int, here func() string) string {
	switch m {
	case 0:
		w.Info("m")
		return here()
	case 1:
		return (&Caller{w}).Log(here)
	case 2:
		return Generic(w, 1, here)
	case 3:
		return Generic(w, "x", here)
	case 4:
		return Inner[string](w, here)
	case 5:
		return (&Of[int]{w: w}).Log(here)
	}
	return Of[Caller]{w: w}.LogValue(here)
}

// Caller has a method that logs.
type Caller struct{ W api.Writer }

// Log logs.
func (c *Caller) Log(here func() string) string {
	c.W.Debug("m")
	return here()
}

// Generic logs for any type.
func Generic[T any](w api.Writer, _ T, here func() string) string {
	w.Errorf("f")
	return here()
}

// Inner logs from a closure.
func Inner[T any](w api.Writer, here func() string) (r string) {
	func() {
		w.Warn("m")
		r = here()
	}()
	return
}

// Of is a type with a parameter.
type Of[T any] struct {
	w api.Writer
	_ [0]T
}

// Log logs.
func (o *Of[T]) Log(here func() string) string {
	o.w.Printf(api.Info, "f")
	return here()
}

// LogValue logs.
func (o Of[T]) LogValue(here func() string) string {
	o.w.Critical("m")
	return here()
}
