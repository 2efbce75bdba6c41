// Package zz_vfmt is the formatting model: the engine redirects calls of fmt (and a few
// reflection-based helpers of other packages) to the functions whose names start with the
// package name. Native replays use the real packages.
package zz_vfmt

import (
	"context"
	"errors"
	realfmt "fmt"
	"io"
	"unicode/utf8"

	vos "github.com/xtfly/log4g/internal/zz_vos"
	zv "github.com/xtfly/log4g/internal/zz_vrt"
)

type (
	State      = realfmt.State
	Formatter  = realfmt.Formatter
	Stringer   = realfmt.Stringer
	GoStringer = realfmt.GoStringer
)

// RuntimeError is the dynamic type of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type rvalue struct {
	valid bool
	x     interface{}
}

func zvTypeName(x interface{}) string { return zv.TypeName(x) }

func isNilPtr(x interface{}) bool {
	k, _, _ := zv.Kids(x)
	return k == "nil"
}

func isStringKind(x interface{}) bool {
	_, ok := zv.Plain(x).(string)
	return ok
}

func intOf(x interface{}) (int, bool) {
	switch n := zv.Plain(x).(type) {
	case int:
		return n, true
	case int8:
		return int(n), true
	case int16:
		return int(n), true
	case int32:
		return int(n), true
	case int64:
		return int(n), true
	case uint:
		return int(n), int(n) >= 0
	case uint8:
		return int(n), true
	case uint16:
		return int(n), true
	case uint32:
		return int(n), true
	case uint64:
		return int(n), int(n) >= 0
	}
	return 0, false
}

func (p *pp) fmtPointer(arg interface{}, value rvalue, verb rune) {
	switch zv.Plain(value.x).(type) {
	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr, float32, float64, complex64, complex128, string:
		p.badVerb(arg, value, verb)
		return
	}
	k, e, _ := zv.Kids(value.x)
	var u uint64
	switch k {
	case "nil":
	case "addr":
		u = e[0].(uint64)
	case "ptr", "other", "slice", "map":
		u = 0xc000010000
	default:
		p.badVerb(arg, value, verb)
		return
	}
	switch verb {
	case 'v':
		if u == 0 {
			p.fmt.padString(nilAngleString)
		} else {
			p.fmt0x64(u, !p.fmt.sharp)
		}
	case 'p':
		p.fmt0x64(u, !p.fmt.sharp)
	case 'b', 'o', 'd', 'x', 'X':
		p.fmtInteger(arg, value, u, unsigned, verb)
	default:
		p.badVerb(arg, value, verb)
	}
}

func (p *pp) printValue(value rvalue, verb rune, depth int, exported bool) {
	x := value.x
	if depth > 0 && x != nil && exported {
		if p.handleMethods(x, value, verb) {
			return
		}
	}
	if x == nil {
		switch {
		case depth == 0:
			p.buf.writeString(invReflectString)
		case verb == 'v':
			p.buf.writeString(nilAngleString)
		default:
			p.badVerb(nil, rvalue{}, verb)
		}
		return
	}
	switch f := zv.Plain(x).(type) {
	case bool:
		p.fmtBool(nil, value, f, verb)
		return
	case int:
		p.fmtInteger(nil, value, uint64(f), signed, verb)
		return
	case int8:
		p.fmtInteger(nil, value, uint64(f), signed, verb)
		return
	case int16:
		p.fmtInteger(nil, value, uint64(f), signed, verb)
		return
	case int32:
		p.fmtInteger(nil, value, uint64(f), signed, verb)
		return
	case int64:
		p.fmtInteger(nil, value, uint64(f), signed, verb)
		return
	case uint:
		p.fmtInteger(nil, value, uint64(f), unsigned, verb)
		return
	case uint8:
		p.fmtInteger(nil, value, uint64(f), unsigned, verb)
		return
	case uint16:
		p.fmtInteger(nil, value, uint64(f), unsigned, verb)
		return
	case uint32:
		p.fmtInteger(nil, value, uint64(f), unsigned, verb)
		return
	case uint64:
		p.fmtInteger(nil, value, f, unsigned, verb)
		return
	case uintptr:
		p.fmtInteger(nil, value, uint64(f), unsigned, verb)
		return
	case float32:
		p.fmtFloat(nil, value, float64(f), 32, verb)
		return
	case float64:
		p.fmtFloat(nil, value, f, 64, verb)
		return
	case string:
		p.fmtString(nil, value, f, verb)
		return
	case []byte:
		switch verb {
		case 's', 'q', 'x', 'X':
			p.fmtBytes(f, verb, zvTypeName(x))
			return
		}
	}
	kind, kids, names := zv.Kids(x)
	switch kind {
	case "struct":
		if p.fmt.sharpV {
			p.buf.writeString(zvTypeName(x))
		}
		p.buf.writeByte('{')
		for i := range kids {
			p.sep(i)
			if p.fmt.plusV || p.fmt.sharpV {
				p.buf.writeString(names[i])
				p.buf.writeByte(':')
			}
			r, _ := utf8.DecodeRuneInString(names[i])
			p.printValue(rvalue{true, kids[i]}, verb, depth+1, exported && r >= 'A' && r <= 'Z')
		}
		p.buf.writeByte('}')
	case "map":
		if p.fmt.sharpV {
			p.buf.writeString(zvTypeName(x))
			p.buf.writeByte('{')
		} else {
			p.buf.writeString(mapString)
		}
		// keys ascending
		n := len(kids) / 2
		ord := make([]int, n)
		for i := range ord {
			ord[i] = i
			for j := i; j > 0 && keyLess(kids[2*ord[j]], kids[2*ord[j-1]]); j-- {
				ord[j], ord[j-1] = ord[j-1], ord[j]
			}
		}
		for i, k := range ord {
			p.sep(i)
			p.printValue(rvalue{true, kids[2*k]}, verb, depth+1, exported)
			p.buf.writeByte(':')
			p.printValue(rvalue{true, kids[2*k+1]}, verb, depth+1, exported)
		}
		if p.fmt.sharpV {
			p.buf.writeByte('}')
		} else {
			p.buf.writeByte(']')
		}
	case "slice":
		if p.fmt.sharpV {
			p.buf.writeString(zvTypeName(x))
			p.buf.writeByte('{')
		} else {
			p.buf.writeByte('[')
		}
		for i := range kids {
			p.sep(i)
			p.printValue(rvalue{true, kids[i]}, verb, depth+1, exported)
		}
		if p.fmt.sharpV {
			p.buf.writeByte('}')
		} else {
			p.buf.writeByte(']')
		}
	case "ptr":
		if depth == 0 {
			p.buf.writeByte('&')
			p.printValue(rvalue{true, kids[0]}, verb, depth+1, exported)
			return
		}
		p.fmtPointer(nil, value, verb)
	default:
		p.fmtPointer(nil, value, verb)
	}
}

func (p *pp) sep(i int) {
	if i > 0 {
		if p.fmt.sharpV {
			p.buf.writeString(commaSpaceString)
		} else {
			p.buf.writeByte(' ')
		}
	}
}

func keyLess(a, b interface{}) bool {
	if x, ok := zv.Plain(a).(string); ok {
		if y, ok := zv.Plain(b).(string); ok {
			return x < y
		}
	}
	x, _ := intOf(a)
	y, _ := intOf(b)
	return x < y
}

// ---- fmt

func Fmt_Sprintf(format string, a ...interface{}) string {
	p := newPrinter()
	p.doPrintf(format, a)
	return string(p.buf)
}

func Fmt_Sprint(a ...interface{}) string {
	p := newPrinter()
	p.doPrint(a)
	return string(p.buf)
}

func Fmt_Sprintln(a ...interface{}) string {
	p := newPrinter()
	p.doPrintln(a)
	return string(p.buf)
}

func Fmt_Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	p := newPrinter()
	p.doPrintf(format, a)
	return w.Write(p.buf)
}

func Fmt_Fprint(w io.Writer, a ...interface{}) (int, error) {
	p := newPrinter()
	p.doPrint(a)
	return w.Write(p.buf)
}

func Fmt_Fprintln(w io.Writer, a ...interface{}) (int, error) {
	p := newPrinter()
	p.doPrintln(a)
	return w.Write(p.buf)
}

func Fmt_Append(b []byte, a ...interface{}) []byte { return append(b, Fmt_Sprint(a...)...) }

func Fmt_Appendf(b []byte, f string, a ...interface{}) []byte {
	return append(b, Fmt_Sprintf(f, a...)...)
}

func Fmt_Appendln(b []byte, a ...interface{}) []byte { return append(b, Fmt_Sprintln(a...)...) }

func Fmt_Printf(format string, a ...interface{}) (int, error) {
	return Fmt_Fprintf(vos.Stdout, format, a...)
}
func Fmt_Print(a ...interface{}) (int, error)   { return Fmt_Fprint(vos.Stdout, a...) }
func Fmt_Println(a ...interface{}) (int, error) { return Fmt_Fprintln(vos.Stdout, a...) }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func Fmt_Errorf(format string, a ...interface{}) error {
	p := newPrinter()
	p.wrapErrs = true
	p.doPrintf(format, a)
	s := string(p.buf)
	if len(p.wrappedErrs) == 0 {
		return errors.New(s)
	}
	w := &wrapError{msg: s}
	w.err, _ = a[p.wrappedErrs[0]].(error)
	return w
}

// ---- context (the real WithValue asks reflection whether the key is comparable)

type valueCtx struct {
	context.Context
	key, val interface{}
}

func (c *valueCtx) Value(key interface{}) interface{} {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func Context_WithValue(parent context.Context, key, val interface{}) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	if !zv.Comparable(key) {
		panic("key is not comparable")
	}
	return &valueCtx{parent, key, val}
}

// ---- errors

func Errors_Is(err, target error) bool {
	for err != nil {
		if zv.Comparable(err) && zv.Comparable(target) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range x.Unwrap() {
				if Errors_Is(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

// ---- sort.Slice (swapping through reflection in the real package)

func Sort_Slice(x interface{}, less func(i, j int) bool) {
	n := zv.SliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			zv.SwapElems(x, j, j-1)
		}
	}
}

func Sort_SliceStable(x interface{}, less func(i, j int) bool) { Sort_Slice(x, less) }
