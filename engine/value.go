package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type engineErr struct{ msg string }

func (e engineErr) Error() string { return e.msg }

func unsupported(f string, a ...interface{}) { panic(engineErr{fmt.Sprintf(f, a...)}) }

// Str is a string of concrete length; sym == nil means fully concrete.
type Str struct {
	c   string
	sym []*Term
}

func (s Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.c)
}

func (s Str) at(i int) *Term {
	if s.sym != nil {
		return s.sym[i]
	}
	return mkBV(uint64(s.c[i]), 8)
}

func (s Str) slice(lo, hi int) Str {
	if s.sym != nil {
		return mkStr(s.sym[lo:hi])
	}
	return Str{c: s.c[lo:hi]}
}

func (s Str) terms() []*Term {
	if s.sym != nil {
		return s.sym
	}
	r := make([]*Term, len(s.c))
	for i := range r {
		r[i] = mkBV(uint64(s.c[i]), 8)
	}
	return r
}

// mkStr normalises to a concrete string when every byte is constant.
func mkStr(ts []*Term) Str {
	for _, t := range ts {
		if !t.isConst() {
			return Str{sym: ts}
		}
	}
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.val)
	}
	return Str{c: string(b)}
}

func (s Str) conc() (string, bool) {
	if s.sym != nil {
		return "", false
	}
	return s.c, true
}

func (a Str) concat(b Str) Str {
	if a.sym == nil && b.sym == nil {
		return Str{c: a.c + b.c}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, a.terms()...)
	r = append(r, b.terms()...)
	return Str{sym: r}
}

type Float struct {
	f float64
	w uint8
}

type Complex struct{ c complex128 }

// Agg is a struct or array: immutable as a register value, mutable when it lives on the heap.
type Agg struct {
	e    []Value
	base bool
	sh   *shadowTab
}

type Ptr struct {
	a *Agg
	i int
}

type StrPtr struct{ s Str } // unsafe.StringData

type Slice struct {
	a        *Agg
	off      int
	len, cap int
}

type Iface struct {
	t types.Type
	v Value
}

type Func struct {
	fn      *ssa.Function
	free    []Value
	builtin *ssa.Builtin
	native  func(m *Machine, th *Thread, args []Value) Value
}

type mapEnt struct {
	k, v    Value
	deleted bool
}

type Map struct {
	ents  []*mapEnt
	idx   map[string]*mapEnt // concrete keys
	nsym  int                // live entries whose key is not concretely hashable
	n     int
	base  bool
	saved int32 // path epoch for which an undo snapshot was taken
	sh    *shadowTab
}

type chanElem struct {
	v  Value
	vc []int32
}

type Chan struct {
	cap    int
	buf    []chanElem
	closed bool
	clvc   []int32
	recvVC [][]int32 // clocks of past receives (for capacity edges)
	nsend  int
	base   bool
	saved  int32
	id     int
}

type Tuple []Value

type Iter struct {
	str  Str
	isS  bool
	pos  int
	m    *Map
	ents []*mapEnt

	fixed bool // iteration order already chosen
}

type Poison struct{ why string }

// TypeVal is the dynamic value of reflectlite/reflect type stand-ins.
type FuncPC struct {
	name string
	file string
	line int
}

func isNilPtr(p Ptr) bool { return p.a == nil }

func copyAgg(a *Agg, base bool) *Agg {
	r := &Agg{e: make([]Value, len(a.e)), base: base}
	for i, v := range a.e {
		if x, ok := v.(*Agg); ok {
			r.e[i] = copyAgg(x, base)
		} else {
			r.e[i] = v
		}
	}
	return r
}

func intWidth(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			w, _, _ := intWidth(u)
			return mkBV(0, w)
		case u.Info()&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				return Float{0, 32}
			}
			return Float{0, 64}
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsComplex != 0:
			return Complex{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Func)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		a := &Agg{e: make([]Value, u.NumFields()), base: m.initMode}
		for i := range a.e {
			a.e[i] = m.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		a := &Agg{e: make([]Value, n), base: m.initMode}
		if n > 0 {
			z := m.zero(u.Elem())
			if _, agg := z.(*Agg); agg {
				for i := range a.e {
					a.e[i] = m.zero(u.Elem())
				}
			} else {
				for i := range a.e {
					a.e[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		unsupported("zero of type parameter %v", t)
	}
	unsupported("zero of %v", t)
	return nil
}

// equal compares two values of the same static type.
func (m *Machine) equal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsupported("compare %T with %T", a, b)
		}
		return m.tc.Eq(x, y)
	case Str:
		return m.strEq(x, b.(Str))
	case Float:
		return mkBool(x.f == b.(Float).f)
	case Complex:
		return mkBool(x.c == b.(Complex).c)
	case Ptr:
		y, ok := b.(Ptr)
		return mkBool(ok && x == y)
	case *Chan:
		y, ok := b.(*Chan)
		return mkBool(ok && x == y)
	case *Map:
		return mkBool(x == b.(*Map))
	case *Func:
		return mkBool(x == b.(*Func))
	case Slice:
		return mkBool(x.a == b.(Slice).a && x.a == nil)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsupported("compare iface with %T", b)
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !m.identical(x.t, y.t) {
			return tFalse
		}
		if !types.Comparable(x.t) {
			m.goPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return m.equal(x.v, y.v)
	case *Agg:
		y := b.(*Agg)
		r := tTrue
		for i := range x.e {
			r = m.tc.And(r, m.equal(x.e[i], y.e[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case FuncPC:
		return mkBool(x == b.(FuncPC))
	case RType:
		y, ok := b.(RType)
		return mkBool(ok && m.identical(x.t, y.t))
	case Poison:
		unsupported("poison: %s", x.why)
	}
	unsupported("equal on %T", a)
	return nil
}

// RType stands for reflect/reflectlite type descriptors.
type RType struct{ t types.Type }

func (m *Machine) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return tFalse
	}
	if a.sym == nil && b.sym == nil {
		return mkBool(a.c == b.c)
	}
	// cheap refutation first
	for i := 0; i < a.Len(); i++ {
		x, y := a.at(i), b.at(i)
		if x.isConst() && y.isConst() && x.val != y.val {
			return tFalse
		}
	}
	r := tTrue
	for i := 0; i < a.Len(); i++ {
		r = m.tc.And(r, m.tc.Eq(a.at(i), b.at(i)))
	}
	return r
}

func (m *Machine) strLess(a, b Str) *Term {
	if a.sym == nil && b.sym == nil {
		return mkBool(a.c < b.c)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := mkBool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		r = m.tc.Ite(m.tc.Eq(x, y), r, m.tc.Cmp(OpUlt, x, y))
	}
	return r
}

// hashKey gives a canonical string for a concrete key.
func (m *Machine) hashKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return "i" + strconv.FormatUint(x.val, 16), true
		}
		return "", false
	case Str:
		if x.sym == nil {
			return "s" + x.c, true
		}
		return "", false
	case Ptr:
		return fmt.Sprintf("p%p.%d", x.a, x.i), true
	case *Chan:
		return fmt.Sprintf("c%p", x), true
	case Iface:
		if x.t == nil {
			return "n", true
		}
		k, ok := m.hashKey(x.v)
		if !ok {
			return "", false
		}
		return "I" + m.typeID(x.t) + ":" + k, true
	case *Agg:
		var sb strings.Builder
		sb.WriteByte('A')
		for _, e := range x.e {
			k, ok := m.hashKey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:", len(k))
			sb.WriteString(k)
		}
		return sb.String(), true
	case Float:
		return fmt.Sprintf("f%v", x.f), true
	case RType:
		return "T" + m.typeID(x.t), true
	}
	return "", false
}

func (m *Machine) mapFind(mp *Map, k Value) *mapEnt {
	if mp == nil {
		return nil
	}
	h, conc := m.hashKey(k)
	if conc {
		if e, ok := mp.idx[h]; ok {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
		for _, e := range mp.ents {
			if e.deleted {
				continue
			}
			if _, c := m.hashKey(e.k); c {
				continue
			}
			if m.branch(m.equal(e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range mp.ents {
		if e.deleted {
			continue
		}
		if m.branch(m.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapTouch(mp *Map) {
	if !mp.base || m.initMode || mp.saved == m.pathEpoch {
		return
	}
	mp.saved = m.pathEpoch
	ents := make([]*mapEnt, len(mp.ents))
	for i, e := range mp.ents {
		c := *e
		ents[i] = &c
	}
	n, nsym := mp.n, mp.nsym
	m.undoFns = append(m.undoFns, func() {
		mp.ents, mp.n, mp.nsym, mp.saved = ents, n, nsym, 0
		mp.idx = map[string]*mapEnt{}
		for _, e := range ents {
			if !e.deleted {
				if h, c := m.hashKey(e.k); c {
					mp.idx[h] = e
				}
			}
		}
	})
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	m.mapTouch(mp)
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	mp.ents = append(mp.ents, e)
	mp.n++
	if h, c := m.hashKey(k); c {
		if mp.idx == nil {
			mp.idx = map[string]*mapEnt{}
		}
		mp.idx[h] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	m.mapTouch(mp)
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.deleted = true
	mp.n--
	if h, c := m.hashKey(e.k); c {
		delete(mp.idx, h)
	} else {
		mp.nsym--
	}
	for i, x := range mp.ents {
		if x == e {
			mp.ents = append(append([]*mapEnt{}, mp.ents[:i]...), mp.ents[i+1:]...)
			break
		}
	}
}
