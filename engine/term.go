package main

// Bit-vector / boolean terms, hash-consed per machine, with a small simplifier.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota // w==0: bool (val 0/1)
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpSdiv
	OpUrem
	OpSrem
	OpAnd
	OpOr
	OpXor
	OpNot // bit-vector not
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpExtract // low bits: extract [hi:lo]
	OpIte     // bv or bool
	OpEq      // bool result
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBNot // bool not
	OpBAnd
	OpBOr
)

type Term struct {
	op   Op
	w    uint8 // 0 = bool
	hi   uint8
	lo   uint8
	id   int32
	val  uint64
	name string
	args [3]*Term
	n    uint8
	// solver emission bookkeeping
	emitEpoch int32
	evEpoch   int32
	evVal     uint64
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

var (
	tTrue  = &Term{op: OpConst, w: 0, val: 1}
	tFalse = &Term{op: OpConst, w: 0, val: 0}
)

var smallConsts [5][1024]*Term

func widthSlot(w uint8) int {
	switch w {
	case 8:
		return 0
	case 16:
		return 1
	case 32:
		return 2
	case 64:
		return 3
	}
	return -1
}

func init() {
	for i, w := range []uint8{8, 16, 32, 64} {
		for v := 0; v < 1024; v++ {
			smallConsts[i][v] = &Term{op: OpConst, w: w, val: uint64(v) & mask(w)}
		}
	}
}

func mkBV(v uint64, w uint8) *Term {
	v &= mask(w)
	if v < 1024 {
		if s := widthSlot(w); s >= 0 && v <= mask(w) {
			return smallConsts[s][v]
		}
	}
	return &Term{op: OpConst, w: w, val: v}
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

type termKey struct {
	op         Op
	w, hi, lo  uint8
	name       string
	a, b, c    int64
	av, bv, cv uint64
}

type TermCtx struct {
	tab    map[termKey]*Term
	nextID int32
	evEp   int32
}

func newTermCtx() *TermCtx { return &TermCtx{tab: map[termKey]*Term{}, nextID: 1} }

func keyOf(t *Term) (int64, uint64) {
	if t == nil {
		return -1, 0
	}
	if t.op == OpConst {
		return -2 - int64(t.w), t.val
	}
	return int64(t.id), 0
}

func (c *TermCtx) mk(op Op, w uint8, hi, lo uint8, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, hi: hi, lo: lo, name: name, a: -1, b: -1, c: -1}
	if len(args) > 0 {
		k.a, k.av = keyOf(args[0])
	}
	if len(args) > 1 {
		k.b, k.bv = keyOf(args[1])
	}
	if len(args) > 2 {
		k.c, k.cv = keyOf(args[2])
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, hi: hi, lo: lo, name: name, n: uint8(len(args)), id: c.nextID, emitEpoch: -1, evEpoch: -1}
	c.nextID++
	copy(t.args[:], args)
	c.tab[k] = t
	return t
}

func (c *TermCtx) Var(name string, w uint8) *Term { return c.mk(OpVar, w, 0, 0, name) }

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSdiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSrem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		s := b
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>s) & m
	case OpEq:
		if a == b {
			return 1
		}
		return 0
	case OpUlt:
		if a < b {
			return 1
		}
		return 0
	case OpUle:
		if a <= b {
			return 1
		}
		return 0
	case OpSlt:
		if sext64(a, w) < sext64(b, w) {
			return 1
		}
		return 0
	case OpSle:
		if sext64(a, w) <= sext64(b, w) {
			return 1
		}
		return 0
	}
	panic("evalBin")
}

// Bin builds a bit-vector binary operation (operands of equal width).
func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(engineErr{fmt.Sprintf("width mismatch op %d: %d vs %d", op, a.w, b.w)})
	}
	if a.isConst() && b.isConst() {
		return mkBV(evalBin(op, a.val, b.val, a.w), a.w)
	}
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor: // commutative: constant to the right
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OpAdd, OpSub, OpOr, OpXor, OpShl, OpLshr, OpAshr:
			if b.val == 0 {
				return a
			}
		case OpMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OpAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(b.w) {
				return a
			}
		case OpUdiv, OpSdiv:
			if b.val == 1 {
				return a
			}
		}
		if op == OpAdd && a.op == OpAdd && a.args[1].isConst() {
			return c.Bin(OpAdd, a.args[0], mkBV(a.args[1].val+b.val, a.w))
		}
		if op == OpSub {
			return c.Bin(OpAdd, a, mkBV(-b.val, a.w))
		}
		if (op == OpShl || op == OpLshr) && b.val >= uint64(b.w) {
			return mkBV(0, a.w)
		}
		// push into ite of constants
		if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.Bin(op, a.args[1], b), c.Bin(op, a.args[2], b))
		}
	}
	if a == b {
		switch op {
		case OpSub, OpXor:
			return mkBV(0, a.w)
		case OpAnd, OpOr:
			return a
		}
	}
	return c.mk(op, a.w, 0, 0, "", a, b)
}

func (c *TermCtx) BvNot(a *Term) *Term {
	if a.isConst() {
		return mkBV(^a.val, a.w)
	}
	return c.mk(OpNot, a.w, 0, 0, "", a)
}

func (c *TermCtx) BvNeg(a *Term) *Term {
	if a.isConst() {
		return mkBV(-a.val, a.w)
	}
	return c.mk(OpNeg, a.w, 0, 0, "", a)
}

// Resize converts between widths; signed controls extension.
func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if a.w < w && signed {
			return mkBV(uint64(sext64(a.val, a.w)), w)
		}
		return mkBV(a.val, w)
	}
	if w < a.w {
		if a.op == OpZext || a.op == OpSext {
			in := a.args[0]
			if in.w == w {
				return in
			}
			if in.w > w {
				return c.Resize(in, w, signed)
			}
			if a.op == OpZext {
				return c.Resize(in, w, false)
			}
			return c.Resize(in, w, true)
		}
		if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.Resize(a.args[1], w, signed), c.Resize(a.args[2], w, signed))
		}
		return c.mk(OpExtract, w, w-1, 0, "", a)
	}
	if a.op == OpZext { // zext(zext) or sext(zext): still zext
		return c.Resize(a.args[0], w, false)
	}
	if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.Resize(a.args[1], w, signed), c.Resize(a.args[2], w, signed))
	}
	if signed {
		return c.mk(OpSext, w, 0, 0, "", a)
	}
	return c.mk(OpZext, w, 0, 0, "", a)
}

func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.isConst() && b.isConst() && a.val == b.val {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if g.op == OpBNot {
		return c.Ite(g.args[0], b, a)
	}
	return c.mk(OpIte, a.w, 0, 0, "", g, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w != b.w {
		panic(engineErr{fmt.Sprintf("eq width mismatch %d %d", a.w, b.w)})
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if b.op == OpBNot && b.args[0] == a || a.op == OpBNot && a.args[0] == b {
			return tFalse
		}
	}
	if b.isConst() {
		switch a.op {
		case OpZext:
			in := a.args[0]
			if b.val > mask(in.w) {
				return tFalse
			}
			return c.Eq(in, mkBV(b.val, in.w))
		case OpSext:
			in := a.args[0]
			lo := mkBV(b.val, in.w)
			if uint64(sext64(lo.val, in.w))&mask(a.w) != b.val {
				return tFalse
			}
			return c.Eq(in, lo)
		case OpIte:
			if a.args[1].isConst() && a.args[2].isConst() {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
			if a.args[1].isConst() && a.args[1].val != b.val {
				return c.And(c.Not(a.args[0]), c.Eq(a.args[2], b))
			}
			if a.args[1].isConst() && a.args[1].val == b.val {
				return c.Or(a.args[0], c.Eq(a.args[2], b))
			}
		case OpAdd:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], mkBV(b.val-a.args[1].val, a.w))
			}
		case OpXor:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], mkBV(b.val^a.args[1].val, a.w))
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, 0, "", a, b)
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(engineErr{fmt.Sprintf("cmp width mismatch %d %d", a.w, b.w)})
	}
	if a.isConst() && b.isConst() {
		return mkBool(evalBin(op, a.val, b.val, a.w) == 1)
	}
	if a == b {
		return mkBool(op == OpUle || op == OpSle)
	}
	// zero-extended operands: signed compare equals unsigned on the narrow width
	if a.op == OpZext && b.isConst() {
		in := a.args[0]
		signed := op == OpSlt || op == OpSle
		if signed && sext64(b.val, b.w) < 0 {
			return tFalse
		}
		if b.val > mask(in.w) {
			return tTrue
		}
		nop := op
		if op == OpSlt {
			nop = OpUlt
		} else if op == OpSle {
			nop = OpUle
		}
		return c.Cmp(nop, in, mkBV(b.val, in.w))
	}
	if b.op == OpZext && a.isConst() {
		in := b.args[0]
		signed := op == OpSlt || op == OpSle
		if signed && sext64(a.val, a.w) < 0 {
			return tTrue
		}
		if a.val > mask(in.w) {
			return tFalse
		}
		nop := op
		if op == OpSlt {
			nop = OpUlt
		} else if op == OpSle {
			nop = OpUle
		}
		return c.Cmp(nop, mkBV(a.val, in.w), in)
	}
	if op == OpUlt && b.isConst() && b.val == 0 {
		return tFalse
	}
	if op == OpUle && a.isConst() && a.val == 0 {
		return tTrue
	}
	if op == OpUle && b.isConst() && b.val == mask(b.w) {
		return tTrue
	}
	if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() && b.isConst() {
		return c.Ite(a.args[0], c.Cmp(op, a.args[1], b), c.Cmp(op, a.args[2], b))
	}
	if b.op == OpIte && b.args[1].isConst() && b.args[2].isConst() && a.isConst() {
		return c.Ite(b.args[0], c.Cmp(op, a, b.args[1]), c.Cmp(op, a, b.args[2]))
	}
	return c.mk(op, 0, 0, 0, "", a, b)
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.val == 0)
	}
	if a.op == OpBNot {
		return a.args[0]
	}
	return c.mk(OpBNot, 0, 0, 0, "", a)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == OpBNot && a.args[0] == b || b.op == OpBNot && b.args[0] == a {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBAnd, 0, 0, 0, "", a, b)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a.op == OpBNot && a.args[0] == b || b.op == OpBNot && b.args[0] == a {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBOr, 0, 0, 0, "", a, b)
}

// ---- evaluation under a model ----

type Model map[string]uint64

func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	c.evEp++
	return c.eval(t, m)
}

func (c *TermCtx) eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evEpoch == c.evEp {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpVar:
		r = m[t.name]
	case OpNot:
		r = ^c.eval(t.args[0], m) & mask(t.w)
	case OpNeg:
		r = -c.eval(t.args[0], m) & mask(t.w)
	case OpZext:
		r = c.eval(t.args[0], m)
	case OpSext:
		r = uint64(sext64(c.eval(t.args[0], m), t.args[0].w)) & mask(t.w)
	case OpExtract:
		r = (c.eval(t.args[0], m) >> t.lo) & mask(t.w)
	case OpIte:
		if c.eval(t.args[0], m) == 1 {
			r = c.eval(t.args[1], m)
		} else {
			r = c.eval(t.args[2], m)
		}
	case OpBNot:
		r = 1 - c.eval(t.args[0], m)
	case OpBAnd:
		r = c.eval(t.args[0], m) & c.eval(t.args[1], m)
	case OpBOr:
		r = c.eval(t.args[0], m) | c.eval(t.args[1], m)
	default:
		r = evalBin(t.op, c.eval(t.args[0], m), c.eval(t.args[1], m), t.args[0].w)
	}
	t.evEpoch = c.evEp
	t.evVal = r
	return r
}

// ---- SMT-LIB printing ----

var smtOp = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpSdiv: "bvsdiv", OpUrem: "bvurem", OpSrem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpBNot: "not", OpBAnd: "and", OpBOr: "or",
}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtName(t *Term) string {
	if t.op == OpConst {
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", t.w, t.val)
	}
	if t.op == OpVar {
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// emit writes the definitions t needs (in this epoch) to sb.
func (t *Term) emit(sb *strings.Builder, epoch int32, declared *[]*Term) {
	if t.op == OpConst || t.emitEpoch == epoch {
		return
	}
	t.emitEpoch = epoch
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", t.name, smtSort(t.w))
		*declared = append(*declared, t)
		return
	}
	for i := 0; i < int(t.n); i++ {
		t.args[i].emit(sb, epoch, declared)
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s (", t.id, smtSort(t.w))
	switch t.op {
	case OpZext:
		fmt.Fprintf(sb, "(_ zero_extend %d)", t.w-t.args[0].w)
	case OpSext:
		fmt.Fprintf(sb, "(_ sign_extend %d)", t.w-t.args[0].w)
	case OpExtract:
		fmt.Fprintf(sb, "(_ extract %d %d)", t.hi, t.lo)
	default:
		sb.WriteString(smtOp[t.op])
	}
	for i := 0; i < int(t.n); i++ {
		sb.WriteByte(' ')
		sb.WriteString(smtName(t.args[i]))
	}
	sb.WriteString("))\n")
}

var _ = bits.Len
