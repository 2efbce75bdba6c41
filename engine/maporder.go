package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) isOrderFree(x *ssa.Next) bool {
	r, ok := m.orderFree[x]
	if !ok {
		r = orderFree(x)
		if m.orderFree == nil {
			m.orderFree = map[*ssa.Next]bool{}
		}
		m.orderFree[x] = r
		if m.eng.debug {
			fmt.Fprintf(os.Stderr, "map loop in %s: order free %v\n", x.Parent(), r)
		}
	}
	return r
}

// orderFree reports whether the loop around this step of a map iteration has the same effect in
// every order of the entries: it carries nothing from one round to the next, writes nothing but
// the element of another map under the round's own key, and what is left of it afterwards does
// not depend on which entry ended it.
func orderFree(next *ssa.Next) bool {
	h := next.Block()
	loop := map[*ssa.BasicBlock]bool{h: true}
	var reach func(b *ssa.BasicBlock)
	reach = func(b *ssa.BasicBlock) {
		if loop[b] {
			return
		}
		loop[b] = true
		for _, p := range b.Preds {
			reach(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			reach(p)
		}
	}
	if len(loop) == 1 {
		return false
	}
	for b := range loop {
		if !h.Dominates(b) {
			return false
		}
	}
	var key ssa.Value
	for _, r := range *next.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			if key != nil {
				return false
			}
			key = e
		}
	}
	writes, reads := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b == h {
					return false
				}
			case *ssa.Next:
				if x != next {
					return false
				}
			case *ssa.MapUpdate:
				if key == nil || x.Key != key {
					return false
				}
				if v, ok := x.Map.(ssa.Instruction); ok && loop[v.Block()] {
					return false
				}
				if x.Map == next.Iter.(*ssa.Range).X {
					return false
				}
				writes[x.Map] = true
			case *ssa.Lookup:
				reads[x.X] = true
			case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr:
				reads[nil] = true
				if !pureInstr(in, 0) {
					return false
				}
			default:
				if !pureInstr(in, 0) {
					return false
				}
			}
			if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
				for _, r := range *v.Referrers() {
					if !loop[r.Block()] {
						return false
					}
				}
			}
		}
	}
	if len(writes) > 0 && len(reads) > 0 {
		return false // what is written may be read
	}
	// all early ends go the same way
	var exit *ssa.BasicBlock
	var from *ssa.BasicBlock
	for b := range loop {
		for _, s := range b.Succs {
			if loop[s] || b == h {
				continue
			}
			if len(writes) > 0 || exit != nil && s != exit {
				return false
			}
			if exit != nil {
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if phiFrom(p, b) != phiFrom(p, from) && !sameConst(phiFrom(p, b), phiFrom(p, from)) {
						return false
					}
				}
			}
			exit, from = s, b
		}
	}
	return true
}

func phiFrom(p *ssa.Phi, b *ssa.BasicBlock) ssa.Value {
	for i, q := range p.Block().Preds {
		if q == b {
			return p.Edges[i]
		}
	}
	return nil
}

func sameConst(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok && ok2 && x.String() == y.String()
}

// pureInstr reports whether the instruction only computes.
func pureInstr(in ssa.Instruction, depth int) bool {
	switch x := in.(type) {
	case *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.BinOp, *ssa.Phi, *ssa.Lookup, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr,
		*ssa.Index, *ssa.ChangeType, *ssa.Convert, *ssa.DebugRef, *ssa.Return, *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeInterface:
		return true
	case *ssa.UnOp:
		return x.Op.String() != "<-"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		f := x.Call.StaticCallee()
		if f == nil || f.Blocks == nil || depth > 2 {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !pureInstr(in, depth+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}
