package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A loop over a list that was put together in the same function is the same as doing, at each place that
// contributes an element, what the loop does with it. gathered lists the contributing places of v; ok is
// false when the list may hold anything else.
func (e *Eval) gathered(v ssa.Value, f *frame) (out []content, ok bool) {
	seen := map[seenKey]bool{}
	var walk func(v ssa.Value, f *frame, depth int) bool
	literal := func(x *ssa.Slice, at ssa.Instruction, f *frame) bool {
		al, isAl := x.X.(*ssa.Alloc)
		if !isAl || x.Low != nil || x.High != nil || (al.Comment != "slicelit" && al.Comment != "varargs") {
			return false
		}
		for _, r := range *al.Referrers() {
			ia, isIA := r.(*ssa.IndexAddr)
			if !isIA {
				if r != ssa.Instruction(x) {
					return false
				}
				continue
			}
			for _, s := range *ia.Referrers() {
				st, isSt := s.(*ssa.Store)
				if !isSt || st.Addr != ssa.Value(ia) {
					return false
				}
				out = append(out, content{val: st.Val, at: at, f: f})
			}
		}
		return true
	}
	walk = func(v ssa.Value, f *frame, depth int) bool {
		v, f = e.lookup(v, f)
		if seen[seenKey{v, f}] {
			return true
		}
		if depth > 10 {
			return false
		}
		seen[seenKey{v, f}] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value == nil
		case *ssa.Phi:
			for i, ed := range x.Edges {
				if e.p.liveEdge(x.Block(), i) && !walk(ed, f, depth+1) {
					return false
				}
			}
			return true
		case *ssa.MakeSlice:
			n, isC := x.Len.(*ssa.Const)
			return isC && isZeroConst(n)
		case *ssa.Slice:
			return literal(x, x, f)
		case *ssa.UnOp:
			al, isAl := x.X.(*ssa.Alloc)
			if !isAl || x.Op != token.MUL {
				return false
			}
			sts := e.cellStores(al, f)
			for _, c := range sts {
				if !walk(c.st.Val, c.f, depth+1) {
					return false
				}
			}
			return len(sts) > 0
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB {
				if b.Name() != "append" || len(x.Call.Args) != 2 {
					return false
				}
				sl, isSl := x.Call.Args[1].(*ssa.Slice)
				return isSl && literal(sl, x, f) && walk(x.Call.Args[0], f, depth+1)
			}
			return e.eachResult(x, 0, f, func(v ssa.Value, h *frame) bool { return walk(v, h, depth+1) })
		case *ssa.Extract:
			c, isCall := x.Tuple.(*ssa.Call)
			return isCall && e.eachResult(c, x.Index, f, func(v ssa.Value, h *frame) bool { return walk(v, h, depth+1) })
		}
		return false
	}
	if !walk(v, f, 0) || len(out) == 0 || len(out) > 6 {
		return nil, false
	}
	return out, true
}

// eachResult: every result a helper returns for idx satisfies is.
func (e *Eval) eachResult(c *ssa.Call, idx int, f *frame, is func(ssa.Value, *frame) bool) bool {
	t := e.callee(&c.Call, f)
	if t == nil || !e.transparent(t.fn, f) {
		return false
	}
	h := e.enter(c, *t, f)
	for _, b := range t.fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if ok && e.p.live(t.fn)[b] && b.Comment != "recover" && (idx >= len(r.Results) || !is(r.Results[idx], h)) {
			return false
		}
	}
	return true
}

// ranges: the innermost loop around b that goes over a list put together in the function.
func (e *Eval) ranges(b *ssa.BasicBlock, f *frame) (seenKey, []content) {
	lv := e.p.live(b.Parent())
	for h := b.Idom(); h != nil; h = h.Idom() {
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok || !lv[h] {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS || !isInduction(cmp.X) {
			continue
		}
		la := lenArg(cmp.Y)
		if la == nil || !h.Succs[0].Dominates(b) || !reaches(b, h) {
			continue
		}
		if _, isSl := la.Type().Underlying().(*types.Slice); !isSl {
			continue
		}
		l, lf := e.lookup(la, f)
		if _, busy := e.pick[seenKey{l, lf}]; busy {
			continue
		}
		if cs, ok := e.gathered(l, lf); ok {
			return seenKey{l, lf}, cs
		}
	}
	return seenKey{}, nil
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return false
}

// perElement runs do once for each element of the lists ranged over around b, with the element in its place.
func (e *Eval) perElement(b *ssa.BasicBlock, f *frame, outer Guard, do func(Guard)) {
	k, cs := e.ranges(b, f)
	if cs == nil || len(e.pick) > 1 {
		do(outer)
		return
	}
	for _, c := range cs {
		g := e.chain(e.guardOf(c.at.Block(), c.f), c.f)
		memo := e.memo
		e.memo = map[atomKey][]Atom{}
		e.pick[k] = c
		e.perElement(b, f, join(g, outer), do)
		delete(e.pick, k)
		e.memo = memo
	}
}

// picked: the element of v at hand is a particular one.
func (e *Eval) picked(v ssa.Value, f *frame) (content, bool) {
	if len(e.pick) == 0 {
		return content{}, false
	}
	v, f = e.lookup(v, f)
	c, ok := e.pick[seenKey{v, f}]
	return c, ok
}
