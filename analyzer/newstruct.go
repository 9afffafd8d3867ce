package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A struct type that the confirmed tables do not know only bundles values: reading one of its fields is
// reading what was put there, as far as that can be followed.

// bundle: t is (a pointer to) a struct type of the module that was not there when the tables were confirmed.
func (e *Eval) bundle(t types.Type) bool {
	if e.types == nil {
		return false
	}
	n := namedOf(t)
	if n == nil {
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		_, anon := types.Unalias(t).(*types.Struct)
		return anon && !e.types["anon"]
	}
	if n.Obj().Pkg() == nil || e.p.ByPath[n.Obj().Pkg().Path()] == nil || e.types[typeName(n)] {
		return false
	}
	_, ok := n.Underlying().(*types.Struct)
	return ok
}

type binding struct {
	v ssa.Value
	f *frame
}

// fieldValues lists what field idx of base may hold; ok is false when it cannot be told.
func (e *Eval) fieldValues(base ssa.Value, idx int, f *frame) ([]binding, bool) {
	seen := map[seenKey]bool{}
	var out []binding
	bad := false
	var walk func(v ssa.Value, f *frame)
	stores := func(al ssa.Value, f *frame) {
		if al.Referrers() == nil {
			return
		}
		for _, r := range *al.Referrers() {
			switch y := r.(type) {
			case *ssa.FieldAddr:
				if y.X != al || y.Field != idx {
					continue
				}
				for _, s := range *y.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
						out = append(out, binding{st.Val, f})
					}
				}
			case *ssa.Store:
				if y.Addr == al {
					walk(y.Val, f)
				}
			}
		}
	}
	results := func(c *ssa.Call, i int, f *frame) {
		ts := e.targets(c.Common(), f)
		if len(ts) == 0 {
			bad = true
		}
		for _, t := range ts {
			if !e.transparent(t.fn, f) {
				bad = true
				continue
			}
			g := e.enter(c, t, f)
			for _, b := range t.fn.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
					walk(r.Results[i], g)
				}
			}
		}
	}
	received := func(ch ssa.Value, f *frame) {
		bs, ok := e.sent(ch, f)
		if !ok {
			bad = true
		}
		for _, b := range bs {
			walk(b.v, b.f)
		}
	}
	walk = func(v ssa.Value, f *frame) {
		v, f = e.lookup(strip(v), f)
		if seen[seenKey{v, f}] {
			return
		}
		seen[seenKey{v, f}] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Alloc:
			if p, ok := x.Type().Underlying().(*types.Pointer); ok {
				if _, ptr := p.Elem().Underlying().(*types.Pointer); ptr {
					for _, s := range e.cellStores(x, f) {
						walk(s.st.Val, s.f)
					}
					return
				}
			}
			stores(x, f)
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				if _, _, _, ok := fieldOf(x.X); ok {
					vs, ok := e.bundled(x, f)
					if !ok {
						bad = true
					}
					for _, b := range vs {
						walk(b.v, b.f)
					}
					return
				}
				walk(x.X, f)
			case token.ARROW:
				received(x.X, f)
			}
		case *ssa.Phi:
			for _, y := range x.Edges {
				walk(y, f)
			}
		case *ssa.Call:
			results(x, 0, f)
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Call:
				results(t, x.Index, f)
			case *ssa.Select:
				if ch := selected(t, x.Index); ch != nil {
					received(ch, f)
				}
			case *ssa.UnOp:
				received(t.X, f)
			default:
				bad = true
			}
		default:
			bad = true
		}
	}
	walk(base, f)
	return out, !bad && len(out) > 0
}

// family is fn with the function literals written in it.
func (e *Eval) family(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(*ssa.Function)
	add = func(f *ssa.Function) {
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	add(fn)
	return out
}

// bundled: v reads a field of a bundle, holding one of the values returned.
func (e *Eval) bundled(v ssa.Value, f *frame) ([]binding, bool) {
	if e.types == nil {
		return nil, false
	}
	x := v
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		x = u.X
		if _, ok := x.(*ssa.FieldAddr); !ok {
			return nil, false
		}
	} else if _, ok := v.(*ssa.Field); !ok {
		return nil, false
	}
	base, t, idx, ok := fieldOf(x)
	if !ok || !e.bundle(t) {
		return nil, false
	}
	if e.bundling > 6 {
		return nil, false
	}
	e.bundling++
	defer func() { e.bundling-- }()
	return e.fieldValues(base, idx, f)
}

// selected is the channel that result idx of a select statement is received from.
func selected(t *ssa.Select, idx int) ssa.Value {
	k := 2
	for _, s := range t.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		if k == idx {
			return s.Chan
		}
		k++
	}
	return nil
}

// sent lists what is sent on a channel made in the function at hand.
func (e *Eval) sent(ch ssa.Value, f *frame) ([]binding, bool) {
	made := func(ch ssa.Value, f *frame) (*ssa.MakeChan, *frame) {
		mk, mf := e.lookup(strip(ch), f)
		if u, ok := mk.(*ssa.UnOp); ok && u.Op == token.MUL {
			a, af := e.lookup(u.X, mf)
			if al, ok := a.(*ssa.Alloc); ok {
				if st := e.stores(al); len(st) == 1 {
					mk, mf = e.lookup(strip(st[0]), af)
				}
			}
		}
		m, _ := mk.(*ssa.MakeChan)
		return m, mf
	}
	mk, mf := made(ch, f)
	if mk == nil {
		return nil, false
	}
	var out []binding
	done := map[*ssa.Function]bool{}
	find := func(in *ssa.Function, g *frame) {
		for fn := range e.family(in) {
			if done[fn] {
				continue
			}
			done[fn] = true
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Send); ok {
						if m, _ := made(s.Chan, g); m == mk {
							out = append(out, binding{s.X, g})
						}
					}
				}
			}
		}
	}
	for g := f; g != nil && g != mf; g = g.parent {
		if g.fn != nil {
			find(g.fn, g)
		}
	}
	find(mk.Parent(), mf)
	return out, len(out) > 0
}
