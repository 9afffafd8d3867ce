package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nodes visits the values v is computed from within the function at hand (and the helpers substituted in it).
func (e *Eval) nodes(v ssa.Value, f *frame, seen map[seenKey]bool, depth int, visit func(ssa.Value, *frame)) {
	v, f = e.lookup(strip(v), f)
	v = strip(v)
	k := seenKey{v, f}
	if v == nil || seen[k] || depth > 24 {
		return
	}
	seen[k] = true
	visit(v, f)
	rec := func(x ssa.Value) { e.nodes(x, f, seen, depth+1, visit) }
	switch x := v.(type) {
	case *ssa.BinOp:
		rec(x.X)
		rec(x.Y)
	case *ssa.Convert:
		rec(x.X)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			rec(ed)
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, c := range e.contents(al, f) {
				e.nodes(c.val, c.f, seen, depth+1, visit)
			}
			return
		}
		rec(x.X)
	case *ssa.Extract:
		rec(x.Tuple)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a, af := e.lookup(x.X, f)
			if al, ok := a.(*ssa.Alloc); ok {
				for _, s := range e.stores(al) {
					e.nodes(s, af, seen, depth+1, visit)
				}
			}
		}
	case *ssa.Call:
		ts := e.targets(&x.Call, f)
		if len(ts) > 0 && e.allTransparent(ts, f) {
			for _, t := range ts {
				g := e.enter(x, t, f)
				for _, b := range t.fn.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && e.p.live(t.fn)[b] {
						for _, y := range r.Results {
							e.nodes(y, g, seen, depth+1, visit)
						}
					}
				}
			}
			return
		}
		for _, a := range x.Call.Args {
			rec(a)
		}
	}
}

// sequence lists, in order, what a text or list is put together from.
func (e *Eval) sequence(v ssa.Value, f *frame, depth int) []binding {
	v, f = e.lookup(v, f)
	whole := []binding{{v, f}}
	if depth > 8 {
		return whole
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil
		}
	case *ssa.ChangeType:
		return e.sequence(x.X, f, depth+1)
	case *ssa.BinOp:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && x.Op == token.ADD && b.Info()&types.IsString != 0 {
			return append(e.sequence(x.X, f, depth+1), e.sequence(x.Y, f, depth+1)...)
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil || al.Referrers() == nil {
			return whole
		}
		type elem struct {
			i int64
			v ssa.Value
		}
		var es []elem
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			i, ok := intConst(ia.Index)
			if !ok {
				return whole
			}
			for _, s := range *ia.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					es = append(es, elem{i, st.Val})
				}
			}
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].i < es[j].i })
		var out []binding
		for _, y := range es {
			out = append(out, binding{y.v, f})
		}
		return out
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			return append(e.sequence(x.Call.Args[0], f, depth+1), e.sequence(x.Call.Args[1], f, depth+1)...)
		}
		if o := calleeObj(&x.Call); o != nil && o.FullName() == "slices.Concat" && len(x.Call.Args) == 1 {
			var out []binding
			for _, b := range e.sequence(x.Call.Args[0], f, depth+1) {
				out = append(out, e.sequence(b.v, b.f, depth+1)...)
			}
			return out
		}
	}
	return whole
}

// orders says what comes before what in the texts and lists v is computed from.
func (e *Eval) orders(f *frame, vs ...ssa.Value) []string {
	out := srcSet{}
	seen := map[seenKey]bool{}
	for _, v := range vs {
		e.nodes(v, f, seen, 0, func(x ssa.Value, h *frame) {
			switch y := x.(type) {
			case *ssa.BinOp:
				if y.Op != token.ADD && y.Op != token.SUB && y.Op != token.QUO && y.Op != token.REM {
					return
				}
			case *ssa.Call:
			case *ssa.Slice:
				// the arguments of a formatting function have an order that its format may change
				return
			default:
				return
			}
			var comps []binding
			if b, ok := x.(*ssa.BinOp); ok && b.Op != token.ADD {
				comps = []binding{{b.X, h}, {b.Y, h}}
			} else {
				comps = e.sequence(x, h, 0)
			}
			if len(comps) < 2 || len(comps) > 6 {
				return
			}
			sets := make([][]string, len(comps))
			for i, c := range comps {
				sets[i] = e.srcs(c.f, c.v)
			}
			for i := range comps {
				for j := i + 1; j < len(comps); j++ {
					a, b := own(sets[i], sets[j]), own(sets[j], sets[i])
					if a != "" && b != "" {
						out[a+" before "+b] = true
					}
				}
			}
		})
	}
	return out.list()
}

// own is a leaf of a that b lacks, or all of a.
func own(a, b []string) string {
	for _, x := range a {
		if (strings.HasPrefix(x, "F:") || strings.HasPrefix(x, "P:") || strings.HasPrefix(x, "C:") || strings.HasPrefix(x, "V:")) && !hasStr(b, x) {
			return x
		}
	}
	if len(a) > 0 && strings.Join(a, " ") != strings.Join(b, " ") {
		return "{" + strings.Join(a, " ") + "}"
	}
	return ""
}

// joinedParts lists the elements of the lists that are joined into v, each under its own conditions.
func (e *Eval) joinedParts(f *frame, vs ...ssa.Value) []gval {
	var out []gval
	seen := map[seenKey]bool{}
	for _, v := range vs {
		e.nodes(v, f, seen, 0, func(x ssa.Value, h *frame) {
			c, ok := x.(*ssa.Call)
			if !ok {
				return
			}
			if o := calleeObj(&c.Call); o == nil || o.FullName() != "strings.Join" || len(c.Call.Args) != 2 {
				return
			}
			out = append(out, e.values(c.Call.Args[0], h, e.chain(e.guardOf(c.Block(), h), h), 0)...)
		})
	}
	return out
}

// partEffects adds what the values used at in are put together from.
func (e *Eval) partEffects(key string, in ssa.Instruction, f *frame, out *[]Effect, vs ...ssa.Value) {
	for _, gv := range e.joinedParts(f, vs...) {
		if len(gv.src) == 0 {
			continue // an empty list put in front
		}
		*out = append(*out, Effect{Key: "part " + key, Src: gv.src, Direct: gv.g.Direct, Near: gv.g.Near, All: gv.g.All, Soft: gv.g.Soft, Must: gv.g.Must, Pos: e.p.ipos(in)})
	}
	if os := e.orders(f, vs...); len(os) > 0 {
		*out = append(*out, Effect{Key: "order " + key, Src: os, Pos: e.p.ipos(in)})
	}
}

// reversed compares the order in which things are put together: nothing may have changed places.
func (rc *relCmp) reversed(n, k string, bs, cs []Effect) []relDiff {
	b, c := map[string]bool{}, map[string]string{}
	for _, e := range bs {
		for _, x := range e.Src {
			b[x] = true
		}
	}
	for _, e := range cs {
		for _, x := range e.Src {
			c[x] = e.Pos
		}
	}
	flip := func(x string) string {
		p := strings.SplitN(x, " before ", 2)
		return p[1] + " before " + p[0]
	}
	var out []relDiff
	for x := range b {
		y := flip(x)
		if pos, ok := c[y]; ok && !b[y] {
			if _, both := c[x]; !both {
				out = append(out, relDiff{n, k, "order reversed: " + y, pos})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Why < out[j].Why })
	return out
}
