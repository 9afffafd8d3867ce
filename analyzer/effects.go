package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Guard is what controls a program point.
type Guard struct {
	Direct []Atom // atoms of the branch edges that immediately control the point
	Near   []Atom // direct plus the rest of the same short-circuit condition
	All    []Atom // every controlling atom
	Must   []Atom // conditions that hold whenever the point is reached
	Soft   []Atom // what selects, among the alternatives of an operand, the one described here
	weak   bool   // the point itself is not conditional on anything that counts; Direct comes from an enclosing call
}

// Effect is one guarded effect of a function.
type Effect struct {
	Key    string     `json:"k"`
	Src    []string   `json:"s,omitempty"`
	Args   [][]string `json:"p,omitempty"` // per argument, when there is more than one
	Direct []Atom     `json:"d,omitempty"`
	Near   []Atom     `json:"n,omitempty"`
	All    []Atom     `json:"a,omitempty"`
	Soft   []Atom     `json:"f,omitempty"`
	Must   []Atom     `json:"m,omitempty"`
	OK     []Atom     `json:"o,omitempty"` // outcomes of fallible steps that are certain there
	Pos    string     `json:"-"`
	joined bool       // several places taken together
}

func (ef Effect) id() string {
	return fmt.Sprint(ef.Key, ef.Src, ef.Args, ef.Direct, ef.Near, ef.All, ef.Soft, ef.Must)
}

func condBlock(b *ssa.BasicBlock) bool { return strings.HasPrefix(b.Comment, "cond.") }

func (e *Eval) guardOf(b *ssa.BasicBlock, f *frame) Guard {
	var g Guard
	d, all := e.p.closure(b)
	for _, ed := range d {
		g.Direct = append(g.Direct, e.edgeAtoms(ed, f, 0)...)
	}
	cd := e.p.ctrl(b.Parent())
	seen := map[cedge]bool{}
	work := append([]cedge{}, d...)
	for len(work) > 0 {
		ed := work[0]
		work = work[1:]
		if seen[ed] {
			continue
		}
		seen[ed] = true
		g.Near = append(g.Near, e.edgeAtoms(ed, f, 0)...)
		if condBlock(ed.blk) {
			work = append(work, cd.direct[ed.blk.Index]...)
		}
	}
	for _, ed := range all {
		g.All = append(g.All, e.edgeAtoms(ed, f, 0)...)
	}
	g.Must = e.mustAtoms(b, f)
	return g
}

func (e *Eval) edgeGuard(to *ssa.BasicBlock, i int, f *frame) Guard {
	p := to.Preds[i]
	g := e.guardOf(p, f)
	if len(p.Succs) == 2 && feasible(p, 0) && feasible(p, 1) {
		var own []Atom
		for k, s := range p.Succs {
			if s == to {
				own = append(own, e.edgeAtoms(cedge{p, k}, f, 0)...)
			}
		}
		if len(own) > 0 {
			ng := Guard{Direct: own, Near: own, All: append(append([]Atom{}, own...), g.All...), Must: g.Must}
			if p.Succs[0] != p.Succs[1] {
				e.must = true
				for k, s := range p.Succs {
					if s == to {
						ng.Must = cat(ng.Must, dropTop(e.knownAtoms(p, k, f, 0)))
					}
				}
				e.must = false
			}
			if condBlock(p) {
				ng.Near = append(append([]Atom{}, own...), g.Near...)
			}
			return ng
		}
	}
	return g
}

// join puts guard g inside outer guard o.
func join(g, o Guard) Guard {
	r := Guard{Direct: g.Direct, Near: g.Near, weak: g.weak}
	if len(g.Direct) == 0 {
		r = Guard{Direct: o.Direct, Near: o.Near, weak: true}
	}
	r.All, r.Must, r.Soft = cat(g.All, o.All), cat(g.Must, o.Must), cat(g.Soft, o.Soft)
	return r
}

// chain adds the guards of the calls through which frame h was entered, up to the frame being summarised.
func (e *Eval) chain(g Guard, h *frame) Guard {
	for ; h != nil && h.site != nil; h = h.parent {
		g = join(g, e.guardOf(h.site.Block(), h.parent))
	}
	return g
}

type gval struct {
	src []string
	g   Guard
	v   ssa.Value
	sub bool // found in the body of a substituted helper
}

// keep: whether zero values of v count (n), which they do not where v is known not to be nil.
func (p *Prog) keep(v ssa.Value, b *ssa.BasicBlock, n int) int {
	if p.nilContra(v, true, b, nil) {
		return 0
	}
	return n
}

func (e *Eval) values(v ssa.Value, f *frame, g Guard, keepZero int) []gval {
	old, oldF := e.site, e.siteF
	e.site, e.siteF = g, f
	defer func() { e.site, e.siteF = old, oldF }()
	gvs := e.expand(v, f, g, keepZero, map[seenKey]bool{}, 0)
	seen := map[string]bool{}
	var out []gval
	for _, gv := range gvs {
		gv.g.Direct, gv.g.Near, gv.g.All, gv.g.Soft, gv.g.Must = sortAtoms(gv.g.Direct), sortAtoms(gv.g.Near), sortAtoms(gv.g.All), sortAtoms(gv.g.Soft), sortAtoms(gv.g.Must)
		k := fmt.Sprint(gv.src, gv.g)
		if !seen[k] {
			seen[k] = true
			out = append(out, gv)
		}
	}
	return out
}

// expand lists the alternative values of v with the guards that select them.
func (e *Eval) expand(v ssa.Value, f *frame, g Guard, keepZero int, seen map[seenKey]bool, depth int) []gval {
	v, f = e.lookup(v, f)
	k := seenKey{v, f}
	if seen[k] || depth > 12 {
		return nil
	}
	seen[k] = true
	defer delete(seen, k)
	if _, isPhi := v.(*ssa.Phi); isBoolT(v.Type()) && !isPhi {
		if _, isC := v.(*ssa.Const); !isC {
			as := e.atoms(v, true, f, 0)
			e.must = true
			ms := dropTop(e.atoms(v, true, f, 0))
			e.must = false
			return []gval{{src: []string{"K:true"}, g: join(Guard{Direct: as, Near: as, All: as, Must: ms}, g), v: v}}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if isZeroConst(x) && keepZero == 0 {
			return nil
		}
		if l := constLeaf(x); isBoolT(x.Type()) && strings.HasPrefix(l, "K:true") {
			return []gval{{src: []string{"K:true"}, g: g, v: v}}
		}
	case *ssa.Phi:
		if isInduction(x) {
			break
		}
		var out []gval
		for i, ed := range x.Edges {
			if ed == v || !e.p.liveEdge(x.Block(), i) || sameEdge(x, i) < i {
				continue
			}
			eg := e.edgeGuard(x.Block(), i, f)
			for k := i + 1; k < len(x.Edges); k++ {
				if sameEdge(x, k) == i && e.p.liveEdge(x.Block(), k) {
					eg = either(eg, e.edgeGuard(x.Block(), k, f))
				}
			}
			if extended(x, i) {
				eg = Guard{} // the other ways only add to it
			}
			out = append(out, e.expand(ed, f, join(eg, g), keepZero&1, seen, depth+1)...)
		}
		return out
	case *ssa.MakeInterface:
		return e.expand(x.X, f, g, keepZero, seen, depth+1)
	case *ssa.ChangeType:
		return e.expand(x.X, f, g, keepZero, seen, depth+1)
	case *ssa.ChangeInterface:
		return e.expand(x.X, f, g, keepZero, seen, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a, af := e.lookup(x.X, f)
			if al, ok := a.(*ssa.Alloc); ok {
				var out []gval
				if st := lastStore(al, x); st != nil {
					return e.expand(st.Val, af, g, keepZero, seen, depth+1)
				}
				sts := e.cellStores(al, af)
				if len(sts) > 0 {
					for _, c := range sts {
						out = append(out, e.expand(c.st.Val, c.f, e.chain(e.guardOf(c.st.Block(), c.f), c.f), keepZero&1, seen, depth+1)...)
					}
					return out
				}
			}
		}
	case *ssa.MakeSlice, *ssa.MakeMap:
		cs := e.contents(v, f)
		var out []gval
		for _, c := range cs {
			s := srcSet{}
			if c.key != nil {
				e.collect(c.key, c.f, s, map[seenKey]bool{})
			}
			e.collect(c.val, c.f, s, map[seenKey]bool{})
			gd := e.chain(e.guardOf(c.at.Block(), c.f), c.f)
			if _, isMap := v.(*ssa.MakeMap); isMap && c.key == nil {
				// another table copied in whole
				for _, gv := range e.expand(c.val, c.f, join(gd, g), 0, seen, depth+1) {
					gv.g = e.going(c.val, c.f, gv.g)
					out = append(out, gv)
				}
				continue
			}
			out = append(out, gval{src: s.list(), g: join(gd, g), v: v})
		}
		return out
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil {
			// composite literal []T{...}
			cs := e.contents(al, f)
			s := srcSet{}
			if len(cs) == 0 {
				return nil
			}
			for _, c := range cs {
				e.collect(c.val, c.f, s, map[seenKey]bool{})
			}
			return []gval{{src: s.list(), g: g, v: v}}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			// an element contributed to a list stays in it whatever happens to the list afterwards: the
			// guards of later joins do not select it
			site := e.site
			out := e.expand(x.Call.Args[0], f, site, 0, seen, depth+1)
			if len(x.Call.Args) > 1 && e.builtHere(x.Call.Args[1], f) {
				// another list made here, appended in whole
				return append(out, e.expand(x.Call.Args[1], f, join(e.chain(e.guardOf(x.Block(), f), f), site), 0, seen, depth+1)...)
			}
			if len(x.Call.Args) > 1 {
				s := srcSet{}
				e.collect(x.Call.Args[1], f, s, map[seenKey]bool{})
				out = append(out, gval{src: s.list(), g: join(e.chain(e.guardOf(x.Block(), f), f), site), v: v})
			}
			return out
		}
		if m, elem := collected(x); m != nil {
			return []gval{{src: append(e.srcs(f, m), "C:"+calleeObj(&x.Call).FullName()), g: e.going(m, f, g), v: v}}
		} else if elem != nil {
			return e.expand(elem, f, g, keepZero, seen, depth+1)
		}
		if ts := e.targets(&x.Call, f); e.allTransparent(ts, f) || len(ts) > 1 {
			return e.expandCall(x, ts, 0, f, g, keepZero, seen, depth)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if ts := e.targets(&c.Call, f); e.allTransparent(ts, f) || len(ts) > 1 {
				return e.expandCall(c, ts, x.Index, f, g, keepZero, seen, depth)
			}
		}
	}
	return e.distribute(v, []ssa.Value{v}, f, g, 0, func(g Guard) gval { return gval{src: e.srcs(f, v), g: g, v: v} })
}

// extended: every other value joined at x is the i-th one with elements appended to it.
func extended(x *ssa.Phi, i int) bool {
	if _, ok := x.Type().Underlying().(*types.Slice); !ok || isZeroValue(x.Edges[i]) {
		return false
	}
	seen := map[ssa.Value]bool{x: true}
	var reach func(v ssa.Value) bool
	reach = func(v ssa.Value) bool {
		if v == x.Edges[i] {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			for _, ed := range y.Edges {
				if reach(ed) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return reach(y.Call.Args[0])
			}
		}
		return false
	}
	n := 0
	for j, ed := range x.Edges {
		if j == i || ed == x.Edges[i] || ed == ssa.Value(x) {
			continue
		}
		seen = map[ssa.Value]bool{x: true}
		if !reach(ed) {
			return false
		}
		n++
	}
	return n > 0
}

func isZeroValue(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && isZeroConst(c)
}

// builtHere: v is a list accumulated in the function at hand.
func (e *Eval) builtHere(v ssa.Value, f *frame) bool {
	seen := map[seenKey]bool{}
	var acc func(x ssa.Value, f *frame, depth int) bool
	acc = func(x ssa.Value, f *frame, depth int) bool {
		x, f = e.lookup(x, f)
		if seen[seenKey{x, f}] || depth > 8 {
			return false
		}
		seen[seenKey{x, f}] = true
		switch y := x.(type) {
		case *ssa.Phi:
			for _, ed := range y.Edges {
				if acc(ed, f, depth+1) {
					return true
				}
			}
		case *ssa.UnOp:
			if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
				for _, c := range e.cellStores(al, f) {
					if acc(c.st.Val, c.f, depth+1) {
						return true
					}
				}
			}
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok {
				return b.Name() == "append"
			}
			return e.resultsBuilt(y, 0, f, func(v ssa.Value, h *frame) bool { return acc(v, h, depth+1) })
		case *ssa.Extract:
			if c, ok := y.Tuple.(*ssa.Call); ok {
				return e.resultsBuilt(c, y.Index, f, func(v ssa.Value, h *frame) bool { return acc(v, h, depth+1) })
			}
		case *ssa.MakeSlice:
			return true
		}
		return false
	}
	return acc(v, f, 0)
}

// resultsBuilt: one of the results a helper returns for idx satisfies is.
func (e *Eval) resultsBuilt(c *ssa.Call, idx int, f *frame, is func(ssa.Value, *frame) bool) bool {
	ts := e.targets(&c.Call, f)
	if !e.allTransparent(ts, f) {
		return false
	}
	for _, t := range ts {
		h := e.enter(c, t, f)
		for _, b := range t.fn.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if ok && e.p.live(t.fn)[b] && idx < len(r.Results) && is(r.Results[idx], h) {
				return true
			}
		}
	}
	return false
}

// distribute renders something once per alternative of the conditional values it is computed from.
func (e *Eval) distribute(at ssa.Value, roots []ssa.Value, f *frame, g Guard, depth int, render func(Guard) gval) []gval {
	if depth < 2 {
		for _, r := range roots {
			ph := e.phiUnder(r, at, f, 0)
			if ph == nil {
				continue
			}
			var out []gval
			for i, ed := range ph.Edges {
				if !e.p.liveEdge(ph.Block(), i) {
					continue
				}
				e.choice[ph] = ed
				// the guard belongs to the alternative only, unless the value is itself unconditional
				eg := e.edgeGuard(ph.Block(), i, f)
				ng := g
				ng.Soft = append(append([]Atom{}, g.Soft...), eg.Direct...)
				out = append(out, e.distribute(at, roots, f, ng, depth+1, render)...)
				delete(e.choice, ph)
			}
			return out
		}
	}
	return []gval{render(g)}
}

// phiUnder finds a conditional (not loop-carried, not boolean) value among the operands of v.
func (e *Eval) phiUnder(v, top ssa.Value, f *frame, depth int) *ssa.Phi {
	if depth > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if _, chosen := e.choice[x]; chosen || v == top || isInduction(x) || isBoolT(x.Type()) || len(x.Edges) > 3 {
			return nil
		}
		for _, p := range x.Block().Preds {
			if x.Block().Dominates(p) {
				return nil
			}
		}
		n := 0
		for i, ed := range x.Edges {
			if e.p.liveEdge(x.Block(), i) {
				n++
			}
			if c, ok := ed.(*ssa.Const); ok && c.Value == nil {
				return nil
			}
		}
		switch x.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			return nil // accumulated, not chosen
		}
		if n < 2 {
			return nil
		}
		return x
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if p := e.phiUnder(a, top, f, depth+1); p != nil {
				return p
			}
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && al.Referrers() != nil {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
							if p := e.phiUnder(st.Val, top, f, depth+1); p != nil {
								return p
							}
						}
					}
				}
			}
		}
	case *ssa.MakeInterface:
		return e.phiUnder(x.X, top, f, depth+1)
	case *ssa.BinOp:
		if isInduction(x) {
			return nil
		}
		if p := e.phiUnder(x.X, top, f, depth+1); p != nil {
			return p
		}
		return e.phiUnder(x.Y, top, f, depth+1)
	case *ssa.Convert:
		return e.phiUnder(x.X, top, f, depth+1)
	case *ssa.ChangeType:
		return e.phiUnder(x.X, top, f, depth+1)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return e.phiUnder(c, top, f, depth+1)
		}
	}
	return nil
}

// collected recognises the keys or values of a table gathered into a list by the library: the table, or the
// list that is merely copied.
func collected(c *ssa.Call) (table, list ssa.Value) {
	o := calleeObj(&c.Call)
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "slices" || len(c.Call.Args) == 0 {
		return nil, nil
	}
	switch o.Name() {
	case "Sorted", "Collect", "SortedFunc":
	default:
		return nil, nil
	}
	in, ok := strip(c.Call.Args[0]).(*ssa.Call)
	if !ok {
		return nil, nil
	}
	io := calleeObj(&in.Call)
	if io == nil || io.Pkg() == nil || len(in.Call.Args) != 1 {
		return nil, nil
	}
	switch io.FullName() {
	case "maps.Keys", "maps.Values":
		return in.Call.Args[0], nil
	case "slices.Values":
		return nil, in.Call.Args[0]
	}
	return nil, nil
}

// going is the guard of what is done for every element of v.
func (e *Eval) going(v ssa.Value, f *frame, g Guard) Guard {
	y, _ := e.lookup(v, f)
	switch y := strip(y).(type) {
	case *ssa.MakeMap, *ssa.Phi, *ssa.Alloc:
		return g
	case *ssa.UnOp:
		if _, ok := y.X.(*ssa.FieldAddr); !ok {
			return g
		}
	case *ssa.Call:
		return g
	}
	if e.literal(v, f) {
		return g
	}
	a := []Atom{{"each", e.srcs(f, v)}}
	return Guard{Direct: a, Near: a, All: cat(a, g.All), Must: cat(a, g.Must), Soft: g.Soft}
}

func (e *Eval) allTransparent(ts []target, f *frame) bool {
	for _, t := range ts {
		if !e.transparent(t.fn, f) {
			return false
		}
	}
	return len(ts) > 0
}

func (e *Eval) expandCall(c *ssa.Call, ts []target, idx int, f *frame, g Guard, keepZero int, seen map[seenKey]bool, depth int) []gval {
	var out []gval
	for _, t := range ts {
		og := g
		if t.at != nil {
			og = join(e.via(t), g)
		}
		if !e.transparent(t.fn, f) {
			s := srcSet{}
			e.callLeaf(c, &t, idx, f, s, map[seenKey]bool{})
			out = append(out, gval{src: s.list(), g: og, v: c})
			continue
		}
		out = append(out, e.expandTarget(c, t, idx, f, og, keepZero, seen, depth)...)
	}
	return out
}

func (e *Eval) expandTarget(c *ssa.Call, t target, idx int, f *frame, g Guard, keepZero int, seen map[seenKey]bool, depth int) []gval {
	fn := t.fn
	h := e.enter(c, t, f)
	var out []gval
	for _, b := range fn.Blocks {
		if !e.p.live(fn)[b] || b.Comment == "recover" {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		site := e.site
		e.site = join(e.guardOf(b, h), join(e.guardOf(c.Block(), f), site))
		for _, gv := range e.expand(r.Results[idx], h, join(e.guardOf(b, h), join(e.guardOf(c.Block(), f), g)), keepZero, seen, depth+1) {
			gv.sub = true
			out = append(out, gv)
		}
		e.site = site
	}
	return out
}

func (e *Eval) storeInstrs(a ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	seen := map[ssa.Value]bool{}
	var walk func(x ssa.Value)
	walk = func(x ssa.Value) {
		if seen[x] || x.Referrers() == nil {
			return
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == x {
					out = append(out, y)
				}
			case *ssa.MakeClosure:
				if cf, ok := y.Fn.(*ssa.Function); ok {
					for i, b := range y.Bindings {
						if b == x && i < len(cf.FreeVars) {
							walk(cf.FreeVars[i])
						}
					}
				}
			}
		}
	}
	walk(a)
	return out
}

// effects summarises fn.
func (e *Eval) effects(fn *ssa.Function) []Effect {
	var out []Effect
	e.walkEffects(fn, nil, false, Guard{}, &out)
	m := map[string]Effect{}
	for _, ef := range out {
		ef.Direct, ef.Near, ef.All, ef.Soft, ef.Must = sortAtoms(ef.Direct), sortAtoms(ef.Near), sizes(sortAtoms(ef.All)), sortAtoms(ef.Soft), sizes(sortAtoms(ef.Must))
		ef.Must, ef.OK = outcomes(ef.Must)
		if old, ok := m[ef.id()]; !ok {
			m[ef.id()] = ef
		} else {
			old.OK = common(old.OK, ef.OK)
			m[ef.id()] = old
		}
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	res := make([]Effect, 0, len(ks))
	for _, k := range ks {
		res = append(res, m[k])
	}
	return res
}

// sizes adds what the conditions on the length of one sequence say together: not empty and not one element is
// two at least.
func sizes(as []Atom) []Atom {
	in := map[string]bool{}
	for _, a := range as {
		in[a.String()] = true
	}
	var add []Atom
	for _, a := range as {
		i := -1
		for k, x := range a.S {
			if x == "|" || x == "=" {
				i = k
			}
		}
		if i < 0 || i != len(a.S)-2 || !hasStr(a.S[:i], "op:len") {
			continue
		}
		left, k := a.S[:i], a.S[i+1]
		ne := Atom{"nonempty", without(left, "op:len")}
		not := func(k string) Atom { return Atom{"!=", append(append([]string{}, left...), "=", k)} }
		switch {
		case a.Op == ">=" && k != "K:0" && k != "K:1":
			add = append(add, ne, not("K:1"))
		case a.Op == "==" && k != "K:0":
			add = append(add, ne)
		case a.Op == "!=" && k == "K:1" && in[ne.String()]:
			add = append(add, Atom{">=", append(append([]string{}, left...), "|", "K:2")})
		}
	}
	if len(add) == 0 {
		return as
	}
	return sortAtoms(append(append([]Atom{}, as...), add...))
}

func (e *Eval) directCallsOnly(mc ssa.Value, f *frame) bool {
	if mc.Referrers() == nil || len(*mc.Referrers()) == 0 {
		return false
	}
	for _, r := range *mc.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == mc {
			// kept in a local variable that is only called
			al, ok := st.Addr.(*ssa.Alloc)
			if !ok {
				return false
			}
			if !e.calledCell(al, f) {
				return false
			}
			continue
		}
		if ph, ok := r.(*ssa.Phi); ok {
			for _, q := range *ph.Referrers() {
				if q == ssa.Instruction(ph) {
					return false
				}
			}
			if _, again := mc.(*ssa.Phi); again || !e.directCallsOnly(ph, f) {
				return false
			}
			continue
		}
		c, ok := r.(*ssa.Call)
		if !ok {
			return false
		}
		for i, a := range c.Call.Args {
			if a != mc {
				continue
			}
			t := e.callee(&c.Call, f)
			if t == nil || !e.transparent(t.fn, f) || t.recv != nil || i >= len(t.fn.Params) || !e.directCallsOnly(t.fn.Params[i], f) {
				return false
			}
		}
	}
	return true
}

// calledCell: the function kept in the local variable al is only called.
func (e *Eval) calledCell(al *ssa.Alloc, f *frame) bool {
	good := true
	e.loads(al, func(l ssa.Value) {
		if !e.directCallsOnly(l, f) {
			good = false
		}
	})
	return good
}

// walkEffects collects the effects of fn's body; inl marks a body substituted at its call (whose returns
// are not returns of the owner).
func (e *Eval) walkEffects(fn *ssa.Function, f *frame, inl bool, outer Guard, out *[]Effect) {
	emit := func(in ssa.Instruction, key string, gvs []gval) {
		for _, gv := range gvs {
			*out = append(*out, Effect{Key: key, Src: gv.src, Direct: gv.g.Direct, Near: gv.g.Near, All: gv.g.All, Soft: gv.g.Soft, Must: gv.g.Must, Pos: e.p.ipos(in)})
		}
	}
	isLocal := func(v ssa.Value) bool {
		// containers created in this frame
		b, _ := e.lookup(v, f)
		switch y := b.(type) {
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
			return true
		case *ssa.Slice:
			_, ok := y.X.(*ssa.Alloc)
			return ok
		case *ssa.UnOp:
			if y.Op == token.MUL {
				a, _ := e.lookup(y.X, f)
				if al, ok := a.(*ssa.Alloc); ok {
					for _, s := range e.stores(al) {
						switch s.(type) {
						case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
							return true
						}
					}
				}
			}
		case *ssa.Phi:
			for _, ed := range y.Edges {
				switch ed.(type) {
				case *ssa.MakeSlice, *ssa.MakeMap:
					return true
				}
			}
		}
		return false
	}
	e.loopLeaves(fn, f, outer, out)
	for _, b := range fn.Blocks {
		if b.Comment == "recover" || !e.p.live(fn)[b] {
			continue
		}
		e.perElement(b, f, outer, func(outer Guard) {
			g := join(e.guardOf(b, f), outer)
			e.blockEffects(fn, b, f, inl, func(*ssa.BasicBlock) Guard { return g }, outer, isLocal, emit, out)
		})
	}
}

func (e *Eval) blockEffects(fn *ssa.Function, b *ssa.BasicBlock, f *frame, inl bool, guard func(*ssa.BasicBlock) Guard, outer Guard, isLocal func(ssa.Value) bool, emit func(ssa.Instruction, string, []gval), out *[]Effect) {
	for _, in := range b.Instrs {
		if m := e.mutation(in, f); m != "" {
			*out = append(*out, Effect{Key: "mut " + m, Pos: e.p.ipos(in)})
		}
		switch x := in.(type) {
		case *ssa.Store:
			a, af := e.lookup(x.Addr, f)
			switch y := a.(type) {
			case *ssa.FieldAddr:
				base, _ := e.lookup(y.X, af)
				_, fresh := base.(*ssa.Alloc)
				fn := fieldName(y.X.Type(), y.Field)
				if fresh && e.zeroStruct(x.Val, f) {
					continue
				}
				gvs := e.values(x.Val, f, guard(b), e.p.keep(x.Val, b, boolInt(!fresh)))
				if grows(x.Val) {
					for i := range gvs {
						gvs[i].src = without(gvs[i].src, "F:"+fn)
					}
				}
				if fresh {
					gvs = e.overwritten(x, y, f, gvs)
				}
				emit(x, "store "+fn, gvs)
				e.partEffects("store "+fn, x, f, out, x.Val)
			case *ssa.IndexAddr:
				if isLocal(y.X) {
					continue
				}
				emit(x, "elem "+strings.Join(e.srcs(af, y.X), " "), e.values(x.Val, f, guard(b), e.p.keep(x.Val, b, 1)))
			case *ssa.Global:
				emit(x, "global "+qual(y.Pkg.Pkg)+"."+y.Name(), e.values(x.Val, f, guard(b), e.p.keep(x.Val, b, 1)))
			case *ssa.Alloc:
				e.copyEffects(x, y, f, guard(b), out)
			default:
				emit(x, "deref "+strings.Join(e.srcs(af, a), " "), e.values(x.Val, f, guard(b), e.p.keep(x.Val, b, 1)))
			}
		case *ssa.MapUpdate:
			if isLocal(x.Map) {
				continue
			}
			emit(x, "map "+strings.Join(e.srcs(f, x.Map), " "), []gval{{src: e.srcs(f, x.Key, x.Value), g: guard(b), v: x.Map}})
		case *ssa.Return:
			if inl {
				continue
			}
			failing := false
			for _, r := range x.Results {
				if k, ok := r.(*ssa.Const); isErrorType(r.Type()) && !(ok && k.Value == nil) {
					failing = true
				}
			}
			for i, r := range x.Results {
				key := fmt.Sprintf("ret %d", i)
				isErr := isErrorType(r.Type())
				if isErr {
					key = "ret err"
				}
				if e.literalFn(fn) {
					key = "c" + key
				}
				gvs := e.values(r, f, guard(b), e.p.keep(r, b, 2))
				nn := e.p.checkedNonNil(b, r)
				var kept []gval
				for _, gv := range gvs {
					if c, ok := gv.v.(*ssa.Const); ok && nn && c.Value == nil {
						continue
					}
					if c, ok := gv.v.(*ssa.Const); ok && isZeroConst(c) {
						if failing || gv.sub || isBoolT(c.Type()) || len(gv.g.Direct) == 0 || gv.g.weak {
							continue
						}
						gv.src = []string{"K:zero"}
					}
					if _, fresh := gv.v.(*ssa.Alloc); !fresh {
						gv.g.Direct, gv.g.Near, gv.g.All = dropSelfNil(gv.g.Direct, gv.src), dropSelfNil(gv.g.Near, gv.src), dropSelfNil(gv.g.All, gv.src)
						gv.g.Must = dropSelfNil(gv.g.Must, gv.src)
					}
					kept = append(kept, gv)
				}
				emit(x, key, kept)
				e.partEffects(key, x, f, out, r)
			}
		case *ssa.Send:
			emit(x, "send "+strings.Join(e.srcs(f, x.Chan), " "), []gval{{src: e.srcs(f, x.X), g: guard(b), v: x.X}})
		case *ssa.Panic:
			emit(x, "panic", []gval{{src: e.srcs(f, x.X), g: guard(b), v: x.X}})
		case *ssa.MakeClosure:
			if e.directCallsOnly(x, f) {
				continue
			}
			if cf, recv := e.valueFunc(x); cf != nil && !inFrames(cf, f) && depthOf(f) < 6 {
				g := &frame{fn: cf, bind: map[*ssa.Parameter]ssa.Value{cf.Params[0]: recv}, parent: f, depth: depthOf(f) + 1}
				e.walkEffects(cf, g, false, guard(b), out)
				continue
			}
			cf, ok := x.Fn.(*ssa.Function)
			if !ok || cf.Synthetic != "" || e.directCallsOnly(x, f) {
				continue
			}
			e.walkEffects(cf, f, false, guard(b), out)
		case ssa.CallInstruction:
			if isMapsCopy(x.Common()) {
				if m := x.Common().Args[0]; !isLocal(m) {
					emit(x, "map "+strings.Join(e.srcs(f, m), " "), []gval{{src: e.srcs(f, x.Common().Args[1]), g: e.going(x.Common().Args[1], f, guard(b)), v: m}})
				}
				continue
			}
			e.callEffect(x, b, f, guard(b), out)
		}
		// plain function literals without captures are referenced as values
		if _, isMC := in.(*ssa.MakeClosure); !isMC {
			var rands []*ssa.Value
			for _, r := range in.Operands(rands) {
				if cf, ok := (*r).(*ssa.Function); ok && cf.Synthetic == "" {
					h := f
					if cf.Parent() != fn {
						if nf, _ := e.valueFunc(cf); nf == nil || inFrames(cf, f) || depthOf(f) >= 6 {
							continue
						}
						if ph, ok := in.(*ssa.Phi); ok && e.directCallsOnly(ph, f) {
							continue
						}
						if st, ok := in.(*ssa.Store); ok && isAlloc(st.Addr) && e.calledCell(st.Addr.(*ssa.Alloc), f) {
							continue
						}
						h = &frame{fn: cf, parent: f, depth: depthOf(f) + 1}
					}
					if ci, ok := in.(ssa.CallInstruction); ok && (ci.Common().Value == ssa.Value(cf) || e.passedDown(ci, cf, f)) {
						continue
					}
					e.walkEffects(cf, h, false, guard(b), out)
				}
			}
		}
	}
}

// zeroStruct: v is a struct value none of whose fields is given a value other than zero.
func (e *Eval) zeroStruct(v ssa.Value, f *frame) bool {
	v, f = e.lookup(v, f)
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	a, af := e.lookup(u.X, f)
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return false
	}
	if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.FieldAddr:
			for _, q := range *y.Referrers() {
				switch z := q.(type) {
				case *ssa.Store:
					k, ok := z.Val.(*ssa.Const)
					if z.Addr != ssa.Value(y) || !(ok && isZeroConst(k)) && !e.zeroStruct(z.Val, af) {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
		case *ssa.Store:
			if k, ok := y.Val.(*ssa.Const); !ok || !isZeroConst(k) || y.Addr != ssa.Value(al) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// passedDown: the function literal cf is given to a substituted helper that only calls it.
func (e *Eval) passedDown(ci ssa.CallInstruction, cf *ssa.Function, f *frame) bool {
	c, ok := ci.(*ssa.Call)
	if !ok {
		return false
	}
	t := e.callee(&c.Call, f)
	if t == nil || !e.transparent(t.fn, f) || t.recv != nil {
		return false
	}
	for i, a := range c.Call.Args {
		if a == ssa.Value(cf) && (i >= len(t.fn.Params) || !e.directCallsOnly(t.fn.Params[i], f)) {
			return false
		}
	}
	return true
}

// overwritten: the value st puts into a field of a new object lasts only where a later store to the same
// field is not reached.
func (e *Eval) overwritten(st *ssa.Store, fa *ssa.FieldAddr, f *frame, gvs []gval) []gval {
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return gvs
	}
	var later []*ssa.Store
	for _, r := range *al.Referrers() {
		o, ok := r.(*ssa.FieldAddr)
		if !ok || o.Field != fa.Field {
			continue
		}
		for _, u := range *o.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s != st && s.Addr == ssa.Value(o) && s.Block() != st.Block() && st.Block().Dominates(s.Block()) && !reaches2(s.Block(), st.Block()) {
				later = append(later, s)
			}
		}
	}
	if len(later) != 1 {
		return gvs
	}
	_, mine := e.p.closure(st.Block())
	_, its := e.p.closure(later[0].Block())
	in := map[cedge]bool{}
	for _, ed := range mine {
		in[ed] = true
	}
	var rel []cedge
	for _, ed := range its {
		if !in[ed] {
			rel = append(rel, ed)
		}
	}
	sort.Slice(rel, func(i, j int) bool { return rel[i].blk != rel[j].blk && rel[i].blk.Dominates(rel[j].blk) })
	for i := range rel {
		if i > 0 && !rel[i-1].blk.Dominates(rel[i].blk) || i > 0 && rel[i-1].blk == rel[i].blk || !rel[i].blk.Dominates(later[0].Block()) {
			return gvs
		}
	}
	if len(rel) == 0 {
		return gvs
	}
	var out []gval
	for k, ed := range rel {
		if !feasible(ed.blk, 1-ed.idx) {
			continue
		}
		own := e.edgeAtoms(cedge{ed.blk, 1 - ed.idx}, f, 0)
		all := own
		for _, p := range rel[:k] {
			all = cat(all, e.edgeAtoms(p, f, 0))
		}
		for _, gv := range gvs {
			o := gv
			o.g = join(Guard{Direct: own, Near: own, All: all, Must: all}, gv.g)
			out = append(out, o)
		}
	}
	return out
}

func reaches2(from, to *ssa.BasicBlock) bool {
	for _, s := range from.Succs {
		if reaches(s, to) {
			return true
		}
	}
	return false
}

func (e *Eval) callEffect(x ssa.CallInstruction, b *ssa.BasicBlock, f *frame, g Guard, out *[]Effect) {
	cc := x.Common()
	ts := e.targets(cc, f)
	if len(ts) == 0 {
		e.callEffect1(x, nil, f, g, out)
	}
	for i := range ts {
		tg := g
		if ts[i].at != nil {
			tg = join(e.via(ts[i]), g)
		}
		e.callEffect1(x, &ts[i], f, tg, out)
	}
}

func (e *Eval) callEffect1(x ssa.CallInstruction, t *target, f *frame, g Guard, out *[]Effect) {
	cc := x.Common()
	if t != nil && e.transparent(t.fn, f) {
		e.walkEffects(t.fn, e.enter(x, *t, f), true, g, out)
		return
	}
	pre := "call "
	switch x.(type) {
	case *ssa.Defer:
		pre = "defer "
	case *ssa.Go:
		pre = "go "
	}
	if o := calleeObj(cc); o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync" {
		return // decided by the lock rules
	}
	if e.p.lockOnly(cc, t) {
		return
	}
	if pre == "call " {
		c := x.(*ssa.Call)
		res := cc.Signature().Results()
		unused := c.Referrers() == nil || len(*c.Referrers()) == 0
		onlyErr := res.Len() == 1 && isErrorType(res.At(0).Type())
		if bl, ok := cc.Value.(*ssa.Builtin); ok {
			switch bl.Name() {
			case "close", "delete", "panic", "clear", "copy":
			default:
				return
			}
		} else if !(res.Len() == 0 || unused || onlyErr && t != nil && e.p.inModule(t.fn)) {
			return
		}
	}
	if name := targetName(cc, t); name != "dynamic" && name != "closure" {
		e.partEffects(pre+name, x, f, out, cc.Args...)
	}
	e.distribute(nil, cc.Args, f, g, 0, func(g Guard) gval {
		e.callEffect2(x, t, f, g, out)
		return gval{g: g}
	})
}

func (e *Eval) callEffect2(x ssa.CallInstruction, t *target, f *frame, g Guard, out *[]Effect) {
	cc := x.Common()
	pre := "call "
	switch x.(type) {
	case *ssa.Defer:
		pre = "defer "
	case *ssa.Go:
		pre = "go "
	}
	name := targetName(cc, t)
	s := srcSet{}
	if t != nil && t.recv != nil {
		e.collect(t.recv, f, s, map[seenKey]bool{})
	}
	if name == "dynamic" || name == "closure" {
		e.collect(cc.Value, f, s, map[seenKey]bool{})
	}
	if cc.IsInvoke() {
		e.collect(cc.Value, f, s, map[seenKey]bool{})
	}
	for _, a := range cc.Args {
		if isCtxType(a.Type()) {
			continue
		}
		e.collect(a, f, s, map[seenKey]bool{})
	}
	var args [][]string
	if al := e.argList(cc, f); len(al) > 1 {
		for _, a := range al {
			t := srcSet{}
			for _, v := range a.vs {
				e.collect(v.v, v.f, t, map[seenKey]bool{})
			}
			args = append(args, t.list())
		}
	}
	*out = append(*out, Effect{Key: pre + name, Src: s.list(), Args: args, Direct: g.Direct, Near: g.Near, All: g.All, Soft: g.Soft, Must: g.Must, Pos: e.p.ipos(x)})
}

var _ = types.Identical

// lastStore: the store that an uncaptured cell's load is certain to see, when it is in the same block.
func lastStore(al *ssa.Alloc, load *ssa.UnOp) *ssa.Store {
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr != ssa.Value(al) {
				return nil
			}
		case *ssa.UnOp:
		default:
			return nil
		}
	}
	var last *ssa.Store
	for _, in := range load.Block().Instrs {
		if in == ssa.Instruction(load) {
			return last
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			last = st
		}
	}
	return nil
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// loopLeaves: the conditions under which a loop is left before its sequence is exhausted.
func (e *Eval) loopLeaves(fn *ssa.Function, f *frame, outer Guard, out *[]Effect) {
	lv := e.p.live(fn)
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	var heads []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if !lv[b] {
			continue
		}
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := loops[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				loops[h] = body
				heads = append(heads, h)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] || !lv[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, h := range heads {
		key := ""
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if ok {
			for k := 0; k < 2; k++ {
				if loops[h][h.Succs[k]] && !loops[h][h.Succs[1-k]] {
					for _, a := range e.atoms(iff.Cond, k == 0, f, 0) {
						if a.Op == "each" {
							key = "leave each " + strings.Join(a.S, " ")
						}
					}
				}
			}
		}
		if key == "" {
			continue
		}
		for b := range loops[h] {
			if b == h {
				continue
			}
			for k, s := range b.Succs {
				if loops[h][s] || !feasible(b, k) {
					continue
				}
				for i, p := range s.Preds {
					if p != b {
						continue
					}
					g := join(e.edgeGuard(s, i, f), outer)
					*out = append(*out, Effect{Key: key, Direct: g.Direct, Near: g.Near, All: g.All, Must: g.Must, Pos: e.p.ipos(b.Instrs[len(b.Instrs)-1])})
				}
			}
		}
	}
}

// grows: an append to what is already there.
func grows(v ssa.Value) bool {
	c, ok := strip(v).(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func without(s []string, x string) []string {
	var out []string
	for _, y := range s {
		if y != x && !strings.HasPrefix(y, x+"@") {
			out = append(out, y)
		}
	}
	return out
}

// dropSelfNil: returning v when v is not nil (and nil otherwise) is returning v.
func dropSelfNil(as []Atom, src []string) []Atom {
	var out []Atom
	k := strings.Join(src, " ")
	for _, a := range as {
		if a.Op == "nonnil" && strings.Join(a.S, " ") == k {
			continue
		}
		out = append(out, a)
	}
	return out
}

// checkedNonNil: block b is only reached when v has been found not to be nil.
func (p *Prog) checkedNonNil(b *ssa.BasicBlock, v ssa.Value) bool {
	_, all := p.closure(b)
	for _, ed := range all {
		iff, ok := ed.blk.Instrs[len(ed.blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(c.Op == token.NEQ && ed.idx == 0 || c.Op == token.EQL && ed.idx == 1) {
			continue
		}
		if k, ok := c.Y.(*ssa.Const); ok && k.Value == nil && strip(c.X) == strip(v) {
			return true
		}
	}
	return false
}

// copyEffects: copying a whole struct into a fresh one copies every field.
func (e *Eval) copyEffects(st *ssa.Store, al *ssa.Alloc, f *frame, g Guard, out *[]Effect) {
	t := al.Type().Underlying().(*types.Pointer).Elem()
	s := structOf(t)
	if _, ptr := t.Underlying().(*types.Pointer); ptr || s == nil || namedOf(t) == nil {
		return
	}
	ld, ok := st.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return
	}
	if _, local := ld.X.(*ssa.Alloc); local {
		return // a composite literal being moved into place
	}
	if !escapes(al) {
		return
	}
	set := map[int]bool{}
	if al.Referrers() != nil {
		for _, r := range *al.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, s2 := range *fa.Referrers() {
					if w, ok := s2.(*ssa.Store); ok && w.Addr == ssa.Value(fa) && st.Block().Dominates(w.Block()) {
						set[fa.Field] = true
					}
				}
			}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if set[i] {
			continue
		}
		fn := fieldName(t, i)
		leaf := "F:" + fn
		if isBoolT(s.Field(i).Type()) {
			ats := append([]Atom{{"T", []string{leaf}}}, g.Direct...)
			*out = append(*out, Effect{Key: "store " + fn, Src: []string{"K:true"}, Direct: ats, Near: append([]Atom{ats[0]}, g.Near...), All: append([]Atom{ats[0]}, g.All...), Must: append([]Atom{ats[0]}, g.Must...), Pos: e.p.ipos(st)})
			continue
		}
		*out = append(*out, Effect{Key: "store " + fn, Src: []string{leaf}, Direct: g.Direct, Near: g.Near, All: g.All, Must: g.Must, Pos: e.p.ipos(st)})
	}
}

// escapes: the address itself is handed on.
func escapes(al *ssa.Alloc) bool {
	if al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.Return, *ssa.Phi, *ssa.MakeInterface:
			return true
		case *ssa.Store:
			if y.Val == ssa.Value(al) {
				return true
			}
		}
	}
	return false
}

// sameEdge is the first edge of x that brings the same value as edge i.
func sameEdge(x *ssa.Phi, i int) int {
	for k := 0; k < i; k++ {
		if x.Edges[k] == x.Edges[i] {
			return k
		}
		a, ok := x.Edges[k].(*ssa.Const)
		b, ok2 := x.Edges[i].(*ssa.Const)
		if ok && ok2 && a.Type() == b.Type() && (a.Value == nil && b.Value == nil || a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()) {
			return k
		}
	}
	return i
}

// either is the guard of a point reached under a or under b.
func either(a, b Guard) Guard {
	in := map[string]bool{}
	for _, x := range b.Must {
		in[x.String()] = true
	}
	r := Guard{Direct: cat(a.Direct, b.Direct), Near: cat(a.Near, b.Near), All: cat(a.All, b.All), Soft: cat(a.Soft, b.Soft), weak: a.weak && b.weak}
	for _, x := range a.Must {
		if in[x.String()] {
			r.Must = append(r.Must, x)
		}
	}
	return r
}

// outcomes separates what is known of the outcome of fallible steps from the other conditions.
func outcomes(as []Atom) (rest, ok []Atom) {
	for _, a := range as {
		if strings.HasPrefix(a.Op, "ok") || strings.HasPrefix(a.Op, "fails") {
			ok = append(ok, a)
		} else {
			rest = append(rest, a)
		}
	}
	return rest, ok
}

func common(a, b []Atom) []Atom {
	in := map[string]bool{}
	for _, x := range b {
		in[x.String()] = true
	}
	var out []Atom
	for _, x := range a {
		if in[x.String()] {
			out = append(out, x)
		}
	}
	return out
}
