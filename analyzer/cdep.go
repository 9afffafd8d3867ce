package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// pdom holds immediate post-dominators with a virtual exit (index = len(blocks)).
type pdom struct {
	ipdom []int
	n     int
}

func postDom(fn *ssa.Function, lv map[*ssa.BasicBlock]bool) *pdom {
	n := len(fn.Blocks)
	exit := n
	succs := make([][]int, n+1)
	preds := make([][]int, n+1)
	add := func(a, b int) {
		succs[a] = append(succs[a], b)
		preds[b] = append(preds[b], a)
	}
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			add(i, exit)
			continue
		}
		for k, s := range b.Succs {
			if feasible(b, k) || !lv[b] {
				add(i, s.Index)
			}
		}
	}
	// blocks that cannot reach exit (infinite loops): connect to exit.
	for {
		reach := make([]bool, n+1)
		var st []int
		st = append(st, exit)
		reach[exit] = true
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			for _, q := range preds[x] {
				if !reach[q] {
					reach[q] = true
					st = append(st, q)
				}
			}
		}
		found := -1
		for i := n - 1; i >= 0; i-- {
			if !reach[i] {
				found = i
				break
			}
		}
		if found < 0 {
			break
		}
		add(found, exit)
	}
	// reverse postorder on the reverse graph from exit
	order := make([]int, 0, n+1)
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(x int) {
		seen[x] = true
		for _, q := range preds[x] {
			if !seen[q] {
				dfs(q)
			}
		}
		order = append(order, x)
	}
	dfs(exit)
	num := make([]int, n+1)
	for i, x := range order {
		num[x] = i
	}
	ip := make([]int, n+1)
	for i := range ip {
		ip[i] = -1
	}
	ip[exit] = exit
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = ip[a]
			}
			for num[b] < num[a] {
				b = ip[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for i := len(order) - 2; i >= 0; i-- {
			x := order[i]
			nw := -1
			for _, s := range succs[x] {
				if ip[s] < 0 {
					continue
				}
				if nw < 0 {
					nw = s
				} else {
					nw = inter(nw, s)
				}
			}
			if nw >= 0 && ip[x] != nw {
				ip[x] = nw
				changed = true
			}
		}
	}
	return &pdom{ipdom: ip, n: n}
}

func (d *pdom) postdominates(a, b int) bool { // a postdominates b
	for x := b; ; {
		if x == a {
			return true
		}
		if x == d.n || d.ipdom[x] < 0 || d.ipdom[x] == x {
			return false
		}
		x = d.ipdom[x]
	}
}

// cedge is a controlling branch: block index and the successor index taken.
type cedge struct {
	blk *ssa.BasicBlock
	idx int
}

type ctrlDep struct {
	direct [][]cedge
}

func (p *Prog) pdomOf(fn *ssa.Function) *pdom {
	if d, ok := p.dom[fn]; ok {
		return d
	}
	d := postDom(fn, p.live(fn))
	p.dom[fn] = d
	return d
}

func (p *Prog) ctrl(fn *ssa.Function) *ctrlDep {
	if c, ok := p.cd[fn]; ok {
		return c
	}
	d := p.pdomOf(fn)
	c := &ctrlDep{direct: make([][]cedge, len(fn.Blocks))}
	for _, a := range fn.Blocks {
		if len(a.Succs) < 2 || !p.live(fn)[a] || !feasible(a, 0) || !feasible(a, 1) {
			continue
		}
		for i, s := range a.Succs {
			stop := d.ipdom[a.Index]
			for x := s.Index; x != stop && x != d.n && x >= 0; x = d.ipdom[x] {
				c.direct[x] = append(c.direct[x], cedge{a, i})
				if d.ipdom[x] == x {
					break
				}
			}
		}
	}
	p.cd[fn] = c
	return c
}

// closure returns all controlling edges of a block, transitively (direct first).
func (p *Prog) closure(b *ssa.BasicBlock) (direct, all []cedge) {
	cd := p.ctrl(b.Parent())
	direct = cd.direct[b.Index]
	seen := map[cedge]bool{}
	work := append([]cedge{}, direct...)
	for len(work) > 0 {
		e := work[0]
		work = work[1:]
		if seen[e] {
			continue
		}
		seen[e] = true
		all = append(all, e)
		work = append(work, cd.direct[e.blk.Index]...)
	}
	return direct, all
}

// constCond evaluates a branch condition that does not depend on anything.
func constCond(v ssa.Value, depth int) (val, ok bool) {
	if depth > 6 {
		return false, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, ok := constCond(x.X, depth+1)
			return !v, ok
		}
	case *ssa.Extract:
		// looking a key up in a map nothing is ever put into
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && emptyMap(lk.X) {
			return false, true
		}
	case *ssa.Phi:
		first, set := false, false
		for i, ed := range x.Edges {
			if ed == ssa.Value(x) || !edgeFeasible(x.Block(), i) {
				continue
			}
			c, ok := constCond(ed, depth+1)
			if !ok || set && c != first {
				return false, false
			}
			first, set = c, true
		}
		return first, set
	}
	return false, false
}

// emptyMap: v is a map made here that is only ever read.
func emptyMap(v ssa.Value) bool {
	mm, ok := v.(*ssa.MakeMap)
	if !ok {
		return false
	}
	for _, r := range *mm.Referrers() {
		switch r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// edgeFeasible: can the i-th incoming edge of b be taken? (a dominating constant branch excludes it)
func edgeFeasible(b *ssa.BasicBlock, i int) bool {
	p := b.Preds[i]
	for k, s := range p.Succs {
		if s == b && feasible(p, k) {
			return true
		}
	}
	return false
}

// feasible: can b leave through its k-th successor?
func feasible(b *ssa.BasicBlock, k int) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return true
	}
	v, ok := constCond(iff.Cond, 0)
	return !ok || v == (k == 0)
}

// live lists the blocks that constant branches leave reachable.
func (p *Prog) live(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if l, ok := p.liveMemo[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{}
	if len(fn.Blocks) > 0 {
		work = append(work, fn.Blocks[0])
	}
	if fn.Recover != nil {
		work = append(work, fn.Recover)
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if l[b] {
			continue
		}
		l[b] = true
		for k, s := range b.Succs {
			if feasible(b, k) {
				work = append(work, s)
			}
		}
	}
	p.liveMemo[fn] = l
	return l
}

func (p *Prog) liveEdge(b *ssa.BasicBlock, i int) bool {
	return p.live(b.Parent())[b.Preds[i]] && edgeFeasible(b, i)
}
