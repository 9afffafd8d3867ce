package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Path conditions. The condition under which a block of a function runs (loops entered once) is kept as a
// binary decision diagram over the function's branch conditions, so that what is known at a point does not
// depend on how the branches leading there are laid out.

type bddNode struct{ v, lo, hi int }

type bdd struct {
	nodes []bddNode
	index map[bddNode]int
	memo  map[[3]int]int
	over  bool
}

const bddLimit = 40000

func newBDD() *bdd {
	b := &bdd{index: map[bddNode]int{}, memo: map[[3]int]int{}}
	b.nodes = []bddNode{{1 << 30, 0, 0}, {1 << 30, 1, 1}} // false, true
	return b
}

func (b *bdd) mk(v, lo, hi int) int {
	if lo == hi {
		return lo
	}
	n := bddNode{v, lo, hi}
	if i, ok := b.index[n]; ok {
		return i
	}
	if len(b.nodes) > bddLimit {
		b.over = true
		return 1
	}
	b.nodes = append(b.nodes, n)
	b.index[n] = len(b.nodes) - 1
	return len(b.nodes) - 1
}

// ite is if f then g else h.
func (b *bdd) ite(f, g, h int) int {
	switch {
	case f == 1:
		return g
	case f == 0:
		return h
	case g == h:
		return g
	case g == 1 && h == 0:
		return f
	}
	k := [3]int{f, g, h}
	if r, ok := b.memo[k]; ok {
		return r
	}
	v := min(b.nodes[f].v, b.nodes[g].v, b.nodes[h].v)
	co := func(n int, hi bool) int {
		if b.nodes[n].v != v {
			return n
		}
		if hi {
			return b.nodes[n].hi
		}
		return b.nodes[n].lo
	}
	r := b.mk(v, b.ite(co(f, false), co(g, false), co(h, false)), b.ite(co(f, true), co(g, true), co(h, true)))
	b.memo[k] = r
	return r
}

func (b *bdd) and(x, y int) int { return b.ite(x, y, 0) }
func (b *bdd) or(x, y int) int  { return b.ite(x, 1, y) }
func (b *bdd) not(x int) int    { return b.ite(x, 0, 1) }

// lit is a branch condition known to be true or false.
type lit struct {
	v    ssa.Value
	pol  bool
	edge *cedge // a branch on it, when there is one
	part bool   // only where the step whose outcome it tells was taken
}

type pathConds struct {
	d     *bdd
	pc    map[*ssa.BasicBlock]int
	vars  map[string]int
	reps  []lit
	form  map[ssa.Value]int
	memo  map[int][]lit
	pos   map[*ssa.BasicBlock]int
	store map[string]bool // fields assigned in the function
}

func (p *Prog) pathConds(fn *ssa.Function) *pathConds {
	if p.pcMemo == nil {
		p.pcMemo = map[*ssa.Function]*pathConds{}
	}
	if c, ok := p.pcMemo[fn]; ok {
		return c
	}
	c := &pathConds{d: newBDD(), pos: map[*ssa.BasicBlock]int{}, pc: map[*ssa.BasicBlock]int{}, vars: map[string]int{}, form: map[ssa.Value]int{}, memo: map[int][]lit{}, store: map[string]bool{}}
	p.pcMemo[fn] = c
	lv := p.live(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					c.store[fieldKey(fa)] = true
				}
			}
		}
	}
	// reverse postorder over forward edges
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] && lv[s] && feasible(b, i) {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	if r := fn.Recover; r != nil && !seen[r] {
		dfs(r)
	}
	pos := c.pos
	for i := range order {
		pos[order[len(order)-1-i]] = i
	}
	for i := len(order) - 1; i >= 0; i-- {
		b := order[i]
		if b == fn.Blocks[0] || b == fn.Recover {
			c.pc[b] = 1
			continue
		}
		r := 0
		done := map[*ssa.BasicBlock]bool{}
		for _, q := range b.Preds {
			if done[q] || !lv[q] {
				continue
			}
			done[q] = true
			if pos[q] >= pos[b] {
				continue // around a loop
			}
			for k, s := range q.Succs {
				if s == b && feasible(q, k) {
					r = c.d.or(r, c.edge(q, k))
				}
			}
		}
		c.pc[b] = r
	}
	return c
}

// edge is the condition under which q is left through its k-th successor.
func (c *pathConds) edge(q *ssa.BasicBlock, k int) int {
	r := c.pc[q]
	iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
	if !ok || !feasible(q, 0) || !feasible(q, 1) {
		return r
	}
	x := c.formula(iff.Cond, &cedge{q, 0})
	if k == 1 {
		x = c.d.not(x)
	}
	return c.d.and(r, x)
}

func (c *pathConds) formula(v ssa.Value, at *cedge) int {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return 1
			}
			return 0
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return c.d.not(c.formula(x.X, nil))
		}
	case *ssa.Phi:
		if f, ok := c.form[v]; ok {
			return f
		}
		b := x.Block()
		r, good := 0, true
		for i, q := range b.Preds {
			if c.pos[q] >= c.pos[b] {
				good = false
				break
			}
			if _, ok := c.pc[q]; !ok {
				continue
			}
			for k, s := range q.Succs {
				if s == b && feasible(q, k) {
					r = c.d.or(r, c.d.and(c.edge(q, k), c.formula(x.Edges[i], nil)))
				}
			}
		}
		if good {
			c.form[v] = r
			return r
		}
	case *ssa.BinOp:
		if x.Op == token.NEQ {
			return c.d.not(c.variable(c.cmpKey(token.EQL, x), v, false, at))
		}
		if x.Op == token.GEQ || x.Op == token.GTR || x.Op == token.LSS || x.Op == token.LEQ || x.Op == token.EQL {
			if la := lenArg(x.X); la != nil {
				if k, ok := intConst(x.Y); ok {
					switch {
					case k == 0 && x.Op == token.GTR, k == 1 && x.Op == token.GEQ:
						return c.d.not(c.variable(c.key(x.X)+"=="+"0", v, false, at))
					case k == 1 && x.Op == token.LSS, k == 0 && x.Op == token.LEQ, k == 0 && x.Op == token.EQL:
						return c.variable(c.key(x.X)+"=="+"0", v, true, at)
					}
				}
			}
			return c.variable(c.cmpKey(x.Op, x), v, true, at)
		}
	}
	return c.variable(c.key(v), v, true, at)
}

func (c *pathConds) cmpKey(op token.Token, x *ssa.BinOp) string {
	return c.key(x.X) + op.String() + c.key(x.Y)
}

func (c *pathConds) variable(key string, v ssa.Value, pol bool, at *cedge) int {
	id, ok := c.vars[key]
	if !ok {
		id = len(c.reps)
		c.vars[key] = id
		c.reps = append(c.reps, lit{v: v, pol: pol, edge: at})
	} else if c.reps[id].edge == nil && at != nil {
		c.reps[id] = lit{v: v, pol: pol, edge: at}
	}
	return c.d.mk(id, 0, 1)
}

// key identifies values that are the same each time they are computed in one run of the function.
func (c *pathConds) key(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.BinOp:
		return "(" + c.cmpKey(x.Op, x) + ")"
	case *ssa.Field:
		return fmt.Sprintf("%s.%d", c.key(x.X), x.Field)
	case *ssa.FieldAddr:
		return fmt.Sprintf("&%s.%d", c.key(x.X), x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && !c.store[fieldKey(fa)] {
				return "*" + c.key(fa)
			}
			return x.Name()
		}
		if x.Op != token.ARROW {
			return x.Op.String() + c.key(x.X)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			return fmt.Sprintf("%s.(%s)#%d", c.key(t.X), types.TypeString(t.AssertedType, nil), x.Index)
		}
	case *ssa.Call:
		if la := lenArg(x); la != nil {
			return "len(" + c.key(la) + ")"
		}
	case *ssa.ChangeType:
		return c.key(x.X)
	case *ssa.MakeInterface:
		return c.key(x.X)
	}
	return v.Name()
}

// implied lists the branch conditions that n decides.
func (c *pathConds) implied(n int) []lit {
	if r, ok := c.memo[n]; ok {
		return r
	}
	var out []lit
	if n > 1 {
		vs := map[int]bool{}
		seen := map[int]bool{}
		var walk func(x int)
		walk = func(x int) {
			if x < 2 || seen[x] {
				return
			}
			seen[x] = true
			vs[c.d.nodes[x].v] = true
			walk(c.d.nodes[x].lo)
			walk(c.d.nodes[x].hi)
		}
		walk(n)
		for v := 0; v < len(c.reps); v++ {
			if !vs[v] {
				continue
			}
			x := c.d.mk(v, 0, 1)
			switch {
			case c.d.and(n, c.d.not(x)) == 0:
				out = append(out, lit{c.reps[v].v, c.reps[v].pol, c.reps[v].edge, false})
			case c.d.and(n, x) == 0:
				out = append(out, lit{c.reps[v].v, !c.reps[v].pol, c.reps[v].edge, false})
			default:
				// the outcome of a fallible step counts where the step was taken
				step := errorTest(c.reps[v].v)
				if step == nil || c.reps[v].edge == nil {
					continue
				}
				pc, ok := c.pc[step]
				if !ok {
					continue
				}
				taken := c.d.and(n, pc)
				switch {
				case taken == 0:
				case c.d.and(taken, c.d.not(x)) == 0:
					out = append(out, lit{c.reps[v].v, c.reps[v].pol, c.reps[v].edge, true})
				case c.d.and(taken, x) == 0:
					out = append(out, lit{c.reps[v].v, !c.reps[v].pol, c.reps[v].edge, true})
				}
			}
		}
	}
	c.memo[n] = out
	return out
}

// known lists the branch conditions decided whenever b is reached (through its k-th successor, when k >= 0).
func (p *Prog) known(b *ssa.BasicBlock, k int) ([]lit, bool) {
	c := p.pathConds(b.Parent())
	n, ok := c.pc[b]
	if !ok || c.d.over {
		return nil, false
	}
	if k >= 0 {
		n = c.edge(b, k)
	}
	if n == 0 {
		return nil, false
	}
	r := c.implied(n)
	return r, !c.d.over
}

// knownVia is known for the edge from q to b.
func (p *Prog) knownVia(q, b *ssa.BasicBlock) ([]lit, bool) {
	k := -1
	for i, s := range q.Succs {
		if s == b && feasible(q, i) {
			if k >= 0 {
				return nil, false
			}
			k = i
		}
	}
	if k < 0 {
		return nil, false
	}
	return p.known(q, k)
}

// errorTest returns the block of the call whose error v compares with nil.
func errorTest(v ssa.Value) *ssa.BasicBlock {
	x, ok := v.(*ssa.BinOp)
	if !ok || !isErrorType(x.X.Type()) || !isNilConst(x.Y) {
		return nil
	}
	switch y := x.X.(type) {
	case *ssa.Call:
		return y.Block()
	case *ssa.Extract:
		return y.Block()
	}
	return nil
}
