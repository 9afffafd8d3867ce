package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Atom is one normalised condition: an operator (with the polarity folded in) over the program
// elements its operands are computed from.
type Atom struct {
	Op string   `json:"o"`
	S  []string `json:"s,omitempty"`
}

func (a Atom) String() string { return a.Op + "{" + strings.Join(a.S, " ") + "}" }

var negOp = map[string]string{
	"nil": "nonnil", "nonnil": "nil", "empty": "nonempty", "nonempty": "empty",
	"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "T": "F", "F": "T",
	"has": "hasnot", "hasnot": "has", "localhas": "localhasnot", "localhasnot": "localhas", "is": "isnot", "isnot": "is", "each": "", "ok": "fails", "fails": "ok", "ok?": "fails?", "fails?": "ok?",
}

func negate(a Atom) (Atom, bool) {
	op := a.Op
	n, ok := negOp[op]
	if !ok || n == "" {
		return Atom{}, false
	}
	return Atom{n, a.S}, true
}

var swapCmp = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
var negCmp = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}

func lenArg(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil
	}
	return c.Call.Args[0]
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func (e *Eval) srcs(f *frame, vs ...ssa.Value) []string {
	out := srcSet{}
	for _, v := range vs {
		e.collect(v, f, out, map[seenKey]bool{})
	}
	return out.list()
}

type edgeKey struct {
	e cedge
	f *frame
}

// atoms renders cond under polarity pol.
func (e *Eval) atoms(cond ssa.Value, pol bool, f *frame, depth int) []Atom {
	cond, f = e.lookup(cond, f)
	if len(e.choice) > 0 && depth < 16 {
		return sortAtoms(e.atoms0(cond, pol, f, depth+4))
	}
	k := atomKey{cond, pol, f, e.must, e.part}
	if r, ok := e.memo[k]; ok {
		return r
	}
	if e.busy[k] {
		e.hits++
		return e.cut()
	}
	e.busy[k] = true
	h := e.hits
	r := sortAtoms(e.atoms0(cond, pol, f, depth))
	delete(e.busy, k)
	if e.hits == h || len(e.busy) == 0 {
		e.memo[k] = r // complete: nothing was cut short by a value still being rendered
	}
	return r
}

// viable: can the boolean phi take value pol other than by being carried around a loop unchanged?
func (e *Eval) viable(v ssa.Value, pol bool, f *frame, seen map[ssa.Value]bool) bool {
	v, f = e.lookup(v, f)
	ph, ok := v.(*ssa.Phi)
	if !ok {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
			return constant.BoolVal(c.Value) == pol
		}
		return true
	}
	if seen[v] || e.busy[atomKey{v, pol, f, e.must, e.part}] {
		return false
	}
	seen[v] = true
	for _, ed := range ph.Edges {
		if e.viable(ed, pol, f, seen) {
			return true
		}
	}
	return false
}

func (e *Eval) atoms0(cond ssa.Value, pol bool, f *frame, depth int) []Atom {
	switch x := cond.(type) {
	case *ssa.Const:
		return nil
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.atoms(x.X, !pol, f, depth+1)
		}
		if x.Op == token.MUL {
			a, af := e.lookup(x.X, f)
			if al, ok := a.(*ssa.Alloc); ok {
				st := e.stores(al)
				if len(st) == 1 {
					return e.atoms(st[0], pol, af, depth+1)
				}
			}
		}
	case *ssa.BinOp:
		return e.cmpAtoms(x, pol, f, depth)
	case *ssa.Phi:
		var alts [][]Atom
		for i, ed := range x.Edges {
			if !e.p.liveEdge(x.Block(), i) {
				continue
			}
			if c, ok := ed.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				if constant.BoolVal(c.Value) != pol {
					continue
				}
				alts = append(alts, e.predAtoms(x.Block(), i, f, depth+1))
				continue
			}
			if ed == ssa.Value(x) || !e.viable(ed, pol, f, map[ssa.Value]bool{}) {
				e.hits++
				continue // carried around a loop unchanged
			}
			alts = append(alts, cat(e.atoms(ed, pol, f, depth+1), e.predAtoms(x.Block(), i, f, depth+1)))
		}
		return e.combine(alts)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if x.Index == 0 {
				if rg, ok := t.Iter.(*ssa.Range); ok && e.literal(rg.X, f) {
					return nil
				}
				if pol {
					return []Atom{{"each", e.srcs(f, t.Iter)}}
				}
				return nil
			}
		case *ssa.Lookup:
			if x.Index == 1 {
				op := "has"
				if !pol {
					op = "hasnot"
				}
				if m, mf := e.lookup(t.X, f); e.isLocalMap(m, mf) {
					op = "local" + op
				}
				return []Atom{{op, e.srcs(f, t.X, t.Index)}}
			}
		case *ssa.TypeAssert:
			if x.Index == 1 {
				op := "is"
				if !pol {
					op = "isnot"
				}
				return []Atom{{op, append(e.srcs(f, t.X), "type:"+typeStr(t.AssertedType))}}
			}
		case *ssa.Call:
			if fn := e.callee(&t.Call, f); fn != nil && e.transparent(fn.fn, f) {
				return e.callAtoms(t, fn, x.Index, pol, f, depth)
			}
		}
	case *ssa.Call:
		if fn := e.callee(&x.Call, f); fn != nil && e.transparent(fn.fn, f) {
			return e.callAtoms(x, fn, 0, pol, f, depth)
		}
	}
	if lk, ok := cond.(*ssa.Lookup); ok && !lk.CommaOk {
		if _, ok := lk.X.Type().Underlying().(*types.Map); ok {
			op := "has"
			if !pol {
				op = "hasnot"
			}
			if m, mf := e.lookup(lk.X, f); e.isLocalMap(m, mf) {
				op = "local" + op
			}
			return []Atom{{op, e.srcs(f, lk.X, lk.Index)}}
		}
	}
	op := "T"
	if !pol {
		op = "F"
	}
	return []Atom{{op, e.srcs(f, cond)}}
}

// callAtoms: the conditions under which a transparent predicate returns pol.
func (e *Eval) callAtoms(c *ssa.Call, t *target, idx int, pol bool, f *frame, depth int) []Atom {
	fn := t.fn
	g := e.enter(c, *t, f)
	var alts [][]Atom
	for _, b := range fn.Blocks {
		if !e.p.live(fn)[b] || b.Comment == "recover" {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		v := r.Results[idx]
		var out []Atom
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			if constant.BoolVal(k.Value) != pol {
				continue
			}
		} else {
			out = append(out, e.atoms(v, pol, g, depth+1)...)
		}
		out = append(out, e.controlAtoms(b, g, depth+1)...)
		alts = append(alts, out)
	}
	return e.combine(alts)
}

func cat(a, b []Atom) []Atom { return append(append([]Atom{}, a...), b...) }

const topOp = "⊤"

// cut: the atoms of a condition that is still being rendered.
func (e *Eval) cut() []Atom {
	if e.must {
		return []Atom{{Op: topOp}}
	}
	return nil
}

// combine merges the alternatives under which something holds: every condition involved, or (must) only
// those common to all of them.
func (e *Eval) combine(alts [][]Atom) []Atom {
	if !e.must {
		var out []Atom
		for _, a := range alts {
			out = append(out, a...)
		}
		return out
	}
	var acc map[string]Atom
	for _, a := range alts {
		m := map[string]Atom{}
		top := false
		for _, x := range a {
			if x.Op == topOp {
				top = true
			}
			m[x.String()] = x
		}
		if top {
			continue
		}
		if acc == nil {
			acc = m
			continue
		}
		for k := range acc {
			if _, ok := m[k]; !ok {
				delete(acc, k)
			}
		}
	}
	if acc == nil {
		if len(alts) > 0 {
			return []Atom{{Op: topOp}}
		}
		return nil
	}
	var out []Atom
	for _, x := range acc {
		out = append(out, x)
	}
	return sortAtoms(out)
}

// controlAtoms: the conditions that decide whether block b runs: all of them, or (must) those known there.
func (e *Eval) controlAtoms(b *ssa.BasicBlock, f *frame, depth int) []Atom {
	if e.must {
		return e.knownAtoms(b, -1, f, depth)
	}
	var out []Atom
	for _, ed := range e.controls(b) {
		out = append(out, e.edgeAtoms(ed, f, depth)...)
	}
	return out
}

// controls: the branch edges that decide whether block b runs: all of them, or (must) those every path takes.
func (e *Eval) controls(b *ssa.BasicBlock) []cedge {
	if e.must {
		return domEdges(b)
	}
	_, all := e.p.closure(b)
	return all
}

// domEdges lists the branch edges on every path to b.
func domEdges(b *ssa.BasicBlock) []cedge {
	var out []cedge
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		if len(p.Succs) != 2 || p.Succs[0] == p.Succs[1] {
			continue
		}
		if !feasible(p, 0) || !feasible(p, 1) {
			continue
		}
		for k, s := range p.Succs {
			if s != d {
				continue
			}
			// the edge is the only way into d, loops back to d aside
			only := true
			for _, q := range d.Preds {
				if q != p && !d.Dominates(q) {
					only = false
				}
			}
			if only {
				out = append(out, cedge{p, k})
			}
		}
	}
	return out
}

func (e *Eval) mustAtoms(b *ssa.BasicBlock, f *frame) []Atom {
	old := e.must
	e.must = true
	defer func() { e.must = old }()
	return dropTop(e.knownAtoms(b, -1, f, 0))
}

// knownAtoms: what is known whenever b is reached (and left through its k-th successor).
func (e *Eval) knownAtoms(b *ssa.BasicBlock, k int, f *frame, depth int) []Atom {
	var out []Atom
	ls, ok := e.p.known(b, k)
	if !ok {
		for _, ed := range domEdges(b) {
			out = append(out, e.edgeAtoms(ed, f, depth)...)
		}
		if k >= 0 && len(b.Succs) == 2 && feasible(b, 0) && feasible(b, 1) {
			out = append(out, e.edgeAtoms(cedge{b, k}, f, depth)...)
		}
		return out
	}
	for _, l := range ls {
		out = append(out, e.litAtoms(l, f, depth)...)
	}
	return out
}

func (e *Eval) litAtoms(l lit, f *frame, depth int) []Atom {
	if l.part || l.edge != nil && panics(l.edge.blk) {
		old := e.part
		e.part = true
		defer func() { e.part = old }()
	}
	if l.edge != nil && strings.HasPrefix(l.edge.blk.Succs[0].Comment, "rangeint") {
		if c, ok := l.v.(*ssa.BinOp); ok {
			if k, ok := c.X.(*ssa.Const); ok && k.Value != nil {
				return e.bound(c.Y, l.pol, f)
			}
		}
	}
	return e.atoms(l.v, l.pol, f, depth)
}

func dropTop(as []Atom) []Atom {
	var out []Atom
	for _, a := range as {
		if a.Op != topOp {
			out = append(out, a)
		}
	}
	return out
}

// nilAtoms: the conditions under which a transparent function returns nil (or not nil).
func (e *Eval) nilAtoms(v ssa.Value, isNil bool, f *frame, depth int) ([]Atom, bool) {
	return e.resultAtoms(v, f, depth, func(x ssa.Value, b, to *ssa.BasicBlock, g *frame) ([]Atom, bool) {
		if e.p.nilContra(x, isNil, b, to) {
			return nil, false
		}
		return e.nilValue(x, isNil, g, depth)
	})
}

// constAtoms: the conditions under which a transparent function returns (or does not return) the constant k.
func (e *Eval) constAtoms(v ssa.Value, k *ssa.Const, eq bool, f *frame, depth int) ([]Atom, bool) {
	return e.resultAtoms(v, f, depth, func(x ssa.Value, b, to *ssa.BasicBlock, g *frame) ([]Atom, bool) {
		return e.constValue(x, k, eq, g, depth)
	})
}

// constValue: can v be (or not be) the constant k, and under which further conditions?
func (e *Eval) constValue(v ssa.Value, k *ssa.Const, eq bool, f *frame, depth int) ([]Atom, bool) {
	v, f = e.lookup(v, f)
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == k.Value.Kind() {
		return nil, constant.Compare(c.Value, token.EQL, k.Value) == eq
	}
	empty := k.Value.Kind() == constant.String && constant.StringVal(k.Value) == ""
	if c, ok := v.(*ssa.Call); ok && empty {
		if o := calleeObj(&c.Call); o != nil && o.FullName() == "fmt.Sprintf" && len(c.Call.Args) > 0 {
			if fm, ok := c.Call.Args[0].(*ssa.Const); ok && fm.Value != nil && anyVerb.ReplaceAllString(constant.StringVal(fm.Value), "") != "" {
				return nil, !eq // some text is there
			}
		}
	}
	if as, ok := e.constAtoms(v, k, eq, f, depth+1); ok {
		return as, true
	}
	switch {
	case empty && eq:
		return []Atom{{"empty", e.srcs(f, v)}}, true
	case empty:
		return []Atom{{"nonempty", e.srcs(f, v)}}, true
	}
	op := "=="
	if !eq {
		op = "!="
	}
	return []Atom{{op, append(append(e.srcs(f, v), "="), e.srcs(f, k)...)}}, true
}

// resultAtoms: the conditions under which a transparent function returns a value the test accepts.
func (e *Eval) resultAtoms(v ssa.Value, f *frame, depth int, test func(x ssa.Value, b, to *ssa.BasicBlock, g *frame) ([]Atom, bool)) ([]Atom, bool) {
	idx := 0
	c, ok := v.(*ssa.Call)
	if !ok {
		if ex, ok2 := v.(*ssa.Extract); ok2 {
			c, ok = ex.Tuple.(*ssa.Call)
			idx = ex.Index
		}
	}
	if !ok || depth > 12 {
		return nil, false
	}
	t := e.callee(&c.Call, f)
	if t == nil || !e.transparent(t.fn, f) {
		return nil, false
	}
	fn := t.fn
	g := e.enter(c, *t, f)
	var alts [][]Atom
	for _, b := range fn.Blocks {
		if !e.p.live(fn)[b] || b.Comment == "recover" {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		ctl := e.controlAtoms(b, g, depth+1)
		x := r.Results[idx]
		if ph, ok := x.(*ssa.Phi); ok && ph.Block() == b {
			for i, ed := range ph.Edges {
				if !e.p.liveEdge(b, i) {
					continue
				}
				if as, ok := test(ed, b.Preds[i], b, g); ok {
					alts = append(alts, cat(cat(as, e.predAtoms(b, i, g, depth+1)), ctl))
				}
			}
			continue
		}
		if as, ok := test(x, b, nil, g); ok {
			alts = append(alts, cat(as, ctl))
		}
	}
	return e.combine(alts), true
}

// nilContra: is v, known where block b is left (for block to), known to be the opposite of isNil?
func (p *Prog) nilContra(v ssa.Value, isNil bool, b, to *ssa.BasicBlock) bool {
	var ls []lit
	var ok bool
	if to != nil {
		ls, ok = p.knownVia(b, to)
	} else {
		ls, ok = p.known(b, -1)
	}
	if !ok {
		return false
	}
	for _, l := range ls {
		c, ok := l.v.(*ssa.BinOp)
		if !ok || (c.Op != token.EQL && c.Op != token.NEQ) {
			continue
		}
		x, y := c.X, c.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if x == v && isNilConst(y) && ((c.Op == token.EQL) == l.pol) != isNil {
			return true
		}
	}
	return false
}

// nilValue: can v be (non-)nil, and under which further conditions?
func (e *Eval) nilValue(v ssa.Value, isNil bool, f *frame, depth int) ([]Atom, bool) {
	v, f = e.lookup(v, f)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil, isNil
		}
	case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr:
		return nil, !isNil
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && isInduction(ia.Index) {
			return nil, !isNil // the elements of a list are there
		}
	case *ssa.Call:
		if o := calleeObj(&x.Call); o != nil && o.Pkg() != nil && (o.FullName() == "fmt.Errorf" || o.FullName() == "errors.New") {
			return nil, !isNil
		}
	}
	if as, ok := e.nilAtoms(v, isNil, f, depth+1); ok {
		return as, true
	}
	if isErrorType(v.Type()) {
		return e.errAtoms(v, isNil, f), true
	}
	op := "nonnil"
	if isNil {
		op = "nil"
	}
	if lk := lookupOf(v); lk != nil {
		op = "has"
		if isNil {
			op = "hasnot"
		}
		if m, mf := e.lookup(lk.X, f); e.isLocalMap(m, mf) {
			op = "local" + op
		}
		return []Atom{{op, e.srcs(f, lk.X, lk.Index)}}, true
	}
	return []Atom{{op, e.srcs(f, v)}}, true
}

// predAtoms: conditions controlling the i-th incoming edge of block b.
func (e *Eval) predAtoms(b *ssa.BasicBlock, i int, f *frame, depth int) []Atom {
	p := b.Preds[i]
	var out []Atom
	top := b.Idom()
	if ls, ok := e.p.knownVia(p, b); e.must && ok && top != nil {
		outer := map[string]bool{}
		if os, ok := e.p.known(top, -1); ok {
			for _, l := range os {
				outer[fmt.Sprint(l.v.Name(), l.pol)] = true
			}
		}
		for _, l := range ls {
			if !outer[fmt.Sprint(l.v.Name(), l.pol)] { // what controls the whole expression is not the choice made here
				out = append(out, e.litAtoms(l, f, depth)...)
			}
		}
		return out
	}
	if len(p.Succs) == 2 && feasible(p, 0) && feasible(p, 1) {
		for k, s := range p.Succs {
			if s == b {
				out = append(out, e.edgeAtoms(cedge{p, k}, f, depth)...)
			}
		}
	}
	for _, ed := range e.controls(p) {
		if top != nil && !top.Dominates(ed.blk) {
			continue // controls the whole expression, not the choice made here
		}
		out = append(out, e.edgeAtoms(ed, f, depth)...)
	}
	return out
}

func (e *Eval) edgeAtoms(ed cedge, f *frame, depth int) []Atom {
	in := ed.blk.Instrs[len(ed.blk.Instrs)-1]
	iff, ok := in.(*ssa.If)
	if !ok {
		return nil
	}
	if c, ok := iff.Cond.(*ssa.BinOp); ok && strings.HasPrefix(ed.blk.Succs[0].Comment, "rangeint") {
		// for i := range n: entered when 0 < n, repeated while i+1 < n
		if k, ok := c.X.(*ssa.Const); ok && k.Value != nil {
			return e.bound(c.Y, ed.idx == 0, f)
		}
	}
	return e.atoms(iff.Cond, ed.idx == 0, f, depth)
}

// bound: an index starting at zero is still (or no longer) below n.
func (e *Eval) bound(n ssa.Value, below bool, f *frame) []Atom {
	v, vf := e.lookup(n, f)
	if la := lenArg(v); la != nil {
		if _, one := e.picked(la, vf); one || !below || e.literal(la, vf) {
			return nil
		}
		return []Atom{{"each", e.srcs(vf, wholeSlice(la))}}
	}
	ls, rs, op := []string{"iter"}, e.srcs(vf, v), "<"
	if !below {
		op = ">="
	}
	if _, c := v.(*ssa.Const); !c && "iter" > strings.Join(rs, " ") {
		ls, rs = rs, ls
		op = map[string]string{"<": ">", ">=": "<="}[op]
	}
	return []Atom{{op, append(append(append([]string{}, ls...), "|"), rs...)}}
}

func (e *Eval) cmpAtoms(x *ssa.BinOp, pol bool, f *frame, depth int) []Atom {
	op, l, r := x.Op, x.X, x.Y
	if _, ok := negCmp[op]; !ok {
		o := "T"
		if !pol {
			o = "F"
		}
		return []Atom{{o, e.srcs(f, x)}}
	}
	if !pol {
		op = negCmp[op]
	}
	rl, lf := e.lookup(l, f)
	rr, rf := e.lookup(r, f)
	_, lc := rl.(*ssa.Const)
	_, rc := rr.(*ssa.Const)
	if lc && !rc {
		l, r = r, l
		rl, rr = rr, rl
		lf, rf = rf, lf
		op = swapCmp[op]
	}
	if c, ok := rr.(*ssa.Const); ok {
		if c.Value == nil { // nil
			if out, ok := e.nilAtoms(rl, op == token.EQL, lf, depth); ok {
				return out
			}
			if isErrorType(l.Type()) {
				return e.errAtoms(rl, op == token.EQL, lf)
			}
			if lk := lookupOf(rl); lk != nil {
				o := "hasnot"
				if op == token.NEQ {
					o = "has"
				}
				if m, mf := e.lookup(lk.X, lf); e.isLocalMap(m, mf) {
					o = "local" + o
				}
				return []Atom{{o, e.srcs(lf, lk.X, lk.Index)}}
			}
			o := "nil"
			if op == token.NEQ {
				o = "nonnil"
			}
			return []Atom{{o, e.srcs(lf, rl)}}
		}
		if c.Value.Kind() == constant.Bool {
			want := constant.BoolVal(c.Value)
			if op == token.NEQ {
				want = !want
			}
			return e.atoms(rl, want, lf, depth+1)
		}
		if op == token.EQL || op == token.NEQ {
			if out, ok := e.constAtoms(rl, c, op == token.EQL, lf, depth); ok {
				return out
			}
		}
		if c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" && (op == token.EQL || op == token.NEQ) {
			o := "empty"
			if op == token.NEQ {
				o = "nonempty"
			}
			return []Atom{{o, e.srcs(lf, rl)}}
		}
		if la := lenArg(rl); la != nil {
			if k, ok := intConst(c); ok {
				switch {
				case k == 0 && (op == token.EQL || op == token.LEQ), k == 1 && op == token.LSS:
					return []Atom{{"empty", e.srcs(lf, la)}}
				case k == 0 && (op == token.NEQ || op == token.GTR), k == 1 && op == token.GEQ:
					return []Atom{{"nonempty", e.srcs(lf, la)}}
				}
			}
		}
	}
	if isInduction(rl) || isInduction(rr) {
		// loop bound
		if op == token.LSS || op == token.NEQ && pol || op == token.GTR || op == token.LEQ || op == token.GEQ {
			o := rr
			of := rf
			if isInduction(rr) {
				o, of = rl, lf
			}
			if la := lenArg(o); la != nil {
				if _, one := e.picked(la, of); one || e.literal(la, of) {
					return nil
				}
				if (op == token.LSS && isInduction(rl)) || (op == token.GTR && isInduction(rr)) || op == token.NEQ {
					return []Atom{{"each", e.srcs(of, wholeSlice(la))}}
				}
				return nil
			}
		}
	}
	ls, rs := e.srcs(lf, rl), e.srcs(rf, rr)
	// canonical integer bounds: x <= c-1 is x < c
	if k, ok := intConst(rr); ok {
		if op == token.LEQ {
			op = token.LSS
			rs = []string{kInt(k + 1)}
		} else if op == token.GTR {
			op = token.GEQ
			rs = []string{kInt(k + 1)}
		}
	} else if !rc {
		// order the operands deterministically
		if strings.Join(ls, " ") > strings.Join(rs, " ") {
			ls, rs = rs, ls
			op = swapCmp[op]
		}
		if strings.Join(ls, " ") == strings.Join(rs, " ") {
			// the operands cannot be told apart: the direction carries no information
			switch op {
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
	}
	var s []string
	s = append(s, ls...)
	if op != token.EQL && op != token.NEQ {
		s = append(s, "|")
	} else {
		s = append(s, "=")
	}
	s = append(s, rs...)
	return []Atom{{op.String(), s}}
}

func kInt(k int64) string { return "K:" + constant.MakeInt64(k).ExactString() }

func sortAtoms(in []Atom) []Atom {
	m := map[string]Atom{}
	for _, a := range in {
		m[a.String()] = a
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]Atom, 0, len(ks))
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// isLocalMap: a map created in the function itself.
func (e *Eval) isLocalMap(v ssa.Value, f *frame) bool {
	switch x := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.UnOp:
		c, _ := e.lookup(x.X, f)
		if al, ok := c.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					if _, ok := st.Val.(*ssa.MakeMap); ok {
						return true
					}
				}
			}
		}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if _, ok := ed.(*ssa.MakeMap); ok {
				return true
			}
		}
	case *ssa.Call:
		return e.madeByHelper(x, 0, f)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return e.madeByHelper(c, x.Index, f)
		}
	}
	return false
}

// madeByHelper: the result of a substituted call is a map the helper makes.
func (e *Eval) madeByHelper(c *ssa.Call, idx int, f *frame) bool {
	return depthOf(f) < 6 && e.resultsBuilt(c, idx, f, func(v ssa.Value, h *frame) bool {
		if _, ok := v.Type().Underlying().(*types.Map); !ok {
			return false
		}
		m, mf := e.lookup(v, h)
		return e.isLocalMap(m, mf)
	})
}

// literal: a list or table written out in the function; going through it adds no condition.
func (e *Eval) literal(v ssa.Value, f *frame) bool {
	v, f = e.lookup(v, f)
	switch x := v.(type) {
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		return ok && x.Low == nil && x.High == nil && (al.Comment == "slicelit" || al.Comment == "varargs")
	case *ssa.Alloc:
		_, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		return ok
	case *ssa.MakeMap:
		if x.Referrers() == nil {
			return false
		}
		n := 0
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.MapUpdate:
				if y.Block() != x.Block() {
					return false
				}
				n++
			case *ssa.Range, *ssa.Lookup:
			default:
				return false
			}
		}
		return n > 0
	}
	return false
}

// lookupOf: the table lookup v is the outcome of.
func lookupOf(v ssa.Value) *ssa.Lookup {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if al, ok := ld.X.(*ssa.Alloc); ok {
			if st := lastStore(al, ld); st != nil {
				v = st.Val // the result of a function with deferred calls
			}
		}
	}
	if x, ok := v.(*ssa.Extract); ok && x.Index == 0 {
		v = x.Tuple
	}
	lk, ok := v.(*ssa.Lookup)
	if !ok {
		return nil
	}
	if _, ok := lk.X.Type().Underlying().(*types.Map); !ok {
		return nil
	}
	return lk
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// errAtoms: what the outcome of a fallible step says. It only counts where it is certain: the check of an
// error controls nearly everything, but what must not happen after a failure is what is known never to.
func (e *Eval) errAtoms(v ssa.Value, isNil bool, f *frame) []Atom {
	if !e.must {
		return nil
	}
	op := "fails"
	if isNil {
		op = "ok"
	}
	set := srcSet{}
	e.steps(v, f, set, map[ssa.Value]bool{})
	if len(set) == 0 {
		return nil
	}
	var s []string
	for x := range set {
		s = append(s, x)
	}
	sort.Strings(s)
	if e.part {
		return []Atom{{op + "?", s}}
	}
	return []Atom{{op, s}, {op + "?", s}}
}

// steps: the calls an error may come from.
func (e *Eval) steps(v ssa.Value, f *frame, out srcSet, seen map[ssa.Value]bool) {
	v, f = e.lookup(v, f)
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.Phi:
		for _, ed := range x.Edges {
			e.steps(ed, f, out, seen)
		}
	case *ssa.Extract:
		e.steps(x.Tuple, f, out, seen)
	case *ssa.Call:
		if t := e.callee(&x.Call, f); t == nil || !e.transparent(t.fn, f) {
			if n := calleeName(&x.Call); n != "dynamic" {
				out["C:"+n] = true
				return
			}
			for _, l := range e.srcs(f, x.Call.Value) {
				if strings.HasPrefix(l, "P:") || strings.HasPrefix(l, "F:") {
					out[l] = true
				}
			}
			if len(out) == 0 {
				out["dyn"] = true
			}
			return
		}
		for _, l := range e.srcs(f, v) {
			if strings.HasPrefix(l, "C:") || l == "dyn" {
				out[l] = true
			}
		}
	case *ssa.MakeInterface:
		e.steps(x.X, f, out, seen)
	default:
		for _, l := range e.srcs(f, v) {
			if strings.HasPrefix(l, "C:") || l == "dyn" || strings.HasPrefix(l, "F:") || strings.HasPrefix(l, "P:") {
				out[l] = true
			}
		}
	}
}

// panics: one way out of b is a panic.
func panics(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok {
			return true
		}
	}
	return false
}
