package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callEdge is one way control passes from a function of the module to another.
type callEdge struct {
	site   ssa.CallInstruction
	caller *ssa.Function
	callee *ssa.Function
	async  bool // runs in a goroutine of its own, or at a time nobody knows
	ext    bool // called back by code outside the module
}

// callGraph is the whole-module call graph used by the lock, panic and context rules:
// static calls, interface calls by class hierarchy, and function values followed
// through parameters, captured variables, cells and struct fields.
type callGraph struct {
	p      *Prog
	out    map[ssa.CallInstruction][]callEdge
	in     map[*ssa.Function][]callEdge
	opaque map[*ssa.Function]bool // may also be called from where the graph cannot see
	all    []*ssa.Function
	field  map[string][]ssa.Value
	cell   map[ssa.Value][]ssa.Value
}

func (p *Prog) graph() *callGraph {
	if p.cg != nil {
		return p.cg
	}
	g := &callGraph{p: p, out: map[ssa.CallInstruction][]callEdge{}, in: map[*ssa.Function][]callEdge{}, opaque: map[*ssa.Function]bool{}, field: map[string][]ssa.Value{}}
	p.cg = g
	for _, fn := range p.Funcs {
		g.all = append(g.all, withAnon(fn)...)
	}
	for _, fn := range g.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if _, ok := st.Val.Type().Underlying().(*types.Signature); ok {
							k := fieldKey(fa)
							g.field[k] = append(g.field[k], st.Val)
						}
					}
				}
			}
		}
	}
	used := map[*ssa.Function]bool{}
	for _, fn := range g.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, e := range g.edges(fn, c) {
					g.out[c] = append(g.out[c], e)
					g.in[e.callee] = append(g.in[e.callee], e)
					used[e.callee] = true
				}
			}
		}
	}
	for _, fn := range g.all {
		if fn.Parent() == nil {
			if exported(fn) || fn.Name() == "main" || fn.Name() == "init" || p.addrTkn[fn] && !used[fn] {
				g.opaque[fn] = true
			}
		}
		if !used[fn] {
			g.opaque[fn] = true
		}
	}
	return g
}

// exported reports that code outside the module can call fn.
func exported(fn *ssa.Function) bool {
	if fn.Parent() != nil || !token.IsExported(fn.Name()) {
		return false
	}
	return true
}

func fieldKey(fa *ssa.FieldAddr) string {
	return fieldName(fa.X.Type(), fa.Field)
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// body maps wrappers, thunks and instantiations to the source function they stand for.
func (p *Prog) body(fn *ssa.Function) *ssa.Function {
	if fn == nil {
		return nil
	}
	fn = origin(fn)
	if fn.Synthetic != "" {
		if o, ok := fn.Object().(*types.Func); ok {
			if m := p.SSA.FuncValue(o); m != nil && origin(m) != fn {
				return origin(m)
			}
		}
	}
	return fn
}

var asyncExt = map[string]bool{
	"time.AfterFunc": true, "context.AfterFunc": true, "net/http.HandleFunc": true,
	"golang.org/x/sync/errgroup.(Group).Go": true, "golang.org/x/sync/errgroup.(Group).TryGo": true, "sync.(WaitGroup).Go": true,
}

func (g *callGraph) edges(fn *ssa.Function, c ssa.CallInstruction) []callEdge {
	cc := c.Common()
	_, isGo := c.(*ssa.Go)
	var out []callEdge
	add := func(f *ssa.Function, async, ext bool) {
		if f = g.p.body(f); f == nil || f.Blocks == nil || !g.p.inModule(f) {
			return
		}
		for _, o := range out {
			if o.callee == f {
				return
			}
		}
		out = append(out, callEdge{c, fn, f, async, ext})
	}
	external := false
	switch {
	case cc.IsInvoke():
		ms := g.p.implementers(cc)
		for _, m := range ms {
			add(m, isGo, false)
		}
		external = len(ms) == 0
	case cc.StaticCallee() != nil:
		f := g.p.body(cc.StaticCallee())
		if f.Blocks != nil && g.p.inModule(f) {
			add(f, isGo, false)
		} else {
			external = true
		}
	default:
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil
		}
		for _, f := range g.funcs(cc.Value) {
			add(f, isGo, false)
		}
	}
	if external {
		async := isGo || asyncExt[calleeName(cc)]
		for _, a := range cc.Args {
			for _, f := range g.funcs(a) {
				add(f, async, true)
			}
		}
	}
	return out
}

// implementers lists the methods of the module an interface call may reach.
func (p *Prog) implementers(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if tp, okp := cc.Value.Type().(*types.TypeParam); okp {
		it, ok = tp.Constraint().Underlying().(*types.Interface)
	}
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, m := range p.impls[cc.Method.Name()] {
		rt := m.Signature.Recv().Type()
		n := namedOf(rt)
		if n == nil {
			continue
		}
		if types.Implements(rt, it) || types.Implements(types.NewPointer(n), it) {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

// funcs resolves a function value as far as the module's own code determines it.
func (g *callGraph) funcs(v ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] || len(seen) > 200 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Function:
			out = append(out, x)
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Parameter:
			if _, ok := x.Type().Underlying().(*types.Signature); !ok {
				return
			}
			f := x.Parent()
			idx := -1
			for i, p := range f.Params {
				if p == x {
					idx = i
				}
			}
			for _, c := range g.p.callers[origin(f)] {
				if a := c.Common().Args; idx >= 0 && idx < len(a) {
					walk(a[idx])
				}
			}
		case *ssa.FreeVar:
			f := x.Parent()
			for i, fv := range f.FreeVars {
				if fv == x && f.Parent() != nil {
					for _, b := range f.Parent().Blocks {
						for _, in := range b.Instrs {
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && i < len(mc.Bindings) {
								walk(mc.Bindings[i])
							}
						}
					}
				}
			}
		case *ssa.Alloc:
			if x.Referrers() != nil {
				for _, r := range *x.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == x {
						walk(st.Val)
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch y := x.X.(type) {
				case *ssa.FieldAddr:
					for _, s := range g.field[fieldKey(y)] {
						walk(s)
					}
				default:
					walk(x.X)
				}
			}
		}
	}
	walk(v)
	return out
}

// isStd reports a function outside the module by the prefix of its package.
func isStd(name string, pre ...string) bool {
	for _, p := range pre {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}
