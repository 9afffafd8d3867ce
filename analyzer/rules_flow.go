package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- slices: appending must not write into somebody else's memory ----

// sliceOrigins lists where the memory of a slice comes from: "own" (made here), or a description of the owner.
func (p *Prog) sliceOrigins(v ssa.Value, seen map[ssa.Value]bool, out map[string]ssa.Value) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.MakeSlice, *ssa.Alloc:
	case *ssa.Slice:
		if x.Max != nil {
			return // a capped slice is copied when it grows
		}
		p.sliceOrigins(x.X, seen, out)
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.sliceOrigins(e, seen, out)
		}
	case *ssa.ChangeType:
		p.sliceOrigins(x.X, seen, out)
	case *ssa.Convert:
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				p.sliceOrigins(x.Call.Args[0], seen, out)
			}
			return
		}
		f := x.Call.StaticCallee()
		if f == nil {
			return
		}
		if f = p.body(f); f != nil && f.Blocks != nil && p.inModule(f) && !isPBFile(p, f) {
			// what does the callee hand out?
			for k, y := range p.handedOut(f) {
				if pm, ok := y.(*ssa.Parameter); ok {
					for i, q := range f.Params {
						if q == pm && i < len(x.Call.Args) {
							p.sliceOrigins(x.Call.Args[i], seen, out)
						}
					}
				} else {
					out[k+" returned by "+fname(f)] = y
				}
			}
			return
		}
		if f != nil && strings.HasPrefix(f.Name(), "Get") && f.Signature.Recv() != nil {
			out[fname(f)] = x
		}
	case *ssa.Parameter:
		if args, ok := p.argsOf(x); ok {
			for _, a := range args {
				p.sliceOrigins(a, seen, out)
			}
			return
		}
		out["parameter "+x.Name()] = x
	case *ssa.FreeVar:
		p.sliceOrigins(p.binding(x), seen, out)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if p.freshObject(a.X, nil) {
				return
			}
			out["field "+fieldKey(a)] = x
		case *ssa.Alloc:
			for _, s := range cellValues(a) {
				p.sliceOrigins(s, seen, out)
			}
		case *ssa.FreeVar:
			if al, ok := p.binding(a).(*ssa.Alloc); ok {
				for _, s := range cellValues(al) {
					p.sliceOrigins(s, seen, out)
				}
			}
		case *ssa.IndexAddr:
			out["element"] = x
		case *ssa.Global:
			out["variable "+a.Name()] = x
		}
	case *ssa.Lookup, *ssa.Extract:
	}
}

var handedOutMemo = map[*ssa.Function]map[string]ssa.Value{}

// handedOut lists the origins of the slice a function returns; a recursive function contributes nothing of its own.
func (p *Prog) handedOut(f *ssa.Function) map[string]ssa.Value {
	if m, ok := handedOutMemo[f]; ok {
		return m
	}
	handedOutMemo[f] = nil
	sub := map[string]ssa.Value{}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
			if _, ok := r.Results[0].Type().Underlying().(*types.Slice); ok {
				p.sliceOrigins(r.Results[0], map[ssa.Value]bool{}, sub)
			}
		}
	}
	handedOutMemo[f] = sub
	return sub
}

func (p *Prog) binding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	for i, o := range f.FreeVars {
		if o != fv || f.Parent() == nil {
			continue
		}
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && i < len(mc.Bindings) {
					return mc.Bindings[i]
				}
			}
		}
	}
	return fv
}

func cellValues(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	if a.Referrers() == nil {
		return nil
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				out = append(out, x.Val)
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == a && f.FreeVars[i].Referrers() != nil {
					for _, u := range *f.FreeVars[i].Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == f.FreeVars[i] {
							out = append(out, st.Val)
						}
					}
				}
			}
		}
	}
	return out
}

// sinks lists where a slice built here ends up: "" for a place that keeps it, the field key when it is stored to a field.
func (p *Prog) sliceSinks(v ssa.Value, seen map[ssa.Value]bool, out map[string]ssa.Instruction) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				out["field "+fieldKey(a)] = x
			case *ssa.Alloc:
				if a.Referrers() != nil {
					for _, u := range *a.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok {
							p.sliceSinks(ld, seen, out)
						}
					}
				}
			default:
				out["kept"] = x
			}
		case *ssa.Phi:
			p.sliceSinks(x, seen, out)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && x.Call.Args[0] == v {
					p.sliceSinks(x, seen, out)
				}
				continue
			}
			out["handed to "+calleeName(&x.Call)] = x
		case *ssa.Return:
			out["returned"] = x
		case *ssa.MapUpdate:
			if x.Value == v {
				out["kept in a map"] = x
			}
		case *ssa.MakeInterface:
			out["kept"] = x
		case *ssa.Slice, *ssa.ChangeType:
			p.sliceSinks(x.(ssa.Value), seen, out)
		}
	}
}

// ruleAppendOwner: a slice that belongs to someone else (a parameter, a field, a getter's result) is never
// appended to in place unless the result goes back to the same owner.
func ruleAppendOwner(c *Check) {
	n := 0
	for _, fn := range c.p.graph().all {
		if isPBFile(c.p, fn) || excludedPkg(fname(root(fn))) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := call.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" {
					continue
				}
				n++
				org := map[string]ssa.Value{}
				c.p.sliceOrigins(call.Call.Args[0], map[ssa.Value]bool{}, org)
				if len(org) == 0 {
					continue
				}
				snk := map[string]ssa.Instruction{}
				c.p.sliceSinks(call, map[ssa.Value]bool{}, snk)
				var os, ss []string
				for o := range org {
					os = append(os, o)
				}
				for s := range snk {
					ss = append(ss, s)
				}
				sort.Strings(os)
				sort.Strings(ss)
				for _, o := range os {
					for _, s := range ss {
						stored := strings.HasPrefix(s, "field ") || strings.HasPrefix(s, "kept")
						if !stored && !(strings.HasPrefix(o, "field ") && strings.HasPrefix(fname(root(fn)), "grpc/federation")) {
							continue // read while it is the only one alive
						}
						if s == o || strings.HasPrefix(o, "parameter ") && s == "returned" {
							continue
						}
						c.report(fname(root(fn)), c.p.ipos(call), fmt.Sprintf("%s is appended to in place, but the result is %s: the two share memory", o, s))
					}
				}
			}
		}
	}
	c.ob(n)
}

// ---- contexts ----

// ctxOrigins lists where a context comes from.
func (p *Prog) ctxOrigins(v ssa.Value, seen map[ssa.Value]bool, out map[string]ssa.Value) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		out["param"] = x
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.ctxOrigins(e, seen, out)
		}
	case *ssa.MakeInterface:
		p.ctxOrigins(x.X, seen, out)
	case *ssa.ChangeInterface:
		p.ctxOrigins(x.X, seen, out)
	case *ssa.Extract:
		p.ctxOrigins(x.Tuple, seen, out)
	case *ssa.TypeAssert:
		out["stored"] = x
	case *ssa.FreeVar:
		p.ctxOrigins(p.binding(x), seen, out)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Alloc:
			for _, s := range cellValues(a) {
				p.ctxOrigins(s, seen, out)
			}
		case *ssa.FreeVar:
			if al, ok := p.binding(a).(*ssa.Alloc); ok {
				for _, s := range cellValues(al) {
					p.ctxOrigins(s, seen, out)
				}
			} else {
				p.ctxOrigins(p.binding(a), seen, out)
			}
		case *ssa.FieldAddr:
			out["field "+fieldKey(a)] = x
		default:
			out["stored"] = x
		}
	case *ssa.Alloc:
		for _, s := range cellValues(x) {
			p.ctxOrigins(s, seen, out)
		}
	case *ssa.Call:
		name := calleeName(&x.Call)
		switch name {
		case "context.Background", "context.TODO", "context.WithoutCancel":
			out[name] = x
			return
		}
		n := 0
		for _, a := range x.Call.Args {
			if implementsCtx(a.Type()) {
				n++
				p.ctxOrigins(a, seen, out)
			}
		}
		if x.Call.IsInvoke() && implementsCtx(x.Call.Value.Type()) {
			n++
			p.ctxOrigins(x.Call.Value, seen, out)
		}
		if n == 0 {
			out["call "+name] = x
		}
	default:
		out["other"] = v
	}
}

func implementsCtx(t types.Type) bool { return isCtxType(t) }

// detached lists the places that deliberately work under a context of their own.
var detached = map[string]string{}

// ruleCtxFlow: wherever a context of the request is at hand, every call that takes a context receives one derived from it.
func ruleCtxFlow(c *Check) {
	n := 0
	for _, fn := range c.p.graph().all {
		if isPBFile(c.p, fn) || excludedPkg(fname(root(fn))) {
			continue
		}
		has := false
		for f := fn; f != nil; f = f.Parent() {
			for _, pm := range f.Params {
				has = has || isCtxType(pm.Type())
			}
		}
		if !has {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, a := range call.Common().Args {
					if !isCtxType(a.Type()) {
						continue
					}
					n++
					org := map[string]ssa.Value{}
					c.p.ctxOrigins(a, map[ssa.Value]bool{}, org)
					for o := range org {
						switch o {
						case "context.Background", "context.TODO", "context.WithoutCancel":
							if _, ok := detached[fname(root(fn))]; !ok {
								c.report(fname(root(fn)), c.p.ipos(in), fmt.Sprintf("%s is called under %s although the context of the request is at hand", calleeName(call.Common()), o))
							}
						}
					}
				}
			}
		}
	}
	c.ob(n)
}

// argsOf lists what a parameter of an internal function is given, when every call of it can be seen.
func (p *Prog) argsOf(x *ssa.Parameter) ([]ssa.Value, bool) {
	f := x.Parent()
	g := p.graph()
	if g.opaque[f] || f.Object() == nil || f.Object().Exported() || len(g.in[f]) == 0 {
		return nil, false
	}
	i := -1
	for j, q := range f.Params {
		if q == x {
			i = j
		}
	}
	var out []ssa.Value
	for _, e := range g.in[f] {
		com := e.site.Common()
		if com.StaticCallee() == nil || p.body(com.StaticCallee()) != f || i >= len(com.Args) {
			return nil, false
		}
		out = append(out, com.Args[i])
	}
	return out, true
}

// freshObject reports whether the object v points to was made in this function (or by a constructor it
// called), so that nobody else holds it unless this function handed it out.
func (p *Prog) freshObject(v ssa.Value, busy map[ssa.Value]bool) bool {
	if busy == nil {
		busy = map[ssa.Value]bool{}
	}
	if busy[v] {
		return true
	}
	busy[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return p.freshObject(x.X, busy)
	case *ssa.ChangeType:
		return p.freshObject(x.X, busy)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.freshObject(e, busy) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		if f = p.body(f); f == nil || !p.inModule(f) || len(f.Blocks) == 0 {
			return false
		}
		return p.constructs(f, 0)
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		f := call.Call.StaticCallee()
		if f == nil {
			return false
		}
		if f = p.body(f); f == nil || !p.inModule(f) || len(f.Blocks) == 0 {
			return false
		}
		return p.constructs(f, x.Index)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		cell := x.X
		if fv, ok := cell.(*ssa.FreeVar); ok {
			cell = p.binding(fv)
		}
		a, ok := cell.(*ssa.Alloc)
		if !ok {
			return false
		}
		vals := reachingStores(a, x)
		for _, s := range vals {
			if !p.freshObject(s, busy) {
				return false
			}
		}
		return len(vals) > 0
	case *ssa.FreeVar:
		if b := p.binding(x); b != v {
			return p.freshObject(b, busy)
		}
	}
	return false
}

type consKey struct {
	f *ssa.Function
	i int
}

var constructsMemo = map[consKey]bool{}

// constructs reports whether result i of f is always an object made there (or nil).
func (p *Prog) constructs(f *ssa.Function, i int) bool {
	k := consKey{f, i}
	if r, ok := constructsMemo[k]; ok {
		return r
	}
	constructsMemo[k] = false
	ok := true
	for _, b := range f.Blocks {
		r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet || i >= len(r.Results) {
			continue
		}
		v := r.Results[i]
		if c, isC := v.(*ssa.Const); isC && c.IsNil() {
			continue
		}
		if !p.freshObject(v, nil) {
			ok = false
		}
	}
	constructsMemo[k] = ok
	return ok
}

// reachingStores lists what a local variable may hold where it is read: an assignment that is always overwritten
// before the read (or before the closure that reads it is made) does not count.
func reachingStores(a *ssa.Alloc, at *ssa.UnOp) []ssa.Value {
	var stores []*ssa.Store
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			stores = append(stores, st)
		}
	}
	var uses []ssa.Instruction
	if at.Parent() == a.Parent() {
		uses = append(uses, at)
	} else {
		for _, r := range *a.Referrers() {
			if mc, ok := r.(*ssa.MakeClosure); ok {
				uses = append(uses, mc)
			}
		}
	}
	var out []ssa.Value
	for _, s1 := range stores {
		killed := false
		for _, s2 := range stores {
			if s1 == s2 || s1.Block().Index != 0 || !before(s1, s2) {
				continue
			}
			all := len(uses) > 0
			for _, u := range uses {
				if !before(s2, u) {
					all = false
				}
			}
			if all {
				killed = true
			}
		}
		if !killed {
			out = append(out, s1.Val)
		}
	}
	for _, v := range cellValues(a) { // assignments made by closures
		if in, ok := v.(ssa.Instruction); ok && in.Parent() != a.Parent() {
			out = append(out, v)
		}
	}
	return out
}

// before: a is always executed before b.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}
