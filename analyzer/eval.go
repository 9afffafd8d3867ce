package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// frame binds the parameters of an inlined function to the caller's values.
type frame struct {
	fn     *ssa.Function
	bind   map[*ssa.Parameter]ssa.Value
	parent *frame
	depth  int
	site   ssa.CallInstruction
}

// Eval canonicalises SSA values to the program elements they are computed from. Functions not in
// `known` are transparent: their bodies are substituted at the call (so an extracted helper changes nothing).
type Eval struct {
	p        *Prog
	known    func(*ssa.Function) bool
	clos     map[*ssa.Function]*ssa.MakeClosure
	lits     map[*ssa.Function]bool // new named functions used as values
	must     bool                   // render only the conditions that hold on every path
	part     bool
	memo     map[atomKey][]Atom
	busy     map[atomKey]bool
	site     Guard
	siteF    *frame
	inArg    int
	hits     int
	choice   map[*ssa.Phi]ssa.Value // alternatives being rendered one by one
	pick     map[seenKey]content    // elements of local lists being rendered one by one
	types    map[string]bool        // struct types the confirmed tables know; nil while confirming them
	bundling int
}

type atomKey struct {
	c    ssa.Value
	pol  bool
	f    *frame
	must bool
	part bool
}

func newEval(p *Prog, known func(*ssa.Function) bool) *Eval {
	e := &Eval{pick: map[seenKey]content{}, choice: map[*ssa.Phi]ssa.Value{}, p: p, known: known, clos: map[*ssa.Function]*ssa.MakeClosure{}, memo: map[atomKey][]Atom{}, busy: map[atomKey]bool{}}
	for _, fn := range p.Funcs {
		p.eachInstr(fn, func(_ *ssa.Function, in ssa.Instruction) {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				if f, ok := mc.Fn.(*ssa.Function); ok {
					e.clos[f] = mc
				}
			}
		})
	}
	e.literals()
	return e
}

// literals finds the new named functions and methods that are used as values: they are function literals
// given a name.
func (e *Eval) literals() {
	e.lits = map[*ssa.Function]bool{}
	for _, fn := range e.p.Funcs {
		e.p.eachInstr(fn, func(_ *ssa.Function, in ssa.Instruction) {
			var rands []*ssa.Value
			for _, r := range in.Operands(rands) {
				if cf, _ := e.valueFunc(*r); cf != nil {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == *r {
						continue
					}
					e.lits[cf] = true
				}
			}
		})
	}
}

// valueFunc is the new named function or method, with its receiver, v denotes.
func (e *Eval) valueFunc(v ssa.Value) (*ssa.Function, ssa.Value) {
	var fn *ssa.Function
	var recv ssa.Value
	switch x := v.(type) {
	case *ssa.Function:
		fn = x
	case *ssa.MakeClosure:
		w, ok := x.Fn.(*ssa.Function)
		if !ok || w.Parent() != nil || len(x.Bindings) != 1 {
			return nil, nil
		}
		o, ok := w.Object().(*types.Func)
		if !ok {
			return nil, nil
		}
		fn, recv = e.p.SSA.FuncValue(o), x.Bindings[0]
	}
	if fn == nil || fn.Blocks == nil || fn.Parent() != nil || fn.Synthetic != "" || !e.p.inModule(fn) || e.known(fn) {
		return nil, nil
	}
	return fn, recv
}

// literalFn: fn is a function literal, or a new function used like one.
func (e *Eval) literalFn(fn *ssa.Function) bool {
	return fn.Parent() != nil || e.lits[fn]
}

type srcSet map[string]bool

func (s srcSet) list() []string {
	out := make([]string, 0, len(s))
	for k := range s {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type seenKey struct {
	v ssa.Value
	f *frame
}

func (e *Eval) src(v ssa.Value, f *frame) srcSet {
	out := srcSet{}
	e.collect(v, f, out, map[seenKey]bool{})
	return out
}

func constLeaf(c *ssa.Const) string {
	if c.Value == nil {
		return ""
	}
	t := typeName(c.Type())
	s := c.Value.ExactString()
	if c.Value.Kind() == constant.String {
		s = constant.StringVal(c.Value)
	}
	if t != "" && namedOf(c.Type()) != nil {
		return "K:" + s + ":" + t
	}
	if s == "" {
		return ""
	}
	return "K:" + s
}

func isZeroConst(c *ssa.Const) bool {
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value) == ""
	case constant.Int:
		return constant.Sign(c.Value) == 0
	case constant.Float:
		return constant.Sign(c.Value) == 0
	}
	return false
}

// isInduction: an integer carried around a loop and advanced by a constant (the phi, or the advanced value).
// wholeSlice is the slice that v is cut from at the position of an enclosing loop: going through
// xs[i+1:] is going through xs from the index i+1.
func wholeSlice(v ssa.Value) ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low == nil || s.High != nil || s.Max != nil || !fromInduction(s.Low) {
		return v
	}
	if _, ok := s.X.Type().Underlying().(*types.Slice); !ok {
		return v
	}
	return s.X
}

func fromInduction(v ssa.Value) bool {
	if isInduction(v) {
		return true
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
		return false
	}
	if _, k := b.Y.(*ssa.Const); !k {
		return false
	}
	return fromInduction(b.X)
}

func isInduction(v ssa.Value) bool {
	bt, ok := v.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	step := func(x ssa.Value) *ssa.Phi {
		b, ok := x.(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return nil
		}
		if _, k := b.Y.(*ssa.Const); !k {
			return nil
		}
		ph, _ := b.X.(*ssa.Phi)
		return ph
	}
	var start *ssa.Phi
	switch x := v.(type) {
	case *ssa.Phi:
		start = x
	case *ssa.BinOp:
		start = step(x)
	}
	if start == nil {
		return false
	}
	// the web of phis connected to start through phi edges and constant steps
	web := map[ssa.Value]bool{}
	steps := map[ssa.Value]bool{}
	work := []ssa.Value{start}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if web[w] {
			continue
		}
		web[w] = true
		for _, ed := range w.(*ssa.Phi).Edges {
			if ph, ok := ed.(*ssa.Phi); ok {
				work = append(work, ph)
			} else if ph := step(ed); ph != nil {
				steps[ed] = true
				work = append(work, ph)
			}
		}
	}
	adv := false
	for s := range steps {
		if web[s.(*ssa.BinOp).X] {
			adv = true
		}
	}
	if !adv {
		return false
	}
	if _, ok := v.(*ssa.BinOp); ok {
		return steps[v]
	}
	return true
}

func isPB(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	switch p {
	case modPath + "/grpc/federation", modPath + "/grpc/federation/generator/plugin", modPath + "/grpc/federation/cel", modPath + "/grpc/federation/cel/plugin":
		st := n.Obj().Name()
		_ = st
		ms := types.NewMethodSet(types.NewPointer(n))
		return ms.Lookup(n.Obj().Pkg(), "ProtoReflect") != nil
	}
	if strings.HasPrefix(p, "google.golang.org/") {
		ms := types.NewMethodSet(types.NewPointer(n))
		return ms.Lookup(n.Obj().Pkg(), "ProtoReflect") != nil
	}
	return false
}

func (e *Eval) paramLeaf(pm *ssa.Parameter) string {
	fn := pm.Parent()
	if e.literalFn(fn) {
		k := 0
		for _, q := range fn.Params {
			if q == pm {
				break
			}
			if types.Identical(q.Type(), pm.Type()) {
				k++
			}
		}
		return fmt.Sprintf("cp:%s#%d", typeStr(pm.Type()), k)
	}
	if fn.Signature.Recv() != nil && len(fn.Params) > 0 && fn.Params[0] == pm {
		return "R"
	}
	k := 0
	for _, q := range fn.Params {
		if q == pm {
			break
		}
		if fn.Signature.Recv() != nil && q == fn.Params[0] {
			continue
		}
		if types.Identical(q.Type(), pm.Type()) {
			k++
		}
	}
	return fmt.Sprintf("P:%s#%d", typeStr(pm.Type()), k)
}

// strip removes conversions that do not change identity.
func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// lookup resolves parameters of inlined frames and free variables of closures.
func (e *Eval) lookup(v ssa.Value, f *frame) (ssa.Value, *frame) {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			for g := f; g != nil; g = g.parent {
				if b, ok := g.bind[x]; ok {
					v, f = b, g.parent
					goto next
				}
			}
			return v, f
		case *ssa.FreeVar:
			mc := e.clos[x.Parent()]
			if mc == nil {
				return v, f
			}
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					v = mc.Bindings[i]
					goto next
				}
			}
			return v, f
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					if st := lastStore(al, x); st != nil {
						v = st.Val
						goto next
					}
				}
				if ia, ok := x.X.(*ssa.IndexAddr); ok && len(e.pick) > 0 && isInduction(ia.Index) {
					if c, ok := e.picked(ia.X, f); ok {
						v, f = c.val, c.f
						goto next
					}
				}
			}
			if vs, ok := e.bundled(x, f); ok && len(vs) == 1 {
				v, f = vs[0].v, vs[0].f
				goto next
			}
			return v, f
		case *ssa.Field:
			if vs, ok := e.bundled(x, f); ok && len(vs) == 1 {
				v, f = vs[0].v, vs[0].f
				goto next
			}
			return v, f
		case *ssa.Phi:
			if c, ok := e.choice[x]; ok {
				v = c
				goto next
			}
			return v, f
		default:
			return v, f
		}
	next:
	}
	return v, f
}

type cellStore struct {
	st *ssa.Store
	f  *frame
}

// cellStores lists the stores to a local cell; those made by a function literal that is only called are
// seen once per call, with its parameters bound.
func (e *Eval) cellStores(a ssa.Value, f *frame) []cellStore {
	var out []cellStore
	for _, st := range e.storeInstrs(a) {
		fn := st.Parent()
		if in, ok := a.(ssa.Instruction); ok && fn != in.Parent() && fn.Parent() == in.Parent() && !inFrames(fn, f) {
			if hs := e.callFrames(fn, f); len(hs) > 0 {
				for _, h := range hs {
					out = append(out, cellStore{st, h})
				}
				continue
			}
		}
		out = append(out, cellStore{st, f})
	}
	return out
}

// callFrames binds the parameters of a function literal at each of its calls in the function around it.
func (e *Eval) callFrames(fn *ssa.Function, f *frame) []*frame {
	mc := e.clos[fn]
	if mc == nil || mc.Referrers() == nil || depthOf(f) >= 6 {
		return nil
	}
	var out []*frame
	ok := true
	n := 0
	var uses func(v ssa.Value, h *frame)
	uses = func(v ssa.Value, h *frame) {
		if n++; v.Referrers() == nil || n > 50 {
			return
		}
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.Call:
				if y.Call.Value == v {
					if !inFrames(fn, h) {
						out = append(out, e.enter(y, target{fn: fn}, h))
					}
					continue
				}
				t := e.callee(&y.Call, h)
				if t == nil || t.recv != nil || t.fn == fn || !e.transparent(t.fn, h) {
					ok = false
					return
				}
				for i, a := range y.Call.Args {
					if a == v && i < len(t.fn.Params) {
						uses(t.fn.Params[i], e.enter(y, *t, h))
					}
				}
			case *ssa.Store:
				al, isA := y.Addr.(*ssa.Alloc)
				if !isA || y.Val != v {
					ok = false
					return
				}
				e.loads(al, func(l ssa.Value) { uses(l, h) })
			default:
				ok = false
			}
		}
	}
	uses(mc, f)
	if !ok {
		return nil
	}
	return out
}

// stores lists the values stored to address a (an Alloc), in its function and nested closures.
func (e *Eval) stores(a ssa.Value) []ssa.Value {
	var out []ssa.Value
	var walk func(x ssa.Value)
	seen := map[ssa.Value]bool{}
	walk = func(x ssa.Value) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.Referrers() == nil {
			return
		}
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == x {
					out = append(out, y.Val)
				}
			case *ssa.MakeClosure:
				cf, ok := y.Fn.(*ssa.Function)
				if !ok {
					continue
				}
				for i, b := range y.Bindings {
					if b == x && i < len(cf.FreeVars) {
						walk(cf.FreeVars[i])
					}
				}
			}
		}
	}
	walk(a)
	return out
}

// contents lists values put into a container created at v (array alloc, slice, map).
type content struct {
	val ssa.Value
	key ssa.Value
	at  ssa.Instruction
	f   *frame
}

func (e *Eval) contents(v ssa.Value, f *frame) []content {
	var out []content
	seen := map[seenKey]bool{}
	var walkF func(x ssa.Value, f *frame)
	walkF = func(x ssa.Value, f *frame) {
		walk := func(x ssa.Value) { walkF(x, f) }
		if x == nil || seen[seenKey{x, f}] || x.Referrers() == nil {
			return
		}
		seen[seenKey{x, f}] = true
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				if y.X == x {
					for _, s := range *y.Referrers() {
						if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
							out = append(out, content{val: st.Val, at: st, f: f})
						}
						// element structs filled field by field
						if fa, ok := s.(*ssa.FieldAddr); ok {
							for _, s2 := range *fa.Referrers() {
								if st, ok := s2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
									out = append(out, content{val: st.Val, at: st, f: f})
								}
							}
						}
					}
				}
			case *ssa.MapUpdate:
				if y.Map == x {
					out = append(out, content{val: y.Value, key: y.Key, at: y, f: f})
				}
			case *ssa.Slice:
				walk(y)
			case *ssa.Phi:
				if _, ok := x.Type().Underlying().(*types.Basic); !ok {
					walk(y)
				}
			case *ssa.Store:
				if al, ok := x.(*ssa.Alloc); ok && y.Addr == x {
					if _, arr := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); arr {
						out = append(out, content{val: y.Val, at: y, f: f}) // the array as a whole
					}
				}
				// stored into a local variable cell: follow loads of the cell
				if y.Val == x {
					if al, ok := y.Addr.(*ssa.Alloc); ok {
						e.loads(al, func(l ssa.Value) {
							if fn := l.(ssa.Instruction).Parent(); fn != al.Parent() && fn.Parent() == al.Parent() && !inFrames(fn, f) {
								if hs := e.callFrames(fn, f); len(hs) > 0 {
									for _, h := range hs {
										walkF(l, h)
									}
									return
								}
							}
							walk(l)
						})
					}
				}
			case *ssa.ChangeType:
				walk(y)
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && len(y.Call.Args) == 2 && y.Call.Args[0] == x {
					out = append(out, content{val: y.Call.Args[1], at: y, f: f})
				} else if isMapsCopy(&y.Call) && y.Call.Args[0] == x {
					out = append(out, content{val: y.Call.Args[1], at: y, f: f})
				} else if t := e.callee(&y.Call, f); t != nil && e.transparent(t.fn, f) {
					g := e.enter(y, *t, f)
					for i, a := range g.args() {
						if a == x && i < len(t.fn.Params) {
							walkF(t.fn.Params[i], g)
						}
					}
				}
			}
		}
	}
	walkF(v, f)
	return out
}

func (e *Eval) loads(a ssa.Value, f func(ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var walk func(x ssa.Value)
	walk = func(x ssa.Value) {
		if seen[x] || x.Referrers() == nil {
			return
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.UnOp:
				if y.Op == token.MUL {
					f(y)
				}
			case *ssa.MakeClosure:
				cf, ok := y.Fn.(*ssa.Function)
				if !ok {
					continue
				}
				for i, b := range y.Bindings {
					if b == x && i < len(cf.FreeVars) {
						walk(cf.FreeVars[i])
					}
				}
			}
		}
	}
	walk(a)
}

func fieldOf(x ssa.Value) (base ssa.Value, st types.Type, idx int, ok bool) {
	switch y := x.(type) {
	case *ssa.FieldAddr:
		return y.X, y.X.Type(), y.Field, true
	case *ssa.Field:
		return y.X, y.X.Type(), y.Field, true
	}
	return nil, nil, 0, false
}

func structOf(t types.Type) *types.Struct {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldName(t types.Type, idx int) string {
	s := structOf(t)
	n := typeName(t)
	if n == "" {
		n = "anon"
	}
	if s == nil || idx >= s.NumFields() {
		return n + ".?"
	}
	return n + "." + s.Field(idx).Name()
}

// fieldLeaf renders a field read, with the parameter it is read from when that is direct.
func (e *Eval) fieldLeaf(x ssa.Value, f *frame) string {
	base, t, idx, _ := fieldOf(x)
	return "F:" + fieldName(t, idx) + e.baseTag(base, f)
}

func (e *Eval) baseTag(base ssa.Value, f *frame) string {
	b, bf := e.lookup(strip(base), f)
	if u, ok := b.(*ssa.UnOp); ok && u.Op == token.MUL {
		// load of a captured/spilled variable holding a parameter
		a, _ := e.lookup(u.X, bf)
		if al, ok := a.(*ssa.Alloc); ok {
			st := e.stores(al)
			if len(st) == 1 {
				b, bf = e.lookup(strip(st[0]), bf)
			}
		}
	}
	if al, ok := b.(*ssa.Alloc); ok {
		if st := e.stores(al); len(st) == 1 {
			if pm, ok := st[0].(*ssa.Parameter); ok {
				b, _ = e.lookup(pm, bf)
			}
		}
	}
	if u, ok := b.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			ix, _ := e.lookup(ia.Index, bf)
			if pm, ok := ix.(*ssa.Parameter); ok {
				if l := e.paramLeaf(pm); !strings.HasSuffix(l, "#0") {
					return "@[" + l + "]"
				}
			}
		}
	}
	if ia, ok := b.(*ssa.IndexAddr); ok {
		ix, _ := e.lookup(ia.Index, bf)
		if pm, ok := ix.(*ssa.Parameter); ok {
			if l := e.paramLeaf(pm); !strings.HasSuffix(l, "#0") {
				return "@[" + l + "]"
			}
		}
	}
	if pm, ok := b.(*ssa.Parameter); ok {
		l := e.paramLeaf(pm)
		if l == "R" || strings.HasSuffix(l, "#0") {
			// only the second and later parameter of a type needs telling apart
			return ""
		}
		return "@" + l
	}
	return ""
}

func (e *Eval) collect(v ssa.Value, f *frame, out srcSet, seen map[seenKey]bool) {
	v, f = e.lookup(v, f)
	k := seenKey{v, f}
	if seen[k] {
		return
	}
	seen[k] = true
	rec := func(x ssa.Value) { e.collect(x, f, out, seen) }
	switch x := v.(type) {
	case *ssa.Const:
		if l := constLeaf(x); l != "" {
			out[l] = true
		}
	case *ssa.Parameter:
		out[e.paramLeaf(x)] = true
	case *ssa.FreeVar:
		out["fv:"+typeStr(x.Type())] = true
	case *ssa.Global:
		out["V:"+qual(x.Pkg.Pkg)+"."+x.Name()] = true
	case *ssa.Function:
		if e.literalFn(x) {
			out["closure"] = true
		} else if x.Object() != nil || x.Synthetic == "" {
			out["FN:"+fname(x)] = true
		} else {
			out["FN:"+x.Name()] = true
		}
	case *ssa.MakeClosure:
		if cf, _ := e.valueFunc(x); cf != nil {
			out["closure"] = true
			return
		}
		if fn, ok := x.Fn.(*ssa.Function); ok && fn.Synthetic != "" {
			// bound method value
			out["FN:"+strings.TrimSuffix(fn.Name(), "$bound")] = true
			for _, b := range x.Bindings {
				rec(b)
			}
			return
		}
		out["closure"] = true
	case *ssa.Builtin:
		out["builtin."+x.Name()] = true
	case *ssa.Field:
		if vs, ok := e.bundled(x, f); ok {
			for _, b := range vs {
				if k, ok := b.v.(*ssa.Const); ok && isZeroConst(k) {
					continue
				}
				e.collect(b.v, b.f, out, seen)
			}
			return
		}
		out[e.fieldLeaf(x, f)] = true
	case *ssa.FieldAddr:
		out[e.fieldLeaf(x, f)] = true
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if vs, ok := e.bundled(x, f); ok {
				for _, b := range vs {
					if k, ok := b.v.(*ssa.Const); ok && isZeroConst(k) {
						continue
					}
					e.collect(b.v, b.f, out, seen)
				}
				return
			}
			a, af := e.lookup(x.X, f)
			if al, ok := a.(*ssa.Alloc); ok {
				if st := lastStore(al, x); st != nil {
					e.collect(st.Val, af, out, seen)
					return
				}
				e.allocValue(al, af, out, seen)
				return
			}
			rec(x.X)
		case token.ARROW:
			if bs, ok := e.sent(x.X, f); ok {
				for _, b := range bs {
					e.collect(b.v, b.f, out, seen)
				}
				return
			}
			out["op:recv"] = true
			rec(x.X)
		default:
			out["op:"+x.Op.String()] = true
			rec(x.X)
		}
	case *ssa.BinOp:
		if isInduction(x) {
			out["iter"] = true
			return
		}
		if x.Op == token.ADD && isString(x.Type()) {
			ps, _ := e.pieces(x, f, 0)
			e.collectText(ps, out, seen)
			return
		}
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			out["op:cmp"] = true
		case token.EQL, token.NEQ:
			out["op:eq"] = true
		default:
			out["op:"+x.Op.String()] = true
		}
		rec(x.X)
		rec(x.Y)
	case *ssa.Phi:
		if isInduction(x) {
			out["iter"] = true
			return
		}
		for i, ed := range x.Edges {
			if c, ok := ed.(*ssa.Const); ok && isZeroConst(c) || !e.p.liveEdge(x.Block(), i) {
				continue
			}
			rec(ed)
		}
	case *ssa.Call:
		e.callSrc(x, 0, f, out, seen)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			e.callSrc(t, x.Index, f, out, seen)
		case *ssa.Next:
			if t.IsString {
				rec(t.Iter)
				return
			}
			if x.Index == 1 {
				out["key"] = true
			}
			rec(t.Iter)
		case *ssa.Select:
			if ch := selected(t, x.Index); ch != nil {
				if bs, ok := e.sent(ch, f); ok {
					for _, b := range bs {
						e.collect(b.v, b.f, out, seen)
					}
					return
				}
				out["op:recv"] = true
				rec(ch)
				return
			}
			out["select"] = true
			for _, s := range t.States {
				if s.Dir == types.RecvOnly {
					rec(s.Chan)
				}
			}
		default:
			if t, ok := x.Tuple.(ssa.Value); ok {
				rec(t)
			}
		}
	case *ssa.Range:
		rec(x.X)
	case *ssa.Next:
		rec(x.Iter)
	case *ssa.Lookup:
		rec(x.X)
		if !isInduction(x.Index) {
			rec(x.Index)
		}
	case *ssa.Index:
		rec(x.X)
		if !isInduction(x.Index) {
			rec(x.Index)
		}
	case *ssa.IndexAddr:
		if isInduction(x.Index) {
			rec(wholeSlice(x.X))
		} else {
			rec(x.X)
		}
		if !isInduction(x.Index) {
			rec(x.Index)
		}
	case *ssa.Slice:
		rec(x.X)
		for _, b := range []ssa.Value{x.Low, x.High} {
			if b != nil {
				if c, ok := b.(*ssa.Const); ok && isZeroConst(c) {
					continue
				}
				out["op:slice"] = true
				rec(b)
			}
		}
	case *ssa.MakeInterface:
		rec(x.X)
	case *ssa.ChangeInterface:
		rec(x.X)
	case *ssa.ChangeType:
		rec(x.X)
	case *ssa.Convert:
		rec(x.X)
	case *ssa.MultiConvert:
		rec(x.X)
	case *ssa.SliceToArrayPointer:
		rec(x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			out["as:"+typeStr(x.AssertedType)] = true
		}
		rec(x.X)
	case *ssa.Alloc:
		e.allocSelf(x, f, out, seen)
	case *ssa.MakeSlice, *ssa.MakeMap:
		for _, c := range e.contents(x.(ssa.Value), f) {
			if c.key != nil {
				e.collect(c.key, c.f, out, seen)
			}
			e.collect(c.val, c.f, out, seen)
		}
	case *ssa.MakeChan:
		out["chan"] = true
	case *ssa.Select:
		out["select"] = true
	default:
		out[fmt.Sprintf("?%T", v)] = true
	}
}

// allocValue: the value held by a local cell.
func (e *Eval) allocValue(al *ssa.Alloc, f *frame, out srcSet, seen map[seenKey]bool) {
	st := e.cellStores(al, f)
	if len(st) == 0 {
		e.allocSelf(al, f, out, seen)
		return
	}
	for _, s := range st {
		if c, ok := s.st.Val.(*ssa.Const); ok && isZeroConst(c) {
			continue
		}
		e.collect(s.st.Val, s.f, out, seen)
	}
}

func (e *Eval) allocSelf(al *ssa.Alloc, f *frame, out srcSet, seen map[seenKey]bool) {
	el := al.Type().Underlying().(*types.Pointer).Elem()
	if structOf(el) != nil {
		st := e.stores(al)
		if len(st) > 0 {
			for _, s := range st {
				e.collect(s, f, out, seen)
			}
			if _, ok := el.Underlying().(*types.Struct); !ok {
				return
			}
		}
		if e.types != nil && e.bundle(el) {
			for i := 0; i < structOf(el).NumFields(); i++ {
				if vs, ok := e.fieldValues(al, i, f); ok {
					for _, b := range vs {
						if k, ok := b.v.(*ssa.Const); ok && isZeroConst(k) {
							continue
						}
						e.collect(b.v, b.f, out, seen)
					}
				}
			}
			return
		}
		n := typeName(el)
		if n == "" {
			n = "anon"
		}
		out["N:"+n] = true
		return
	}
	if _, ok := el.Underlying().(*types.Array); ok {
		for _, c := range e.contents(al, f) {
			e.collect(c.val, c.f, out, seen)
		}
		return
	}
	for _, s := range e.stores(al) {
		e.collect(s, f, out, seen)
	}
}

func (e *Eval) transparent(fn *ssa.Function, f *frame) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	if fn.Parent() != nil {
		return !inFrames(fn, f) && depthOf(f) < 6
	}
	if !e.p.inModule(fn) || e.known(fn) {
		return false
	}
	return !inFrames(fn, f) && depthOf(f) < 6
}

func inFrames(fn *ssa.Function, f *frame) bool {
	for g := f; g != nil; g = g.parent {
		if g.fn == fn {
			return true
		}
	}
	return false
}

func depthOf(f *frame) int {
	if f == nil {
		return 0
	}
	return f.depth
}

func (e *Eval) enter(call ssa.CallInstruction, t target, f *frame) *frame {
	fn := t.fn
	g := &frame{fn: fn, bind: map[*ssa.Parameter]ssa.Value{}, parent: f, depth: depthOf(f) + 1, site: call}
	args := call.Common().Args
	if t.recv != nil {
		args = append([]ssa.Value{t.recv}, args...)
	}
	for i, pm := range fn.Params {
		if i < len(args) {
			g.bind[pm] = args[i]
		}
	}
	return g
}

func (e *Eval) callSrc(c *ssa.Call, idx int, f *frame, out srcSet, seen map[seenKey]bool) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() != "append" {
			out["op:"+b.Name()] = true
		}
		for _, a := range cc.Args {
			e.collect(a, f, out, seen)
		}
		return
	}
	ts := e.targets(cc, f)
	for _, t := range ts {
		if !e.transparent(t.fn, f) {
			e.callLeaf(c, &t, idx, f, out, seen)
			continue
		}
		callee := t.fn
		g := e.enter(c, t, f)
		for _, b := range callee.Blocks {
			if !e.p.live(callee)[b] {
				continue
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				if k, ok := r.Results[idx].(*ssa.Const); ok && isZeroConst(k) {
					continue
				}
				e.collect(r.Results[idx], g, out, seen)
			}
		}
	}
	if len(ts) == 0 {
		e.callLeaf(c, nil, idx, f, out, seen)
	}
}

func (g *frame) args() []ssa.Value {
	var out []ssa.Value
	for _, pm := range g.fn.Params {
		out = append(out, g.bind[pm])
	}
	return out
}

// callLeaf renders a call that is not substituted.
func (e *Eval) callLeaf(c *ssa.Call, t *target, idx int, f *frame, out srcSet, seen map[seenKey]bool) {
	cc := c.Common()
	o := calleeObj(cc)
	if o != nil && len(cc.Args) <= 1 {
		var recv ssa.Value
		if cc.IsInvoke() {
			recv = cc.Value
		} else if len(cc.Args) == 1 && o.Type().(*types.Signature).Recv() != nil {
			recv = cc.Args[0]
		}
		if recv != nil && strings.HasPrefix(o.Name(), "Get") && isPB(recv.Type()) && !cc.IsInvoke() {
			n := typeName(recv.Type())
			out["F:"+n+"."+strings.TrimPrefix(o.Name(), "Get")+e.baseTag(recv, f)] = true
			return
		}
	}
	name := targetName(cc, t)
	if name == "fmt.Sprintf" || name == "strconv.Quote" || name == "encoding/hex.EncodeToString" {
		if ps, ok := e.pieces(c, f, 0); ok {
			e.collectText(ps, out, seen)
			return
		}
	} else if at, ok := printfLike(cc); ok {
		if ps, ok := e.formatted(cc, at, f, 0); ok {
			out["C:"+name] = true
			if cc.IsInvoke() {
				e.collect(cc.Value, f, out, seen)
			}
			for _, a := range cc.Args[:at] {
				if !isCtxType(a.Type()) {
					e.collect(a, f, out, seen)
				}
			}
			e.collectText(ps, out, seen)
			return
		}
	}
	if t != nil && t.recv != nil {
		e.collect(t.recv, f, out, seen)
	}
	if name == "dynamic" || name == "closure" {
		out["dyn"] = true
		e.collect(cc.Value, f, out, seen)
	} else {
		l := "C:" + name
		if idx > 0 {
			l += fmt.Sprintf("#%d", idx)
		}
		out[l] = true
	}
	if cc.IsInvoke() {
		e.collect(cc.Value, f, out, seen)
	}
	for _, a := range cc.Args {
		if isCtxType(a.Type()) {
			continue
		}
		e.collect(a, f, out, seen)
	}
	// arguments that could be exchanged without the compiler noticing are told apart by position
	if e.inArg > 0 {
		return
	}
	args := e.argList(cc, f)
	for i, a := range args {
		twin := false
		for j, b := range args {
			if i != j && a.t == b.t {
				twin = true
			}
		}
		if !twin {
			continue
		}
		s := srcSet{}
		e.inArg++
		for _, v := range a.vs {
			e.collect(v.v, v.f, s, map[seenKey]bool{})
		}
		e.inArg--
		for l := range s {
			if !strings.HasPrefix(l, "A:") {
				out[fmt.Sprintf("A:%s#%d<%s", name, i, l)] = true
			}
		}
	}
}

func targetName(cc *ssa.CallCommon, t *target) string {
	if t == nil || cc.StaticCallee() == t.fn {
		return calleeName(cc)
	}
	if t.fn.Parent() != nil {
		return "closure"
	}
	return fname(t.fn)
}

type argVal struct {
	v ssa.Value
	f *frame
}

type argSlot struct {
	t  string
	vs []argVal
}

// argList is the argument list of a call, a literal variadic tail included element by element.
func (e *Eval) argList(cc *ssa.CallCommon, f *frame) []argSlot {
	var out []argSlot
	for i, a := range cc.Args {
		if isCtxType(a.Type()) {
			continue
		}
		if i == len(cc.Args)-1 && cc.Signature().Variadic() {
			if sl, ok := a.(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					el := map[int64][]argVal{}
					n := int64(0)
					for _, r := range *al.Referrers() {
						ia, ok := r.(*ssa.IndexAddr)
						if !ok {
							continue
						}
						k, ok := intConst(ia.Index)
						if !ok {
							continue
						}
						if k >= n {
							n = k + 1
						}
						for _, s := range *ia.Referrers() {
							if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
								el[k] = append(el[k], argVal{st.Val, f})
							}
						}
					}
					t := typeStr(al.Type())
					for k := int64(0); k < n; k++ {
						out = append(out, argSlot{t, el[k]})
					}
					continue
				}
			}
		}
		v, g := e.lookup(a, f)
		out = append(out, argSlot{typeStr(a.Type()), []argVal{{v, g}}})
	}
	return out
}

// target is a function a call may reach, with the receiver a method value was bound to.
type target struct {
	fn   *ssa.Function
	recv ssa.Value
	in   *frame // where the choice of this target is made
	at   *ssa.BasicBlock
	edge int // incoming edge of at, or -1
}

// callee resolves the called function when there is only one.
func (e *Eval) callee(cc *ssa.CallCommon, f *frame) *target {
	ts := e.targets(cc, f)
	if len(ts) != 1 {
		return nil
	}
	return &ts[0]
}

// targets resolves a call through parameters, captured variables, method values and local tables of functions.
func (e *Eval) targets(cc *ssa.CallCommon, f *frame) []target {
	if cc.IsInvoke() {
		return nil
	}
	if fn := cc.StaticCallee(); fn != nil && fn.Synthetic == "" {
		return []target{{fn: fn, edge: -1}}
	} else if fn != nil && origin(fn) != fn {
		return []target{{fn: fn, edge: -1}}
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []target
	if !e.fnValues(cc.Value, f, map[ssa.Value]bool{}, target{edge: -1}, &out) {
		return nil
	}
	return out
}

// fnValues lists the functions v may be; false when it may be something else.
func (e *Eval) fnValues(v ssa.Value, f *frame, seen map[ssa.Value]bool, t target, out *[]target) bool {
	v, f = e.lookup(v, f)
	v = strip(v)
	if seen[v] || len(seen) > 40 {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Function:
		t.fn = x
		*out = append(*out, t)
		return true
	case *ssa.MakeClosure:
		fn, ok := x.Fn.(*ssa.Function)
		if !ok {
			return false
		}
		if fn.Parent() != nil {
			t.fn = fn
			*out = append(*out, t)
			return true
		}
		if o, ok := fn.Object().(*types.Func); ok && len(x.Bindings) == 1 {
			if m := e.p.SSA.FuncValue(o); m != nil {
				t.fn, t.recv = m, x.Bindings[0]
				*out = append(*out, t)
				return true
			}
		}
		return false
	case *ssa.Phi:
		for i, ed := range x.Edges {
			if !e.p.liveEdge(x.Block(), i) {
				continue
			}
			n := t
			if t.at == nil {
				n.in, n.at, n.edge = f, x.Block(), i
			}
			if !e.fnValues(ed, f, seen, n, out) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		a, af := e.lookup(x.X, f)
		switch y := a.(type) {
		case *ssa.Alloc:
			sts := e.storeInstrs(y)
			for _, st := range sts {
				n := t
				if t.at == nil && len(sts) > 1 {
					n.in, n.at, n.edge = af, st.Block(), -1
				}
				if !e.fnValues(st.Val, af, seen, n, out) {
					return false
				}
			}
			return len(sts) > 0
		case *ssa.IndexAddr:
			b, bf := e.lookup(y.X, af)
			if sl, ok := b.(*ssa.Slice); ok {
				b, bf = e.lookup(sl.X, bf)
			}
			if al, ok := b.(*ssa.Alloc); ok {
				cs := e.contents(al, bf)
				for _, c := range cs {
					if !e.fnValues(c.val, c.f, seen, t, out) {
						return false
					}
				}
				return len(cs) > 0
			}
		}
	}
	return false
}

// via is the guard under which target t is the one called.
func (e *Eval) via(t target) Guard {
	if t.at == nil {
		return Guard{}
	}
	if t.edge >= 0 {
		return e.edgeGuard(t.at, t.edge, t.in)
	}
	return e.guardOf(t.at, t.in)
}

func isMapsCopy(cc *ssa.CallCommon) bool {
	o := calleeObj(cc)
	return o != nil && o.Pkg() != nil && o.FullName() == "maps.Copy" && len(cc.Args) == 2
}
