package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mercari/grpc-federation"

// Prog is the loaded, type-checked and SSA-converted module under analysis.
type Prog struct {
	Root     string
	Pkgs     []*packages.Package
	ByPath   map[string]*packages.Package
	SSA      *ssa.Program
	SSAPkg   map[string]*ssa.Package
	Funcs    []*ssa.Function // named source functions of the module (not closures, not synthetic)
	ByName   map[string]*ssa.Function
	pcMemo   map[*ssa.Function]*pathConds
	Fset     *token.FileSet
	cg       *callGraph
	lk       *lockAnalysis
	tm       *tmplSet
	Overlay  map[string][]byte
	callers  map[*ssa.Function][]ssa.CallInstruction
	addrTkn  map[*ssa.Function]bool
	cd       map[*ssa.Function]*ctrlDep
	dom      map[*ssa.Function]*pdom
	impls    map[string][]*ssa.Function
	liveMemo map[*ssa.Function]map[*ssa.BasicBlock]bool
}

func loadProg(root string, overlay map[string][]byte) (*Prog, error) {
	env := os.Environ()
	cfg := &packages.Config{
		Mode:       packages.LoadSyntax | packages.NeedModule,
		Dir:        root,
		Env:        env,
		BuildFlags: []string{"-mod=readonly"},
		Overlay:    overlay,
		Tests:      false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", root)
	}
	var bad []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	}
	if len(bad) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(bad, "; "))
	}
	sp, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	p := &Prog{Overlay: overlay,
		Root: root, Pkgs: pkgs, ByPath: map[string]*packages.Package{}, SSA: sp, SSAPkg: map[string]*ssa.Package{},
		ByName: map[string]*ssa.Function{}, cd: map[*ssa.Function]*ctrlDep{}, dom: map[*ssa.Function]*pdom{}, liveMemo: map[*ssa.Function]map[*ssa.BasicBlock]bool{},
	}
	for i, pk := range pkgs {
		p.ByPath[pk.PkgPath] = pk
		p.SSAPkg[pk.PkgPath] = spkgs[i]
		p.Fset = pk.Fset
	}
	for fn := range ssautil.AllFunctions(sp) {
		if fn.Blocks == nil || !p.inModule(fn) {
			continue
		}
		if fn.Parent() != nil || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance of") && fn.Synthetic != "package initializer" {
			continue
		}
		if fn.TypeParams() != nil && fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue // generic template; instances are analysed... keep origin only when no instance exists
		}
		p.Funcs = append(p.Funcs, fn)
	}
	// generic functions without an instance: analyse the origin.
	for fn := range ssautil.AllFunctions(sp) {
		if fn.Blocks == nil || !p.inModule(fn) || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if fn.TypeParams() != nil && fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, fn := range p.Funcs {
		n := fname(fn)
		if _, ok := p.ByName[n]; !ok || len(fn.TypeArgs()) == 0 {
			p.ByName[n] = fn
		}
	}
	p.index()
	return p, nil
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && p.ByPath[pk.Path()] != nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func shortPkg(path string) string {
	if path == modPath {
		return "."
	}
	return strings.TrimPrefix(path, modPath+"/")
}

func qual(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	return shortPkg(pk.Path())
}

func typeStr(t types.Type) string { return types.TypeString(t, qual) }

// fname is the stable name of a function: package-relative, receiver type without pointer,
// closures are named after their outermost function.
func fname(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return objName(f)
		}
	}
	pk := fnPkg(fn)
	if pk != nil {
		return shortPkg(pk.Path()) + "." + fn.Name()
	}
	return fn.String()
}

func objName(f *types.Func) string {
	f = f.Origin()
	pk := ""
	if f.Pkg() != nil {
		pk = shortPkg(f.Pkg().Path())
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return pk + ".(" + recvName(r.Type()) + ")." + f.Name()
	}
	return pk + "." + f.Name()
}

func recvName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return typeStr(t)
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	for {
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
			continue
		}
		break
	}
	n, _ := t.(*types.Named)
	return n
}

// typeName of a (pointer to) named type as pkg.Name, or "" for unnamed types.
func typeName(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.Fset.Position(ps)
	rel, err := filepath.Rel(p.Root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// instrPos finds a usable position for an instruction.
func (p *Prog) ipos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		if v.Pos().IsValid() {
			return p.pos(v.Pos())
		}
	}
	var rands []*ssa.Value
	rands = in.Operands(rands)
	for _, r := range rands {
		if *r != nil && (*r).Pos().IsValid() {
			return p.pos((*r).Pos())
		}
	}
	b := in.Block()
	if b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return p.pos(i.Pos())
			}
		}
		return p.pos(b.Parent().Pos())
	}
	return "-"
}

// index builds the static call index.
func (p *Prog) index() {
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	p.addrTkn = map[*ssa.Function]bool{}
	p.impls = map[string][]*ssa.Function{}
	for _, fn := range p.Funcs {
		if fn.Signature.Recv() != nil {
			p.impls[fn.Name()] = append(p.impls[fn.Name()], fn)
		}
		p.eachInstr(fn, func(f *ssa.Function, in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if callee := c.Common().StaticCallee(); callee != nil {
					p.callers[origin(callee)] = append(p.callers[origin(callee)], c)
				}
			}
			var rands []*ssa.Value
			for i, r := range in.Operands(rands) {
				if *r == nil {
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok && i == 0 && !c.Common().IsInvoke() {
					continue
				}
				if f2, ok := (*r).(*ssa.Function); ok {
					p.addrTkn[origin(f2)] = true
				}
			}
		})
	}
}

func origin(fn *ssa.Function) *ssa.Function {
	if fn.Origin() != nil {
		return fn.Origin()
	}
	return fn
}

// eachInstr visits all instructions of fn and of the closures nested in it.
func (p *Prog) eachInstr(fn *ssa.Function, f func(*ssa.Function, ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(fn, in)
		}
	}
	for _, a := range fn.AnonFuncs {
		p.eachInstr(a, f)
	}
}

// withAnon lists fn and all closures nested in it.
func withAnon(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		out = append(out, withAnon(a)...)
	}
	return out
}

func root(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool {
	if types.Identical(t, errorType) {
		return true
	}
	if types.IsInterface(t) {
		return types.Implements(t, errorType.Underlying().(*types.Interface))
	}
	if p, ok := t.(*types.Pointer); ok {
		if n := namedOf(p); n != nil && strings.HasSuffix(n.Obj().Name(), "Error") {
			return types.Implements(t, errorType.Underlying().(*types.Interface))
		}
	}
	return false
}

func isCtxType(t types.Type) bool { return typeName(t) == "context.Context" }

// calleeObj resolves the called function object (static or interface method), or nil.
func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f := c.StaticCallee(); f != nil {
		f = origin(f)
		if o, ok := f.Object().(*types.Func); ok {
			return o.Origin()
		}
	}
	return nil
}

// calleeName names the callee (objName), "builtin.x", "closure" or "dynamic".
func calleeName(c *ssa.CallCommon) string {
	if o := calleeObj(c); o != nil {
		return objName(o)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if f.Parent() != nil {
			return "closure"
		}
		return fname(f)
	}
	return "dynamic"
}
