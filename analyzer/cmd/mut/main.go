// Command mut makes behaviour-preserving rewrites (refactor) and behaviour-changing mutants (mutate) of the
// module under analysis as overlay files. It is a development aid: it is how the checks were measured.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type edit struct {
	pos, end int
	text     string
}

type fileCtx struct {
	pkg   *packages.Package
	file  *ast.File
	src   []byte
	name  string
	edits []edit
	extra string
	n     int
}

func (c *fileCtx) off(p token.Pos) int { return c.pkg.Fset.Position(p).Offset }
func (c *fileCtx) text(n ast.Node) string {
	return string(c.src[c.off(n.Pos()):c.off(n.End())])
}
func (c *fileCtx) span(a, b token.Pos) string { return string(c.src[c.off(a):c.off(b)]) }
func (c *fileCtx) rep(n ast.Node, s string)    { c.repSpan(n.Pos(), n.End(), s) }
func (c *fileCtx) repSpan(a, b token.Pos, s string) {
	e := edit{c.off(a), c.off(b), s}
	for _, o := range c.edits {
		if e.pos < o.end && o.pos < e.end {
			return // overlapping: first wins
		}
	}
	c.edits = append(c.edits, e)
	c.n++
}

func apply(src []byte, edits []edit) []byte {
	sort.Slice(edits, func(i, j int) bool { return edits[i].pos > edits[j].pos })
	out := append([]byte{}, src...)
	for _, e := range edits {
		out = append(out[:e.pos:e.pos], append([]byte(e.text), out[e.end:]...)...)
	}
	return out
}

func load(root string) []*packages.Package {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: root, BuildFlags: []string{"-mod=readonly"}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	return pkgs
}

func main() {
	root := "/repo"
	if r := os.Getenv("AN_REPO"); r != "" {
		root = r
	}
	pkgs := load(root)
	switch os.Args[1] {
	case "refactor":
		kind, out := os.Args[2], os.Args[3]
		os.MkdirAll(out, 0o755)
		ov := map[string]string{}
		total := 0
		for _, f := range files(pkgs, root) {
			refactor(kind, f)
			if len(f.edits) == 0 {
				continue
			}
			total += f.n
			body := append(apply(f.src, f.edits), []byte(f.extra)...)
			p := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f.name, root+"/"), "/", "__"))
			os.WriteFile(p, body, 0o644)
			ov[f.name] = p
		}
		b, _ := json.MarshalIndent(ov, "", " ")
		os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
		fmt.Println(kind, total, "sites")
	case "mutate":
		// mutate OUT SEED COUNT [filter]
		mutate(pkgs, root)
	}
}

func files(pkgs []*packages.Package, root string) []*fileCtx {
	var out []*fileCtx
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if strings.HasSuffix(name, ".pb.go") || strings.Contains(name, "testutil") || !strings.HasPrefix(name, root) {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			out = append(out, &fileCtx{pkg: p, file: f, src: src, name: name})
		}
	}
	return out
}

func hasJump(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			found = true
		}
		return true
	})
	return found
}

var counter int

func fresh(s string) string { counter++; return fmt.Sprintf("%s%d", s, counter) }

func neg(c *fileCtx, e ast.Expr) string { return "!(" + c.text(e) + ")" }

func refactor(kind string, c *fileCtx) {
	info := c.pkg.TypesInfo
	astutil.Apply(c.file, nil, func(cur *astutil.Cursor) bool {
		n := cur.Node()
		switch kind {
		case "invertif":
			if s, ok := n.(*ast.IfStmt); ok && s.Else != nil {
				if eb, ok := s.Else.(*ast.BlockStmt); ok && !innerEdit(c, s) {
					c.repSpan(s.Cond.Pos(), s.End(), neg(c, s.Cond)+" "+c.text(eb)+" else "+c.text(s.Body))
				}
			}
		case "continue2nest":
			if b, ok := n.(*ast.BlockStmt); ok {
				if _, ok := cur.Parent().(*ast.RangeStmt); ok {
					for i, st := range b.List {
						if s, ok := st.(*ast.IfStmt); ok && s.Else == nil && s.Init == nil && len(s.Body.List) == 1 && i+1 < len(b.List) {
							if br, ok := s.Body.List[0].(*ast.BranchStmt); ok && br.Tok == token.CONTINUE && br.Label == nil {
								c.repSpan(s.Pos(), b.List[len(b.List)-1].End(), "if "+neg(c, s.Cond)+" {\n"+c.span(b.List[i+1].Pos(), b.List[len(b.List)-1].End())+"\n}")
								return true
							}
						}
					}
				}
			}
		case "nest2continue":
			if b, ok := n.(*ast.BlockStmt); ok && len(b.List) > 0 {
				if _, ok := cur.Parent().(*ast.RangeStmt); ok {
					if s, ok := b.List[len(b.List)-1].(*ast.IfStmt); ok && s.Else == nil && s.Init == nil {
						c.rep(s, "if "+neg(c, s.Cond)+" {\ncontinue\n}\n"+c.span(s.Body.Lbrace+1, s.Body.Rbrace))
					}
				}
			}
		case "range2index":
			if s, ok := n.(*ast.RangeStmt); ok && s.Tok == token.DEFINE && s.Value != nil {
				t := info.TypeOf(s.X)
				if _, ok := t.Underlying().(*types.Slice); ok {
					xs := fresh("xs")
					k := c.text(s.Key)
					i := k
					if k == "_" {
						i = fresh("i")
					}
					v := c.text(s.Value)
					if _, ok := cur.Parent().(*ast.LabeledStmt); ok {
						return true
					}
					if v == "_" {
						return true
					}
					c.repSpan(s.Pos(), s.Body.Lbrace+1, xs+" := "+c.text(s.X)+"\nfor "+i+" := 0; "+i+" < len("+xs+"); "+i+"++ {\n"+v+" := "+xs+"["+i+"]\n{\n")
					c.repSpan(s.Body.Rbrace, s.Body.Rbrace+1, "}}")
				}
			}
		case "condtemp":
			if s, ok := n.(*ast.IfStmt); ok && s.Init == nil {
				if _, ok := cur.Parent().(*ast.BlockStmt); ok {
					t := fresh("cond")
					c.repSpan(s.Pos(), s.Cond.End(), t+" := "+c.text(s.Cond)+"\nif "+t)
				}
			}
		case "splitand":
			if s, ok := n.(*ast.IfStmt); ok && s.Else == nil && s.Init == nil {
				if be, ok := s.Cond.(*ast.BinaryExpr); ok && be.Op == token.LAND {
					c.rep(s, "if "+c.text(be.X)+" {\nif "+c.text(be.Y)+" "+c.text(s.Body)+"\n}")
				}
			}
		case "swapcmp":
			if be, ok := n.(*ast.BinaryExpr); ok {
				op := ""
				switch be.Op {
				case token.EQL:
					op = "=="
				case token.NEQ:
					op = "!="
				case token.LSS:
					op = ">"
				case token.GTR:
					op = "<"
				}
				if op != "" {
					c.rep(be, "("+c.text(be.Y)+" "+op+" "+c.text(be.X)+")")
				}
			}
		case "demorgan":
			if be, ok := n.(*ast.BinaryExpr); ok && (be.Op == token.LAND || be.Op == token.LOR) {
				op := "||"
				if be.Op == token.LOR {
					op = "&&"
				}
				c.rep(be, "!(!("+c.text(be.X)+") "+op+" !("+c.text(be.Y)+"))")
			}
		case "switch2if":
			if s, ok := n.(*ast.SwitchStmt); ok && s.Init == nil && s.Tag != nil {
				if _, ok := cur.Parent().(*ast.LabeledStmt); ok {
					return true
				}
				bad := false
				ast.Inspect(s.Body, func(x ast.Node) bool {
					switch y := x.(type) {
					case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit, *ast.SelectStmt:
						return false
					case *ast.BranchStmt:
						if y.Tok == token.BREAK || y.Tok == token.FALLTHROUGH {
							bad = true
						}
					}
					return true
				})
				if bad || isMustReturn(cur, s) {
					return true
				}
				t := fresh("tag")
				var sb strings.Builder
				sb.WriteString("{\n" + t + " := " + c.text(s.Tag) + "\n_ = " + t + "\n")
				def := ""
				first := true
				for _, cl := range s.Body.List {
					cc := cl.(*ast.CaseClause)
					body := ""
					if len(cc.Body) > 0 {
						body = c.span(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End())
					}
					if cc.List == nil {
						def = body
						continue
					}
					var cs []string
					for _, e := range cc.List {
						cs = append(cs, t+" == "+c.text(e))
					}
					if !first {
						sb.WriteString(" else ")
					}
					first = false
					sb.WriteString("if " + strings.Join(cs, " || ") + " {\n" + body + "\n}")
				}
				if first {
					return true
				}
				if def != "" {
					sb.WriteString(" else {\n" + def + "\n}")
				}
				sb.WriteString("\n}")
				c.rep(s, sb.String())
			}
		case "rettemp":
			if s, ok := n.(*ast.ReturnStmt); ok && len(s.Results) > 0 {
				if _, ok := cur.Parent().(*ast.BlockStmt); !ok {
					return true
				}
				e := s.Results[0]
				t := info.TypeOf(e)
				if t == nil || types.Identical(t, types.Typ[types.UntypedNil]) || isTuple(t) || isUntyped(info, e) {
					return true
				}
				v := fresh("ret")
				c.repSpan(s.Pos(), e.End(), v+" := "+c.text(e)+"\nreturn "+v)
			}
		case "argtemp":
			if s, ok := n.(*ast.ExprStmt); ok {
				if _, ok := cur.Parent().(*ast.BlockStmt); !ok {
					return true
				}
				if call, ok := s.X.(*ast.CallExpr); ok && len(call.Args) > 0 {
					e := call.Args[len(call.Args)-1]
					t := info.TypeOf(e)
					if t == nil || isUntyped(info, e) || isTuple(t) || call.Ellipsis.IsValid() {
						return true
					}
					if tv, ok := info.Types[e]; !ok || tv.IsType() || tv.IsNil() {
						return true
					}
					v := fresh("arg")
					c.repSpan(s.Pos(), s.End(), v+" := "+c.text(e)+"\n"+c.span(s.Pos(), e.Pos())+v+c.span(e.End(), s.End()))
				}
			}
		case "lit2assign":
			if s, ok := n.(*ast.AssignStmt); ok && s.Tok == token.DEFINE && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
				if _, ok := cur.Parent().(*ast.BlockStmt); !ok {
					return true
				}
				u, ok := s.Rhs[0].(*ast.UnaryExpr)
				if !ok || u.Op != token.AND {
					return true
				}
				cl, ok := u.X.(*ast.CompositeLit)
				if !ok || len(cl.Elts) == 0 {
					return true
				}
				v := c.text(s.Lhs[0])
				out := v + " := &" + c.text(cl.Type) + "{}\n"
				for _, el := range cl.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						return true
					}
					if strings.Contains(c.text(kv.Value), "//") {
						return true
					}
					if mentions(info, kv.Value, c.text(s.Lhs[0])) {
						return true
					}
					out += v + "." + c.text(kv.Key) + " = " + c.text(kv.Value) + "\n"
				}
				c.rep(s, out)
			}
		case "reverselit":
			if cl, ok := n.(*ast.CompositeLit); ok && len(cl.Elts) > 1 {
				if _, ok := info.TypeOf(cl).Underlying().(*types.Struct); !ok {
					return true
				}
				var parts []string
				for _, el := range cl.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok || hasCall(kv.Value) {
						return true
					}
					parts = append([]string{c.text(el)}, parts...)
				}
				c.repSpan(cl.Lbrace+1, cl.Rbrace, strings.Join(parts, ",\n")+",\n")
			}
		case "noop":
			if fd, ok := n.(*ast.FuncDecl); ok && fd.Body != nil {
				c.repSpan(fd.Body.Lbrace+1, fd.Body.Lbrace+1, "\n_ = 0\n")
			}
		case "helper":
			extractHelper(c, cur, info)
		case "helperfn":
			extractTail(c, cur, info)
		case "pred":
			if s, ok := n.(*ast.IfStmt); ok && s.Init == nil && !strings.Contains(c.text(s.Cond), "&") {
				params, args, ok := freeVars(c, info, s.Cond, s.Cond)
				if !ok || len(params) == 0 || inGeneric(cur, c, s) {
					return true
				}
				f := fresh("vpred")
				c.extra += "\nfunc " + f + "(" + strings.Join(params, ", ") + ") bool {\n\treturn " + c.text(s.Cond) + "\n}\n"
				c.repSpan(s.Cond.Pos(), s.Cond.End(), f+"("+strings.Join(args, ", ")+")")
			}
		}
		return true
	})
}

func innerEdit(c *fileCtx, n ast.Node) bool {
	for _, o := range c.edits {
		if c.off(n.Pos()) <= o.pos && o.end <= c.off(n.End()) {
			return true
		}
	}
	return false
}

func isMustReturn(cur *astutil.Cursor, s ast.Stmt) bool {
	// a terminating switch at the end of a function: the if-chain would need a final return
	if b, ok := cur.Parent().(*ast.BlockStmt); ok && len(b.List) > 0 && b.List[len(b.List)-1] == s {
		sw := s.(*ast.SwitchStmt)
		for _, cl := range sw.Body.List {
			cc := cl.(*ast.CaseClause)
			if len(cc.Body) > 0 {
				if _, ok := cc.Body[len(cc.Body)-1].(*ast.ReturnStmt); ok && cc.List == nil {
					return true
				}
			}
		}
	}
	return false
}

func hasCall(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(*ast.CallExpr); ok {
			f = true
		}
		return true
	})
	return f
}

func mentions(info *types.Info, n ast.Node, name string) bool {
	f := false
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && id.Name == name {
			f = true
		}
		return true
	})
	return f
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }
func isUntyped(info *types.Info, e ast.Expr) bool {
	tv := info.Types[e]
	if tv.Value != nil || tv.IsNil() {
		return true
	}
	b, ok := tv.Type.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func inGeneric(cur *astutil.Cursor, c *fileCtx, n ast.Node) bool {
	for _, d := range c.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Pos() <= n.Pos() && n.End() <= fd.End() {
			if fd.Type.TypeParams != nil {
				return true
			}
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if _, ok := t.(*ast.IndexExpr); ok {
					return true
				}
			}
		}
	}
	return false
}

// freeVars lists local variables used in n that are declared outside scopeNode.
func freeVars(c *fileCtx, info *types.Info, n ast.Node, scopeNode ast.Node) (params, args []string, ok bool) {
	seen := map[types.Object]bool{}
	ok = true
	imports := map[string]string{}
	for _, im := range c.file.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		if im.Name != nil {
			imports[p] = im.Name.Name
		} else if ip := c.pkg.Imports[p]; ip != nil {
			imports[p] = ip.Name
		}
	}
	q := func(p *types.Package) string {
		if p == c.pkg.Types {
			return ""
		}
		if nm, k := imports[p.Path()]; k && nm != "_" && nm != "." {
			return nm
		}
		ok = false
		return "BAD"
	}
	ast.Inspect(n, func(x ast.Node) bool {
		id, k := x.(*ast.Ident)
		if !k {
			return true
		}
		o := info.Uses[id]
		switch o.(type) {
		case *types.TypeName, *types.Const, *types.Func:
			if o.Parent() != nil && o.Pkg() != nil && o.Parent() != o.Pkg().Scope() && !(o.Pos() >= scopeNode.Pos() && o.Pos() < scopeNode.End()) {
				if _, isf := o.(*types.Func); !isf {
					ok = false
				}
			}
		}
		v, k := o.(*types.Var)
		if !k || v.IsField() || seen[v] {
			return true
		}
		if v.Parent() == nil || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
			return true
		}
		if v.Pos() >= scopeNode.Pos() && v.Pos() < scopeNode.End() {
			return true
		}
		seen[v] = true
		ts := types.TypeString(v.Type(), q)
		for _, part := range strings.FieldsFunc(ts, func(r rune) bool { return strings.ContainsRune("[]*(), {}", r) }) {
			if i := strings.LastIndex(part, "."); i >= 0 && i+1 < len(part) && part[i+1] >= 'a' && part[i+1] <= 'z' && !strings.HasPrefix(part, "...") {
				ok = false
			}
		}
		if n := namedLocal(v.Type()); n != nil && n.Obj().Parent() != nil && n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope() {
			ok = false
		}
		if strings.Contains(ts, "struct{") || strings.Contains(ts, "interface{") {
			// fine to print
		}
		params = append(params, id.Name+" "+ts)
		args = append(args, id.Name)
		return true
	})
	// names must not be shadowing imported packages used inside
	for _, a := range args {
		for _, nm := range imports {
			if a == nm {
				ok = false
			}
		}
	}
	return
}

// extractHelper turns an if/for body without jumps into a new top-level function.
func extractHelper(c *fileCtx, cur *astutil.Cursor, info *types.Info) {
	b, ok := cur.Node().(*ast.BlockStmt)
	if !ok || len(b.List) < 1 {
		return
	}
	switch cur.Parent().(type) {
	case *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt:
	default:
		return
	}
	if hasJump(b) || inGeneric(cur, c, b) || innerEdit(c, b) {
		return
	}
	// no assignment to outer variables, no address taken
	bad := false
	outer := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		if !ok {
			return false
		}
		o := info.Uses[id]
		if o == nil {
			return false
		}
		v, ok := o.(*types.Var)
		return ok && !v.IsField() && !(v.Pos() >= b.Pos() && v.Pos() < b.End())
	}
	ast.Inspect(b, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if outer(l) {
					bad = true
				}
			}
		case *ast.IncDecStmt:
			if outer(y.X) {
				bad = true
			}
		case *ast.UnaryExpr:
			if y.Op == token.AND && outer(y.X) {
				bad = true
			}
		case *ast.SelectStmt, *ast.GoStmt:
			bad = true
		}
		return true
	})
	if bad {
		return
	}
	params, args, ok := freeVars(c, info, b, b)
	if !ok || len(params) > 6 {
		return
	}
	// value receivers of struct type assigned through fields would change meaning: only pass pointers/basic
	for _, p := range params {
		_ = p
	}
	f := fresh("vhelper")
	c.extra += "\nfunc " + f + "(" + strings.Join(params, ", ") + ") {\n" + c.text(b) + "\n}\n"
	c.rep(b, "{\n"+f+"("+strings.Join(args, ", ")+")\n}")
}

// extractTail moves a whole function body into a helper with the same results.
func extractTail(c *fileCtx, cur *astutil.Cursor, info *types.Info) {
	fd, ok := cur.Node().(*ast.FuncDecl)
	if !ok || fd.Body == nil || len(fd.Body.List) < 4 || fd.Type.TypeParams != nil || inGeneric(cur, c, fd.Body) {
		return
	}
	k := len(fd.Body.List) / 2
	first := fd.Body.List[k]
	last := fd.Body.List[len(fd.Body.List)-1]
	blk := &ast.BlockStmt{Lbrace: first.Pos(), List: fd.Body.List[k:], Rbrace: last.End()}
	bad := false
	for _, st := range fd.Body.List[k:] {
		ast.Inspect(st, func(x ast.Node) bool {
			if _, ok := x.(*ast.LabeledStmt); ok {
				bad = true
			}
			if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
				if id, ok := u.X.(*ast.Ident); ok {
					if o := info.Uses[id]; o != nil && o.Pos() < first.Pos() && o.Pos() >= fd.Pos() {
						bad = true
					}
				}
			}
			if d, ok := x.(*ast.DeferStmt); ok {
				_ = d
				bad = true
			}
			return true
		})
	}
	if fd.Type.Results != nil {
		for _, r := range fd.Type.Results.List {
			if len(r.Names) > 0 {
				bad = true
			}
		}
	}
	// recover()-style closures capturing results etc. are fine; skip functions with defers in the head that
	// depend on ordering
	if bad {
		return
	}
	params, args, ok := freeVarsStmts(c, info, fd.Body.List[k:], first.Pos(), last.End())
	for _, st := range fd.Body.List[k:] {
		if as, isA := st.(*ast.AssignStmt); isA && as.Tok == token.DEFINE {
			// "a, err := f()" with err from the head: passed as a parameter it still redeclares nothing new
			n := 0
			for _, l := range as.Lhs {
				if id, k := l.(*ast.Ident); k && info.Defs[id] != nil {
					n++
				}
			}
			if n < len(as.Lhs) {
				_ = n
			}
		}
	}
	for _, a := range args {
		if a == "types" || a == "source" || a == "generator" {
			ok = false
		}
	}
	if !ok || len(params) > 9 {
		return
	}
	_ = blk
	res := ""
	ret := ""
	if fd.Type.Results != nil {
		res = " " + c.text(fd.Type.Results)
		ret = "return "
	}
	f := fresh("vtail")
	c.extra += "\nfunc " + f + "(" + strings.Join(params, ", ") + ")" + res + " {\n{\n" + c.span(first.Pos(), last.End()) + "\n}\n}\n"
	c.repSpan(first.Pos(), last.End(), ret+f+"("+strings.Join(args, ", ")+")")
}

func freeVarsStmts(c *fileCtx, info *types.Info, list []ast.Stmt, from, to token.Pos) (params, args []string, ok bool) {
	ok = true
	seen := map[string]bool{}
	for _, s := range list {
		p, a, k := freeVars(c, info, s, rangeNode{from, to})
		if !k {
			ok = false
		}
		for i := range p {
			if !seen[a[i]] {
				seen[a[i]] = true
				params = append(params, p[i])
				args = append(args, a[i])
			}
		}
	}
	return
}

type rangeNode struct{ a, b token.Pos }

func (r rangeNode) Pos() token.Pos { return r.a }
func (r rangeNode) End() token.Pos { return r.b }

var _ = rand.Int

func namedLocal(t types.Type) *types.Named {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			t = x.Elem()
		case *types.Slice:
			t = x.Elem()
		case *types.Map:
			t = x.Elem()
		case *types.Named:
			return x
		default:
			return nil
		}
	}
}
