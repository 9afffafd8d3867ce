package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mutant struct {
	Kind, File, Func string
	Line             int
	Before, After    string
	pos, end         int
	c                *fileCtx
}

func mutate(pkgs []*packages.Package, root string) {
	out := os.Args[2]
	seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
	count, _ := strconv.Atoi(os.Args[4])
	filter := ""
	if len(os.Args) > 5 {
		filter = os.Args[5]
	}
	var ms []mutant
	for _, c := range files(pkgs, root) {
		rel := strings.TrimPrefix(c.name, root+"/")
		if filter != "" && !strings.Contains(rel, filter) {
			continue
		}
		ms = append(ms, mutantsOf(c, rel)...)
	}
	r := rand.New(rand.NewSource(seed))
	r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	fmt.Println("candidates", len(ms))
	if count > len(ms) {
		count = len(ms)
	}
	os.MkdirAll(out, 0o755)
	for i, m := range ms[:count] {
		d := filepath.Join(out, fmt.Sprintf("m%04d", i))
		os.MkdirAll(d, 0o755)
		body := apply(m.c.src, []edit{{m.pos, m.end, m.After}})
		p := filepath.Join(d, "file.go")
		os.WriteFile(p, body, 0o644)
		b, _ := json.Marshal(map[string]string{m.c.name: p})
		os.WriteFile(filepath.Join(d, "overlay.json"), b, 0o644)
		b, _ = json.MarshalIndent(m, "", " ")
		os.WriteFile(filepath.Join(d, "info.json"), b, 0o644)
	}
}

func mutantsOf(c *fileCtx, rel string) []mutant {
	var out []mutant
	info := c.pkg.TypesInfo
	for _, d := range c.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		add := func(kind string, a, b token.Pos, after string) {
			out = append(out, mutant{Kind: kind, File: rel, Func: fd.Name.Name, Line: c.pkg.Fset.Position(a).Line,
				Before: c.span(a, b), After: after, pos: c.off(a), end: c.off(b), c: c})
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IfStmt:
				isErr := strings.Contains(c.text(x.Cond), "err != nil") || strings.Contains(c.text(x.Cond), "err == nil")
				if !isErr {
					add("negcond", x.Cond.Pos(), x.Cond.End(), "!("+c.text(x.Cond)+")")
					add("falsecond", x.Cond.Pos(), x.Cond.End(), "false && ("+c.text(x.Cond)+")")
				} else {
					add("falseerr", x.Cond.Pos(), x.Cond.End(), c.text(x.Cond)+" && false")
				}
			case *ast.BinaryExpr:
				switch x.Op {
				case token.LAND:
					add("dropand", x.Pos(), x.End(), c.text(x.X))
					add("dropandl", x.Pos(), x.End(), c.text(x.Y))
				case token.LOR:
					add("dropor", x.Pos(), x.End(), c.text(x.X))
					add("droporl", x.Pos(), x.End(), c.text(x.Y))
				case token.LSS:
					add("rel", x.OpPos, x.OpPos+1, "<=")
				case token.GTR:
					add("rel", x.OpPos, x.OpPos+1, ">=")
				case token.LEQ:
					add("rel", x.OpPos, x.OpPos+2, "<")
				case token.GEQ:
					add("rel", x.OpPos, x.OpPos+2, ">")
				}
			case *ast.ExprStmt:
				add("dropcall", x.Pos(), x.End(), "")
			case *ast.DeferStmt:
				add("dropdefer", x.Pos(), x.End(), "")
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN && len(x.Lhs) == 1 {
					add("dropassign", x.Pos(), x.End(), "")
				}
			case *ast.KeyValueExpr:
				if _, ok := info.Uses[ident(x.Key)].(*types.Var); ok {
					add("dropfield", x.Pos(), x.End()+1, "")
				}
			case *ast.SelectorExpr:
				// other field/method of the same type
				if sel, ok := info.Selections[x]; ok && sel.Kind() == types.FieldVal {
					st, ok := deref(sel.Recv()).Underlying().(*types.Struct)
					if ok {
						for i := 0; i < st.NumFields(); i++ {
							f := st.Field(i)
							if f.Name() != x.Sel.Name && types.Identical(f.Type(), sel.Type()) && (f.Exported() || f.Pkg() == c.pkg.Types) {
								add("otherfield", x.Sel.Pos(), x.Sel.End(), f.Name())
								break
							}
						}
					}
				} else if ok && sel.Kind() == types.MethodVal {
					ms := types.NewMethodSet(sel.Recv())
					for i := 0; i < ms.Len(); i++ {
						f := ms.At(i).Obj()
						if f.Name() != x.Sel.Name && types.Identical(f.Type(), sel.Obj().Type()) && (f.Exported() || f.Pkg() == c.pkg.Types) && strings.HasPrefix(f.Name(), x.Sel.Name[:1]) {
							add("othermethod", x.Sel.Pos(), x.Sel.End(), f.Name())
							break
						}
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) > 0 {
					e := x.Results[0]
					if t, ok := info.TypeOf(e).(*types.Basic); ok && t.Info()&types.IsBoolean != 0 {
						add("negret", e.Pos(), e.End(), "!("+c.text(e)+")")
					}
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.CONTINUE {
					add("cont2break", x.Pos(), x.End(), "break")
				}
				if x.Label == nil && x.Tok == token.BREAK {
					add("break2cont", x.Pos(), x.End(), "")
				}
			case *ast.CallExpr:
				// swap two same-typed arguments
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					if ta, tb := info.TypeOf(a), info.TypeOf(b); ta != nil && tb != nil && types.Identical(ta, tb) && c.text(a) != c.text(b) {
						add("swapargs", a.Pos(), b.End(), c.text(b)+", "+c.text(a))
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					add("int", x.Pos(), x.End(), "("+x.Value+"+1)")
				}
			case *ast.RangeStmt:
				if _, ok := info.TypeOf(x.X).Underlying().(*types.Slice); ok {
					add("skipfirst", x.X.End(), x.X.End(), "[min(1,len("+c.text(x.X)+")):]")
				}
			case *ast.CaseClause:
				if len(x.List) > 1 {
					add("dropcase", x.List[0].Pos(), x.List[1].Pos(), "")
				}
			}
			return true
		})
	}
	return out
}

func ident(e ast.Expr) *ast.Ident { i, _ := e.(*ast.Ident); return i }
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
