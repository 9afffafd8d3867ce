package main

import (
	"bytes"
	"compress/gzip"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"text/template/parse"
)

// The generator's templates are analysed as programs: every piece of emitted text is brought
// into a normal form - sub-templates inlined, variables replaced by what they stand for,
// conditions split and oriented, common beginnings and ends of two branches factored out,
// white space and comments dropped - and related to the model elements and conditions it
// depends on.

const tmplDir = "generator/templates"

// Item is one piece of emitted text under its conditions.
type Item struct {
	G   []string `json:"g,omitempty"`
	T   []string `json:"t"`
	Def string   `json:"d"`
	Pos string   `json:"p"`
}

func (i Item) key() string { return strings.Join(i.G, " & ") + " ⇒ " + strings.Join(i.T, " ") }

type tval struct {
	s string
	m map[string]tval
}

type tenv struct {
	dot   tval
	vars  map[string]tval
	stack []string
	def   string
}

func (e tenv) with(dot tval) tenv {
	n := tenv{dot: dot, vars: map[string]tval{}, stack: e.stack, def: e.def}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return n
}

type tmplSet struct {
	trees map[string]*parse.Tree
	file  map[string]string
	src   map[string]string
	nodes int
	errs  []string
}

func (p *Prog) readFile(rel string) ([]byte, error) {
	if raw, ok := p.Overlay[filepath.Join(p.Root, rel)]; ok {
		return raw, nil
	}
	return os.ReadFile(filepath.Join(p.Root, rel))
}

var tmplFuncs = map[string]any{"add": 0, "map": 0, "parentCtx": 0, "toLocalVariable": 0,
	"and": 0, "or": 0, "not": 0, "eq": 0, "ne": 0, "lt": 0, "le": 0, "gt": 0, "ge": 0, "len": 0, "index": 0, "slice": 0, "print": 0, "printf": 0, "println": 0, "call": 0, "html": 0, "js": 0, "urlquery": 0}

func (p *Prog) templates() *tmplSet {
	if p.tm != nil {
		return p.tm
	}
	ts := &tmplSet{trees: map[string]*parse.Tree{}, file: map[string]string{}, src: map[string]string{}}
	p.tm = ts
	files, _ := filepath.Glob(filepath.Join(p.Root, tmplDir, "*.tmpl"))
	sort.Strings(files)
	for _, f := range files {
		rel, _ := filepath.Rel(p.Root, f)
		raw, err := p.readFile(rel)
		if err != nil {
			ts.errs = append(ts.errs, err.Error())
			continue
		}
		base := filepath.Base(f)
		t := parse.New(base)
		t.Mode = parse.SkipFuncCheck
		set := map[string]*parse.Tree{}
		if _, err := t.Parse(string(raw), "", "", set, tmplFuncs); err != nil {
			ts.errs = append(ts.errs, rel+": "+err.Error())
			continue
		}
		for n, tr := range set {
			ts.trees[n] = tr
			ts.file[n] = rel
			ts.src[n] = string(raw)
		}
	}
	return ts
}

func (ts *tmplSet) pos(def string, ps parse.Pos) string {
	src := ts.src[def]
	if int(ps) > len(src) {
		return ts.file[def]
	}
	return fmt.Sprintf("%s:%d", ts.file[def], 1+strings.Count(src[:ps], "\n"))
}

func chain(v tval, ids []string) tval {
	for _, id := range ids {
		if v.m != nil {
			if x, ok := v.m[id]; ok {
				v = x
				continue
			}
			v = tval{s: "missing." + id}
			continue
		}
		if v.s == "." {
			v = tval{s: "." + id}
		} else {
			v = tval{s: v.s + "." + id}
		}
	}
	return v
}

func (ts *tmplSet) arg(n parse.Node, env tenv) tval {
	switch x := n.(type) {
	case *parse.FieldNode:
		return chain(env.dot, x.Ident)
	case *parse.VariableNode:
		return chain(env.vars[x.Ident[0]], x.Ident[1:])
	case *parse.DotNode:
		return env.dot
	case *parse.ChainNode:
		return chain(ts.arg(x.Node, env), x.Field)
	case *parse.PipeNode:
		return ts.pipe(x, env)
	case *parse.StringNode:
		return tval{s: x.Quoted}
	case *parse.IdentifierNode:
		return tval{s: x.Ident}
	default:
		return tval{s: n.String()}
	}
}

func (v tval) str() string {
	if v.m == nil {
		return v.s
	}
	var ks []string
	for k, x := range v.m {
		ks = append(ks, k+":"+x.str())
	}
	sort.Strings(ks)
	return "map{" + strings.Join(ks, ",") + "}"
}

func (ts *tmplSet) pipe(p *parse.PipeNode, env tenv) tval {
	var cur tval
	for i, c := range p.Cmds {
		var args []tval
		for _, a := range c.Args {
			args = append(args, ts.arg(a, env))
		}
		if i > 0 {
			args = append(args, cur)
		}
		if id, ok := c.Args[0].(*parse.IdentifierNode); ok && id.Ident == "map" {
			m := map[string]tval{}
			for j := 1; j+1 < len(args); j += 2 {
				m[strings.Trim(args[j].s, "\"`")] = args[j+1]
			}
			cur = tval{m: m}
			continue
		}
		if len(args) == 1 {
			cur = args[0]
			continue
		}
		var ss []string
		for _, a := range args {
			ss = append(ss, a.str())
		}
		if ss[0] == "eq" && len(ss) == 3 && ss[1] > ss[2] || ss[0] == "ne" && len(ss) == 3 && ss[1] > ss[2] {
			ss[1], ss[2] = ss[2], ss[1]
		}
		cur = tval{s: "(" + strings.Join(ss, " ") + ")"}
	}
	return cur
}

// cond splits a condition into its conjuncts for the two branches.
func (ts *tmplSet) cond(n parse.Node, env tenv, pos bool) (pol bool, yes, no []string) {
	switch x := n.(type) {
	case *parse.PipeNode:
		if len(x.Cmds) == 1 && len(x.Decl) == 0 {
			c := x.Cmds[0]
			if len(c.Args) == 1 {
				if p, ok := c.Args[0].(*parse.PipeNode); ok {
					return ts.cond(p, env, pos)
				}
			}
			if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
				switch {
				case id.Ident == "not" && len(c.Args) == 2:
					p, y, nn := ts.cond(c.Args[1], env, pos)
					return !p, nn, y
				case id.Ident == "and":
					var ys, ns []string
					for _, a := range c.Args[1:] {
						_, y, n := ts.cond(a, env, pos)
						ys = append(ys, y...)
						ns = append(ns, strings.Join(n, "∧"))
					}
					return true, ys, []string{"(" + strings.Join(ns, " ∨ ") + ")"}
				case id.Ident == "or":
					var ys, ns []string
					for _, a := range c.Args[1:] {
						_, y, n := ts.cond(a, env, pos)
						ns = append(ns, n...)
						ys = append(ys, strings.Join(y, "∧"))
					}
					return true, []string{"(" + strings.Join(ys, " ∨ ") + ")"}, ns
				case id.Ident == "ne" && len(c.Args) == 3:
					s := "(eq" + strings.TrimPrefix(ts.pipe(x, env).str(), "(ne")
					return false, []string{"!" + s}, []string{s}
				}
			}
		}
		s := ts.pipe(x, env).str()
		return true, []string{s}, []string{"!" + s}
	default:
		s := ts.arg(n, env).str()
		return true, []string{s}, []string{"!" + s}
	}
}

var tokRE = regexp.MustCompile(`\w+|[^\w\s]`)
var lineComment = regexp.MustCompile(`(^|[^:"\x60])//[^\n]*`)

func tokens(s string) []string {
	return tokRE.FindAllString(lineComment.ReplaceAllString(s, "$1"), -1)
}

func (ts *tmplSet) flatten(n parse.Node, env tenv) []Item {
	if n == nil {
		return nil
	}
	ts.nodes++
	switch x := n.(type) {
	case *parse.ListNode:
		if x == nil {
			return nil
		}
		var out []Item
		for _, c := range x.Nodes {
			out = append(out, ts.flatten(c, env)...)
		}
		return merge(out)
	case *parse.TextNode:
		if t := tokens(string(x.Text)); len(t) > 0 {
			return []Item{{T: t, Def: env.def, Pos: ts.pos(env.def, x.Pos)}}
		}
	case *parse.ActionNode:
		v := ts.pipe(x.Pipe, env)
		if len(x.Pipe.Decl) > 0 {
			env.vars[x.Pipe.Decl[0].Ident[0]] = v
			return nil
		}
		return []Item{{T: []string{"«" + v.str() + "»"}, Def: env.def, Pos: ts.pos(env.def, x.Pos)}}
	case *parse.IfNode:
		e1 := env.with(env.dot)
		ts.decl(x.Pipe, e1)
		pol, yes, no := ts.cond(x.Pipe, e1, true)
		a := ts.flatten(x.List, e1.with(e1.dot))
		b := ts.flatten(x.ElseList, e1.with(e1.dot))
		if !pol {
			yes, no, a, b = no, yes, b, a
		}
		pre, a, b := factor(a, b, false)
		suf, a, b := factor(a, b, true)
		out := append([]Item{}, pre...)
		out = append(out, under(yes, a)...)
		out = append(out, under(no, b)...)
		return merge(append(out, suf...))
	case *parse.WithNode:
		_, yes, no := ts.cond(x.Pipe, env, true)
		v := ts.pipe(x.Pipe, env)
		e1 := env.with(v)
		ts.decl(x.Pipe, e1)
		return merge(append(under(yes, ts.flatten(x.List, e1)), under(no, ts.flatten(x.ElseList, env.with(env.dot)))...))
	case *parse.RangeNode:
		v := ts.pipe(x.Pipe, env).str()
		e1 := env.with(tval{s: "each(" + v + ")"})
		switch len(x.Pipe.Decl) {
		case 1:
			e1.vars[x.Pipe.Decl[0].Ident[0]] = e1.dot
		case 2:
			e1.vars[x.Pipe.Decl[0].Ident[0]] = tval{s: "idx(" + v + ")"}
			e1.vars[x.Pipe.Decl[1].Ident[0]] = e1.dot
		}
		body := ts.flatten(x.List, e1)
		out := under([]string{"each " + v}, append([]Item{{T: []string{"⟲"}, Def: env.def, Pos: ts.pos(env.def, x.Pos)}}, body...))
		return append(merge(out), under([]string{"empty " + v}, ts.flatten(x.ElseList, env.with(env.dot)))...)
	case *parse.TemplateNode:
		tr := ts.trees[x.Name]
		var v tval
		if x.Pipe != nil {
			v = ts.pipe(x.Pipe, env)
		}
		if tr == nil || slices.Contains(env.stack, x.Name) || len(env.stack) > 12 {
			return []Item{{T: []string{"«template " + x.Name + " " + v.str() + "»"}, Def: env.def, Pos: ts.pos(env.def, x.Pos)}}
		}
		return ts.flatten(tr.Root, tenv{dot: v, vars: map[string]tval{"$": v}, stack: append(slices.Clip(env.stack), x.Name), def: x.Name})
	case *parse.CommentNode:
	default:
		return []Item{{T: []string{n.String()}, Def: env.def, Pos: ts.pos(env.def, n.Position())}}
	}
	return nil
}

func (ts *tmplSet) decl(p *parse.PipeNode, env tenv) {
	if p != nil && len(p.Decl) > 0 {
		env.vars[p.Decl[0].Ident[0]] = ts.pipe(p, env)
	}
}

func under(g []string, is []Item) []Item {
	if len(is) == 0 {
		return nil
	}
	out := make([]Item, len(is))
	for i, it := range is {
		it.G = append(append([]string{}, g...), it.G...)
		out[i] = it
	}
	return out
}

// merge joins neighbouring pieces under equal conditions; a loop is never joined with the next.
func merge(is []Item) []Item {
	var out []Item
	for _, it := range is {
		it.G = dedupe(it.G)
		if n := len(out); n > 0 && strings.Join(out[n-1].G, "&") == strings.Join(it.G, "&") && it.T[0] != "⟲" {
			out[n-1].T = append(append([]string{}, out[n-1].T...), it.T...)
			continue
		}
		out = append(out, it)
	}
	return out
}

// dedupe drops a condition that an outer one already states.
func dedupe(g []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range g {
		if !seen[x] {
			out = append(out, x)
		}
		seen[x] = true
	}
	return out
}

// factor takes the text both branches begin (or end) with out of them.
func factor(a, b []Item, end bool) (common []Item, ra, rb []Item) {
	if len(a) == 0 || len(b) == 0 {
		return nil, a, b
	}
	ai, bi := 0, 0
	if end {
		ai, bi = len(a)-1, len(b)-1
	}
	x, y := a[ai], b[bi]
	if len(x.G) > 0 || len(y.G) > 0 {
		return nil, a, b
	}
	k := 0
	for k < len(x.T) && k < len(y.T) {
		if !end && x.T[k] != y.T[k] || end && x.T[len(x.T)-1-k] != y.T[len(y.T)-1-k] {
			break
		}
		k++
	}
	if k == 0 {
		return nil, a, b
	}
	cut := func(is []Item, i int) []Item {
		out := append([]Item{}, is...)
		it := out[i]
		if end {
			it.T = it.T[:len(it.T)-k]
		} else {
			it.T = it.T[k:]
		}
		if len(it.T) == 0 {
			return append(out[:i], out[i+1:]...)
		}
		out[i] = it
		return out
	}
	c := x
	if end {
		c.T = x.T[len(x.T)-k:]
	} else {
		c.T = x.T[:k]
	}
	return []Item{c}, cut(a, ai), cut(b, bi)
}

// items is the normal form of everything the generator emits for one file.
func (ts *tmplSet) items() []Item {
	tr := ts.trees["server.go.tmpl"]
	if tr == nil {
		return nil
	}
	dot := tval{s: "."}
	return ts.flatten(tr.Root, tenv{dot: dot, vars: map[string]tval{"$": dot}, def: "server.go.tmpl"})
}

//go:embed tables/templates.json.gz
var templatesGz []byte

func freezeTemplates(p *Prog, path string) error {
	raw, err := json.Marshal(p.templates().items())
	if err != nil {
		return err
	}
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	if _, err := w.Write(raw); err != nil {
		return err
	}
	if err := w.Close(); err != nil {
		return err
	}
	return os.WriteFile(path, b.Bytes(), 0o644)
}

func confirmedTemplates() ([]Item, error) {
	zr, err := gzip.NewReader(bytes.NewReader(templatesGz))
	if err != nil {
		return nil, nil
	}
	raw, err := io.ReadAll(zr)
	if err != nil {
		return nil, err
	}
	var is []Item
	return is, json.Unmarshal(raw, &is)
}

// TScope selects the part of the emitted text a property owns.
type TScope struct {
	Defs string // regexp over the template the text is written in
	Text string // regexp over the differing text
}

// diffItems aligns the two normal forms and returns what is in only one of them.
func diffItems(a, b []Item) (gone, added []Item) {
	ka, kb := make([]string, len(a)), make([]string, len(b))
	for i := range a {
		ka[i] = a[i].key()
	}
	for i := range b {
		kb[i] = b[i].key()
	}
	for len(ka) > 0 && len(kb) > 0 && ka[0] == kb[0] {
		ka, kb, a, b = ka[1:], kb[1:], a[1:], b[1:]
	}
	for len(ka) > 0 && len(kb) > 0 && ka[len(ka)-1] == kb[len(kb)-1] {
		n, m := len(ka)-1, len(kb)-1
		ka, kb, a, b = ka[:n], kb[:m], a[:n], b[:m]
	}
	n, m := len(ka), len(kb)
	l := make([][]int, n+1)
	for i := range l {
		l[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if ka[i] == kb[j] {
				l[i][j] = l[i+1][j+1] + 1
			} else {
				l[i][j] = max(l[i+1][j], l[i][j+1])
			}
		}
	}
	for i, j := 0, 0; i < n || j < m; {
		switch {
		case i < n && j < m && ka[i] == kb[j]:
			i, j = i+1, j+1
		case j < m && (i >= n || l[i][j+1] >= l[i+1][j]):
			added = append(added, b[j])
			j++
		default:
			gone = append(gone, a[i])
			i++
		}
	}
	return
}

// where cuts two texts down to the part that differs.
func where(x, y []string) (string, string) {
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	j := 0
	for j < len(x)-i && j < len(y)-i && x[len(x)-1-j] == y[len(y)-1-j] {
		j++
	}
	lo := max(0, i-4)
	return strings.Join(x[lo:min(len(x), len(x)-j+3)], " "), strings.Join(y[lo:min(len(y), len(y)-j+3)], " ")
}

func clip(s string, n int) string {
	if r := []rune(s); len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

// templateRelation reports every emitted text that is no longer the confirmed one.
func (c *Check) templateRelation() {
	ts := c.p.templates()
	for _, e := range ts.errs {
		c.report("templates", "-", "a template cannot be parsed: "+e)
	}
	base, err := confirmedTemplates()
	if err != nil {
		c.report("templates", "-", err.Error())
		return
	}
	cur := ts.items()
	type sel struct{ d, t *regexp.Regexp }
	var sels []sel
	for _, s := range c.prop.Tmpl {
		sels = append(sels, sel{rx(s.Defs), rx(s.Text)})
	}
	owns := func(it Item, text string) bool {
		for _, s := range sels {
			if (s.d == nil || s.d.MatchString(it.Def)) && (s.t == nil || s.t.MatchString(text)) {
				return true
			}
		}
		return false
	}
	for _, it := range base {
		if owns(it, it.key()) {
			c.ob(1)
		}
	}
	gone, added := diffItems(base, cur)
	used := map[int]bool{}
	for _, g := range gone {
		// pair it with the most similar new text
		best, score := -1, 0
		for i, a := range added {
			if used[i] {
				continue
			}
			s := 0
			m := map[string]int{}
			for _, t := range g.T {
				m[t]++
			}
			for _, t := range a.T {
				if m[t] > 0 {
					m[t]--
					s++
				}
			}
			if strings.Join(g.G, "&") == strings.Join(a.G, "&") {
				s += 3
			}
			if s > score {
				best, score = i, s
			}
		}
		gt, at := strings.Join(g.T, " "), ""
		pos := g.Pos
		ag := []string{}
		if best >= 0 {
			used[best] = true
			a := added[best]
			pos, ag = a.Pos, a.G
			gt, at = where(g.T, a.T)
		}
		text := gt + " | " + at + " | " + strings.Join(g.G, " ") + strings.Join(ag, " ")
		if !owns(g, text) {
			continue
		}
		if at == "" && best < 0 {
			c.report("template "+g.Def, pos, fmt.Sprintf("no longer emitted when %v: %s", g.G, clip(gt, 300)))
		} else if gt == at {
			c.report("template "+g.Def, pos, fmt.Sprintf("%s is now emitted when %v (confirmed: when %v)", clip(at, 200), ag, g.G))
		} else {
			c.report("template "+g.Def, pos, fmt.Sprintf("emits `%s` when %v (confirmed: `%s` when %v)", clip(at, 200), ag, clip(gt, 200), g.G))
		}
	}
	for i, a := range added {
		if !used[i] && owns(a, a.key()) {
			c.report("template "+a.Def, a.Pos, fmt.Sprintf("now also emitted when %v: %s", a.G, clip(strings.Join(a.T, " "), 300)))
		}
	}
}
