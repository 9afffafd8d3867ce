package main

import (
	"bytes"
	"compress/gzip"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"os"
	"regexp"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Baseline is the confirmed relation: for every function of the module, its guarded effects.
type Baseline struct {
	Funcs map[string][]Effect `json:"funcs"`
	Files map[string]string   `json:"files"` // where each of them is written
	Known map[string]string   `json:"known"` // every named function of the module, with its signature
	Types []string            `json:"types"` // every struct type declared in the module
}

//go:embed tables/relation.json.gz
var baselineGz []byte

func loadBaseline() (*Baseline, error) {
	zr, err := gzip.NewReader(bytes.NewReader(baselineGz))
	if err != nil {
		return nil, err
	}
	raw, err := io.ReadAll(zr)
	if err != nil {
		return nil, err
	}
	var b Baseline
	if err := json.Unmarshal(raw, &b); err != nil {
		return nil, err
	}
	return &b, nil
}

func isPBFile(p *Prog, fn *ssa.Function) bool {
	return strings.HasSuffix(p.Fset.Position(root(fn).Pos()).Filename, ".pb.go")
}

func excludedPkg(n string) bool { return strings.HasPrefix(n, "internal/testutil.") }

func computeEffects(p *Prog, known map[string]string, structs []string) map[string][]Effect {
	e := newEval(p, func(fn *ssa.Function) bool {
		if known == nil {
			return true
		}
		_, ok := known[fname(fn)]
		return ok || isPBFile(p, fn)
	})
	if known != nil {
		e.types = map[string]bool{}
		for _, t := range structs {
			e.types[t] = true
		}
	}
	out := map[string][]Effect{}
	for _, fn := range p.Funcs {
		if isPBFile(p, fn) || excludedPkg(fname(fn)) {
			continue
		}
		n := fname(fn)
		for _, ef := range e.effects(fn) {
			if fn.Synthetic != "" && strings.HasPrefix(ef.Key, "call ") && strings.HasSuffix(ef.Key, ".init") {
				continue // an import
			}
			out[n] = append(out[n], ef)
		}
	}
	return out
}

func structTypes(p *Prog) []string {
	set := map[string]bool{}
	for _, pk := range p.Pkgs {
		for _, d := range pk.TypesInfo.Defs {
			tn, ok := d.(*types.TypeName)
			if !ok {
				continue
			}
			if n := typeName(tn.Type()); n != "" {
				set[n] = true
			}
		}
		for _, tv := range pk.TypesInfo.Types {
			if _, ok := types.Unalias(tv.Type).(*types.Struct); ok && tv.IsValue() {
				set["anon"] = true
			}
		}
	}
	out := make([]string, 0, len(set))
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func freeze(p *Prog, path string) error {
	b := Baseline{Funcs: computeEffects(p, nil, nil), Known: map[string]string{}, Files: map[string]string{}}
	for _, fn := range p.Funcs {
		f := p.pos(fn.Pos())
		if i := strings.LastIndex(f, ":"); i >= 0 {
			f = f[:i]
		}
		b.Files[fname(fn)] = f
		b.Known[fname(fn)] = typeStr(fn.Signature)
	}
	b.Types = structTypes(p)
	raw, err := json.Marshal(b)
	if err != nil {
		return err
	}
	var buf bytes.Buffer
	zw, _ := gzip.NewWriterLevel(&buf, 9)
	zw.Write(raw)
	zw.Close()
	return os.WriteFile(path, buf.Bytes(), 0o644)
}

func subset(a, b []string, skip func(string) bool) (string, bool) {
	m := map[string]bool{}
	for _, x := range b {
		m[x] = true
	}
	for _, x := range a {
		if !m[x] && !skip(x) {
			return x, false
		}
	}
	return "", true
}

type relCmp struct {
	base   *Baseline
	cur    map[string][]Effect
	gone   map[string]bool // baseline functions that no longer exist
	curAll map[string][]Effect
	loose  bool
	curPkg map[string][]Effect
	memo   map[string][]relDiff
	ex     exchange            // library calls replaced by others in the function being compared
	sibs   []Effect            // the confirmed effects of the function being compared
	stored map[string][]string // what the function being compared puts into fields, by field
}

// in reports whether all of a is among b, or among what the function puts into the fields in b.
func (rc *relCmp) in(a, b []string) (string, bool) {
	x, ok := subset(a, b, rc.skip)
	if ok {
		return x, ok
	}
	more := b
	for _, y := range b {
		if i := strings.Index(y, "@"); i >= 0 {
			y = y[:i]
		}
		more = append(more[:len(more):len(more)], rc.stored[y]...)
	}
	if len(more) > len(b) {
		if _, ok := subset(a, more, rc.skip); ok {
			return "", true
		}
	}
	// a text with more placeholders than before, the additional ones standing for constants
	return subset(a, more, func(x string) bool {
		return rc.skip(x) || follows(x, more) || spelled(x, more) || concatenated(x, more)
	})
}

// copied: the effect puts elements of something into a table or list.
func copied(b Effect) bool {
	return strings.HasPrefix(b.Key, "map ") || strings.HasPrefix(b.Key, "ret ") || strings.HasPrefix(b.Key, "store ")
}

// concatenated: the text x is a sequence of texts in now.
func concatenated(x string, now []string) bool {
	var fit func(rest string, n int) bool
	fit = func(rest string, n int) bool {
		if rest == "" {
			return n > 1
		}
		for _, y := range now {
			if len(y) > 2 && strings.HasPrefix(y, "K:") && strings.HasPrefix(rest, y[2:]) && n < 6 && fit(rest[len(y)-2:], n+1) {
				return true
			}
		}
		return false
	}
	return strings.HasPrefix(x, "K:") && len(x) > 4 && fit(x[2:], 0)
}

var verb = regexp.MustCompile(`%[svdq]`)
var anyVerb = regexp.MustCompile(`%[-+# 0-9.*]*[a-zA-Z]`)

// spelled: the text x comes about by filling constants into one of the texts in now.
func spelled(x string, now []string) bool {
	if !strings.HasPrefix(x, "K:") || len(x) < 6 {
		return false
	}
	for _, y := range now {
		if y == x || !strings.HasPrefix(y, "K:") || len(verb.ReplaceAllString(y, "")) < 6 {
			continue
		}
		parts := verb.Split(y, -1)
		if len(parts) < 2 {
			continue
		}
		for i := range parts {
			parts[i] = regexp.QuoteMeta(parts[i])
		}
		if re, err := regexp.Compile("^" + strings.Join(parts, ".+") + "$"); err == nil && re.MatchString(x) {
			return true
		}
	}
	return false
}

// spells: filling constants into the text x gives one of the texts in old, or x is filled in that way.
func spells(x string, old []string) bool {
	if strings.HasPrefix(x, "K:") && len(x) > 3 {
		for _, y := range old {
			if strings.HasPrefix(y, "K:") && y != x && strings.Contains(y, x[2:]) {
				return true
			}
		}
	}
	for _, y := range old {
		if y != x && spelled(y, []string{x}) {
			return true
		}
	}
	return false
}

const textTag = "A:text#"

// follows: in now, the value of the leaf x, which follows a certain constant text, follows a longer or shorter
// part of that text; if it follows nothing, it only has to be there.
func follows(x string, now []string) bool {
	if !strings.HasPrefix(x, textTag) {
		return false
	}
	i := strings.Index(x, "<")
	tag, leaf := x[len(textTag):i], x[i+1:]
	for _, y := range now {
		if tag == "" && y == leaf {
			return true
		}
		if !strings.HasPrefix(y, textTag) || !strings.HasSuffix(y, "<"+leaf) {
			continue
		}
		t := y[len(textTag):strings.Index(y, "<")]
		if tag == "" || t != "" && (strings.HasSuffix(t, tag) || strings.HasSuffix(tag, t)) {
			return true
		}
	}
	return false
}

func newRelCmp(base *Baseline, p *Prog) *relCmp {
	rc := &relCmp{base: base, cur: computeEffects(p, base.Known, base.Types), gone: map[string]bool{}, curPkg: map[string][]Effect{}}
	for n := range base.Known {
		if p.ByName[n] == nil {
			rc.gone[n] = true
		}
	}
	for n, efs := range rc.cur {
		pk := n[:strings.LastIndex(n, "/")+1]
		rest := n[len(pk):]
		pk += rest[:strings.Index(rest, ".")]
		rc.curPkg[pk] = append(rc.curPkg[pk], efs...)
	}
	return rc
}

func (rc *relCmp) skip(x string) bool {
	if rc.ex.leaf(x) {
		return true
	}
	if strings.HasPrefix(x, "A:") {
		i, j := strings.Index(x, "#"), strings.Index(x, "<")
		return rc.gone[x[2:i]] || rc.skip(x[j+1:])
	}
	if strings.HasPrefix(x, "C:") || strings.HasPrefix(x, "FN:") {
		n := x[strings.Index(x, ":")+1:]
		if i := strings.Index(n, "#"); i >= 0 {
			n = n[:i]
		}
		if rc.gone[n] {
			return true
		}
	}
	if x == "R" || x == "iter" || x == "key" || x == "closure" || strings.HasPrefix(x, "cp:") || strings.HasPrefix(x, "fv:") || strings.HasPrefix(x, "op:append") || strings.HasPrefix(x, "N:") {
		return true
	}
	if rc.loose && (strings.HasPrefix(x, "P:")) {
		return true
	}
	return false
}

// ranged: a says that a sequence is not empty, and in holds that it is being ranged over.
func (rc *relCmp) ranged(a Atom, in []Atom) bool {
	return a.Op == "nonempty" && rc.atomIn(Atom{"each", a.S}, in)
}

func (rc *relCmp) atomIn(a Atom, in []Atom) bool {
	for _, c := range in {
		if c.Op != a.Op {
			continue
		}
		if _, ok := rc.in(a.S, c.S); ok {
			return true
		}
	}
	return false
}

// cover reports whether current effect c realises confirmed effect b; why explains the first difference.
func (rc *relCmp) cover(b, c Effect) (string, bool) {
	w, _, ok := rc.cover2(b, c)
	return w, ok
}

// cover2 also returns how far the match got (larger is closer).
func (rc *relCmp) cover2(b, c Effect) (string, int, bool) {
	score := 0
	for _, x := range b.Src {
		if _, ok := subset([]string{x}, c.Src, rc.skip); ok {
			score++
		}
	}
	for _, a := range b.Near {
		if rc.atomIn(a, c.All) {
			score += 2
		}
	}
	if x, ok := rc.in(b.Src, c.Src); !ok {
		return "no longer computed from " + x, score, false
	}
	need := b.All
	if strings.HasPrefix(b.Key, "leave ") {
		need = b.Near
	}
	for _, a := range need {
		if !rc.atomIn(a, c.All) && !rc.atomIn(a, c.Soft) && !rc.complemented(a, b) && !rc.ex.atomGone(a) && !rc.ranged(a, c.All) {
			if _, ok := subset(a.S, c.Src, rc.skip); ok && a.Op == "each" && copied(b) {
				continue // the whole of it is copied
			}
			return "no longer conditional on " + a.String(), score, false
		}
	}
	if !strings.HasPrefix(b.Key, "leave ") {
		for _, a := range b.Must {
			if hasStr(a.S, "iter") || rc.atomIn(a, c.Near) || nilIs(a, c.Must) {
				continue
			}
			if _, ok := subset(a.S, c.Src, rc.skip); ok && a.Op == "each" && copied(b) {
				continue
			}
			if !rc.atomIn(a, c.Must) && !rc.atomIn(a, c.Soft) && !rc.complemented(a, b) && !rc.ex.atomGone(a) && !rc.ranged(a, c.Must) {
				return "no longer only when " + a.String(), score, false
			}
		}
	}
	if w := rc.outcome(b, c); w != "" {
		return w, score, false
	}
	if len(b.Args) > 0 && len(b.Args) == len(c.Args) {
		for i := range b.Args {
			if x, ok := rc.in(b.Args[i], c.Args[i]); !ok {
				return fmt.Sprintf("argument %d no longer computed from %s", i, x), score, false
			}
		}
	}
	for _, a := range b.Soft {
		n, ok := negate(a)
		if ok && (rc.atomIn(n, c.All) || rc.atomIn(n, c.Soft)) && !rc.atomIn(a, c.All) && !rc.atomIn(a, c.Soft) && !rc.atomIn(n, b.All) && !rc.atomIn(n, b.Soft) {
			return "alternative taken under the opposite condition: " + n.String(), score, false
		}
	}
	for _, a := range b.Direct {
		n, ok := negate(a)
		if !ok {
			continue
		}
		if rc.atomIn(n, c.Direct) && !rc.atomIn(a, c.Direct) && !rc.atomIn(n, b.Direct) && !rc.atomIn(n, b.Near) {
			return "condition reversed: " + n.String(), score, false
		}
	}
	return "", score, true
}

// complemented: the same effect was also confirmed under the opposite condition, so the condition does
// not decide whether it happens.
func (rc *relCmp) complemented(a Atom, b Effect) bool {
	n, ok := negate(a)
	if !ok {
		return false
	}
	for _, o := range rc.sibs {
		if o.Key != b.Key {
			continue
		}
		if _, ok := subset(o.Src, b.Src, rc.skip); !ok {
			continue
		}
		if !rc.atomIn(n, o.All) {
			continue
		}
		same := true
		for _, x := range cat(b.Near, b.Must) {
			if x.String() != a.String() && !rc.atomIn(x, o.All) {
				same = false
			}
		}
		for _, x := range cat(o.Near, o.Must) {
			if x.String() != n.String() && !rc.atomIn(x, b.All) {
				same = false
			}
		}
		if same {
			return true
		}
	}
	return false
}

type relDiff struct {
	Func, Key, Why, Pos string
}

// compare checks function n.
func (rc *relCmp) compare(n string) []relDiff {
	bs := rc.base.Funcs[n]
	rc.sibs = bs
	cs, ok := rc.cur[n]
	var out []relDiff
	rc.loose = false
	if !ok {
		rc.loose = true
		pk := n[:strings.LastIndex(n, "/")+1]
		rest := n[len(pk):]
		pk += rest[:strings.Index(rest, ".")]
		cs = rc.curPkg[pk]
	}
	rc.ex = newExchange(bs, cs, rc.loose)
	byKey := map[string][]Effect{}
	rc.stored = map[string][]string{}
	for _, c := range cs {
		byKey[c.Key] = append(byKey[c.Key], c)
		if strings.HasPrefix(c.Key, "store ") && !rc.loose {
			f := "F:" + strings.TrimPrefix(c.Key, "store ")
			rc.stored[f] = append(rc.stored[f], c.Src...)
		}
	}
	bKey := map[string][]Effect{}
	var universe []Atom
	for _, b := range bs {
		bKey[b.Key] = append(bKey[b.Key], b)
		universe = append(universe, b.All...)
		universe = append(universe, b.Near...)
		universe = append(universe, b.Soft...)
	}
	universe = sortAtoms(universe)
	keys := make([]string, 0, len(bKey))
	for k := range bKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if !rc.loose {
		for k, es := range byKey {
			if len(bKey[k]) > 0 || !strings.HasPrefix(k, "leave each ") {
				continue
			}
			for _, a := range universe {
				if a.Op == "each" && strings.Join(a.S, " ") == strings.TrimPrefix(k, "leave each ") {
					out = append(out, relDiff{n, k, "the loop is now left before its sequence is exhausted when " + atomsStr(es[0].Near), es[0].Pos})
				}
			}
		}
	}
	if !rc.loose {
		out = append(out, rc.newWrites(n, bs, byKey)...)
	}
	for _, k := range keys {
		if strings.HasPrefix(k, "mut ") {
			continue
		}
		if strings.HasPrefix(k, "call ") && rc.gone[strings.TrimPrefix(k, "call ")] {
			continue
		}
		if strings.HasPrefix(k, "order ") {
			if !rc.loose {
				out = append(out, rc.reversed(n, k, bKey[k], byKey[k])...)
			}
			continue
		}
		if rc.ex.key(k) {
			continue
		}
		ds := rc.compareKey(n, k, bKey[k], byKey[k], bs, universe)
		if len(ds) > 0 && !rc.loose {
			if b2, c2 := regroup(bKey[k], byKey[k]); len(b2) < len(bKey[k]) || len(c2) < len(byKey[k]) {
				if len(rc.compareKey(n, k, b2, c2, bs, universe)) == 0 {
					ds = nil
				}
			}
		}
		out = append(out, ds...)
	}
	return out
}

// compareKey compares the effects of function n with the key k.
func (rc *relCmp) compareKey(n, k string, cbs, cands, bs []Effect, universe []Atom) []relDiff {
	var out []relDiff
	for _, b := range cbs {
		why := "effect is gone"
		found := false
		best, pos := -1, ""
		for _, c := range cands {
			w, sc, ok := rc.cover2(b, c)
			if ok {
				if os.Getenv("AN_TRACE") == n {
					fmt.Println("COVERED", b.Pos, b.Src, b.Must, "\n   BY", c.Pos, c.Src, c.Must)
				}
				found = true
				break
			}
			if sc > best {
				best, why, pos = sc, w, c.Pos
			}
		}
		if !found && !isZeroEffect(b) {
			out = append(out, relDiff{n, k, why + " (confirmed: " + strings.Join(b.Src, ",") + " when " + atomsStr(b.Near) + ")", pos})
		}
	}
	if rc.loose {
		return out
	}
	var own []Atom
	for _, b := range cbs {
		own = append(append(append(append(own, b.All...), b.Near...), b.Soft...), b.Must...)
	}
	for _, c := range cands {
		found := false
		why, best := "", -1
		var merged Effect
		nm := 0
		for _, b := range cbs {
			w, sc, ok := rc.cover2(b, c)
			if ok && os.Getenv("AN_TRACE") == n {
				fmt.Println("CONFIRMED", c.Pos, c.Src, c.Must, "\n   BY", b.Src, b.Must)
			}
			if ok {
				nm++
				merged.Src = append(merged.Src, b.Src...)
				merged.All = append(merged.All, b.All...)
				if strings.HasPrefix(k, "leave ") {
					for _, a := range c.Near {
						if !rc.atomIn(a, b.All) {
							w, ok = "left under "+a.String(), false
						}
					}
				}
				if x := rc.extra(b, c); x != "" {
					w, ok = "newly computed from "+x, false
					sc += 1000
				}
			}
			if isZeroEffect(c) && isZeroEffect(b) && len(c.Direct) > 0 && len(b.Direct) > 0 {
				ok = true
				for _, a := range c.Direct {
					if !rc.atomIn(a, b.All) && !(strings.HasPrefix(a.Op, "is") && rc.atomKnown(a, b.All)) {
						ok = false
					}
				}
			}
			if ok {
				found = true
				break
			}
			if sc > best {
				best, why = sc, w
			}
		}
		if !found && isZeroEffect(c) && strings.HasPrefix(k, "ret ") && rc.idle(c, bs) {
			continue // returning early where nothing was done
		}
		if !found && nm > 1 && strings.HasPrefix(k, "leave ") {
			found = true // several confirmed ways of leaving, now at one place
			for _, a := range c.Near {
				if !rc.atomIn(a, merged.All) {
					found = false
				}
			}
		}
		if !found && nm > 1 && !strings.HasPrefix(k, "leave ") && rc.extra(merged, c) == "" {
			found = true // several confirmed effects brought about at one place
		}
		if !found {
			out = append(out, relDiff{n, k, "unconfirmed: " + why + " (now: " + strings.Join(c.Src, ",") + " when " + atomsStr(c.Near) + ")", c.Pos})
		}
		if strings.HasPrefix(k, "call ") || strings.HasPrefix(k, "map ") {
			for _, a := range c.Near {
				if strings.HasPrefix(a.Op, "local") || a.Op == "each" || rc.ex.atomNew(a) || !rc.atomKnown(a, universe) || hasStr(a.S, "iter") {
					continue
				}
				if !rc.atomKnown(a, own) {
					out = append(out, relDiff{n, k, "now decided by " + a.String(), c.Pos})
				}
			}
		}
		either := map[string]bool{}
		for _, a := range c.All {
			if m, ok := negate(a); ok && rc.atomKnown(a, universe) {
				either[m.String()] = c.joined
			}
		}
		for _, a := range c.All {
			if strings.HasPrefix(a.Op, "local") || rc.ex.atomNew(a) {
				continue
			}
			if !rc.atomKnown(a, universe) && !either[a.String()] {
				out = append(out, relDiff{n, k, "new condition " + a.String(), c.Pos})
			}
		}
	}
	return out
}

// regroup: where one result is produced at more places on one side than on the other, those
// places are taken together.
func regroup(bs, cs []Effect) ([]Effect, []Effect) {
	id := func(e Effect) string {
		if len(e.Src) == 0 || isZeroEffect(e) || !strings.HasPrefix(e.Key, "ret ") {
			return ""
		}
		return strings.Join(e.Src, " ")
	}
	nb, nc := map[string]int{}, map[string]int{}
	for _, e := range bs {
		nb[id(e)]++
	}
	for _, e := range cs {
		nc[id(e)]++
	}
	return mergeBy(bs, id, nb, nc), mergeBy(cs, id, nc, nb)
}

func mergeBy(es []Effect, id func(Effect) string, mine, other map[string]int) []Effect {
	at := map[string]int{}
	var out []Effect
	for _, e := range es {
		k := id(e)
		if k == "" || mine[k] < 2 || other[k] == 0 || mine[k] <= other[k] {
			out = append(out, e)
			continue
		}
		i, ok := at[k]
		if !ok {
			at[k] = len(out)
			e.joined = true
			out = append(out, e)
			continue
		}
		m := &out[i]
		g := either(Guard{Direct: m.Direct, Near: m.Near, All: m.All, Must: m.Must, Soft: m.Soft}, Guard{Direct: e.Direct, Near: e.Near, All: e.All, Must: e.Must, Soft: e.Soft})
		m.OK = common(m.OK, e.OK)
		m.Direct, m.Near, m.All, m.Must, m.Soft = sortAtoms(g.Direct), sortAtoms(g.Near), sortAtoms(g.All), sortAtoms(g.Must), sortAtoms(g.Soft)
	}
	return out
}

// idle: everything the function was confirmed to do is done only when some condition of c does not hold.
func (rc *relCmp) idle(c Effect, bs []Effect) bool {
	for _, a := range cat(c.Direct, c.Must) {
		n, ok := negate(a)
		if !ok {
			continue
		}
		all := true
		for _, b := range bs {
			if strings.HasPrefix(b.Key, "order ") {
				continue
			}
			if !isZeroEffect(b) && !rc.atomIn(n, b.Must) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// within: a is part of a condition in u.
func (rc *relCmp) within(a Atom, u []Atom) bool {
	for _, c := range u {
		if c.Op == a.Op {
			if _, ok := subset(a.S, c.S, rc.skip); ok {
				return true
			}
		}
	}
	return false
}

func (rc *relCmp) atomKnown(a Atom, u []Atom) bool {
	if a.Op == "is" || a.Op == "isnot" {
		// a checked type assertion also answers whether there is anything at all
		b := Atom{Op: map[string]string{"is": "nonnil", "isnot": "nil"}[a.Op]}
		for _, x := range a.S {
			if !strings.HasPrefix(x, "type:") {
				b.S = append(b.S, x)
			}
		}
		n, _ := negate(b)
		for _, c := range u {
			if (c.Op == b.Op || c.Op == n.Op) && strings.Join(c.S, " ") == strings.Join(b.S, " ") {
				return true
			}
		}
	}
	for _, c := range u {
		if (a.Op == "==" || a.Op == "!=") && (c.Op == "<" || c.Op == ">") && operands(a.S) == operands(c.S) {
			return true // breaking ties in an ordering
		}
		if c.Op != a.Op {
			continue
		}
		if _, ok := subset(c.S, a.S, rc.skip); ok {
			return true
		}
		if _, ok := subset(a.S, c.S, rc.skip); ok {
			return true
		}
	}
	return false
}

func atomsStr(as []Atom) string {
	var s []string
	for _, a := range as {
		s = append(s, a.String())
	}
	if len(s) == 0 {
		return "always"
	}
	return strings.Join(s, " & ")
}

func (d relDiff) String() string {
	return fmt.Sprintf("%s: [%s] %s: %s", d.Pos, d.Func, d.Key, d.Why)
}

// isZeroEffect: an early return of a zero value.
func isZeroEffect(e Effect) bool { return len(e.Src) == 1 && e.Src[0] == "K:zero" }

// significant leaves may not appear in an effect that was confirmed without them.
func (rc *relCmp) significant(x string) bool {
	if rc.skip(x) {
		return false
	}
	switch {
	case strings.HasPrefix(x, "F:"), strings.HasPrefix(x, "K:"), strings.HasPrefix(x, "V:"), strings.HasPrefix(x, "op:slice"), strings.HasPrefix(x, "op:min"), strings.HasPrefix(x, "op:max"), strings.HasPrefix(x, "A:"):
		return true
	case strings.HasPrefix(x, "C:"):
		_, mod := rc.base.Known[strings.SplitN(x[2:], "#", 2)[0]]
		return mod
	}
	return false
}

func (rc *relCmp) extra(b, c Effect) string {
	m := map[string]bool{}
	for _, x := range b.Src {
		m[x] = true
	}
	for _, x := range c.Src {
		if !m[x] && rc.significant(x) && !spelled(x, b.Src) && !spells(x, b.Src) && !follows(x, b.Src) && !(strings.HasPrefix(x, "A:fmt.") && strings.Contains(x, "<K:")) && !rc.ex.seen[x[strings.LastIndex(x, "<")+1:]] && !(rc.ex.new["fmt.Sprintf"] && strings.Contains(x, "K:%")) {
			return x
		}
	}
	for _, a := range c.All {
		if a.Op != "each" {
			continue
		}
		ok := false
		first := ""
		for _, d := range b.All {
			if d.Op != "each" {
				continue
			}
			if _, sub := subset(d.S, a.S, rc.skip); !sub {
				continue
			}
			m := map[string]bool{}
			for _, x := range d.S {
				m[x] = true
			}
			bad := ""
			for _, x := range a.S {
				if !m[x] && rc.significant(x) {
					bad = x
				}
			}
			if bad == "" {
				ok = true
			} else {
				first = bad
			}
		}
		if !ok && first != "" {
			return "each " + first
		}
	}
	return ""
}

func knownFn(p *Prog, base *Baseline) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		_, ok := base.Known[fname(fn)]
		return ok || isPBFile(p, fn)
	}
}

func (rc *relCmp) compareMemo(n string) []relDiff {
	if rc.memo == nil {
		rc.memo = map[string][]relDiff{}
	}
	if d, ok := rc.memo[n]; ok {
		return d
	}
	d := rc.compare(n)
	rc.memo[n] = d
	return d
}

// exchange records that calls of pure text, list and formatting functions of the standard library were
// replaced by calls of others (strings.Replace by strings.ReplaceAll, a loop by slices.Contains): what they
// compute is then not comparable leaf by leaf, and nothing is concluded from them.
type exchange struct {
	on        bool
	gone, new map[string]bool
	maybe     map[string]bool // still called, but perhaps no longer everywhere
	seen      map[string]bool // everything the confirmed function computes from
	goneAtoms []Atom
	newAtoms  []Atom
	formats   []string
}

var exchangeable = map[string]bool{"strings": true, "bytes": true, "slices": true, "maps": true, "sort": true, "fmt": true, "strconv": true, "path": true, "path/filepath": true, "cmp": true, "unicode": true, "unicode/utf8": true, "errors": true, "github.com/samber/lo": true, "encoding/hex": true}

// confusable functions differ in what they compute on the same operands.
var confusable = [][]string{
	{"strings.TrimPrefix", "strings.TrimLeft", "strings.TrimSuffix", "strings.TrimRight", "strings.Trim"},
	{"strings.HasPrefix", "strings.HasSuffix", "strings.Contains"},
	{"strings.Index", "strings.LastIndex"},
	{"strings.ToUpper", "strings.ToLower"},
	{"path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext"},
	{"path.Base", "path.Dir", "path.Ext"},
	{"strings.Split", "strings.SplitN"},
	{"maps.Keys", "maps.Values"},
	{"sort.Slice", "sort.SliceStable"},
	{"errors.Is", "errors.As"},
}

// families are functions that, used suitably, compute the same thing; "==" stands for a comparison or a
// loop of comparisons, "+" for concatenation, "loop" for a loop written out.
var families = [][]string{
	{"strings.Contains", "strings.Index", "strings.ContainsRune", "strings.ContainsAny", "strings.IndexByte", "strings.IndexRune", "strings.Count"},
	{"strings.HasPrefix", "strings.CutPrefix", "strings.TrimPrefix", "strings.Cut", "strings.Index"},
	{"strings.HasSuffix", "strings.CutSuffix", "strings.TrimSuffix", "strings.Cut"},
	{"strings.Split", "strings.SplitN", "strings.SplitSeq", "strings.Cut", "strings.Index", "strings.LastIndex", "strings.SplitAfter", "strings.FieldsFunc"},
	{"strings.EqualFold", "strings.ToLower", "strings.ToUpper"},
	{"strings.Replace", "strings.ReplaceAll", "strings.NewReplacer"},
	{"slices.Contains", "slices.ContainsFunc", "slices.Index", "slices.IndexFunc", "==", "loop", "github.com/samber/lo.Contains"},
	{"maps.Keys", "slices.Sorted", "slices.Collect", "sort.Strings", "sort.Slice", "slices.Sort", "loop"},
	{"maps.Values", "slices.Collect", "slices.SortedFunc", "sort.Slice", "slices.SortFunc", "loop"},
	{"maps.Copy", "maps.Clone", "loop"},
	{"slices.Clone", "slices.Concat", "loop", "append"},
	{"slices.Reverse", "loop"},
	{"sort.Slice", "sort.Strings", "sort.Ints", "sort.Sort", "slices.Sort", "slices.SortFunc", "sort.Stable", "sort.SliceStable", "slices.SortStableFunc", "cmp.Compare", "strings.Compare"},
	{"sort.SliceStable", "sort.Stable", "slices.SortStableFunc", "cmp.Compare", "strings.Compare"},
	{"bytes.Equal", "==", "slices.Equal", "bytes.Compare"},
	{"slices.Equal", "==", "loop"},
	{"errors.Is", "=="},
	{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatBool", "strconv.Quote", "+", "strings.Join", "strings.Repeat", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "strings.(Builder).WriteString", "strings.(Builder).String", "strings.(Builder).WriteByte", "strings.(Builder).WriteRune", "bytes.(Buffer).WriteString", "bytes.(Buffer).String", "fmt.Appendf", "fmt.Append"},
	{"fmt.Errorf", "errors.New"},
	{"encoding/hex.EncodeToString", "fmt.Sprintf"},
	{"bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "strings.NewReader"},
	{"path/filepath.Join", "+"},
	{"strings.TrimSpace", "strings.Trim"},
	{"strings.Trim", "strings.TrimLeft", "strings.TrimRight"},
	{"slices.DeleteFunc", "slices.Delete", "loop", "append"},
	{"slices.Insert", "append"},
	{"slices.Max", "slices.Min", "slices.MaxFunc", "slices.MinFunc", "loop"},
	{"strings.Map", "loop", "strings.ReplaceAll"},
}

var operators = map[string]bool{"==": true, "loop": true, "+": true, "append": true}

// related: every function that is new in a function's body computes what one that is gone did.
func related(gone, new map[string]bool) bool {
	mate := func(x string, in map[string]bool) bool {
		for _, f := range families {
			if !hasStr(f, x) {
				continue
			}
			for _, y := range f {
				if y != x && (in[y] || operators[y]) {
					return true
				}
			}
		}
		return false
	}
	for x := range new {
		if !mate(x, gone) && !mate(x, new) {
			return false
		}
	}
	for x := range gone {
		if len(new) == 0 && !mate(x, new) {
			return false
		}
	}
	return true
}

func stdCall(x string) string {
	if strings.HasPrefix(x, "A:") {
		if i := strings.Index(x, "#"); i > 0 {
			x = "C:" + x[2:i]
		}
	}
	if !strings.HasPrefix(x, "C:") && !strings.HasPrefix(x, "FN:") {
		return ""
	}
	n := x[strings.Index(x, ":")+1:]
	if i := strings.Index(n, "#"); i >= 0 {
		n = n[:i]
	}
	i := strings.LastIndex(n, "/")
	j := strings.Index(n[i+1:], ".")
	if j < 0 || !exchangeable[n[:i+1+j]] {
		return ""
	}
	return n
}

func vocabulary(es []Effect) (std map[string]bool, atoms map[string]Atom, keys map[string]bool, all map[string]bool) {
	std, atoms, keys, all = map[string]bool{}, map[string]Atom{}, map[string]bool{}, map[string]bool{}
	see := func(x string) {
		all[x] = true
		if s := stdCall(x); s != "" {
			std[s] = true
		}
	}
	for _, e := range es {
		keys[e.Key] = true
		if i := strings.Index(e.Key, " "); i > 0 {
			see("C:" + e.Key[i+1:])
		}
		for _, x := range e.Src {
			see(x)
		}
		for _, a := range e.All {
			atoms[a.String()] = a
			for _, x := range a.S {
				see(x)
			}
		}
	}
	return
}

func newExchange(bs, cs []Effect, loose bool) exchange {
	if loose {
		return exchange{}
	}
	bstd, batoms, _, ball := vocabulary(bs)
	cstd, catoms, _, _ := vocabulary(cs)
	ex := exchange{gone: map[string]bool{}, new: map[string]bool{}}
	for x := range cstd {
		if !bstd[x] {
			ex.new[x] = true
		}
	}
	if len(ex.new) == 0 && len(cstd) == len(bstd) {
		return exchange{}
	}
	for x := range bstd {
		if !cstd[x] {
			ex.gone[x] = true
		}
	}
	ex.maybe = map[string]bool{}
	for x := range ex.new {
		for _, f := range families {
			if !hasStr(f, x) {
				continue
			}
			for _, y := range f {
				if y != x && cstd[y] && !operators[y] && bstd[y] {
					ex.maybe[y] = true
				}
			}
		}
	}
	for x := range ex.gone {
		if x == "encoding/hex.EncodeToString" && cstd["fmt.Sprintf"] {
			ex.new["fmt.Sprintf"] = true
		}
	}
	for _, set := range confusable {
		g, n := false, false
		for _, x := range set {
			g = g || ex.gone[x] || ex.maybe[x]
			n = n || ex.new[x]
		}
		if g && n {
			return exchange{}
		}
	}
	if !related(ex.gone, ex.new) {
		return exchange{}
	}
	for a, x := range batoms {
		if _, ok := catoms[a]; !ok {
			ex.goneAtoms = append(ex.goneAtoms, x)
		}
	}
	for a, x := range catoms {
		if _, ok := batoms[a]; !ok {
			ex.newAtoms = append(ex.newAtoms, x)
		}
	}
	for x := range ball {
		if strings.HasPrefix(x, "K:") && strings.Contains(x, "%") && (ex.gone["fmt.Sprintf"] || ex.maybe["fmt.Sprintf"]) {
			ex.formats = append(ex.formats, x[2:])
		}
	}
	ex.on = len(ex.new) > 0 || len(ex.gone) > 0
	ex.seen = map[string]bool{}
	for x := range ball {
		ex.seen[x[strings.LastIndex(x, "<")+1:]] = true
	}
	return ex
}

func (ex exchange) leaf(x string) bool {
	if !ex.on {
		return false
	}
	if s := stdCall(x); s != "" {
		return ex.maybe[s] || ex.gone[s] && (len(ex.new) > 0 || s == "fmt.Sprintf") || ex.new[s] && len(ex.gone)+len(ex.goneAtoms)+len(ex.maybe) > 0
	}
	if strings.HasPrefix(x, "K:") {
		for _, f := range ex.formats {
			if strings.Contains(f, x[2:]) {
				return true
			}
		}
		if ex.gone["strings.Replace"] && x == "K:-1" {
			return true
		}
		return false
	}
	return x == "op:+" && len(ex.formats) > 0
}

// key: an effect "call F" of a function that was replaced.
func (ex exchange) key(k string) bool {
	if !ex.on || len(ex.new) == 0 {
		return false
	}
	i := strings.Index(k, " ")
	if strings.HasPrefix(k, "call ") {
		s := stdCall("C:" + k[i+1:])
		return s != "" && ex.gone[s]
	}
	if strings.HasPrefix(k, "part ") {
		return ex.gone["strings.Join"] || ex.new["strings.Join"]
	}
	if strings.HasPrefix(k, "cret") {
		for s := range ex.gone {
			if strings.HasPrefix(s, "sort.") || strings.HasPrefix(s, "slices.") {
				return true
			}
		}
	}
	return false
}

func shares(a, b Atom) bool {
	for _, x := range a.S {
		if !strings.HasPrefix(x, "F:") && !strings.HasPrefix(x, "P:") && !strings.HasPrefix(x, "C:") || stdCall(x) != "" {
			continue
		}
		for _, y := range b.S {
			if x == y {
				return true
			}
		}
	}
	return false
}

func (ex exchange) hasNew(a Atom) bool {
	for _, x := range a.S {
		if s := stdCall(x); s != "" && ex.new[s] {
			return true
		}
	}
	return false
}

func (ex exchange) hasGone(a Atom) bool {
	for _, x := range a.S {
		if s := stdCall(x); s != "" && ex.gone[s] {
			return true
		}
	}
	return false
}

// atomGone: condition a was rewritten with (or without) an exchanged function.
func (ex exchange) atomGone(a Atom) bool {
	if !ex.on {
		return false
	}
	for _, n := range ex.newAtoms {
		if (ex.hasNew(n) || ex.hasGone(a)) && shares(a, n) {
			for _, g := range ex.goneAtoms {
				if g.String() == a.String() {
					return true
				}
			}
		}
	}
	return false
}

func (ex exchange) atomNew(a Atom) bool {
	if !ex.on {
		return false
	}
	for _, g := range ex.goneAtoms {
		if (ex.hasNew(a) || ex.hasGone(g)) && shares(a, g) {
			return true
		}
	}
	return false
}

func operands(s []string) string {
	m := map[string]bool{}
	for _, x := range s {
		if x != "|" && x != "=" {
			m[x] = true
		}
	}
	return strings.Join(srcSet(m).list(), " ")
}

func hasStr(s []string, x string) bool {
	for _, y := range s {
		if y == x {
			return true
		}
	}
	return false
}

// nilIs: a nil check of something whose dynamic type is tested instead.
func nilIs(a Atom, in []Atom) bool {
	op := map[string]string{"nil": "isnot", "nonnil": "is"}[a.Op]
	if op == "" {
		return false
	}
	for _, c := range in {
		if c.Op != op {
			continue
		}
		var s []string
		for _, x := range c.S {
			if !strings.HasPrefix(x, "type:") {
				s = append(s, x)
			}
		}
		if strings.Join(s, " ") == strings.Join(a.S, " ") {
			return true
		}
	}
	return false
}

// newWrites: the function writes something others can see that neither it nor what it called wrote before.
func (rc *relCmp) newWrites(n string, bs []Effect, byKey map[string][]Effect) []relDiff {
	had := map[string]bool{}
	seen := map[string]bool{n: true}
	var add func(es []Effect, depth int)
	add = func(es []Effect, depth int) {
		for _, b := range es {
			had[b.Key] = true
			if depth >= 3 {
				continue
			}
			xs := b.Src
			if f := strings.Fields(b.Key); len(f) > 1 && (f[0] == "call" || f[0] == "defer" || f[0] == "go") {
				xs = append(xs[:len(xs):len(xs)], "C:"+f[1])
			}
			for _, a := range b.All {
				xs = append(xs[:len(xs):len(xs)], a.S...)
			}
			for _, x := range xs {
				if !strings.HasPrefix(x, "C:") && !strings.HasPrefix(x, "FN:") {
					continue
				}
				c := strings.SplitN(x[strings.Index(x, ":")+1:], "#", 2)[0]
				had["call "+c] = true
				if !seen[c] {
					seen[c] = true
					add(rc.base.Funcs[c], depth+1)
				}
			}
		}
	}
	add(bs, 0)
	var out []relDiff
	for k, es := range byKey {
		if !had[k] && rc.noteworthy(k) {
			out = append(out, relDiff{n, k, "this is new here", es[0].Pos})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}

// noteworthy: an effect that no rearrangement of the code gives a function.
func (rc *relCmp) noteworthy(k string) bool {
	w := strings.Fields(k)
	switch w[0] {
	case "mut", "go", "panic", "send", "global":
		return true
	case "store":
		i := strings.LastIndex(w[1], ".")
		return i > 0 && slices.Contains(rc.base.Types, w[1][:i])
	case "call", "defer":
		if len(w) < 2 {
			return false
		}
		if _, ok := rc.base.Known[w[1]]; ok {
			return true
		}
		if rc.ex.key(k) {
			return false
		}
		pkg := strings.TrimPrefix(strings.SplitN(w[1], ".", 2)[0], "(*")
		switch pkg {
		case "os", "io", "time", "runtime":
			return true
		}
		return w[1] == "builtin.close" || w[1] == "builtin.delete" || w[1] == "builtin.panic" || strings.HasSuffix(w[1], ".Close")
	}
	return false
}

// outcome: whether what happens after which failures has changed.
func (rc *relCmp) outcome(b, c Effect) string {
	if strings.HasSuffix(b.Key, "ret err") || strings.HasPrefix(b.Key, "leave ") || strings.HasPrefix(b.Key, "order ") || strings.HasPrefix(b.Key, "send ") {
		return ""
	}
	for _, a := range b.OK {
		if strings.HasSuffix(a.Op, "?") {
			continue
		}
		if !rc.atomIn(Atom{a.Op + "?", a.S}, c.OK) {
			return "no longer only when " + a.String()
		}
	}
	for _, a := range c.OK {
		if !strings.HasSuffix(a.Op, "?") && len(a.S) == 1 && a.S[0] != "dyn" && !rc.atomIn(Atom{a.Op + "?", a.S}, b.OK) {
			return "now only when " + a.String()
		}
	}
	return ""
}
