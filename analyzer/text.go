package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Texts. A text put together by formatting calls with a constant format, by concatenation and by helpers doing
// either is one sequence of constant texts and values, however it is spelled. It is rendered by the constant
// texts between the values and, for each value, by the constant text before it.

// piece is one element of such a sequence: a constant text, or a value with the verb it is printed by.
type piece struct {
	text string
	v    ssa.Value
	f    *frame
	verb string
}

var verbRE = regexp.MustCompile(`%[-+# 0-9.*\[\]]*[a-zA-Z%]`)

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// pieces flattens the text v; ok is false if v is not put together here.
func (e *Eval) pieces(v ssa.Value, f *frame, depth int) ([]piece, bool) {
	if depth > 10 {
		return nil, false
	}
	v, f = e.lookup(v, f)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []piece{{text: constant.StringVal(x.Value)}}, true
		}
	case *ssa.MakeInterface:
		if isString(x.X.Type()) {
			return e.pieces(x.X, f, depth+1)
		}
	case *ssa.ChangeType:
		if isString(x.X.Type()) {
			return e.pieces(x.X, f, depth+1)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			return append(e.operand(x.X, f, "", depth), e.operand(x.Y, f, "", depth)...), true
		}
	case *ssa.Call:
		if o := calleeObj(&x.Call); o != nil {
			switch o.FullName() {
			case "fmt.Sprintf":
				return e.formatted(x.Common(), 0, f, depth)
			case "encoding/hex.EncodeToString":
				return e.operand(x.Call.Args[0], f, "%x", depth), true
			case "strconv.Quote":
				return e.operand(x.Call.Args[0], f, "%q", depth), true
			}
		}
		t := e.callee(&x.Call, f)
		if t == nil || !e.transparent(t.fn, f) || t.fn.Signature.Results().Len() != 1 {
			return nil, false
		}
		var only *ssa.Return
		for _, b := range t.fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && e.p.live(t.fn)[b] && b.Comment != "recover" {
				if only != nil {
					return nil, false
				}
				only = r
			}
		}
		if only != nil {
			return e.pieces(only.Results[0], e.enter(x, *t, f), depth+1)
		}
	}
	return nil, false
}

// operand is the piece, or the pieces, of one operand.
func (e *Eval) operand(v ssa.Value, f *frame, verb string, depth int) []piece {
	if verb == "" {
		if ps, ok := e.pieces(v, f, depth+1); ok {
			return ps
		}
	}
	return []piece{{v: v, f: f, verb: verb}}
}

// formatted flattens a formatting call whose format is the argument with index at.
func (e *Eval) formatted(cc *ssa.CallCommon, at int, f *frame, depth int) ([]piece, bool) {
	if at >= len(cc.Args) {
		return nil, false
	}
	fv, _ := e.lookup(cc.Args[at], f)
	c, ok := fv.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return nil, false
	}
	format := constant.StringVal(c.Value)
	var args []argSlot
	if at+1 < len(cc.Args) {
		if k, ok := cc.Args[at+1].(*ssa.Const); !ok || k.Value != nil {
			if sl, ok := cc.Args[at+1].(*ssa.Slice); !ok || !isAlloc(sl.X) {
				return nil, false
			}
			args = e.argList(&ssa.CallCommon{Value: cc.Value, Args: cc.Args[at+1:]}, f)
		}
	}
	var out []piece
	k, pos := 0, 0
	for _, m := range verbRE.FindAllStringIndex(format, -1) {
		if m[0] > pos {
			out = append(out, piece{text: format[pos:m[0]]})
		}
		pos = m[1]
		vb := format[m[0]:m[1]]
		if vb == "%%" {
			out = append(out, piece{text: "%"})
			continue
		}
		if strings.ContainsAny(vb, "*[") || k >= len(args) || len(args[k].vs) != 1 {
			return nil, false
		}
		if vb == "%s" || vb == "%v" || vb == "%d" {
			vb = ""
		}
		a := args[k].vs[0]
		out = append(out, e.operand(a.v, a.f, vb, depth)...)
		k++
	}
	if k != len(args) {
		return nil, false
	}
	if pos < len(format) {
		out = append(out, piece{text: format[pos:]})
	}
	return out, true
}

// printfLike: the index of the format of a formatting call.
func printfLike(cc *ssa.CallCommon) (int, bool) {
	sig := cc.Signature()
	n := sig.Params().Len()
	if !sig.Variadic() || n < 2 || !isString(sig.Params().At(n-2).Type()) || sig.Params().At(n-2).Name() != "format" {
		return 0, false
	}
	s, ok := sig.Params().At(n - 1).Type().(*types.Slice)
	if !ok {
		return 0, false
	}
	if i, ok := s.Elem().Underlying().(*types.Interface); !ok || i.NumMethods() != 0 {
		return 0, false
	}
	return len(cc.Args) - 2, true
}

var tagger = strings.NewReplacer("#", "_", "<", "_", ">", "_")

// collectText renders a flattened text.
func (e *Eval) collectText(ps []piece, out srcSet, seen map[seenKey]bool) {
	e.collectAfter("", false, ps, out, seen)
}

// collectAfter renders a text that follows the constant text before.
func (e *Eval) collectAfter(before string, several bool, ps []piece, out srcSet, seen map[seenKey]bool) {
	var text string
	flush := func() string {
		t := text
		if t != "" {
			out["K:"+t] = true
		}
		text = ""
		return t
	}
	vals := 0
	for _, p := range ps {
		if p.v != nil {
			vals++
		}
	}
	if several && before != "" {
		vals = 2
	}
	for _, p := range ps {
		if p.v == nil {
			text += p.text
			continue
		}
		if t := flush(); t != "" {
			before = t
		}
		if v, f := e.lookup(p.v, p.f); p.verb == "" && isString(v.Type()) {
			if ph, ok := v.(*ssa.Phi); ok && !seen[seenKey{v, f}] {
				seen[seenKey{v, f}] = true
				for i, ed := range ph.Edges {
					if e.p.liveEdge(ph.Block(), i) {
						e.collectAfter(before, vals > 1, e.operand(ed, f, "", 0), out, seen)
					}
				}
				continue
			}
		}
		e.collect(p.v, p.f, out, seen)
		if p.verb != "" {
			out["K:"+p.verb] = true
		}
		if vals < 2 || e.inArg > 0 {
			continue
		}
		s := srcSet{}
		e.inArg++
		e.collect(p.v, p.f, s, map[seenKey]bool{})
		e.inArg--
		for l := range s {
			if !strings.HasPrefix(l, "A:") && !strings.HasPrefix(l, "K:") {
				out["A:text#"+tagger.Replace(before)+"<"+l] = true
			}
		}
	}
	flush()
}

func isAlloc(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}
