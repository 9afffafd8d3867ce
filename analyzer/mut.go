package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Writes to what others can see. A function that did not write a field, an element or an entry of an object it
// was given, or that others hold too, must not start to.

// shared: v was not made here: it is given, kept in an object, a list, a table or a variable of the package.
func (e *Eval) shared(v ssa.Value, f *frame, depth int) bool {
	if depth > 8 {
		return false
	}
	v, f = e.lookup(v, f)
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.Global:
		return true
	case *ssa.FieldAddr:
		return e.shared(x.X, f, depth+1)
	case *ssa.IndexAddr:
		return e.shared(x.X, f, depth+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			return e.shared(y.X, f, depth+1)
		case *ssa.IndexAddr:
			return e.shared(y.X, f, depth+1)
		case *ssa.Global:
			return true
		}
	case *ssa.Lookup:
		return e.shared(x.X, f, depth+1)
	case *ssa.TypeAssert:
		return e.shared(x.X, f, depth+1)
	case *ssa.Slice:
		return e.shared(x.X, f, depth+1)
	case *ssa.ChangeType:
		return e.shared(x.X, f, depth+1)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return e.shared(t.X, f, depth+1)
		case *ssa.TypeAssert:
			return e.shared(t.X, f, depth+1)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				return e.shared(r.X, f, depth+1)
			}
		}
	case *ssa.Call:
		// a getter of a message
		if o := calleeObj(&x.Call); o != nil && strings.HasPrefix(o.Name(), "Get") && len(x.Call.Args) == 1 && o.Type().(*types.Signature).Recv() != nil && isPB(x.Call.Args[0].Type()) {
			return e.shared(x.Call.Args[0], f, depth+1)
		}
	}
	return false
}

var inPlace = map[string]bool{
	"sort.Slice": true, "sort.SliceStable": true, "sort.Strings": true, "sort.Ints": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true,
	"slices.Delete": true, "slices.Insert": true, "slices.Compact": true, "maps.Copy": true, "maps.DeleteFunc": true,
}

// mutation names what the instruction writes that others can see.
func (e *Eval) mutation(in ssa.Instruction, f *frame) string {
	switch x := in.(type) {
	case *ssa.Store:
		a, af := e.lookup(x.Addr, f)
		switch y := a.(type) {
		case *ssa.FieldAddr:
			if e.shared(y.X, af, 0) {
				return "field " + fieldName(y.X.Type(), y.Field)
			}
		case *ssa.IndexAddr:
			if e.shared(y.X, af, 0) {
				return "element of " + typeStr(y.X.Type())
			}
		case *ssa.Global:
			return "variable " + qual(y.Pkg.Pkg) + "." + y.Name()
		case *ssa.Parameter:
			return "target of " + typeStr(y.Type())
		}
	case *ssa.MapUpdate:
		if e.shared(x.Map, f, 0) {
			return "entry of " + typeStr(x.Map.Type())
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "copy", "clear":
				if e.shared(cc.Args[0], f, 0) {
					return "content of " + typeStr(cc.Args[0].Type())
				}
			case "append":
				// appending to a part of a list overwrites what follows it
				if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.High != nil && e.shared(sl.X, f, 0) {
					return "tail of " + typeStr(cc.Args[0].Type())
				}
			}
			return ""
		}
		if o := calleeObj(cc); o != nil && inPlace[strings.SplitN(o.FullName(), "[", 2)[0]] && len(cc.Args) > 0 {
			a := cc.Args[0]
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			if e.shared(a, f, 0) {
				return "order of " + typeStr(a.Type())
			}
		}
	}
	return ""
}
