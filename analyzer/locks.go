package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock modes: a lock may be released although this function did not take it (-1),
// held shared (1) or held exclusively (2).
const (
	modeR = 1
	modeW = 2
)

// lockOp recognises an operation on a mutex and names the lock by the field or variable it lives in.
func lockOp(c ssa.CallInstruction) (id string, base ssa.Value, mode int, acquire, ok bool) {
	cc := c.Common()
	var recv ssa.Value
	name := calleeName(cc)
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return
	}
	switch name[:i] {
	case "sync.(Mutex)", "sync.(RWMutex)", "sync.Locker", "sync.(Locker)":
	default:
		return
	}
	switch name[i+1:] {
	case "Lock":
		mode, acquire = modeW, true
	case "RLock":
		mode, acquire = modeR, true
	case "Unlock":
		mode = modeW
	case "RUnlock":
		mode = modeR
	default:
		return
	}
	if cc.IsInvoke() {
		recv = cc.Value
	} else if len(cc.Args) > 0 {
		recv = cc.Args[0]
	}
	if recv == nil {
		return
	}
	id, base = lockName(recv)
	return id, base, mode, acquire, id != ""
}

func lockName(v ssa.Value) (string, ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return "", nil
			}
			v = x.X
		case *ssa.FieldAddr:
			return fieldKey(x), x.X
		case *ssa.Global:
			return x.RelString(nil), x
		case *ssa.Alloc:
			return "local " + x.Comment, x
		case *ssa.FreeVar:
			return "local " + x.Name(), x
		case *ssa.Parameter:
			return "", nil
		default:
			return "", nil
		}
	}
}

type held struct {
	mode int
	base ssa.Value
	at   ssa.Instruction
}

// lstate is one abstract state: what is held and which releases are registered to run at the exit.
type lstate struct {
	held map[string]held
	defs map[ssa.Instruction]bool
}

func (s *lstate) key() string {
	var ks []string
	for k, h := range s.held {
		ks = append(ks, fmt.Sprintf("%s=%d", k, h.mode))
	}
	for d := range s.defs {
		ks = append(ks, fmt.Sprintf("d%p", d))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (s *lstate) clone() *lstate {
	n := &lstate{map[string]held{}, map[ssa.Instruction]bool{}}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k := range s.defs {
		n.defs[k] = true
	}
	return n
}

func heldKey(h map[string]held) string {
	var ks []string
	for k, v := range h {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v.mode))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

type lockIssue struct {
	rule, construct, pos, msg string
}

// lockAnalysis computes, for the whole module, what every function does to every lock and
// which locks are held, for certain, at every instruction.
type lockAnalysis struct {
	p       *Prog
	g       *callGraph
	net     map[*ssa.Function]map[string]int
	acq     map[*ssa.Function]map[string]int // locks the function may take, itself or below
	busy    map[*ssa.Function]bool
	at      map[ssa.Instruction][]*lstate
	entry   map[*ssa.Function]map[string]int
	issues  []lockIssue
	nOps    int
	nFuncs  int
	locks   map[string]bool
	order   map[string]map[string]string
	appOnly map[string]bool
}

func (p *Prog) locks() *lockAnalysis {
	if p.lk != nil {
		return p.lk
	}
	a := &lockAnalysis{p: p, g: p.graph(), net: map[*ssa.Function]map[string]int{}, acq: map[*ssa.Function]map[string]int{}, busy: map[*ssa.Function]bool{},
		at: map[ssa.Instruction][]*lstate{}, entry: map[*ssa.Function]map[string]int{}, locks: map[string]bool{}, order: map[string]map[string]string{}}
	p.lk = a
	a.acquires()
	for _, fn := range a.g.all {
		a.summary(fn)
	}
	a.entries()
	a.ordering()
	return a
}

// acquires computes which locks a function may take, transitively.
func (a *lockAnalysis) acquires() {
	for _, fn := range a.g.all {
		m := map[string]int{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if id, _, mode, acq, ok := lockOp(c); ok {
						a.nOps++
						a.locks[id] = true
						if acq {
							m[id] = max(m[id], mode)
						}
					}
				}
			}
		}
		a.acq[fn] = m
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range a.g.all {
			for _, e := range a.g.in[fn] {
				if e.async {
					continue
				}
				for k, v := range a.acq[fn] {
					if a.acq[e.caller][k] < v {
						a.acq[e.caller][k] = v
						changed = true
					}
				}
			}
		}
	}
}

func (a *lockAnalysis) issue(rule string, fn *ssa.Function, pos, msg string) {
	a.issues = append(a.issues, lockIssue{rule, fname(root(fn)), pos, msg})
}

func short(id string) string {
	id = strings.TrimPrefix(id, "github.com/mercari/grpc-federation/")
	return strings.TrimPrefix(id, "grpc/")
}

// summary analyses one function from an empty state and returns its net effect.
func (a *lockAnalysis) summary(fn *ssa.Function) map[string]int {
	if n, ok := a.net[fn]; ok {
		return n
	}
	if a.busy[fn] || fn.Blocks == nil {
		return nil
	}
	a.busy[fn] = true
	defer delete(a.busy, fn)
	a.nFuncs++
	in := map[*ssa.BasicBlock]map[string]*lstate{}
	start := &lstate{map[string]held{}, map[ssa.Instruction]bool{}}
	in[fn.Blocks[0]] = map[string]*lstate{start.key(): start}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	var exits []*lstate
	exitAt := map[*lstate]ssa.Instruction{}
	done := map[*ssa.BasicBlock]map[string]bool{}
	reported := map[string]bool{}
	rep := func(rule, pos, msg string) {
		if !reported[rule+pos+msg] {
			reported[rule+pos+msg] = true
			a.issue(rule, fn, pos, msg)
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if done[b] == nil {
			done[b] = map[string]bool{}
		}
		for k, s0 := range in[b] {
			if done[b][k] || len(done[b]) > 64 {
				continue
			}
			done[b][k] = true
			s := s0.clone()
			for _, ins := range b.Instrs {
				a.at[ins] = append(a.at[ins], s.clone())
				switch x := ins.(type) {
				case *ssa.Call:
					a.apply(fn, s, x, rep)
				case *ssa.Defer:
					s.defs[x] = true
				case *ssa.RunDefers:
					ds := make([]ssa.Instruction, 0, len(s.defs))
					for d := range s.defs {
						ds = append(ds, d)
					}
					sort.Slice(ds, func(i, j int) bool { return ds[i].Pos() > ds[j].Pos() })
					for _, d := range ds {
						a.apply(fn, s, d.(*ssa.Defer), rep)
					}
					s.defs = map[ssa.Instruction]bool{}
				case *ssa.Return:
					exits = append(exits, s)
					exitAt[s] = x
				case *ssa.Panic:
					// the way out of a panic runs the deferred releases only
					e := s.clone()
					for d := range s.defs {
						a.apply(fn, e, d.(*ssa.Defer), nil)
					}
					for id, h := range e.held {
						if h.mode > 0 {
							rep("release", a.p.ipos(x), fmt.Sprintf("%s is still held when this panic leaves the function", short(id)))
						}
					}
				}
			}
			for _, sc := range b.Succs {
				if in[sc] == nil {
					in[sc] = map[string]*lstate{}
				}
				if _, ok := in[sc][s.key()]; !ok {
					in[sc][s.key()] = s.clone()
					work = append(work, sc)
				}
			}
		}
	}
	net := map[string]int{}
	if len(exits) > 0 {
		keys := map[string]*lstate{}
		for _, e := range exits {
			keys[heldKey(e.held)] = e
		}
		if len(keys) > 1 {
			all := map[string]bool{}
			for _, e := range exits {
				for id := range e.held {
					all[id] = true
				}
			}
			for id := range all {
				var with, without ssa.Instruction
				for _, e := range exits {
					if e.held[id].mode != 0 {
						with = exitAt[e]
					} else {
						without = exitAt[e]
					}
				}
				if with != nil && without != nil {
					for _, e := range exits {
						if h := e.held[id]; h.mode > 0 {
							rep("release", a.p.ipos(exitAt[e]), fmt.Sprintf("%s taken at %s is not released on this way out", short(id), a.p.ipos(h.at)))
						} else if h.mode < 0 {
							rep("release", a.p.ipos(exitAt[e]), fmt.Sprintf("%s is released on this way out only, although this function did not take it", short(id)))
						}
					}
				}
			}
		} else {
			for id, h := range exits[0].held {
				net[id] = h.mode
				if h.mode > 0 && a.g.opaque[fn] && !pureLock(fn) {
					rep("release", a.p.ipos(h.at), fmt.Sprintf("%s taken here is never released by this function", short(id)))
				}
			}
		}
	}
	a.net[fn] = net
	return net
}

// pureLock reports a function that does nothing but operate a lock: a named lock operation.
func pureLock(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr, *ssa.Field, *ssa.UnOp, *ssa.Return, *ssa.DebugRef, *ssa.Alloc, *ssa.Jump, *ssa.BinOp, *ssa.If:
			case *ssa.Store:
			case *ssa.Call:
				if _, _, _, _, ok := lockOp(x); !ok && !x.Call.IsInvoke() && x.Call.StaticCallee() == nil {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// apply lets a call change the state.
func (a *lockAnalysis) apply(fn *ssa.Function, s *lstate, c ssa.CallInstruction, rep func(rule, pos, msg string)) {
	if id, base, mode, acq, ok := lockOp(c); ok {
		h := s.held[id]
		if acq {
			if h.mode > 0 && rep != nil && sameBase(h.base, base) {
				rep("deadlock", a.p.ipos(c), fmt.Sprintf("%s is taken while it is already held", short(id)))
			}
			if h.mode < 0 {
				delete(s.held, id)
			} else {
				s.held[id] = held{mode, base, c}
			}
			return
		}
		switch {
		case h.mode > 0:
			if h.mode != mode && rep != nil {
				rep("release", a.p.ipos(c), fmt.Sprintf("%s is held in one mode and released in the other", short(id)))
			}
			delete(s.held, id)
		default:
			s.held[id] = held{-1, base, c}
		}
		return
	}
	es := a.g.out[c]
	if len(es) == 0 {
		return
	}
	var net map[string]int
	seen := false
	for _, e := range es {
		if e.async {
			continue
		}
		if a.busy[e.callee] {
			continue
		}
		n := a.summary(e.callee)
		if !e.ext && rep != nil {
			for id := range a.acq[e.callee] {
				if h := s.held[id]; h.mode > 0 && passes(c, h.base) && a.net[e.callee][id] >= 0 {
					rep("deadlock", a.p.ipos(c), fmt.Sprintf("%s is held here and %s takes it again", short(id), fname(e.callee)))
				}
			}
		}
		if e.ext {
			n = nil
		}
		if !seen {
			net, seen = n, true
			continue
		}
		m := map[string]int{}
		for k, v := range n {
			if w, ok := net[k]; ok && w == v {
				m[k] = v
			}
		}
		net = m
	}
	for id, v := range net {
		h := s.held[id]
		switch {
		case v > 0 && h.mode < 0:
			delete(s.held, id)
		case v > 0:
			s.held[id] = held{v, recvOf(c), c}
		case v < 0 && h.mode > 0:
			delete(s.held, id)
		case v < 0:
			s.held[id] = held{-1, nil, c}
		}
	}
}

func recvOf(c ssa.CallInstruction) ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Value
	}
	if len(cc.Args) > 0 {
		return cc.Args[0]
	}
	return nil
}

func passes(c ssa.CallInstruction, base ssa.Value) bool {
	if base == nil {
		return false
	}
	cc := c.Common()
	if cc.IsInvoke() && sameBase(cc.Value, base) {
		return true
	}
	for _, x := range cc.Args {
		if sameBase(x, base) {
			return true
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, x := range mc.Bindings {
			if sameBase(x, base) {
				return true
			}
		}
	}
	return false
}

// sameBase compares the objects two lock operations belong to, as far as the text shows.
func sameBase(x, y ssa.Value) bool {
	if x == y {
		return x != nil
	}
	fx, ok1 := x.(*ssa.FieldAddr)
	fy, ok2 := y.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return fx.Field == fy.Field && sameBase(fx.X, fy.X)
	}
	ux, ok1 := x.(*ssa.UnOp)
	uy, ok2 := y.(*ssa.UnOp)
	if ok1 && ok2 && ux.Op == uy.Op {
		return sameBase(ux.X, uy.X)
	}
	return false
}

// heldAt is what is certainly held when control reaches an instruction, whoever called.
func (a *lockAnalysis) heldAt(in ssa.Instruction) map[string]int {
	fn := in.Parent()
	out := map[string]int{}
	sts := a.at[in]
	if len(sts) == 0 {
		return out
	}
	first := true
	for _, s := range sts {
		cur := map[string]int{}
		for id, m := range a.entry[fn] {
			cur[id] = m
		}
		for id, h := range s.held {
			if h.mode > 0 {
				cur[id] = max(cur[id], h.mode)
			} else {
				delete(cur, id)
			}
		}
		if first {
			out, first = cur, false
			continue
		}
		for id := range out {
			if cur[id] < out[id] {
				out[id] = cur[id]
			}
			if out[id] == 0 {
				delete(out, id)
			}
		}
	}
	return out
}

// entries computes the locks every caller of a function holds.
func (a *lockAnalysis) entries() {
	top := map[*ssa.Function]bool{}
	for _, fn := range a.g.all {
		if a.g.opaque[fn] {
			a.entry[fn] = map[string]int{}
		} else {
			top[fn] = true
			m := map[string]int{}
			for id := range a.locks {
				m[id] = modeW
			}
			a.entry[fn] = m
		}
	}
	for changed := true; changed; {
		changed = false
		for fn := range top {
			var m map[string]int
			for _, e := range a.g.in[fn] {
				if _, ok := unshared[fname(root(e.caller))]; ok {
					continue
				}
				h := map[string]int{}
				if !e.async {
					if d, ok := e.site.(*ssa.Defer); ok {
						h = a.heldAtExit(d)
					} else {
						h = a.heldAt(e.site)
					}
				}
				if m == nil {
					m = h
					continue
				}
				for id := range m {
					m[id] = min(m[id], h[id])
					if m[id] == 0 {
						delete(m, id)
					}
				}
			}
			if fmt.Sprint(m) != fmt.Sprint(a.entry[fn]) {
				a.entry[fn] = m
				changed = true
			}
		}
	}
}

// heldAtExit is what is held when a deferred call runs: at every exit, before the releases
// that were registered earlier.
func (a *lockAnalysis) heldAtExit(d *ssa.Defer) map[string]int {
	var m map[string]int
	for _, b := range d.Parent().Blocks {
		for _, in := range b.Instrs {
			if rd, ok := in.(*ssa.RunDefers); ok && len(a.at[rd]) > 0 {
				h := a.heldAt(rd)
				for _, s := range a.at[rd] {
					for o := range s.defs {
						if o.Pos() > d.Pos() { // runs before d
							if id, _, _, acq, ok := lockOp(o.(ssa.CallInstruction)); ok && !acq {
								delete(h, id)
							}
						}
					}
				}
				if m == nil {
					m = h
					continue
				}
				for id := range m {
					m[id] = min(m[id], h[id])
				}
			}
		}
	}
	if m == nil {
		m = map[string]int{}
	}
	return m
}

// ordering records which lock is taken while which other is held, and reports cycles.
func (a *lockAnalysis) ordering() {
	for _, fn := range a.g.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				took := map[string]bool{}
				if id, _, _, acq, ok := lockOp(c); ok && acq {
					took[id] = true
				}
				if _, ok := in.(*ssa.Call); ok {
					for _, e := range a.g.out[c] {
						if !e.async {
							for id := range a.acq[e.callee] {
								took[id] = true
							}
						}
					}
				}
				if len(took) == 0 {
					continue
				}
				for h := range a.heldAt(in) {
					for id := range took {
						if id == h || strings.HasPrefix(id, "local ") {
							continue
						}
						if a.order[h] == nil {
							a.order[h] = map[string]string{}
						}
						if a.order[h][id] == "" {
							a.order[h][id] = a.p.ipos(in) + "|" + fname(root(fn))
						}
					}
				}
			}
		}
	}
	for x, m := range a.order {
		for y, at := range m {
			if back := a.order[y][x]; back != "" && x < y {
				ap := strings.SplitN(at, "|", 2)
				a.issues = append(a.issues, lockIssue{"order", ap[1], ap[0], fmt.Sprintf("%s is taken while %s is held, and the other way round at %s", short(y), short(x), strings.Split(back, "|")[0])})
			}
		}
	}
}

// guard says which lock protects a piece of shared state.
type guard struct {
	lock string
	why  string
	wait bool // also touched by a goroutine whose result the holder of the lock waits for
}

const fedPath = "grpc/federation."

// guarded is the specification: shared state and the lock that protects it.
var guarded = map[string]guard{
	"grpc/federation.LocalValue.envOpts":           {"grpc/federation.LocalValue.mu", "type environment of a message evaluation, extended by concurrent variable evaluations", false},
	"grpc/federation.LocalValue.evalValues":        {"grpc/federation.LocalValue.mu", "values of a message evaluation, extended by concurrent variable evaluations", false},
	"grpc/federation.singleflightCache.resultMap":  {"grpc/federation.singleflightCache.mu", "results shared by concurrent evaluations of one definition", false},
	"grpc/federation.CELCacheMap.cacheMap":         {"grpc/federation.CELCacheMap.mu", "program cache shared by all requests", false},
	"grpc/federation.CELTypeHelper.structFieldMap": {"grpc/federation.CELTypeHelper.mapMu", "type table shared by all requests", false},
	"grpc/federation/log.loggerRef.logger":         {"grpc/federation/log.loggerRef.mu", "logger shared by the branches of a request", false},
	"grpc/federation/log.loggerRef.attrs":          {"grpc/federation/log.loggerRef.mu", "attributes shared by the branches of a request", false},
	"grpc/federation/cel.CELPluginInstance.closed": {"grpc/federation/cel.CELPluginInstance.mu", "life-cycle state of a plugin instance", false},
	"grpc/federation/cel.CELPluginInstance.stdin":  {"grpc/federation/cel.CELPluginInstance.mu", "request pipe: one exchange at a time", true},
	"grpc/federation/cel.CELPluginInstance.stdout": {"grpc/federation/cel.CELPluginInstance.mu", "response pipe: one exchange at a time", true},
	"lsp/server.Handler.fileToContentMap":          {"lsp/server.Handler.fileContentMu", "document contents, changed by notifications", false},
	"generator.Watcher.isWorking":                  {"generator.Watcher.isWorkingMu", "busy flag shared by the two event loops", false},
}

type access struct {
	field string
	write bool
	in    ssa.Instruction
	what  string
}

// fresh reports an object this function has just made.
func fresh(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			a, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return false
			}
			vals := reachingStores(a, x)
			for _, s := range vals {
				if !fresh(s) {
					return false
				}
			}
			return len(vals) > 0
		default:
			return false
		}
	}
}

// accesses collects every touch of a guarded field, following the loaded reference through
// the function and into the module functions it is handed to.
func (a *lockAnalysis) accesses(fa *ssa.FieldAddr, key string) (out []access, escapes []access) {
	seen := map[ssa.Value]bool{}
	appendOnly := a.appendOnly(key)
	var alias func(v ssa.Value, depth int)
	add := func(w bool, in ssa.Instruction, what string) { out = append(out, access{key, w, in, what}) }
	alias = func(v ssa.Value, depth int) {
		if seen[v] || depth > 3 || v.Referrers() == nil {
			return
		}
		seen[v] = true
		_, isMap := v.Type().Underlying().(*types.Map)
		_, isSlice := v.Type().Underlying().(*types.Slice)
		if !isMap && !isSlice {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.MapUpdate:
				if x.Map == v {
					add(true, x, "is changed")
				}
			case *ssa.Lookup:
				add(false, x, "is looked up")
			case *ssa.Range:
				if isMap {
					add(false, x, "is iterated over")
					if x.Referrers() != nil {
						for _, n := range *x.Referrers() {
							if nx, ok := n.(*ssa.Next); ok {
								add(false, nx, "is iterated over")
							}
						}
					}
				}
			case *ssa.IndexAddr:
				if x.X != v || x.Referrers() == nil {
					continue
				}
				for _, u := range *x.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == x {
						add(true, st, "is changed")
					} else if !appendOnly {
						add(false, u, "is read")
					}
				}
			case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
				alias(x.(ssa.Value), depth)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "clear":
						add(true, x, "is changed")
					case "len", "cap":
					case "append":
						if len(x.Call.Args) > 0 && x.Call.Args[0] == v {
							add(true, x, "is appended to")
						}
					default:
						if !appendOnly {
							add(false, x, "is read")
						}
					}
					continue
				}
				if isMap || !appendOnly {
					add(false, x, "is handed to a call")
				}
				for _, e := range a.g.out[x] {
					for i, ar := range x.Call.Args {
						if ar == v && i < len(e.callee.Params) && !e.ext {
							alias(e.callee.Params[i], depth+1)
						}
					}
				}
			case *ssa.Return:
				fn := x.Parent()
				escapes = append(escapes, access{key, false, x, "is returned"})
				for _, e := range a.g.in[fn] {
					if cv, ok := e.site.(*ssa.Call); ok {
						alias(cv, depth+1)
					}
				}
			case *ssa.Store:
				if x.Val == v {
					if f2, ok := x.Addr.(*ssa.FieldAddr); ok && fieldKey(f2) == key {
						continue
					}
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						if al.Referrers() != nil {
							for _, u := range *al.Referrers() {
								if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
									alias(ld, depth)
								}
							}
						}
						continue
					}
					escapes = append(escapes, access{key, false, x, "is stored elsewhere"})
				}
			}
		}
	}
	if fa.Referrers() == nil {
		return
	}
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == fa {
				add(true, x, "is set")
			}
		case *ssa.UnOp:
			add(false, x, "is read")
			alias(x, 0)
		}
	}
	return
}

// appendOnly reports a slice field whose elements never change once they are in:
// every store appends to the field itself.
func (a *lockAnalysis) appendOnly(key string) bool {
	if a.appOnly == nil {
		a.appOnly = map[string]bool{}
		bad := map[string]bool{}
		for _, fn := range a.g.all {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						fa, ok := x.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						k := fieldKey(fa)
						if _, ok := guarded[k]; !ok || fresh(fa.X) {
							continue
						}
						call, ok := x.Val.(*ssa.Call)
						if !ok {
							bad[k] = true
							continue
						}
						bi, ok := call.Call.Value.(*ssa.Builtin)
						if !ok || bi.Name() != "append" {
							bad[k] = true
						}
					case *ssa.IndexAddr:
						if ld, ok := x.X.(*ssa.UnOp); ok {
							if fa, ok := ld.X.(*ssa.FieldAddr); ok && x.Referrers() != nil {
								for _, u := range *x.Referrers() {
									if st, ok := u.(*ssa.Store); ok && st.Addr == x {
										bad[fieldKey(fa)] = true
									}
								}
							}
						}
					}
				}
			}
		}
		for k := range guarded {
			a.appOnly[k] = !bad[k]
		}
	}
	return a.appOnly[key]
}

// unshared lists functions that touch guarded state before the object is shared; the reason is part of the specification.
var unshared = map[string]string{
	"grpc/federation.(LocalValue).AddEnv":             "called by generated code right after the value is made, before any evaluation starts",
	"grpc/federation.(LocalValue).AddServiceVariable": "called by generated code right after the value is made, before any evaluation starts",
}

// ruleGuardedBy: every access to guarded state happens with its lock held, exclusively for writes,
// and no live reference to it leaves the lock.
func ruleGuardedBy(c *Check) {
	a := c.p.locks()
	found := map[string]int{}
	for _, fn := range a.g.all {
		if _, ok := unshared[fname(root(fn))]; ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKey(fa)
				g, ok := guarded[k]
				if !ok || fresh(fa.X) {
					continue
				}
				acc, esc := a.accesses(fa, k)
				for _, x := range acc {
					found[k]++
					c.ob(1)
					need := modeR
					if x.write {
						need = modeW
					}
					xf := x.in.Parent()
					if _, ok := unshared[fname(root(xf))]; ok {
						continue
					}
					h := a.heldAt(x.in)
					if g.wait {
						h = a.heldBySpawner(x.in)
					}
					if h[g.lock] < need {
						how := "without"
						if h[g.lock] == modeR {
							how = "with only a shared hold on"
						}
						c.report(fname(root(xf)), c.p.ipos(x.in), fmt.Sprintf("%s (%s) %s %s %s", short(k), g.why, x.what, how, short(g.lock)))
					}
				}
				for _, x := range esc {
					c.ob(1)
					if a.appendOnly(k) {
						continue // the header was read under the lock, and what it shows never changes
					}
					if _, isRet := x.in.(*ssa.Return); isRet {
						if a.heldAt(x.in)[g.lock] > 0 && a.entry[x.in.Parent()][g.lock] > 0 {
							continue
						}
					}
					c.report(fname(root(x.in.Parent())), c.p.ipos(x.in), fmt.Sprintf("%s (%s) %s: the live reference outlives %s", short(k), g.why, x.what, short(g.lock)))
				}
			}
		}
	}
	for k, g := range guarded {
		if found[k] == 0 && !c.p.hasField(k) {
			c.note(fmt.Sprintf("%s, protected by %s, no longer exists", k, g.lock))
		}
	}
	c.note(fmt.Sprintf("%d locks, %d lock operations, %d functions and closures; accesses per field: %v", len(a.locks), a.nOps, a.nFuncs, found))
}

// heldBySpawner is heldAt, or what the function that starts this goroutine holds when it does.
func (a *lockAnalysis) heldBySpawner(in ssa.Instruction) map[string]int {
	return a.spawnerHeld(in, map[*ssa.Function]bool{})
}

func (a *lockAnalysis) spawnerHeld(in ssa.Instruction, busy map[*ssa.Function]bool) map[string]int {
	h := a.heldAt(in)
	f := in.Parent()
	if busy[f] {
		return h
	}
	busy[f] = true
	defer delete(busy, f)
	var m map[string]int
	for _, e := range a.g.in[f] {
		var o map[string]int
		if e.async {
			o = a.heldAt(e.site)
		} else {
			o = a.spawnerHeld(e.site, busy)
		}
		if m == nil {
			m = map[string]int{}
			for id, v := range o {
				m[id] = v
			}
			continue
		}
		for id := range m {
			m[id] = min(m[id], o[id])
		}
	}
	for id, v := range h {
		if m == nil {
			m = map[string]int{}
		}
		m[id] = max(m[id], v)
	}
	return m
}

func (p *Prog) hasField(key string) bool {
	i := strings.LastIndex(key, ".")
	for path, pk := range p.ByPath {
		_ = path
		for _, n := range pk.Types.Scope().Names() {
			o := pk.Types.Scope().Lookup(n)
			if tn, ok := o.(*types.TypeName); ok && typeName(tn.Type()) == key[:i] {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					for j := 0; j < st.NumFields(); j++ {
						if st.Field(j).Name() == key[i+1:] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// ruleLockBalance: locks are released on every way out, in the mode they were taken, never
// taken twice by the same holder and never in opposite orders.
func ruleLockBalance(c *Check) {
	a := c.p.locks()
	c.ob(a.nOps)
	for _, i := range a.issues {
		c.report(i.construct, i.pos, i.msg)
	}
	c.note(fmt.Sprintf("%d locks, %d lock operations, %d functions and closures analysed from an empty state over all paths", len(a.locks), a.nOps, a.nFuncs))
}

// lockOnly: the callee does nothing but take or release locks.
func (p *Prog) lockOnly(cc *ssa.CallCommon, t *target) bool {
	if t != nil {
		return p.onlyLocks(t.fn, 0)
	}
	if !cc.IsInvoke() || cc.Method.Pkg() == nil || cc.Signature().Results().Len() > 0 || cc.Signature().Params().Len() > 0 {
		return false
	}
	fns := p.methodsNamed(cc.Method.Name(), cc.Method.Pkg())
	for _, f := range fns {
		if !p.onlyLocks(f, 0) {
			return false
		}
	}
	return len(fns) > 0
}

func (p *Prog) onlyLocks(f *ssa.Function, depth int) bool {
	if f == nil || len(f.Blocks) != 1 || f.Signature.Results().Len() > 0 || depth > 3 || !p.inModule(f) {
		return false
	}
	n := 0
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Call:
			o := calleeObj(&x.Call)
			if o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync" {
				n++
				continue
			}
			if g := x.Call.StaticCallee(); g != nil && p.onlyLocks(g, depth+1) {
				n++
				continue
			}
			if x.Call.IsInvoke() && x.Call.Method.Name() == f.Name() {
				n++
				continue
			}
			return false
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.Return, *ssa.Alloc, *ssa.DebugRef, *ssa.ChangeInterface, *ssa.MakeInterface:
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); !ok {
				return false
			}
		default:
			return false
		}
	}
	return n > 0
}

// methodsNamed lists the methods of that name declared in pkg.
func (p *Prog) methodsNamed(name string, pkg *types.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.ByName {
		if f.Name() == name && f.Signature.Recv() != nil && f.Pkg != nil && f.Pkg.Pkg == pkg {
			out = append(out, f)
		}
	}
	return out
}
