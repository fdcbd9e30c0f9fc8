package main

// C17: lock discipline of the OID tree. A context-sensitive lockset analysis
// over SSA: the abstract state is the mode in which the tree lock is held and
// the stack of deferred calls; function values are resolved through closures,
// parameters and captured cells.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Lockset typestate analysis on SSA of package oid: from every exported Tree operation (and exported function) with no lock held, all paths, closures, helpers and deferred calls are followed with the lock mode {none, read, write} as state. Obligations: every load of Tree or Node fields (or of a Children element) happens in mode read or write, every store to them (including append and copy onto a Children array) in mode write, no acquisition while held, no release in another mode, mode none at every return and at every panic out of a caller's callback. Objects not yet published (allocated in the same function) are exempt.", runC17)
}

type lockOp int

const (
	opNone lockOp = iota
	opLock
	opRLock
	opUnlock
	opRUnlock
	opTryLock
	opTryRLock
)

var modeName = []string{"none", "read", "write"}

// absFn is an abstract value: a function with its environment, a cell, a lock
// operation, the content of an interface, or a constant.
type absFn struct {
	fn    *ssa.Function
	env   *lockEnv
	cell  *ssa.Alloc
	op    lockOp
	dyn   ssa.Value // the value in an interface
	rlock bool      // the Locker of RLocker
	cst   constant.Value
}

type lockEnv struct {
	m   map[ssa.Value][]*absFn
	key string
}

type lockRes struct {
	exits  map[int]bool
	panics map[int]bool
	rets   []*absFn
}

type lockState struct {
	mode   int
	defers []lockDefer
	assume map[string]bool // outcomes of the conditions met on this path
}

type lockDefer struct {
	in   *ssa.Defer
	vals []*absFn
	op   lockOp
}

type lockAn struct {
	r        *Rep
	E        *Engine
	pkg      *ssa.Package
	tree     types.Type
	node     types.Type
	entry    string
	memo     map[string]*lockRes
	busy     map[string]bool
	bad      map[string]bool
	accesses map[string]bool
	ops      map[string]bool
	found    []lockFinding
	lost     map[string]bool // lock operations that could not be resolved
}

type lockFinding struct{ rule, c, msg, entry string }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (a *lockAn) viol(in ssa.Instruction, rule, f string, x ...interface{}) {
	msg := fmt.Sprintf(f, x...)
	c := fmt.Sprintf("%s (%s, reached from %s)", a.E.site(in), in.Parent().Name(), a.entry)
	if k := rule + c + msg; !a.bad[k] {
		a.bad[k] = true
		a.found = append(a.found, lockFinding{rule, c, msg, a.entry})
	}
}

// syncOp recognises the mutex methods on a lock inside Tree.
func (a *lockAn) syncOp(fn *ssa.Function) lockOp {
	if fn == nil || fn.Object() == nil {
		return opNone
	}
	o, ok := fn.Object().(*types.Func)
	if !ok || o.Pkg() == nil || o.Pkg().Path() != "sync" {
		return opNone
	}
	recv := o.Type().(*types.Signature).Recv()
	if recv == nil {
		return opNone
	}
	n, ok := deref(recv.Type()).(*types.Named)
	if !ok || (n.Obj().Name() != "RWMutex" && n.Obj().Name() != "Mutex") {
		return opNone
	}
	switch o.Name() {
	case "Lock":
		return opLock
	case "Unlock":
		return opUnlock
	case "RLock":
		return opRLock
	case "RUnlock":
		return opRUnlock
	case "TryLock":
		return opTryLock
	case "TryRLock":
		return opTryRLock
	}
	return opNone
}

func (a *lockAn) newEnv() *lockEnv { return &lockEnv{m: map[ssa.Value][]*absFn{}} }

func (a *lockAn) id(f *absFn) string {
	s := fmt.Sprint(f.op)
	if f.fn != nil {
		s += f.fn.String()
	}
	if f.cell != nil {
		s += fmt.Sprintf("%p", f.cell)
	}
	if f.env != nil {
		s += "{" + f.env.key + "}"
	}
	if f.dyn != nil {
		s += f.dyn.Name() + f.dyn.Type().String()
	}
	if f.cst != nil {
		s += f.cst.ExactString()
	}
	if f.rlock {
		s += "r"
	}
	return s
}

func (a *lockAn) seal(e *lockEnv) {
	var ks []string
	for k, vs := range e.m {
		s := k.Name()
		for _, v := range vs {
			s += "," + a.id(v)
		}
		ks = append(ks, s)
	}
	sort.Strings(ks)
	e.key = strings.Join(ks, ";")
}

// resolve finds the functions a value may denote; nil means unknown.
func (a *lockAn) resolve(v ssa.Value, env *lockEnv, depth int) []*absFn {
	if depth > 12 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		if op := a.syncOp(x); op != opNone {
			return []*absFn{{op: op}}
		}
		return []*absFn{{fn: x, env: a.newEnv()}}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		if op := a.syncOp(fn); op != opNone { // bound method
			return []*absFn{{op: op}}
		}
		e := a.newEnv()
		for i, b := range x.Bindings {
			if r := a.resolve(b, env, depth+1); r != nil {
				e.m[fn.FreeVars[i]] = r
			}
		}
		a.seal(e)
		return []*absFn{{fn: fn, env: e}}
	case *ssa.Parameter, *ssa.FreeVar:
		return env.m[x]
	case *ssa.ChangeType:
		return a.resolve(x.X, env, depth+1)
	case *ssa.ChangeInterface:
		return a.resolve(x.X, env, depth+1)
	case *ssa.MakeInterface:
		return []*absFn{{dyn: x.X, env: env}}
	case *ssa.Const:
		if x.Value != nil {
			return []*absFn{{cst: x.Value}}
		}
		return nil
	case *ssa.BinOp:
		p, q := a.cst(x.X, env, depth+1), a.cst(x.Y, env, depth+1)
		if p != nil && q != nil && p.Kind() == q.Kind() {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return []*absFn{{cst: constant.MakeBool(constant.Compare(p, x.Op, q))}}
			}
		}
		return nil
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.result(c, x.Index, env, depth)
		}
		return nil
	case *ssa.Alloc:
		return []*absFn{{cell: x, env: env}}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if p := a.cst(x.X, env, depth+1); p != nil && p.Kind() == constant.Bool {
				return []*absFn{{cst: constant.MakeBool(!constant.BoolVal(p))}}
			}
			return nil
		}
		if x.Op != token.MUL || !bindable(x.Type()) {
			return nil
		}
		var out []*absFn
		for _, c := range a.resolve(x.X, env, depth+1) {
			if c.cell == nil {
				return nil
			}
			for _, ref := range *c.cell.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == c.cell {
					// the stored closure may capture the cell itself
					mc, ok := s.Val.(*ssa.MakeClosure)
					if !ok {
						r := a.resolve(s.Val, c.env, depth+1)
						if r == nil {
							return nil
						}
						out = append(out, r...)
						continue
					}
					fn := mc.Fn.(*ssa.Function)
					e := a.newEnv()
					for i, b := range mc.Bindings {
						if b == c.cell {
							e.m[fn.FreeVars[i]] = []*absFn{{cell: c.cell, env: c.env}}
						} else if r := a.resolve(b, c.env, depth+1); r != nil {
							e.m[fn.FreeVars[i]] = r
						}
					}
					a.seal(e)
					out = append(out, &absFn{fn: fn, env: e})
				}
			}
		}
		return out
	case *ssa.Phi:
		var out []*absFn
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			r := a.resolve(e, env, depth+1)
			if r == nil {
				return nil
			}
			out = append(out, r...)
		}
		return out
	case *ssa.Call:
		return a.result(x, 0, env, depth)
	}
	return nil
}

// result resolves a result of a call.
func (a *lockAn) result(x *ssa.Call, idx int, env *lockEnv, depth int) []*absFn {
	fn := x.Call.StaticCallee()
	if fn == nil {
		return nil
	}
	if a.isRLocker(fn) && a.isTreeLock(x.Call.Args[0]) {
		return []*absFn{{rlock: true}}
	}
	if fnPkg(fn) != a.pkg || fn.Blocks == nil {
		return nil
	}
	e := a.bind(fn, x.Call.Args, env, depth)
	if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
		for _, f := range a.resolve(mc, env, depth+1) {
			if f.env != nil {
				for k, v := range f.env.m {
					e.m[k] = v
				}
			}
		}
		a.seal(e)
	}
	var out []*absFn
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) && a.reachable(b, e) {
			r := a.resolve(ret.Results[idx], e, depth+1)
			if r == nil {
				return nil
			}
			out = append(out, r...)
		}
	}
	return out
}

// reachable reports whether a block can be reached given the constants bound
// in the environment.
func (a *lockAn) reachable(b *ssa.BasicBlock, env *lockEnv) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b.Parent().Blocks[0]}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		succs := x.Succs
		if f, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
			if c := a.cst(f.Cond, env, 0); c != nil {
				if constant.BoolVal(c) {
					succs = succs[:1]
				} else {
					succs = succs[1:]
				}
			}
		}
		work = append(work, succs...)
	}
	return false
}

// cst is the constant a value is known to be, or nil.
func (a *lockAn) cst(v ssa.Value, env *lockEnv, depth int) constant.Value {
	if _, ok := v.Type().Underlying().(*types.Basic); !ok {
		return nil
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		for _, c := range a.resolve(u.X, env, depth+1) {
			if c.cell == nil || !once(c.cell) {
				return nil
			}
		}
	}
	if _, ok := v.(*ssa.Phi); ok {
		return nil
	}
	r := a.resolve(v, env, depth+1)
	if len(r) != 1 {
		return nil
	}
	return r[0].cst
}

// once reports whether a cell is stored to only once, where it is made.
func once(c *ssa.Alloc) bool {
	stores := 0
	var refs func(v ssa.Value) bool
	refs = func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				stores++
				if x.Val == v || x.Block() != c.Block() {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v && !refs(x.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return refs(c) && stores == 1
}

func (a *lockAn) isRLocker(fn *ssa.Function) bool {
	o, ok := fn.Object().(*types.Func)
	return ok && o.Pkg() != nil && o.Pkg().Path() == "sync" && o.Name() == "RLocker"
}

// bindable reports whether values of a type are followed through parameters.
func bindable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0
	}
	return false
}

func (a *lockAn) bind(fn *ssa.Function, args []ssa.Value, env *lockEnv, depth int) *lockEnv {
	e := a.newEnv()
	for i, p := range fn.Params {
		if i >= len(args) {
			continue
		}
		t := args[i].Type().Underlying()
		if _, ok := t.(*types.Basic); ok {
			if c := a.cst(args[i], env, depth+1); c != nil {
				e.m[p] = []*absFn{{cst: c}}
			}
			continue
		}
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem().Underlying()
		}
		if !bindable(t) {
			continue
		}
		if r := a.resolve(args[i], env, depth+1); r != nil {
			e.m[p] = r
		}
	}
	a.seal(e)
	return e
}

// invoked finds what a method call through an interface runs; nil: unknown.
func (a *lockAn) invoked(c *ssa.CallCommon, env *lockEnv) []*absFn {
	var out []*absFn
	for _, f := range a.resolve(c.Value, env, 0) {
		switch {
		case f.rlock && c.Method.Name() == "Lock":
			out = append(out, &absFn{op: opRLock})
		case f.rlock && c.Method.Name() == "Unlock":
			out = append(out, &absFn{op: opRUnlock})
		case f.dyn != nil:
			sel := a.E.prog.MethodSets.MethodSet(f.dyn.Type()).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				return nil
			}
			fn := a.E.prog.MethodValue(sel)
			if fn == nil {
				return nil
			}
			if op := a.syncOp(fn); op != opNone {
				if !a.isTreeLock(f.dyn) {
					op = opNone
				}
				out = append(out, &absFn{op: op})
				continue
			}
			if len(sel.Index()) > 1 { // promoted: a lock embedded in the value
				if o, ok := sel.Obj().(*types.Func); ok {
					if op := a.syncOp(a.E.prog.FuncValue(o)); op != opNone && a.isTreeLock(f.dyn) {
						out = append(out, &absFn{op: op})
						continue
					}
				}
				return nil
			}
			e := a.newEnv()
			a.seal(e)
			out = append(out, &absFn{fn: fn, env: e})
		default:
			return nil
		}
	}
	return out
}

// fresh reports whether the object was allocated in this function.
func fresh(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return fresh(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !fresh(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// fromChildren reports whether a slice is (a part of) the Children of a node.
func (a *lockAn) fromChildren(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if f, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return a.tracked(f) && !fresh(f.X, 0)
		}
	case *ssa.Slice:
		return a.fromChildren(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && a.fromChildren(e, d+1) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return a.fromChildren(x.Call.Args[0], d+1)
		}
	case *ssa.Parameter:
		s, ok := x.Type().Underlying().(*types.Slice)
		return ok && types.Identical(deref(s.Elem()), a.node)
	}
	return false
}

func (a *lockAn) tracked(f *ssa.FieldAddr) bool {
	t := deref(f.X.Type())
	if types.Identical(t, a.node) {
		return true
	}
	if types.Identical(t, a.tree) {
		ft := t.Underlying().(*types.Struct).Field(f.Field).Type()
		n, ok := deref(ft).(*types.Named)
		return !(ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync"))
	}
	return false
}

// access classifies a memory access; what is "" if it is not to the tree.
func (a *lockAn) access(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if a.tracked(x) && !fresh(x.X, 0) {
			st := deref(x.X.Type()).Underlying().(*types.Struct)
			return deref(x.X.Type()).(*types.Named).Obj().Name() + "." + st.Field(x.Field).Name()
		}
	case *ssa.IndexAddr:
		if a.fromChildren(x.X, 0) {
			return "Node.Children element"
		}
	default:
		if types.Identical(deref(addr.Type()), a.node) && !fresh(addr, 0) {
			return "Node"
		}
	}
	return ""
}

func (a *lockAn) need(in ssa.Instruction, st *lockState, mode int, what string) {
	if what == "" {
		return
	}
	a.accesses[fmt.Sprintf("%s %d %s", a.E.site(in), mode, what)] = true
	verb := "read"
	if mode == 2 {
		verb = "changed"
	}
	if st.mode < mode {
		a.viol(in, "access under lock", "%s is %s with the lock held for %s", what, verb, modeName[st.mode])
	}
}

func (a *lockAn) applyOp(in ssa.Instruction, mode int, op lockOp) int {
	a.ops[fmt.Sprint(a.E.site(in), op)] = true
	switch op {
	case opLock, opRLock:
		if mode != 0 {
			a.viol(in, "no double acquisition", "the lock is acquired while it is already held for %s", modeName[mode])
		}
		if op == opLock {
			return 2
		}
		return 1
	case opUnlock:
		if mode != 2 {
			a.viol(in, "matching release", "Unlock while the lock is held for %s", modeName[mode])
		}
	case opTryLock, opTryRLock:
		return mode // the outcome is not followed here
	case opRUnlock:
		if mode != 1 {
			a.viol(in, "matching release", "RUnlock while the lock is held for %s", modeName[mode])
		}
	}
	return 0
}

// callAbs runs the resolved targets of a call in a mode.
func (a *lockAn) callAbs(in ssa.Instruction, fns []*absFn, args []ssa.Value, env *lockEnv, mode int) (exits, panics map[int]bool) {
	exits, panics = map[int]bool{}, map[int]bool{}
	for _, f := range fns {
		switch {
		case f.op != opNone:
			exits[a.applyOp(in, mode, f.op)] = true
		case f.fn != nil && f.fn.Blocks != nil && fnPkg(f.fn) == a.pkg:
			e := a.bind(f.fn, args, env, 0)
			if f.env != nil {
				for k, v := range f.env.m {
					e.m[k] = v
				}
			}
			a.seal(e)
			res := a.exec(f.fn, e, mode)
			for m := range res.exits {
				exits[m] = true
			}
			for m := range res.panics {
				panics[m] = true
			}
		default:
			exits[mode] = true
		}
	}
	return
}

var childMutators = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "slices.Sort": true, "slices.SortFunc": true, "slices.Insert": true, "slices.Delete": true, "slices.Replace": true, "slices.Reverse": true, "slices.Compact": true, "slices.DeleteFunc": true}

// call handles a call in a state and returns exit and panic modes.
func (a *lockAn) call(in ssa.Instruction, c *ssa.CallCommon, st *lockState, env *lockEnv) (exits, panics map[int]bool) {
	same := map[int]bool{st.mode: true}
	none := map[int]bool{}
	if c.IsInvoke() {
		if fns := a.invoked(c, env); fns != nil {
			return a.callAbs(in, fns, nil, env, st.mode)
		}
		switch c.Method.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
			a.lose(in, "a lock behind an interface")
		}
		return same, same // may panic
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy", "clear":
			if a.fromChildren(c.Args[0], 0) {
				a.need(in, st, 2, "the array of Node.Children")
			}
			if len(c.Args) > 1 && a.fromChildren(c.Args[1], 0) {
				a.need(in, st, 1, "Node.Children element")
			}
		}
		return same, none
	}
	if fn := c.StaticCallee(); fn != nil {
		if op := a.syncOp(fn); op != opNone {
			if len(c.Args) > 0 && !a.isTreeLock(c.Args[0]) {
				return same, none
			}
			return map[int]bool{a.applyOp(in, st.mode, op): true}, none
		}
		if fnPkg(fn) == a.pkg && fn.Blocks != nil {
			fns := a.resolve(c.Value, env, 0)
			if len(fns) == 0 {
				fns = []*absFn{{fn: fn, env: a.newEnv()}}
			}
			return a.callAbs(in, fns, c.Args, env, st.mode)
		}
		// other packages: children handed out, closures run at once
		name := ""
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			name = fn.Object().Pkg().Path() + "." + fn.Object().Name()
		}
		for _, x := range c.Args {
			if mi, ok := x.(*ssa.MakeInterface); ok {
				x = mi.X
			}
			if _, ok := x.Type().Underlying().(*types.Slice); ok && a.fromChildren(x, 0) {
				if childMutators[name] {
					a.need(in, st, 2, "the array of Node.Children")
				} else {
					a.need(in, st, 1, "Node.Children element")
				}
			}
			if _, ok := x.Type().Underlying().(*types.Signature); ok {
				if fns := a.resolve(x, env, 0); fns != nil {
					ex, pa := a.callAbs(in, fns, nil, env, st.mode)
					for m := range ex {
						if m != st.mode {
							a.viol(in, "balanced helper", "a function run by %s changes the lock mode", name)
						}
					}
					for m := range pa {
						none[m] = true
					}
				} else {
					none[st.mode] = true
				}
			}
		}
		return same, none
	}
	fns := a.resolve(c.Value, env, 0)
	if fns == nil {
		if !a.callback(c.Value, 0) {
			a.lose(in, "a function value that is not a parameter")
		}
		return same, same // a caller's function: it may panic
	}
	return a.callAbs(in, fns, c.Args, env, st.mode)
}

// lose records an operation that may concern the lock but was not resolved.
func (a *lockAn) lose(in ssa.Instruction, why string) {
	a.lost[a.entry] = true
	a.r.undecided(fmt.Sprintf("%s (%s, reached from %s)", a.E.site(in), in.Parent().Name(), a.entry), why)
}

// callback reports whether a function value is one the caller passed in.
func (a *lockAn) callback(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.FreeVar:
		return true
	case *ssa.ChangeType:
		return a.callback(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.callback(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if c, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *c.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == c && !a.callback(s.Val, d+1) {
					return false
				}
			}
			return true
		}
		return a.callback(x.X, d+1)
	}
	return false
}

func (a *lockAn) isTreeLock(v ssa.Value) bool {
	for i := 0; i < 8; i++ {
		if types.Identical(deref(v.Type()), a.tree) {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Phi:
			return true // a lock handed to a helper
		default:
			return false
		}
	}
	return false
}

// runDefers runs the deferred calls of a state in mode; the results are the
// possible modes afterwards.
func (a *lockAn) runDefers(st *lockState, mode int, env *lockEnv) map[int]bool {
	cur := map[int]bool{mode: true}
	for i := len(st.defers) - 1; i >= 0; i-- {
		d := st.defers[i]
		next := map[int]bool{}
		for m := range cur {
			s2 := &lockState{mode: m}
			var ex map[int]bool
			if d.vals != nil || d.op != opNone {
				ex, _ = a.callAbs(d.in, d.vals, d.in.Call.Args, env, m)
			} else {
				ex, _ = a.call(d.in, &d.in.Call, s2, env)
			}
			for k := range ex {
				next[k] = true
			}
		}
		cur = next
	}
	return cur
}

func (s *lockState) with(mode int) *lockState {
	return &lockState{mode: mode, defers: s.defers, assume: s.assume}
}

func (s *lockState) assuming(k string, v bool) *lockState {
	t := s.with(s.mode)
	t.assume = map[string]bool{k: v}
	for q, w := range s.assume {
		if q != k {
			t.assume[q] = w
		}
	}
	return t
}

// forget drops what was assumed about a value that is computed anew.
func (s *lockState) forget(v ssa.Value) {
	for k := range s.assume {
		if k == v.Name() || k == "*"+v.Name() || strings.HasPrefix(k, v.Name()+" ") {
			m := map[string]bool{}
			for q, w := range s.assume {
				if q != k {
					m[q] = w
				}
			}
			s.assume = m
		}
	}
}

// condKey names a condition; neg tells that the value is its negation.
func condKey(v ssa.Value) (key string, neg bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			k, n := condKey(x.X)
			return k, !n
		}
		if x.Op == token.MUL {
			if c, ok := x.X.(*ssa.Alloc); ok && once(c) {
				return "*" + c.Name(), false
			}
		}
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
			return x.X.Name() + " = " + c.String(), x.Op == token.NEQ
		}
	}
	return v.Name(), false
}

// repeated finds the conditions that more than one branch depends on.
func repeated(fn *ssa.Function) map[string]bool {
	n, out := map[string]int{}, map[string]bool{}
	for _, b := range fn.Blocks {
		if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			k, _ := condKey(f.Cond)
			if n[k]++; n[k] > 1 {
				out[k] = true
			}
		}
	}
	return out
}

func (s *lockState) id() string {
	k := fmt.Sprint(s.mode)
	for _, d := range s.defers {
		k += fmt.Sprintf(",%p", d.in)
	}
	var as []string
	for c, v := range s.assume {
		as = append(as, fmt.Sprint(c, v))
	}
	sort.Strings(as)
	return k + "|" + strings.Join(as, ",")
}

func (a *lockAn) exec(fn *ssa.Function, env *lockEnv, mode int) *lockRes {
	key := fmt.Sprintf("%s|%d|%s", fn, mode, env.key)
	if r := a.memo[key]; r != nil {
		return r
	}
	if a.busy[key] {
		return &lockRes{exits: map[int]bool{mode: true}, panics: map[int]bool{}}
	}
	a.busy[key] = true
	a.r.analysed[fn.String()] = true
	res := &lockRes{exits: map[int]bool{}, panics: map[int]bool{}}
	type item struct {
		b  *ssa.BasicBlock
		st *lockState
	}
	seen := map[string]bool{}
	rep := repeated(fn)
	work := []item{{fn.Blocks[0], &lockState{mode: mode}}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprintf("%d|%s", it.b.Index, it.st.id())
		if seen[k] {
			continue
		}
		seen[k] = true
		states := []*lockState{it.st}
		for _, in := range it.b.Instrs {
			var next []*lockState
			for _, st := range states {
				if v, ok := in.(ssa.Value); ok && len(st.assume) > 0 {
					st = &lockState{mode: st.mode, defers: st.defers, assume: st.assume}
					st.forget(v)
				}
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL {
						a.need(in, st, 1, a.access(x.X))
					}
				case *ssa.Store:
					a.need(in, st, 2, a.access(x.Addr))
				case *ssa.Call:
					if op := a.tryOp(&x.Call, env); op != opNone {
						a.ops[fmt.Sprint(a.E.site(in), op)] = true
						if st.mode == 0 { // otherwise it fails
							m := 2
							if op == opTryRLock {
								m = 1
							}
							next = append(next, st.with(m).assuming(x.Name(), true))
						}
						next = append(next, st.assuming(x.Name(), false))
						continue
					}
					ex, pa := a.call(in, &x.Call, st, env)
					for m := range pa {
						for p := range a.runDefers(st, m, env) {
							res.panics[p] = true
						}
					}
					for m := range ex {
						next = append(next, st.with(m))
					}
					continue
				case *ssa.Defer:
					if len(st.defers) > 8 {
						a.viol(in, "bounded defers", "deferred in a loop")
						continue
					}
					d := lockDefer{in: x}
					if x.Call.StaticCallee() == nil && !x.Call.IsInvoke() {
						d.vals = a.resolve(x.Call.Value, env, 0)
					}
					s2 := st.with(st.mode)
					s2.defers = append(append([]lockDefer{}, st.defers...), d)
					next = append(next, s2)
					continue
				case *ssa.Go:
					s2 := &lockState{mode: 0}
					a.call(in, &x.Call, s2, env)
				case *ssa.RunDefers:
					for m := range a.runDefers(st, st.mode, env) {
						next = append(next, &lockState{mode: m, assume: st.assume})
					}
					continue
				case *ssa.Return:
					res.exits[st.mode] = true
				case *ssa.Panic:
					for p := range a.runDefers(st, st.mode, env) {
						res.panics[p] = true
					}
				}
				next = append(next, st)
			}
			states = next
		}
		for _, st := range states {
			succs := it.b.Succs
			if f, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
				k, neg := condKey(f.Cond)
				known, val := false, false
				if c := a.cst(f.Cond, env, 0); c != nil {
					known, val = true, constant.BoolVal(c)
				} else if v, ok := st.assume[k]; ok {
					known, val = true, v != neg
				}
				switch {
				case known && val:
					succs = succs[:1]
				case known:
					succs = succs[1:]
				case rep[k]:
					work = append(work, item{succs[0], st.assuming(k, !neg)}, item{succs[1], st.assuming(k, neg)})
					continue
				}
			}
			for _, s := range succs {
				work = append(work, item{s, st})
			}
		}
	}
	delete(a.busy, key)
	a.memo[key] = res
	return res
}

// tryOp recognises TryLock and TryRLock.
func (a *lockAn) tryOp(c *ssa.CallCommon, env *lockEnv) lockOp {
	op := opNone
	if c.IsInvoke() {
		for _, f := range a.invoked(c, env) {
			op = f.op
		}
	} else if fn := c.StaticCallee(); fn != nil {
		if op = a.syncOp(fn); op != opNone && (len(c.Args) == 0 || !a.isTreeLock(c.Args[0])) {
			return opNone
		}
	}
	if op == opTryLock || op == opTryRLock {
		return op
	}
	return opNone
}

func runC17(r *Rep) {
	E := r.engine()
	if E == nil {
		return
	}
	op := E.pkgs[modPath+"/oid"]
	a := &lockAn{r: r, E: E, pkg: op, accesses: map[string]bool{}, ops: map[string]bool{}, bad: map[string]bool{}, lost: map[string]bool{}}
	tt, nt := op.Type("Tree"), op.Type("Node")
	if tt == nil || nt == nil {
		r.fail("anchor", "oid.Tree, oid.Node", "the types do not exist")
		return
	}
	a.tree, a.node = tt.Type(), nt.Type()
	var entries []*ssa.Function
	ms := E.prog.MethodSets.MethodSet(types.NewPointer(a.tree))
	for i := 0; i < ms.Len(); i++ {
		if f := ms.At(i).Obj(); f.Exported() {
			fn := E.prog.MethodValue(ms.At(i))
			if fn != nil && fn.Blocks != nil && fnPkg(fn) == op {
				entries = append(entries, fn)
			}
		}
	}
	nm := len(entries)
	for _, m := range op.Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && f.Blocks != nil {
			entries = append(entries, f)
		}
	}
	sort.Slice(entries, func(i, j int) bool { return entries[i].String() < entries[j].String() })
	touching := 0
	for _, fn := range entries {
		a.entry = fn.Name()
		a.memo, a.busy = map[string]*lockRes{}, map[string]bool{}
		o0 := len(a.ops)
		res := a.exec(fn, a.newEnv(), 0)
		if len(a.ops) > o0 {
			touching++
		}
		for m := range res.exits {
			d := ""
			if m != 0 && a.lost[a.entry] {
				continue
			}
			if m != 0 {
				d = "may return with the lock held for " + modeName[m]
			}
			r.ob("released at return", fn.String(), d)
		}
		for m := range res.panics {
			d := ""
			if m != 0 && a.lost[a.entry] {
				continue
			}
			if m != 0 {
				d = "a panic in a callback leaves the lock held for " + modeName[m]
			}
			r.ob("released at panic", fn.String(), d)
		}
	}
	for _, f := range a.found {
		if !a.lost[f.entry] {
			r.fail(f.rule, f.c, "%s", f.msg)
		}
	}
	for x := range a.accesses {
		r.ob("access under lock", x, "")
	}
	for range a.ops {
		r.ob("lock operation", "oid", "")
	}
	r.counts["entry points"] = len(entries)
	r.counts["Tree operations"] = nm
	r.counts["entry points using the lock"] = touching
	r.floor("Tree operations", 6)
	r.floor("entry points using the lock", 4)
	r.floor("rule access under lock", 20)
}
