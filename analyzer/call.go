package main

// Calls: dispatch, inlining, builtins.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (E *Engine) callCommon(fr *frame, st *State, c *ssa.CallCommon, in ssa.Instruction, b *ssa.BasicBlock) (Value, *State) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, E.val(fr, st, a, b))
	}
	if c.IsInvoke() {
		return E.invoke(fr, st, E.val(fr, st, c.Value, b), c.Method, c.Value.Type(), args, in, nil)
	}
	return E.callValue(fr, st, E.val(fr, st, c.Value, b), args, c, in, nil)
}

func (E *Engine) callValue(fr *frame, st *State, f Value, args []Value, c *ssa.CallCommon, in ssa.Instruction, pc *panicCell) (Value, *State) {
	return E.forAlt(st, f, func(s *State, f Value) (Value, *State) {
		if x, ok := f.(VFunc); ok {
			switch {
			case x.blt != "":
				return E.builtin(fr, s, x.blt, args, c, in)
			case x.meth != nil:
				return E.invoke(fr, s, x.recv, x.meth, nil, args, in, pc)
			case x.fn != nil:
				return E.callFn(fr, s, x.fn, args, x.free, in, pc)
			}
			E.require(fr, s, False, in, "call of a nil function")
			return nil, nil
		}
		E.mayPanic(fr, s, in, "call of "+short(valString(f)))
		E.event("undecided", E.site(in), "call of an unknown function")
		return E.unknownResults(c.Signature(), in, "call of unknown function"), s
	})
}

func (E *Engine) unknownResults(sig *types.Signature, in ssa.Instruction, why string) Value {
	n := sig.Results().Len()
	if n == 1 {
		return E.unknown(in, "%s", why)
	}
	t := make(VTuple, n)
	for i := range t {
		t[i] = E.unknown(in, "%s", why)
	}
	return t
}

func isLogMethod(m *types.Func) bool {
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil {
		return false
	}
	n, ok := types.Unalias(sig.Recv().Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return strings.HasSuffix(n.Obj().Pkg().Path(), "/logger") && n.Obj().Name() == "Log"
}

func (E *Engine) invoke(fr *frame, st *State, recv Value, m *types.Func, it types.Type, args []Value, in ssa.Instruction, pc *panicCell) (Value, *State) {
	if isLogMethod(m) {
		return VTuple{}, st
	}
	return E.forAlt(st, recv, func(s *State, r Value) (Value, *State) {
		switch y := r.(type) {
		case VIface:
			if y.typ == nil {
				E.require(fr, s, False, in, "method call on a nil interface")
				return nil, nil
			}
			if _, ok := y.typ.Underlying().(*types.Interface); ok {
				break
			}
			if o, ok := y.v.(VOpq); ok && o.key == "rt" {
				if v, s2, ok := E.rtMethod(fr, s, o.args[0].(VIface).typ, m, args, in); ok {
					return v, s2
				}
				E.event("reflect", E.site(in), m.FullName())
				return E.opqResults(m.Type().(*types.Signature), m.FullName(), in), s
			}
			fn := E.prog.LookupMethod(y.typ, m.Pkg(), m.Name())
			if fn == nil {
				break
			}
			return E.callFn(fr, s, fn, append([]Value{y.v}, args...), nil, in, pc)
		case VSym:
			if it == nil {
				it = y.typ
			}
			return E.invokeSym(fr, s, y, m, y.typ, args, in, pc)
		}
		sig := m.Type().(*types.Signature)
		if m.Name() == "Error" || m.Name() == "String" {
			return E.opqStr(m.Name()), s
		}
		E.mayPanic(fr, s, in, "method "+m.Name()+" of "+short(valString(r)))
		return E.unknownResults(sig, in, "method "+m.Name()+" of an unknown value"), s
	})
}

// implementors are the repository types that implement it, value types first.
func (E *Engine) implementors(it *types.Interface) []types.Type {
	k := typeKey(it)
	if r, ok := E.impls[k]; ok {
		return r
	}
	var out []types.Type
	for _, p := range E.repoList {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), it) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	E.impls[k] = out
	return out
}

func sealed(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			return true
		}
	}
	return false
}

func (E *Engine) invokeSym(fr *frame, st *State, y VSym, m *types.Func, t types.Type, args []Value, in ssa.Instruction, pc *panicCell) (Value, *State) {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		E.mayPanic(fr, st, in, "method of "+y.p.String())
		return E.unknownResults(m.Type().(*types.Signature), in, "method of symbolic value"), st
	}
	ta := linAtom(typeAtom(y.p))
	if !E.require(fr, st, condEQ(ta).not(), in, "method call on a nil interface") {
		return nil, nil
	}
	var gs []*DD
	var sts []*State
	var vals []Value
	rest := st.reach
	for _, T := range E.implementors(it) {
		g := condEQ(ta.addC(-typeCode(T)))
		rest = rest.and(g.not())
		s := st.fork()
		s.reach = st.reach.and(g)
		if !feasible(s.full()) {
			continue
		}
		fn := E.prog.LookupMethod(T, m.Pkg(), m.Name())
		v, s2 := E.callFn(fr, s, fn, append([]Value{materialise(y.p.assert(T))}, args...), nil, in, pc)
		if s2 != nil {
			gs, sts, vals = append(gs, g), append(sts, s2), append(vals, v)
		}
	}
	if !sealed(it) && feasible(st.ctx.and(rest)) {
		s := st.fork()
		s.reach = rest
		E.mayPanic(fr, s, in, "method "+m.Name()+" of a foreign type")
		gs, sts = append(gs, rest), append(sts, s)
		vals = append(vals, E.unknownResults(m.Type().(*types.Signature), in, "method of a foreign type"))
	}
	if len(sts) == 0 {
		return nil, nil
	}
	s, v := joinN(gs, sts, vals)
	return v, s
}

var inlinePkgs = map[string]bool{
	"encoding/binary": true, "math/bits": true, "slices": true, "cmp": true, "unicode/utf8": true,
	"internal/byteorder": true, "internal/stringslite": true, "math": true,
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	return nil
}

func (E *Engine) isRepoFn(fn *ssa.Function) bool {
	if p := fnPkg(fn); p != nil {
		return E.repo[p]
	}
	// wrappers and instances: decide by the object
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		if p := E.prog.Package(o.Pkg()); p != nil {
			return E.repo[p]
		}
	}
	return false
}

func (E *Engine) pkgPath(fn *ssa.Function) string {
	if p := fnPkg(fn); p != nil {
		return p.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func modelName(fn *ssa.Function) string {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	s := f.String()
	if i := strings.Index(s, "["); i > 0 && strings.HasSuffix(s, "]") && !strings.Contains(s, ")") {
		s = s[:i]
	}
	return s
}

func (E *Engine) callFn(fr *frame, st *State, fn *ssa.Function, args, free []Value, in ssa.Instruction, pc *panicCell) (Value, *State) {
	name := modelName(fn)
	if m, ok := models[name]; ok {
		return m(E, fr, st, fn, args, in)
	}
	if E.initing && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && !E.isRepoFn(fn) {
		return VTuple{}, st
	}
	repo := E.isRepoFn(fn)
	path := E.pkgPath(fn)
	if repo && E.renderer(fn) {
		return E.opqStr(fn.Name()), st
	}
	if (repo || inlinePkgs[path]) && len(fn.Blocks) > 0 || fn.Synthetic != "" && len(fn.Blocks) > 0 && path == "" {
		n := 0
		for _, f := range E.stack {
			if f == fn {
				n++
			}
		}
		if n > 3 && !(E.fixed && n < 10) || len(E.stack) > 60 {
			E.mayPanic(fr, st, in, "recursion in "+fn.Name())
			E.event("undecided", E.site(in), "recursion in "+fn.Name())
			return E.unknownResults(fn.Signature, in, "recursion"), st
		}
		v, s2, ps := E.evalFunc(fn, args, free, st, pc)
		for _, p := range ps {
			p.defers = st.defers
			fr.panics = append(fr.panics, p)
		}
		if s2 != nil {
			s2 = s2.fork()
			s2.defers = st.defers
		}
		return v, s2
	}
	return E.external(fr, st, fn, args, in)
}

// external is a call into code that is not analysed.
func (E *Engine) external(fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	path := E.pkgPath(fn)
	switch path {
	case "fmt", "strconv", "errors", "strings", "unicode", "bytes", "time", "os", "io", "log", "path", "sort":
		// documented not to panic on the arguments used here
		E.havocArgs(st, fn, args, in)
		return E.opqResults(fn.Signature, fn.String(), in), st
	case "sync", "sync/atomic":
		return E.opqResults(fn.Signature, fn.String(), in), st
	case "reflect":
		E.event("reflect", E.site(in), fn.String())
		E.havocArgs(st, fn, args, in)
		return E.opqResults(fn.Signature, fn.String(), in), st
	}
	E.mayPanic(fr, st, in, "call of "+fn.String())
	E.event("undecided", E.site(in), "call of "+fn.String())
	E.havocArgs(st, fn, args, in)
	return E.unknownResults(fn.Signature, in, "call of "+fn.String()), st
}

func (E *Engine) havocArgs(st *State, fn *ssa.Function, args []Value, in ssa.Instruction) {
	pure := map[string]bool{"strings": true, "strconv": true, "errors": true, "unicode": true}
	p := E.pkgPath(fn)
	if pure[p] && fn.Signature.Recv() == nil || p == "fmt" && (strings.HasPrefix(fn.Name(), "Sprint") || strings.HasPrefix(fn.Name(), "Print") || fn.Name() == "Errorf") {
		return
	}
	for _, a := range args {
		E.havocVal(st, a, in, 0)
	}
}

func (E *Engine) havocVal(st *State, a Value, in ssa.Instruction, d int) {
	if d > 3 {
		return
	}
	switch x := a.(type) {
	case VPtr:
		if x.obj != nil {
			if isBuilderV(st.mem.get(x.obj)) {
				st.set(x.obj, VStr{Seq{IOpq{"unknown", nil, linAtom(freshAtom("len", bi(0), maxLen))}}})
				return
			}
			st.set(x.obj, E.unknown(in, "memory after an external call"))
		}
	case VSlice:
		if x.obj != nil {
			st.set(x.obj, E.unknown(in, "memory after an external call"))
		}
	case VIface:
		if x.typ != nil {
			E.havocVal(st, x.v, in, d+1)
		}
	case VAlt:
		for _, y := range x.vs {
			E.havocVal(st, y, in, d+1)
		}
	}
}

func isBuilderV(v Value) bool { _, ok := v.(VStr); return ok }

func (E *Engine) opqStr(key string) Value {
	n := freshAtom("strlen", bi(0), maxLen)
	n.lenish = true
	return VStr{Seq{IOpq{key, []Value{linAtom(n)}, linAtom(n)}}}
}

func (E *Engine) opqOf(t types.Type, key string, in ssa.Instruction) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolAtom(freshAtom(key, bi(0), bi(1)))
		case u.Info()&types.IsInteger != 0:
			lo, hi := typeRange(t)
			return linAtom(freshAtom(key, lo, hi))
		case u.Info()&types.IsString != 0:
			return E.opqStr(key)
		}
	case *types.Slice:
		p := rootPath(fmt.Sprintf("%s@%d", key, freshN), t)
		freshN++
		return materialise(p)
	case *types.Interface:
		p := rootPath(fmt.Sprintf("%s@%d", key, freshN), t)
		freshN++
		return VSym{p, t}
	}
	freshN++
	return VOpq{key: fmt.Sprintf("%s@%d", key, freshN), typ: t}
}

func (E *Engine) opqResults(sig *types.Signature, key string, in ssa.Instruction) Value {
	n := sig.Results().Len()
	if n == 1 {
		return E.opqOf(sig.Results().At(0).Type(), key, in)
	}
	t := make(VTuple, n)
	for i := range t {
		t[i] = E.opqOf(sig.Results().At(i).Type(), key, in)
	}
	return t
}

// renderer reports whether a call of fn may be replaced by an unknown string:
// fn returns one string and is proven total and free of effects.
func (E *Engine) renderer(fn *ssa.Function) bool {
	if E.noOpaq || E.initing {
		return false
	}
	r := fn.Signature.Results()
	if r.Len() != 1 || !isString(r.At(0).Type()) || len(fn.Blocks) == 0 || len(fn.FreeVars) > 0 {
		return false
	}
	if v, ok := E.totals[fn]; ok {
		return v == 1
	}
	E.totals[fn] = 0 // recursion: not a renderer while being proven
	if usesReflect(fn) {
		// assumed total here; its kind discipline is checked separately
		E.totals[fn] = 1
		return true
	}
	if E.totalUnsound(fn) {
		return false
	}
	ev, al, sc := E.events, E.allocs, E.scans
	E.events, E.allocs, E.scans = nil, nil, nil
	stack := E.stack
	E.stack = nil
	rep := E.totality(fn)
	E.stack = stack
	if rep.ok() {
		E.totals[fn] = 1
	}
	E.events, E.allocs, E.scans = ev, al, sc
	return E.totals[fn] == 1
}

// usesReflect: fn itself handles values of package reflect.
func usesReflect(fn *ssa.Function) bool {
	isR := func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && isR(v.Type()) {
				return true
			}
		}
	}
	return false
}

// totalUnsound: functions with pointer parameters may write through them.
func (E *Engine) totalUnsound(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		switch p.Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			return true
		}
	}
	return false
}

// TotalRep is the result of evaluating a function on all inputs.
type TotalRep struct {
	fn     *ssa.Function
	panics []Panic
	events []Event
	val    Value
	st     *State
	ret    *DD
	args   []Value
}

func (r TotalRep) ok() bool {
	if len(r.panics) > 0 {
		return false
	}
	for _, e := range r.events {
		switch e.kind {
		case "undecided", "input-write", "global-write", "no-progress", "go", "havoc":
			return false
		}
	}
	return true
}

// totality evaluates fn on unconstrained arguments.
func (E *Engine) totality(fn *ssa.Function) TotalRep {
	ctx := True
	var args []Value
	for _, p := range fn.Params {
		args = append(args, materialise(rootPath(p.Name(), p.Type())))
	}
	return E.totalityOn(fn, args, ctx)
}

func (E *Engine) totalityOn(fn *ssa.Function, args []Value, ctx *DD) TotalRep {
	n0 := len(E.events)
	st := &State{ctx: ctx, reach: True, mem: E.mem0.clone()}
	v, s2, ps := E.evalFunc(fn, args, nil, st, nil)
	r := TotalRep{fn: fn, val: v, st: s2, ret: False, args: args}
	if s2 != nil {
		r.ret = s2.reach
	}
	for _, p := range ps {
		if feasible(ctx.and(p.g)) {
			r.panics = append(r.panics, p)
		}
	}
	r.events = append(r.events, E.events[n0:]...)
	return r
}

// ---------------------------------------------------------------- builtins

func (E *Engine) builtin(fr *frame, st *State, name string, args []Value, c *ssa.CallCommon, in ssa.Instruction) (Value, *State) {
	switch name {
	case "len", "cap":
		return E.forAlt(st, args[0], func(s *State, v Value) (Value, *State) {
			switch x := v.(type) {
			case VSlice:
				if name == "cap" {
					if x.cap != nil {
						return x.cap, s
					}
					a := freshAtom("cap", bi(0), nil)
					a.lenish = true
					a.facts = []*Lin{linAtom(a).sub(x.len)}
					return linAtom(a), s
				}
				return norm(x.len, s), s
			case VStr:
				return norm(x.s.size(), s), s
			case VArr:
				return linC(int64(len(x.e))), s
			case VMap:
				if x.obj == nil {
					return linZero(), s
				}
				if mc, ok := s.mem.get(x.obj).(VMapC); ok {
					return linC(int64(len(mc.e))), s
				}
			}
			if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return linC(a.Len()), s
				}
			}
			if a, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
				return linC(a.Len()), s
			}
			a := freshAtom("len", bi(0), maxLen)
			a.lenish = true
			return linAtom(a), s
		})
	case "append":
		return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
			x, ok := a.(VSlice)
			if !ok {
				return E.unknown(in, "append to %s", short(valString(a))), s
			}
			if len(args) == 1 {
				return x, s
			}
			return E.forAlt(s, args[1], func(s *State, b Value) (Value, *State) {
				var q Seq
				var n *Lin
				switch y := b.(type) {
				case VSlice:
					var ok bool
					n = norm(y.len, s)
					y.len = n
					q, ok = viewSeq(s.mem, y, s.full())
					if !ok {
						return E.unknown(in, "append of unknown content %s", short(valString(y))), s
					}
				case VStr:
					q, n = y.s, norm(y.s.size(), s)
				default:
					return E.unknown(in, "append of %s", short(valString(b))), s
				}
				return E.appendTo(s, x, q, n, in), s
			})
		})
	case "copy":
		return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
			x, ok := a.(VSlice)
			if !ok {
				E.event("undecided", E.site(in), "copy to "+short(valString(a)))
				return E.unknown(in, "copy to %s", short(valString(a))), s
			}
			return E.forAlt(s, args[1], func(s *State, b Value) (Value, *State) {
				var q Seq
				var n *Lin
				ok := true
				switch y := b.(type) {
				case VSlice:
					n = norm(y.len, s)
					y.len = n
					q, ok = viewSeq(s.mem, y, s.full())
				case VStr:
					q, n = y.s, norm(y.s.size(), s)
				default:
					ok = false
					n = linAtom(freshAtom("n", bi(0), maxLen))
				}
				k := minLin(norm(x.len, s), n, s.full())
				if ok && k != n {
					q, ok = subSeq(q, linZero(), k, s.full())
				}
				E.writeRange(s, x, k, q, ok, in)
				return k, s
			})
		})
	case "min", "max":
		if isInt(c.Args[0].Type()) {
			r := norm(E.asLin(args[0], c.Args[0].Type()), st)
			for i, a := range args[1:] {
				y := norm(E.asLin(a, c.Args[i+1].Type()), st)
				if name == "min" {
					r = minLin(r, y, st.full())
				} else {
					r = maxLin(r, y, st.full())
				}
			}
			return r, st
		}
		return E.unknown(in, "%s", name), st
	case "print", "println":
		return VTuple{}, st
	case "recover":
		if fr.pc == nil {
			return VIface{}, st
		}
		act := st.mem.get(fr.pc.obj).(*DD)
		v := mergeV(act, fr.pc.val, VIface{}, nil)
		st.set(fr.pc.obj, False)
		return v, st
	case "delete":
		if m, ok := args[0].(VMap); ok && m.obj != nil {
			if m.obj.global && !E.initing {
				E.event("global-write", E.site(in), "delete from "+m.obj.name)
			}
			st.set(m.obj, E.unknown(in, "delete"))
		}
		return VTuple{}, st
	case "clear":
		return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
			if x, ok := a.(VSlice); ok {
				E.writeRange(s, x, x.len, Seq(nil).cat(IZero{x.len, x.et}), true, in)
				return VTuple{}, s
			}
			if m, ok := a.(VMap); ok && m.obj != nil {
				s.set(m.obj, E.unknown(in, "clear"))
			}
			return VTuple{}, s
		})
	case "ssa:wrapnilchk":
		if _, ok := args[0].(VSym); ok {
			p, s2 := E.symPtr(fr, st, args[0].(VSym), in)
			if s2 == nil {
				return nil, nil
			}
			return p, s2
		}
		return args[0], st
	}
	E.mayPanic(fr, st, in, "builtin "+name)
	E.event("undecided", E.site(in), "builtin "+name)
	return E.unknownResults(c.Signature(), in, "builtin "+name), st
}

// appendTo models append(x, q...).
func (E *Engine) appendTo(s *State, x VSlice, q Seq, n *Lin, in ssa.Instruction) Value {
	if isZeroLin(n) {
		return x
	}
	ctx := s.full()
	x.off, x.len = norm(x.off, s), norm(x.len, s)
	view, ok := viewSeq(s.mem, x, ctx)
	if !ok {
		return E.unknown(in, "append to unknown content %s", short(valString(x)))
	}
	ln := x.len.add(n)
	nilg := x.nilg
	if nilg != False {
		nilg = nilg.and(condGE(n.neg()))
	}
	if E.grow && ln.isC() && n.isC() {
		oc := x.len.c
		if x.cap != nil && x.cap.isC() {
			oc = x.cap.c
		}
		if x.obj == nil && x.inl == nil {
			oc = 0
		}
		if ln.c > oc || x.obj == nil || x.inl != nil {
			nc := growCap(oc, ln.c, x.et)
			q2 := view.cat(q...)
			if nc > ln.c {
				q2 = q2.cat(IZero{linC(nc - ln.c), x.et})
			}
			return VSlice{obj: newObj("append", nil, VSeq{q2}), off: linZero(), len: ln, cap: linC(nc), nilg: False, et: x.et}
		}
	} else if E.fixed && x.obj != nil && x.obj.fam != nil && x.obj.sym == nil && x.inl == nil && len(x.path) == 0 && s.mem.fam[x.obj.fam].clob == nil &&
		(x.cap == nil || entails(ctx, condGE(x.cap.sub(ln)))) {
		// a part of longer storage: certainly in place
		if y, ok := s.mem.get(x.obj).(VSeq); ok && entails(ctx, condGE(y.s.size().sub(x.off).sub(ln))) {
			r := x
			r.len = ln
			E.writeRange(s, VSlice{obj: x.obj, path: x.path, off: x.off.add(x.len), len: n, et: x.et}, n, q, true, in)
			return r
		}
	}
	fits := x.cap != nil && entails(ctx, condGE(x.cap.sub(ln)))
	full := x.cap != nil && entails(ctx, condEQ(x.cap.sub(x.len)))
	if x.obj != nil && x.obj.fam == nil && x.obj.sym == nil && x.inl == nil && !x.obj.ro && !full && !isZeroLin(x.capOr0()) {
		// array storage: in place when it provably fits
		if fits {
			r := x
			r.len = ln
			E.writeRange(s, VSlice{obj: x.obj, path: x.path, off: x.off.add(x.len), len: n, et: x.et}, n, q, true, in)
			return r
		}
		E.event("undecided", E.site(in), "append to an array slice of uncertain capacity")
		s.set(x.obj, E.unknown(in, "array after append"))
		return E.unknown(in, "append to an array slice")
	}
	o := newObj("append", nil, VSeq{view.cat(q...)})
	r := VSlice{obj: o, off: linZero(), len: ln, nilg: nilg, et: x.et}
	if !full {
		for _, a := range x.prov() {
			// in place when the capacity suffices
			c := a.g
			if x.cap != nil {
				c = c.and(condGE(x.cap.sub(ln)))
			}
			if feasible(ctx.and(c)) {
				o.al = append(o.al, aliasT{c, a.o})
			}
		}
	}
	if fits {
		r.cap = x.cap
	}
	switch {
	case x.obj != nil && x.obj.sym != nil:
		if !full {
			E.event("append-input", E.site(in), "append to "+x.obj.name)
		}
		o.fam, o.famOff = newFam(), linZero()
		s.wmem().fam[o.fam] = famState{hw: ln}
	case x.obj == nil || full || x.obj.fam == nil:
		o.fam, o.famOff = newFam(), linZero()
		s.wmem().fam[o.fam] = famState{hw: ln}
	default:
		f := x.obj.fam
		fs := s.mem.fam[f]
		o.fam, o.famOff = f, x.obj.famOff.add(x.off)
		e := o.famOff.add(x.len)
		if fs.hw != nil && eqLin(fs.hw, e, ctx) {
			o.epoch = fs.epoch
			if fs.clob != nil && x.obj.epoch < fs.epoch {
				o.epoch = fs.epoch // content was readable: still valid
			}
			ns := fs
			ns.hw = e.add(n)
			s.wmem().fam[f] = ns
		} else {
			ns := famState{hw: e.add(n), epoch: fs.epoch + 1, clob: e, owner: o}
			if fs.clob != nil && fs.clob != e {
				ns.clob = linZero()
			}
			o.epoch = ns.epoch
			s.wmem().fam[f] = ns
		}
	}
	return r
}

func (x VSlice) capOr0() *Lin {
	if x.cap == nil {
		return linC(1)
	}
	return x.cap
}

// writeRange stores n elements at the start of slice x.
func (E *Engine) writeRange(s *State, x VSlice, n *Lin, q Seq, known bool, in ssa.Instruction) {
	if isZeroLin(n) {
		return
	}
	o := x.obj
	if o == nil || x.inl != nil || o.ro && o.fam == nil {
		if x.inl != nil || o != nil {
			E.event("undecided", E.site(in), "write to a slice whose storage is a join")
			if o != nil {
				s.set(o, E.unknown(in, "write to joined storage"))
			}
		}
		return
	}
	if o.input && o.sym != nil {
		E.event("input-write", E.site(in), "write to "+o.name)
	}
	if o.global && !E.initing {
		E.event("global-write", E.site(in), "write to "+o.name)
	}
	ctx := s.full()
	bad := func() {
		v, ok := stepSet(s.mem.get(o), x.path, E.unknown(in, "range write to %s", o.name), ctx)
		if !ok {
			v = E.unknown(in, "range write to %s", o.name)
		}
		s.set(o, v)
	}
	if !known {
		bad()
		return
	}
	base, ok := stepInto(s.mem.get(o), x.path, ctx)
	if !ok {
		bad()
		return
	}
	var nv Value
	switch b := base.(type) {
	case VArr:
		if n.isC() && n.c <= 4096 {
			var cur Value = b
			for i := int64(0); i < n.c; i++ {
				v := readSeq(q, linC(i), ctx)
				cur, ok = stepSet(cur, []Step{{idx: x.off.addC(i)}}, v, ctx)
				if !ok {
					bad()
					return
				}
			}
			nv = cur
		} else if lo, hi := n.rng(); x.off.isC() && lo != nil && hi != nil && hi.IsInt64() && hi.Int64() <= 64 {
			r := VArr{typ: b.typ, e: append([]Value{}, b.e...)}
			for i := int64(0); i < hi.Int64() && x.off.c+i < int64(len(b.e)); i++ {
				g := condGT(n.addC(-i))
				c2 := ctx.and(g)
				if !feasible(c2) {
					break
				}
				v := readSeq(q, linC(i), c2)
				r.e[x.off.c+i] = mergeV(g, v, r.e[x.off.c+i], nil)
			}
			nv = r
		}
	case VSeq:
		if w, ok := writeSeq(b.s, x.off, n, q, ctx); ok {
			nv = VSeq{w}
		}
	}
	if nv == nil {
		bad()
	} else {
		v, ok := stepSet(s.mem.get(o), x.path, nv, ctx)
		if !ok {
			v = E.unknown(in, "range write")
		}
		s.set(o, v)
	}
	if o.fam != nil {
		E.touchFam(s, o, x.off)
	}
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024}

// growCap is the capacity the gc runtime gives a slice that grows to n.
func growCap(old, n int64, et types.Type) int64 {
	c := old
	switch {
	case n > 2*old:
		c = n
	case old < 256:
		c = 2 * old
	default:
		for c < n {
			c += (c + 768) / 4
		}
	}
	sz := types.SizesFor("gc", "amd64").Sizeof(et)
	if sz == 0 {
		return c
	}
	for _, k := range sizeClasses {
		if c*sz <= k {
			return k / sz
		}
	}
	return c
}
