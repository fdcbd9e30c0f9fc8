package main

// Abstract evaluation of SSA functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // repo packages by path
	repo     map[*ssa.Package]bool
	globals  map[*ssa.Global]*Obj
	mem0     *Mem // memory after package initialisation
	stack    []*ssa.Function
	loops    map[*ssa.Function]*loopInfo
	events   []Event
	allocs   []AllocRec
	stuck    []StuckRec
	recovs   []RecovRec
	scans    []ScanRec
	opaque   map[*ssa.Function]bool
	totals   map[*ssa.Function]int
	fnSeen   map[*ssa.Function]bool
	instrs   int
	debug    bool
	initing  bool
	noOpaq   bool
	fixed    bool // sizes are fixed: loops are unrolled
	grow     bool // capacities follow the gc runtime
	peel     bool // split off the first iteration of cursor loops
	depth    int
	impls    map[string][]types.Type
	repoList []*ssa.Package
}

// AllocRec is an allocation of n elements under guard g.
type AllocRec struct {
	g    *DD
	n    *Lin
	site string
	path string
	what string
}

// RecovRec is what a function returns after it recovered from a panic.
type RecovRec struct {
	fn  *ssa.Function
	out outcome
}

func (E *Engine) path() string {
	s := ""
	for i, f := range E.stack {
		if i > 0 {
			s += " > "
		}
		s += f.Name()
	}
	return s
}

type Event struct {
	kind, site, msg string
	fn              string
}

type Panic struct {
	g      *DD
	val    Value
	mem    *Mem
	defers *deferList
	site   string
	what   string
}

type deferred struct {
	common *ssa.CallCommon
	fn     Value
	args   []Value
	g      *DD // nil: unconditional
}

type panicCell struct {
	obj *Obj
	val Value
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
	ctl      *DD
	phis     []Value
}

type retEdge struct {
	st   *State
	ctl  *DD
	vals []Value
	blk  *ssa.BasicBlock
}

type frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	free   []Value
	panics []Panic
	rets   []retEdge
	pc     *panicCell
	li     *loopInfo
	live   map[ssa.Value]*Obj
}

func (E *Engine) event(kind, site, msg string) {
	for _, e := range E.events {
		if e.kind == kind && e.site == site && e.msg == msg {
			return
		}
	}
	fn := ""
	if len(E.stack) > 0 {
		fn = E.stack[len(E.stack)-1].String()
	}
	E.events = append(E.events, Event{kind, site, msg, fn})
}

func (E *Engine) site(in ssa.Instruction) string {
	pos := in.Pos()
	fn := in.Parent()
	p := E.prog.Fset.Position(pos)
	if !pos.IsValid() {
		// nearest position in the block
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				p = E.prog.Fset.Position(x.Pos())
				break
			}
		}
	}
	return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, fn.Name())
}

func (E *Engine) trace(f string, a ...interface{}) {
	if E.debug {
		fmt.Fprintf(os.Stderr, "%*s%s\n", len(E.stack), "", fmt.Sprintf(f, a...))
	}
}

var runtimePanicType types.Type = types.Universe.Lookup("error").Type()

func runtimePanic() Value {
	return VIface{typ: runtimePanicType, v: VOpq{key: "runtime.Error", typ: runtimePanicType}}
}

// require adds the panic "not good" and restricts the state to good.
func (E *Engine) require(fr *frame, st *State, good *DD, in ssa.Instruction, what string) bool {
	return E.requireV(fr, st, good, in, what, nil)
}

func (E *Engine) requireV(fr *frame, st *State, good *DD, in ssa.Instruction, what string, val Value) bool {
	if good == True {
		return true
	}
	bad := st.reach.and(good.not())
	if !feasible(st.ctx.and(bad)) {
		return true
	}
	if val == nil {
		val = runtimePanic()
	}
	st.mem.shared = true
	fr.panics = append(fr.panics, Panic{g: bad, val: val, mem: st.mem, defers: st.defers, site: E.site(in), what: what})
	st.reach = st.reach.and(good)
	return feasible(st.full())
}

// unknown records an undecided operation.
func (E *Engine) unknown(in ssa.Instruction, f string, a ...interface{}) VTop {
	m := fmt.Sprintf(f, a...)
	t := VTop{fmt.Sprintf("%s: %s", E.site(in), m)}
	if E.debug {
		E.trace("TOP %s", t.why)
	}
	return t
}

// mayPanic models an operation of unknown outcome.
func (E *Engine) mayPanic(fr *frame, st *State, in ssa.Instruction, what string) {
	a := freshAtom("maypanic", bi(0), bi(1))
	E.require(fr, st, boolAtom(a).not(), in, "undecided: "+what)
}

// ---------------------------------------------------------------- joins

func joinN(gs []*DD, sts []*State, vals []Value) (*State, Value) {
	if len(sts) == 1 {
		return sts[0], vals[0]
	}
	// gates
	all := False
	for _, g := range gs {
		all = all.or(g)
	}
	n := len(sts)
	gates := make([]*DD, n)
	for i, g := range gs {
		gates[i] = restrict(g, all)
	}
	reach := False
	for _, s := range sts {
		reach = reach.or(s.reach)
	}
	mem := sts[n-1].mem
	v := vals[n-1]
	dl := sts[n-1].defers
	for i := n - 2; i >= 0; i-- {
		mc := &mergeCtx{sts[i].mem, mem, sts[i].ctx}
		v = mergeV(gates[i], vals[i], v, mc)
		mem = mergeMem(gates[i], sts[i].mem, mem, sts[i].ctx)
		dl = mergeDefers(gates[i], sts[i].defers, dl)
	}
	mem.shared = true
	return &State{ctx: sts[0].ctx, reach: reach, mem: mem, defers: dl}, v
}

func mergeDefers(g *DD, a, b *deferList) *deferList {
	if a == b {
		return a
	}
	var xs, ys []*deferList
	for p := a; p != nil; p = p.prev {
		xs = append(xs, p)
	}
	for p := b; p != nil; p = p.prev {
		ys = append(ys, p)
	}
	i, j := len(xs)-1, len(ys)-1
	var base *deferList
	for i >= 0 && j >= 0 && xs[i] == ys[j] {
		base = xs[i]
		i--
		j--
	}
	add := func(d *deferred, gd *DD) {
		c := *d
		if c.g == nil {
			c.g = gd
		} else {
			c.g = c.g.and(gd)
		}
		base = &deferList{base, &c}
	}
	for ; j >= 0; j-- {
		add(ys[j].d, g.not())
	}
	for ; i >= 0; i-- {
		add(xs[i].d, g)
	}
	return base
}

func (E *Engine) forAlt(st *State, v Value, f func(st *State, v Value) (Value, *State)) (Value, *State) {
	x, ok := v.(VAlt)
	if !ok {
		return f(st, v)
	}
	var gs []*DD
	var sts []*State
	var vals []Value
	rest := True
	for i := range x.gs {
		c := rest.and(x.gs[i])
		if i == len(x.gs)-1 {
			c = rest
		}
		rest = rest.and(x.gs[i].not())
		s := st.fork()
		s.reach = s.reach.and(c)
		if !feasible(s.full()) {
			continue
		}
		r, s2 := f(s, x.vs[i])
		if s2 == nil {
			continue
		}
		gs = append(gs, c)
		sts = append(sts, s2)
		vals = append(vals, r)
	}
	if len(sts) == 0 {
		return nil, nil
	}
	s, r := joinN(gs, sts, vals)
	return r, s
}

// ---------------------------------------------------------------- functions

// evalFunc evaluates a call. The panics that leave the function are returned.
func (E *Engine) evalFunc(fn *ssa.Function, args, free []Value, st *State, pc *panicCell) (Value, *State, []Panic) {
	n, r, ps := E.evalFuncSplit(fn, args, free, st, pc)
	if r.st == nil {
		return n.val, n.st, ps
	}
	if n.st == nil {
		return r.val, r.st, ps
	}
	s, v := joinN([]*DD{n.st.reach, r.st.reach}, []*State{n.st, r.st}, []Value{n.val, r.val})
	return v, s, ps
}

type outcome struct {
	st  *State
	val Value
}

// evalFuncSplit returns the normal and the recovered outcome separately.
func (E *Engine) evalFuncSplit(fn *ssa.Function, args, free []Value, st *State, pc *panicCell) (normal, recovered outcome, out []Panic) {
	E.stack = append(E.stack, fn)
	defer func() { E.stack = E.stack[:len(E.stack)-1] }()
	if E.fnSeen != nil {
		E.fnSeen[fn] = true
	}
	fr := &frame{fn: fn, regs: map[ssa.Value]Value{}, free: free, pc: pc, li: E.loopInfo(fn), live: map[ssa.Value]*Obj{}}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = free[i]
	}
	saved := st.defers
	s0 := st.fork()
	s0.defers = nil
	E.region(fr, nil, fn.Blocks[0], []edge{{to: fn.Blocks[0], st: s0, ctl: True}}, nil)
	join := func() outcome {
		var gs []*DD
		var sts []*State
		var vals []Value
		for _, r := range fr.rets {
			gs = append(gs, r.ctl)
			sts = append(sts, r.st)
			vals = append(vals, tupleOf(r.vals))
		}
		if len(sts) == 0 {
			return outcome{}
		}
		s, v := joinN(gs, sts, vals)
		s = s.fork()
		s.defers = saved
		return outcome{s, v}
	}
	normal = join()
	fr.rets = nil
	// panics: run the deferred calls
	for round := 0; round < 20; round++ {
		var dl *deferList
		var grp, rest []Panic
		for _, p := range fr.panics {
			if p.defers == nil {
				out = append(out, p)
			} else if dl == nil || p.defers == dl {
				dl = p.defers
				grp = append(grp, p)
			} else {
				rest = append(rest, p)
			}
		}
		fr.panics = rest
		if len(grp) == 0 {
			break
		}
		ps, val := mergePanics(grp, st.ctx)
		cell := &panicCell{obj: newObj("panicking", types.Typ[types.Bool], True), val: val}
		E.runDefers(fr, ps, dl, cell)
		if ps.reach == False {
			continue
		}
		act := ps.mem.get(cell.obj).(*DD)
		if act != False {
			p := ps.fork()
			p.reach = ps.reach.and(act)
			if feasible(p.full()) {
				out = append(out, Panic{g: p.reach, val: val, mem: p.mem, site: grp[0].site, what: grp[0].what + " (not recovered)"})
			}
		}
		ps.reach = ps.reach.and(act.not())
		if feasible(ps.full()) {
			ps.defers = nil
			if fn.Recover != nil {
				save := fr.panics
				fr.panics = nil
				E.region(fr, nil, fn.Recover, []edge{{to: fn.Recover, st: ps, ctl: ps.reach}}, nil)
				fr.panics = append(save, fr.panics...)
			} else {
				var vals []Value
				for i := 0; i < fn.Signature.Results().Len(); i++ {
					vals = append(vals, zeroValue(fn.Signature.Results().At(i).Type()))
				}
				fr.rets = append(fr.rets, retEdge{st: ps, ctl: ps.reach, vals: vals})
			}
		}
	}
	recovered = join()
	if recovered.st != nil {
		E.recovs = append(E.recovs, RecovRec{fn, recovered})
	}
	for i := range out {
		out[i].defers = saved
	}
	return
}

func tupleOf(vs []Value) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	return VTuple(vs)
}

// runDefers runs the deferred calls in LIFO order on st (updated in place).
func (E *Engine) runDefers(fr *frame, st *State, dl *deferList, pc *panicCell) {
	for p := dl; p != nil; p = p.prev {
		st.defers = p.prev
		d := p.d
		in := fr.fn.Blocks[0].Instrs[0]
		run := func(s *State) *State {
			_, s2 := E.callValue(fr, s, d.fn, d.args, d.common, in, pc)
			return s2
		}
		if d.g == nil {
			s2 := run(st)
			if s2 == nil {
				st.reach = False
				return
			}
			*st = *s2
			continue
		}
		a, b := st.fork(), st.fork()
		a.reach, b.reach = st.reach.and(d.g), st.reach.and(d.g.not())
		var gs []*DD
		var sts []*State
		if feasible(a.full()) {
			if s2 := run(a); s2 != nil {
				gs, sts = append(gs, d.g), append(sts, s2)
			}
		}
		if feasible(b.full()) {
			gs, sts = append(gs, d.g.not()), append(sts, b)
		}
		if len(sts) == 0 {
			st.reach = False
			return
		}
		s2, _ := joinN(gs, sts, make([]Value, len(sts)))
		*st = *s2
	}
	st.defers = nil
}

// mergePanics joins panic states coarsely.
func mergePanics(ps []Panic, ctx *DD) (*State, Value) {
	reach := False
	var val Value
	for _, p := range ps {
		if val == nil {
			val = p.val
		} else {
			val = mergeV(restrict(p.g, p.g.or(reach)), p.val, val, nil)
		}
		reach = reach.or(p.g)
	}
	mem := newMem()
	objs := map[*Obj]bool{}
	for _, p := range ps {
		for o := range p.mem.m {
			objs[o] = true
		}
		for f, x := range p.mem.fam {
			y, ok := mem.fam[f]
			if ok && y != x {
				x = famState{hw: x.hw, epoch: max(x.epoch, y.epoch) + 1, clob: linZero()}
			}
			mem.fam[f] = x
		}
	}
	for o := range objs {
		v := ps[0].mem.get(o)
		g := ps[0].g
		for _, p := range ps[1:] {
			v = coarse(v, p.mem.get(o), g, p.g)
			g = g.or(p.g)
		}
		mem.m[o] = v
	}
	return &State{ctx: ctx, reach: reach, mem: mem}, val
}

func coarse(a, b Value, ga, gb *DD) Value {
	if sameVal(a, b) {
		return a
	}
	switch x := a.(type) {
	case *DD:
		if y, ok := b.(*DD); ok {
			return iteDD(restrict(gb, ga.or(gb)), y, x)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			r := VStruct{typ: x.typ, f: make([]Value, len(x.f))}
			for i := range x.f {
				r.f[i] = coarse(x.f[i], y.f[i], ga, gb)
			}
			return r
		}
	}
	return top("value at the time of a panic")
}

// ---------------------------------------------------------------- regions

// region evaluates the blocks of loop body L (nil: the whole function) from
// entry. Edges that leave the region or return to entry are returned.
func (E *Engine) region(fr *frame, L *loop, entry *ssa.BasicBlock, ins []edge, phiOver map[*ssa.Phi]Value) (outs []edge) {
	in := map[*ssa.BasicBlock][]edge{entry: ins}
	order := fr.li.rpo
	start := fr.li.num[entry]
	emit := func(es []edge) {
		for _, e := range es {
			if L != nil && (e.to == L.head || !L.has[e.to]) {
				outs = append(outs, e)
				continue
			}
			in[e.to] = append(in[e.to], e)
		}
	}
	for k := start; k < len(order); k++ {
		b := order[k]
		es := in[b]
		if len(es) == 0 {
			continue
		}
		delete(in, b)
		if L != nil && !L.has[b] {
			panic("region: block outside")
		}
		st, ctl, phis := E.joinEdges(es)
		if lp := fr.li.heads[b]; lp != nil && lp != L {
			emit(E.evalLoop(fr, lp, st, ctl, phis))
			continue
		}
		// phis
		if b == entry && phiOver != nil {
			for _, i := range b.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				fr.regs[p] = phiOver[p]
			}
		} else {
			for n, i := range b.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				fr.regs[p] = phis[n]
			}
		}
		emit(E.block(fr, b, st, ctl))
	}
	return
}

func (E *Engine) joinEdges(es []edge) (*State, *DD, []Value) {
	if len(es) == 1 {
		return es[0].st, es[0].ctl, es[0].phis
	}
	var gs []*DD
	var sts []*State
	var vals []Value
	ctl := False
	for _, e := range es {
		gs = append(gs, e.ctl)
		sts = append(sts, e.st)
		vals = append(vals, VTuple(e.phis))
		ctl = ctl.or(e.ctl)
	}
	s, v := joinN(gs, sts, vals)
	return s, ctl, []Value(v.(VTuple))
}

func (E *Engine) mkEdge(fr *frame, from, to *ssa.BasicBlock, st *State, ctl *DD) edge {
	e := edge{from: from, to: to, st: st, ctl: ctl}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		e.phis = append(e.phis, E.val(fr, st, p.Edges[pi], from))
	}
	// values that live past a loop exit
	for lp := fr.li.inner[from]; lp != nil && !lp.has[to]; lp = lp.parent {
		for _, v := range lp.liveout {
			if x, ok := fr.regs[v]; ok && fr.li.inner[v.(ssa.Instruction).Block()] == lp {
				o := fr.live[v]
				if o == nil {
					o = newObj("live:"+v.Name(), v.Type(), top("not computed"))
					fr.live[v] = o
				}
				st.set(o, x)
			}
		}
	}
	return e
}

// val is the value of an operand used in block b.
func (E *Engine) val(fr *frame, st *State, v ssa.Value, b *ssa.BasicBlock) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return E.constVal(x)
	case *ssa.Global:
		return VPtr{obj: E.global(x)}
	case *ssa.Function:
		return VFunc{fn: x}
	case *ssa.Builtin:
		return VFunc{blt: x.Name()}
	}
	if in, ok := v.(ssa.Instruction); ok && b != nil {
		lp := fr.li.inner[in.Block()]
		if lp != nil && !lp.has[b] {
			if o := fr.live[v]; o != nil {
				return st.mem.get(o)
			}
		}
	}
	r, ok := fr.regs[v]
	if !ok {
		return top("register %s of %s not computed", v.Name(), fr.fn)
	}
	return r
}

func (E *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolDD(constant.BoolVal(c.Value))
	case constant.String:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return VStr{strSeq(constant.StringVal(c.Value))}
		}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i, ok := constant.Int64Val(c.Value); ok {
				return linC(i)
			}
			bv, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			a := internAtom("big:"+bv.String(), func() *Atom {
				return &Atom{k: AOpq, name: "const" + bv.String(), lo: bv, hi: bv, mod4: int(new(big.Int).And(bv, bi(3)).Int64())}
			})
			return linAtom(a)
		}
	}
	return VOpq{key: "const:" + c.Value.ExactString() + ":" + typeKey(t), typ: t}
}

func (E *Engine) global(g *ssa.Global) *Obj {
	if o, ok := E.globals[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := newObj(g.String(), t, nil)
	o.global = true
	if E.repo[g.Pkg] {
		o.init = zeroValue(t)
	} else if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		o.init = zeroValue(t)
	} else {
		o.init = VOpq{key: "global:" + g.String(), typ: t}
	}
	E.globals[g] = o
	return o
}

// block evaluates one block; the result are its outgoing edges.
func (E *Engine) block(fr *frame, b *ssa.BasicBlock, st *State, ctl *DD) []edge {
	st = st.fork()
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); ok {
			continue
		}
		E.instrs++
		switch x := i.(type) {
		case *ssa.Jump:
			return []edge{E.mkEdge(fr, b, b.Succs[0], st, ctl)}
		case *ssa.If:
			c := E.asBool(E.val(fr, st, x.Cond, b), st)
			if c != True && c != False {
				if entails(st.full(), c) {
					c = True
				} else if entails(st.full(), c.not()) {
					c = False
				}
			}
			if c == True {
				return []edge{E.mkEdge(fr, b, b.Succs[0], st, ctl)}
			}
			if c == False {
				return []edge{E.mkEdge(fr, b, b.Succs[1], st, ctl)}
			}
			s1, s2 := st.fork(), st.fork()
			s1.reach, s2.reach = st.reach.and(c), st.reach.and(c.not())
			return []edge{E.mkEdge(fr, b, b.Succs[0], s1, ctl.and(c)), E.mkEdge(fr, b, b.Succs[1], s2, ctl.and(c.not()))}
		case *ssa.Return:
			r := retEdge{st: st, ctl: ctl, blk: b}
			for _, v := range x.Results {
				r.vals = append(r.vals, E.val(fr, st, v, b))
			}
			fr.rets = append(fr.rets, r)
			return nil
		case *ssa.Panic:
			v := E.val(fr, st, x.X, b)
			st.mem.shared = true
			fr.panics = append(fr.panics, Panic{g: st.reach, val: v, mem: st.mem, defers: st.defers, site: E.site(x), what: "explicit panic"})
			return nil
		case *ssa.RunDefers:
			dl := st.defers
			E.runDefers(fr, st, dl, nil)
			if st.reach == False {
				return nil
			}
		default:
			s2 := E.instr(fr, b, st, i)
			if s2 == nil {
				return nil
			}
			st = s2
		}
	}
	panic("block without terminator")
}

func (E *Engine) asBool(v Value, st *State) *DD {
	switch x := v.(type) {
	case *DD:
		return x
	case VAlt:
		r := False
		rest := True
		for i := range x.gs {
			c := rest.and(x.gs[i])
			if i == len(x.gs)-1 {
				c = rest
			}
			rest = rest.and(x.gs[i].not())
			r = r.or(c.and(E.asBool(x.vs[i], st)))
		}
		return r
	case VOpq:
		return boolAtom(E.opqVal(x, bi(0), bi(1)))
	case VSym:
		return boolAtom(symAtom(x.p))
	}
	a := freshAtom("bool", bi(0), bi(1))
	if t, ok := v.(VTop); ok {
		a.name += "<" + t.why + ">"
	}
	return boolAtom(a)
}

// opqVal names an opaque value by an atom.
func (E *Engine) opqVal(x VOpq, lo, hi *big.Int) *Atom {
	k := valString(x)
	fr := frOfVal(x)
	if len(fr) > 0 {
		// keep substitution possible through the arguments
		var as []*Lin
		okA := true
		for _, a := range x.args {
			if l, ok := a.(*Lin); ok {
				as = append(as, l)
			} else {
				okA = false
			}
		}
		if okA {
			return opqAtom(x.key, as, lo, hi)
		}
		return freshAtom("opq:"+x.key, lo, hi)
	}
	return internAtom("opqv:"+k, func() *Atom { return &Atom{k: AOpq, name: k, lo: lo, hi: hi, mod4: -1} })
}

// asLin is the integer value of v.
func (E *Engine) asLin(v Value, t types.Type) *Lin {
	switch x := v.(type) {
	case *Lin:
		return x
	case VOpq:
		lo, hi := typeRange(t)
		return linAtom(E.opqVal(x, lo, hi))
	case VSym:
		return linAtom(symAtom(x.p))
	case VAlt:
		var r *Lin
		for i := len(x.gs) - 1; i >= 0; i-- {
			l := E.asLin(x.vs[i], t)
			if r == nil {
				r = l
			} else {
				r = ite(x.gs[i], l, r)
			}
		}
		return r
	}
	lo, hi := typeRange(t)
	a := freshAtom("unknown", lo, hi)
	if tp, ok := v.(VTop); ok {
		a.name += "<" + tp.why + ">"
	}
	return linAtom(a)
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// norm simplifies a guarded expression under the state.
func norm(l *Lin, st *State) *Lin {
	if l.isC() {
		return l
	}
	need := false
	for _, x := range l.t {
		if x.a.k == AG || x.a.small() || x.a.k == AFF {
			need = true
		}
	}
	if !need {
		return l
	}
	return newSimp(st.full()).lin(l)
}

func wrapSt(l *Lin, t types.Type, st *State) *Lin {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return l
	}
	w, s := intWidth(b)
	if w == 0 {
		return l
	}
	lo, hi := widthRange(w, s)
	if inRange(l, lo, hi) {
		return l
	}
	if w >= 32 && l.lenish() {
		return l
	}
	if w < 64 && lo.IsInt64() && hi.IsInt64() {
		g := condGE(l.addC(-lo.Int64())).and(condGE(l.neg().addC(hi.Int64())))
		if entails(st.full(), g) {
			return l
		}
	}
	if w == 64 && absI(l.c) < 1<<61 {
		g := condGE(l.neg().addC(1 << 62))
		if s {
			g = g.and(condGE(l.addC(1 << 62)))
		} else {
			g = g.and(condGE(l))
		}
		if entails(st.full(), g) {
			return l
		}
	}
	return wrap(l, w, s)
}

// ---------------------------------------------------------------- instructions

func (E *Engine) instr(fr *frame, b *ssa.BasicBlock, st *State, i ssa.Instruction) *State {
	get := func(v ssa.Value) Value { return E.val(fr, st, v, b) }
	set := func(v ssa.Value, x Value) { fr.regs[v] = x }
	switch x := i.(type) {
	case *ssa.DebugRef:
		return st
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		o := newObj(x.Comment, t, zeroValue(t))
		set(x, VPtr{obj: o})
		return st
	case *ssa.BinOp:
		v, s2 := E.binop(fr, st, x, get(x.X), get(x.Y))
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			v, s2 := E.load(fr, st, get(x.X), x, x.Type())
			if s2 == nil {
				return nil
			}
			set(x, v)
			return s2
		case token.NOT:
			set(x, E.asBool(get(x.X), st).not())
		case token.SUB:
			set(x, wrapSt(E.asLin(get(x.X), x.Type()).neg(), x.Type(), st))
		case token.XOR:
			l := E.asLin(get(x.X), x.Type())
			set(x, wrapSt(l.neg().addC(-1), x.Type(), st))
		default:
			set(x, E.unknown(x, "operator %s", x.Op))
			E.mayPanic(fr, st, x, x.Op.String())
		}
		return st
	case *ssa.Call:
		v, s2 := E.callCommon(fr, st, &x.Call, x, b)
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.Defer:
		d := &deferred{common: &x.Call}
		if x.Call.IsInvoke() {
			d.fn = VFunc{recv: get(x.Call.Value), meth: x.Call.Method}
		} else {
			d.fn = get(x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, get(a))
		}
		st.defers = &deferList{st.defers, d}
		return st
	case *ssa.Go:
		E.event("go", E.site(x), "goroutine started")
		return st
	case *ssa.ChangeInterface:
		set(x, get(x.X))
	case *ssa.ChangeType:
		set(x, retype(get(x.X), x.Type()))
	case *ssa.Convert:
		v, s2 := E.convert(fr, st, x, get(x.X), x.X.Type(), x.Type())
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.MultiConvert:
		v, s2 := E.convert(fr, st, x, get(x.X), x.X.Type(), x.Type())
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.MakeInterface:
		set(x, VIface{typ: x.X.Type(), v: get(x.X)})
	case *ssa.MakeClosure:
		f := VFunc{fn: x.Fn.(*ssa.Function)}
		for _, v := range x.Bindings {
			f.free = append(f.free, get(v))
		}
		set(x, f)
	case *ssa.MakeMap:
		t := x.Type().Underlying().(*types.Map)
		o := newObj("map", x.Type(), VMapC{typ: t})
		set(x, VMap{o})
	case *ssa.MapUpdate:
		m, ok := get(x.Map).(VMap)
		if !ok || m.obj == nil {
			E.mayPanic(fr, st, x, "map update")
			return st
		}
		c, ok := st.mem.get(m.obj).(VMapC)
		k := get(x.Key)
		if !ok || !constKey(k) {
			st.set(m.obj, E.unknown(x, "map update"))
			return st
		}
		n := VMapC{typ: c.typ}
		done := false
		for _, e := range c.e {
			if sameVal(e.k, k) {
				e.v = get(x.Value)
				done = true
			}
			n.e = append(n.e, e)
		}
		if !done {
			n.e = append(n.e, VMapE{k, get(x.Value)})
		}
		st.set(m.obj, n)
	case *ssa.MakeSlice:
		n := norm(E.asLin(get(x.Len), x.Len.Type()), st)
		c := norm(E.asLin(get(x.Cap), x.Cap.Type()), st)
		if !E.require(fr, st, condGE(n), x, "makeslice: len out of range") {
			return nil
		}
		if !E.require(fr, st, condGE(c.sub(n)), x, "makeslice: cap out of range") {
			return nil
		}
		E.allocs = append(E.allocs, AllocRec{st.full(), c, E.site(x), E.path(), "make"})
		et := x.Type().Underlying().(*types.Slice).Elem()
		o := newObj("make", nil, VSeq{Seq(nil).cat(IZero{c, et})})
		if !E.grow || !c.isC() {
			o.fam, o.famOff = newFam(), linZero()
			st.wmem().fam[o.fam] = famState{hw: n}
		}
		set(x, VSlice{obj: o, off: linZero(), len: n, cap: c, nilg: False, et: et})
	case *ssa.Slice:
		v, s2 := E.slice(fr, st, x, get)
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.SliceToArrayPointer:
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		v, s2 := E.forAlt(st, get(x.X), func(s *State, v Value) (Value, *State) {
			sl, ok := v.(VSlice)
			if !ok {
				return E.unknown(x, "slice to array pointer"), s
			}
			if !E.require(fr, s, condGE(sl.len.addC(-n)), x, "slice to array pointer: length") {
				return nil, nil
			}
			return E.unknown(x, "slice to array pointer"), s
		})
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.Field:
		v, s2 := E.forAlt(st, get(x.X), func(s *State, v Value) (Value, *State) {
			switch y := v.(type) {
			case VStruct:
				return y.f[x.Field], s
			case VSym:
				f := y.typ.Underlying().(*types.Struct).Field(x.Field)
				return materialise(y.p.field(f.Name(), f.Type())), s
			case VOpq:
				return VOpq{key: fmt.Sprintf("field%d", x.Field), args: []Value{y}, typ: x.Type()}, s
			}
			return E.unknown(x, "field of %s", short(valString(v))), s
		})
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.FieldAddr:
		v, s2 := E.forAlt(st, get(x.X), func(s *State, v Value) (Value, *State) {
			switch y := v.(type) {
			case VPtr:
				if y.obj == nil {
					E.require(fr, s, False, x, "nil pointer dereference")
					return nil, nil
				}
				return VPtr{y.obj, append(y.st[:len(y.st):len(y.st)], Step{field: x.Field})}, s
			case VSym:
				p, s2 := E.symPtr(fr, s, y, x)
				if s2 == nil {
					return nil, nil
				}
				return VPtr{p.obj, []Step{{field: x.Field}}}, s2
			}
			E.mayPanic(fr, s, x, "field address of "+short(valString(v)))
			return E.unknown(x, "field address of %s", short(valString(v))), s
		})
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.Index:
		v, s2 := E.index(fr, st, x, get(x.X), get(x.Index))
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.IndexAddr:
		v, s2 := E.indexAddr(fr, st, x, get(x.X), get(x.Index))
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.Lookup:
		v, s2 := E.lookup(fr, st, x, get(x.X), get(x.Index))
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.Store:
		return E.store(fr, st, get(x.Addr), get(x.Val), x)
	case *ssa.Extract:
		switch t := get(x.Tuple).(type) {
		case VTuple:
			set(x, t[x.Index])
		case VOpq:
			set(x, VOpq{key: fmt.Sprintf("#%d", x.Index), args: []Value{t}, typ: x.Type()})
		case VTop:
			set(x, t)
		case VAlt:
			var r Value
			for k := len(t.gs) - 1; k >= 0; k-- {
				var e Value = top("tuple")
				if tp, ok := t.vs[k].(VTuple); ok {
					e = tp[x.Index]
				}
				if r == nil {
					r = e
				} else {
					r = mergeV(t.gs[k], e, r, nil)
				}
			}
			set(x, r)
		default:
			set(x, E.unknown(x, "extract of %T", t))
		}
	case *ssa.TypeAssert:
		v, s2 := E.typeAssert(fr, st, x, get(x.X))
		if s2 == nil {
			return nil
		}
		set(x, v)
		return s2
	case *ssa.Range:
		set(x, VOpq{key: "range", args: []Value{get(x.X)}, typ: x.Type()})
	case *ssa.Next:
		set(x, VTuple{boolAtom(freshAtom("next", bi(0), bi(1))), E.unknown(x, "range key"), E.unknown(x, "range value")})
	default:
		E.mayPanic(fr, st, i, fmt.Sprintf("%T", i))
		if v, ok := i.(ssa.Value); ok {
			set(v, E.unknown(i, "%T", i))
		}
	}
	return st
}

func constKey(k Value) bool {
	switch x := k.(type) {
	case *Lin:
		return x.isC()
	case VStr:
		_, ok := constStr(x.s)
		return ok
	}
	return false
}

func retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case VStruct:
		return VStruct{typ: t, f: x.f}
	case VArr:
		return VArr{typ: t, e: x.e}
	case VSym:
		return VSym{x.p, t}
	}
	return v
}

var symPtrObjs = map[*Path]*Obj{}

// symPtr resolves a symbolic pointer.
func (E *Engine) symPtr(fr *frame, st *State, y VSym, in ssa.Instruction) (VPtr, *State) {
	pt, ok := y.typ.Underlying().(*types.Pointer)
	if !ok {
		E.mayPanic(fr, st, in, "pointer "+y.p.String())
		return VPtr{}, nil
	}
	nonnil := boolAtom(nilAtom(y.p)).not()
	if !E.require(fr, st, nonnil, in, "nil pointer dereference") {
		return VPtr{}, nil
	}
	o := symPtrObjs[y.p]
	if o == nil {
		o = newObj("*"+y.p.String(), pt.Elem(), materialise(y.p.deref(pt.Elem())))
		o.input = true
		symPtrObjs[y.p] = o
	}
	return VPtr{obj: o}, st
}

func (E *Engine) load(fr *frame, st *State, p Value, in ssa.Instruction, t types.Type) (Value, *State) {
	return E.forAlt(st, p, func(s *State, p Value) (Value, *State) {
		switch y := p.(type) {
		case VPtr:
			if y.obj == nil {
				E.require(fr, s, False, in, "nil pointer dereference")
				return nil, nil
			}
			if len(y.st) > 0 && y.obj.fam != nil {
				if last := y.st[0]; last.idx != nil && clobbered(s.mem, y.obj, last.idx.addC(1), s.full()) {
					return E.unknown(in, "read of a slice whose storage may have been overwritten"), s
				}
			}
			v, ok := stepInto(s.mem.get(y.obj), y.st, s.full())
			if !ok {
				return E.unknown(in, "load of %s", short(valString(y))), s
			}
			return v, s
		case VSym:
			q, s2 := E.symPtr(fr, s, y, in)
			if s2 == nil {
				return nil, nil
			}
			return s2.mem.get(q.obj), s2
		}
		if o, ok := p.(VOpq); ok && o.key == "unsafeptr" {
			return E.opqOf(t, "unsafe", in), s
		}
		E.mayPanic(fr, s, in, "load through "+short(valString(p)))
		return E.unknown(in, "load through %s", short(valString(p))), s
	})
}

func (E *Engine) store(fr *frame, st *State, p, v Value, in ssa.Instruction) *State {
	_, s2 := E.forAlt(st, p, func(s *State, p Value) (Value, *State) {
		y, ok := p.(VPtr)
		if ys, isSym := p.(VSym); isSym {
			var s2 *State
			y, s2 = E.symPtr(fr, s, ys, in)
			if s2 == nil {
				return nil, nil
			}
			s, ok = s2, true
		}
		if !ok {
			E.mayPanic(fr, s, in, "store through "+short(valString(p)))
			E.event("undecided", E.site(in), "store through "+short(valString(p)))
			return nil, s
		}
		if y.obj == nil {
			E.require(fr, s, False, in, "nil pointer dereference")
			return nil, nil
		}
		E.writeObj(s, y.obj, y.st, v, in)
		return nil, s
	})
	return s2
}

func (E *Engine) writeObj(s *State, o *Obj, steps []Step, v Value, in ssa.Instruction) {
	if o.ro && o.fam == nil {
		E.event("undecided", E.site(in), "write to a slice whose storage is a join")
		s.set(o, E.unknown(in, "write to joined storage"))
		return
	}
	if o.input && o.sym != nil {
		E.event("input-write", E.site(in), "write to "+o.name)
	}
	if o.global && !E.initing {
		E.event("global-write", E.site(in), "write to "+o.name)
	}
	n, ok := stepSet(s.mem.get(o), steps, v, s.full())
	if !ok {
		n = E.unknown(in, "store to %s%v", o.name, steps)
	}
	s.set(o, n)
	if o.fam != nil && len(steps) > 0 && steps[0].idx != nil {
		E.touchFam(s, o, steps[0].idx)
	}
}

// touchFam records an in-place write at index idx of o.
func (E *Engine) touchFam(s *State, o *Obj, idx *Lin) {
	f := s.mem.fam[o.fam]
	if f.owner == o {
		return
	}
	c := idx.add(o.famOff)
	if f.clob != nil && f.clob != c {
		c = linZero()
	}
	s.wmem().fam[o.fam] = famState{hw: f.hw, epoch: f.epoch + 1, clob: c, owner: o}
}

// ---------------------------------------------------------------- operators

func (E *Engine) binop(fr *frame, st *State, x *ssa.BinOp, a, b Value) (Value, *State) {
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		g := E.equalG(st, a, b, t, x)
		if x.Op == token.NEQ {
			g = g.not()
		}
		return g, st
	}
	if isString(t) {
		sa, ok1 := a.(VStr)
		sb, ok2 := b.(VStr)
		if x.Op == token.ADD {
			if ok1 && ok2 {
				return VStr{sa.s.cat(sb.s...)}, st
			}
			return E.unknown(x, "string concatenation of %s and %s", short(valString(a)), short(valString(b))), st
		}
		if ok1 && ok2 {
			ca, k1 := constStr(sa.s)
			cb, k2 := constStr(sb.s)
			if k1 && k2 {
				switch x.Op {
				case token.LSS:
					return boolDD(ca < cb), st
				case token.LEQ:
					return boolDD(ca <= cb), st
				case token.GTR:
					return boolDD(ca > cb), st
				case token.GEQ:
					return boolDD(ca >= cb), st
				}
			}
		}
		return boolAtom(freshAtom("strcmp", bi(0), bi(1))), st
	}
	if !isInt(t) {
		return E.unknown(x, "operator %s on %s", x.Op, t), st
	}
	l, r := norm(E.asLin(a, t), st), norm(E.asLin(b, x.Y.Type()), st)
	switch x.Op {
	case token.LSS:
		return condGT(r.sub(l)), st
	case token.LEQ:
		return condGE(r.sub(l)), st
	case token.GTR:
		return condGT(l.sub(r)), st
	case token.GEQ:
		return condGE(l.sub(r)), st
	}
	rt := x.Type()
	switch x.Op {
	case token.ADD:
		return wrapSt(l.add(r), rt, st), st
	case token.SUB:
		return wrapSt(l.sub(r), rt, st), st
	case token.MUL:
		if !l.isC() && !r.isC() && entails(st.full(), condGE(l).and(condGE(r))) {
			return wrapSt(mulNN(l, r), rt, st), st
		}
		return wrapSt(mulLin(l, r), rt, st), st
	case token.QUO, token.REM:
		if !E.require(fr, st, condEQ(r).not(), x, "integer divide by zero") {
			return nil, nil
		}
		return E.divRem(x.Op, l, r, rt, st), st
	case token.SHL, token.SHR:
		if !isUnsigned(x.Y.Type()) {
			if !E.require(fr, st, condGE(r), x, "negative shift amount") {
				return nil, nil
			}
		}
		return E.shift(x.Op, l, r, rt, st), st
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return bitop(x.Op, l, r, rt, st), st
	}
	return E.unknown(x, "operator %s", x.Op), st
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (E *Engine) divRem(op token.Token, l, r *Lin, t types.Type, st *State) *Lin {
	if l.isC() && r.isC() && r.c != 0 {
		if op == token.QUO {
			return linC(l.c / r.c)
		}
		return linC(l.c % r.c)
	}
	if r.isC() && r.c > 0 {
		if b := l.onlySmallBase(); b != nil {
			return tabulate(b, func(v int64) int64 {
				x := l.evalSmall(b, v)
				if op == token.QUO {
					return x / r.c
				}
				return x % r.c
			})
		}
		if r.c&(r.c-1) == 0 {
			k := 0
			for 1<<uint(k) < r.c {
				k++
			}
			nn := entails(st.full(), condGE(l))
			if nn {
				if op == token.QUO {
					return mkShr(l, k)
				}
				return mkBits(l, 0, k)
			}
			// truncation toward zero
			neg := condGE(l).not()
			if op == token.QUO {
				return ite(neg, mkShr(l.neg(), k).neg(), mkShr(l, k))
			}
			return ite(neg, mkBits(l.neg(), 0, k).neg(), mkBits(l, 0, k))
		}
	}
	name := "div"
	if op == token.REM {
		name = "rem"
	}
	lo, hi := typeRange(t)
	if entails(st.full(), condGE(l).and(condGE(r))) {
		lo = bi(0)
		if op == token.REM && r.isC() {
			hi = bi(r.c - 1)
		}
	}
	a := opqAtom(name, []*Lin{l, r}, lo, hi)
	a.lenish = l.lenish()
	if op == token.QUO && r.isC() && r.c > 0 && a.facts == nil && lo != nil && lo.Sign() == 0 {
		// 0 <= l - r*a <= r-1
		d := l.sub(linAtom(a).scale(r.c))
		a.facts = []*Lin{d, d.neg().addC(r.c - 1)}
	}
	return linAtom(a)
}

func (E *Engine) shift(op token.Token, l, r *Lin, t types.Type, st *State) *Lin {
	if r.isC() {
		k := r.c
		if op == token.SHL {
			if k >= 63 {
				w, _ := intWidth(t.Underlying().(*types.Basic))
				if int(k) >= w {
					return linZero()
				}
				return linAtom(opqAtom("shl", []*Lin{l, r}, nil, nil))
			}
			// drop bits that are shifted out first
			if b, ok := t.Underlying().(*types.Basic); ok {
				w, s := intWidth(b)
				if int(k) >= w {
					return linZero()
				}
				if !s {
					return mkBits(l, 0, w-int(k)).scale(1 << uint(k))
				}
			}
			return wrapSt(l.scale(1<<uint(k)), t, st)
		}
		return mkShr(l, int(min(k, 200)))
	}
	if b := r.onlySmallBase(); b != nil && (l.isC() || l.onlySmallBase() == b) {
		bt := t.Underlying().(*types.Basic)
		w, s := intWidth(bt)
		if w < 63 || op == token.SHR {
			return tabulate(b, func(v int64) int64 {
				k := r.evalSmall(b, v)
				x := l.c
				if !l.isC() {
					x = l.evalSmall(b, v)
				}
				if op == token.SHR {
					return x >> uint(min(max(k, 0), 63))
				}
				if k >= int64(w) || k < 0 {
					return 0
				}
				y := x << uint(k)
				y &= 1<<uint(w) - 1
				if s && y >= 1<<uint(w-1) {
					y -= 1 << uint(w)
				}
				return y
			})
		}
	}
	lo, hi := typeRange(t)
	return linAtom(opqAtom(op.String(), []*Lin{l, r}, lo, hi))
}

// andConst is l & m in a w-bit type.
func andConst(l *Lin, m int64, w int) *Lin {
	r := linZero()
	for p := 0; p < w && p < 63; {
		if m>>uint(p)&1 == 0 {
			p++
			continue
		}
		q := p
		for q < w && q < 63 && m>>uint(q)&1 == 1 {
			q++
		}
		r = r.add(mkBits(l, p, q-p).scale(1 << uint(p)))
		p = q
	}
	return r
}

func bitop(op token.Token, l, r *Lin, t types.Type, st *State) *Lin {
	w, signed := intWidth(t.Underlying().(*types.Basic))
	if l.isC() && r.isC() {
		switch op {
		case token.AND:
			return linC(l.c & r.c)
		case token.OR:
			return linC(l.c | r.c)
		case token.XOR:
			return linC(l.c ^ r.c)
		default:
			return linC(l.c &^ r.c)
		}
	}
	bl, br := l.onlySmallBase(), r.onlySmallBase()
	if (bl != nil || l.isC()) && (br != nil || r.isC()) && (bl == nil || br == nil || bl == br) {
		b := bl
		if b == nil {
			b = br
		}
		ev := func(x *Lin, v int64) int64 {
			if x.isC() {
				return x.c
			}
			return x.evalSmall(b, v)
		}
		return tabulate(b, func(v int64) int64 {
			x, y := ev(l, v), ev(r, v)
			switch op {
			case token.AND:
				return x & y
			case token.OR:
				return x | y
			case token.XOR:
				return x ^ y
			default:
				return x &^ y
			}
		})
	}
	if l.isC() && op != token.AND_NOT {
		l, r = r, l
	}
	if r.isC() && (r.c >= 0 || signed) {
		m := r.c
		// l & m for negative m: l - (l & ^m)
		and := func() *Lin {
			if m >= 0 {
				return andConst(l, m, w)
			}
			return l.sub(andConst(l, ^m, w))
		}
		switch op {
		case token.AND:
			return and()
		case token.OR:
			return l.addC(m).sub(and())
		case token.XOR:
			return l.addC(m).sub(and().scale(2))
		case token.AND_NOT:
			return l.sub(and())
		}
	}
	if op == token.OR || op == token.XOR {
		if disjointBits(l, r) || disjointBits(r, l) {
			return l.add(r)
		}
		if l == r {
			if op == token.XOR {
				return linZero()
			}
			return l
		}
		// distribute over guards
		for _, p := range [][2]*Lin{{l, r}, {r, l}} {
			if g := firstGuard(p[0]); g != nil {
				return ite(g, bitop(op, assumeS(p[0], g, true), p[1], t, st), bitop(op, assumeS(p[0], g, false), p[1], t, st))
			}
		}
	}
	if op != token.AND_NOT && l.id > r.id {
		l, r = r, l
	}
	lo, hi := widthRange(w, signed)
	return linAtom(opqAtom("bit"+op.String(), []*Lin{l, r}, lo, hi))
}

// disjointBits: hi is a multiple of 2^k and lo is in [0,2^k).
func disjointBits(hi, lo *Lin) bool {
	a, b := lo.rngG()
	if a == nil || b == nil || a.Sign() < 0 {
		// bit-field view
		return segDisjoint(hi, lo)
	}
	k := uint(b.BitLen())
	if k > 62 {
		return segDisjoint(hi, lo)
	}
	m := int64(1)<<k - 1
	if hi.c&m != 0 {
		return segDisjoint(hi, lo)
	}
	for _, x := range hi.t {
		if x.k&m != 0 {
			return segDisjoint(hi, lo)
		}
	}
	return true
}

func segDisjoint(a, b *Lin) bool {
	s1, ok1 := segsOf(a)
	s2, ok2 := segsOf(b)
	if !ok1 || !ok2 {
		return false
	}
	for _, x := range s1 {
		for _, y := range s2 {
			if x.pos < y.pos+y.w && y.pos < x.pos+x.w {
				return false
			}
		}
	}
	return true
}

// distinctErrors tells that two error values cannot be equal: a run-time
// error against one made by errors.New or fmt.Errorf, or errors made by two
// different calls.
func distinctErrors(x, y VOpq) (bool, bool) {
	isErr := func(o VOpq) bool { return o.key == "error" }
	if x.key == "runtime.Error" && isErr(y) || y.key == "runtime.Error" && isErr(x) {
		return true, true
	}
	if isErr(x) && isErr(y) && len(x.args)+len(y.args) > 0 {
		return !sameVal(x, y), true
	}
	return false, isErr(x) && isErr(y)
}

// equalG is the guard "a == b".
func (E *Engine) equalG(st *State, a, b Value, t types.Type, in ssa.Instruction) *DD {
	if x, ok := a.(VAlt); ok {
		r := False
		rest := True
		for i := range x.gs {
			c := rest.and(x.gs[i])
			if i == len(x.gs)-1 {
				c = rest
			}
			rest = rest.and(x.gs[i].not())
			if !feasible(st.full().and(c)) {
				continue
			}
			r = r.or(c.and(E.equalG(st, x.vs[i], b, t, in)))
		}
		return r
	}
	if _, ok := b.(VAlt); ok {
		return E.equalG(st, b, a, t, in)
	}
	fresh := func() *DD {
		return boolAtom(freshAtom("eq", bi(0), bi(1)))
	}
	switch x := a.(type) {
	case *Lin:
		if y, ok := b.(*Lin); ok {
			return condEQ(norm(x, st).sub(norm(y, st)))
		}
	case *DD:
		if y, ok := b.(*DD); ok {
			return x.xor(y).not()
		}
	case VStr:
		y, ok := b.(VStr)
		if !ok {
			break
		}
		if sameSeq(x.s, y.s) {
			return True
		}
		c1, k1 := constStr(x.s)
		c2, k2 := constStr(y.s)
		if k1 && k2 {
			return boolDD(c1 == c2)
		}
		if k1 && c1 == "" {
			return condEQ(y.s.size())
		}
		if k2 && c2 == "" {
			return condEQ(x.s.size())
		}
		// lengths and elements
		if k1 || k2 {
			s, c := x.s, c2
			if k1 {
				s, c = y.s, c1
			}
			n := s.size()
			g := condEQ(n.addC(-int64(len(c))))
			if g == False || !feasible(st.full().and(g)) {
				return False
			}
			if len(c) <= 64 {
				r := g
				for i := 0; i < len(c); i++ {
					v := readSeq(s, linC(int64(i)), st.full().and(g))
					l, ok := v.(*Lin)
					if !ok {
						return fresh().and(g)
					}
					r = r.and(condEQ(l.addC(-int64(c[i]))))
				}
				return r
			}
			return fresh().and(g)
		}
		return E.seqEqual(st, x.s, y.s)
	case VSlice:
		if y, ok := b.(VSlice); ok {
			if y.obj == nil && y.inl == nil && y.nilg == True {
				return x.nilg
			}
			if x.obj == nil && x.inl == nil && x.nilg == True {
				return y.nilg
			}
		}
	case VPtr:
		switch y := b.(type) {
		case VPtr:
			if x.obj != y.obj {
				return False
			}
			if sameSteps(x.st, y.st) {
				return True
			}
			if x.obj == nil {
				return True
			}
		case VSym:
			if x.obj == nil {
				return boolAtom(nilAtom(y.p))
			}
		case VOpq:
			return boolAtom(E.opqVal(VOpq{key: "isnil", args: []Value{y}}, bi(0), bi(1)))
		}
	case VFunc:
		switch y := b.(type) {
		case VFunc:
			if isNilFunc(x) || isNilFunc(y) {
				return boolDD(isNilFunc(x) && isNilFunc(y))
			}
		case VSym:
			if isNilFunc(x) {
				return boolAtom(nilAtom(y.p))
			}
		}
	case VMap:
		if y, ok := b.(VMap); ok && (x.obj == nil || y.obj == nil) {
			return boolDD(x.obj == nil && y.obj == nil)
		}
	case VIface:
		switch y := b.(type) {
		case VIface:
			if x.typ == nil || y.typ == nil {
				return boolDD(x.typ == nil && y.typ == nil)
			}
			if !types.Identical(x.typ, y.typ) {
				return False
			}
			return E.equalG(st, x.v, y.v, x.typ, in)
		case VSym:
			if x.typ == nil {
				return condEQ(linAtom(typeAtom(y.p)))
			}
			g := condEQ(linAtom(typeAtom(y.p)).addC(-typeCode(x.typ)))
			if !feasible(st.full().and(g)) {
				return False
			}
			return g.and(E.equalG(st, x.v, materialise(y.p.assert(x.typ)), x.typ, in))
		case VOpq:
			if x.typ == nil {
				return boolAtom(E.opqVal(VOpq{key: "isnil", args: []Value{y}}, bi(0), bi(1)))
			}
		}
	case VSym:
		switch y := b.(type) {
		case VIface, VPtr, VFunc:
			return E.equalG(st, b, a, t, in)
		case VSym:
			if x.p == y.p {
				return True
			}
		}
	case VOpq:
		switch y := b.(type) {
		case VIface, VPtr:
			return E.equalG(st, b, a, t, in)
		case VOpq:
			if r, ok := distinctErrors(x, y); ok {
				if r {
					return False
				}
				if len(x.args) == 0 {
					return fresh()
				}
			}
			if sameVal(x, y) {
				return True
			}
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			r := True
			for i := range x.f {
				r = r.and(E.equalG(st, x.f[i], y.f[i], nil, in))
			}
			return r
		}
	case VArr:
		if y, ok := b.(VArr); ok && len(x.e) == len(y.e) {
			r := True
			for i := range x.e {
				r = r.and(E.equalG(st, x.e[i], y.e[i], nil, in))
			}
			return r
		}
	}
	return fresh()
}

// seqEqual is the guard that two sequences of integers are equal.
func (E *Engine) seqEqual(st *State, a, b Seq) *DD {
	na, nb := a.size(), b.size()
	g := condEQ(na.sub(nb))
	if g == False || !feasible(st.full().and(g)) {
		return False
	}
	if E.fixed && na.isC() && na.c <= 64 {
		for i := int64(0); i < na.c; i++ {
			x, ok1 := readSeq(a, linC(i), st.full()).(*Lin)
			y, ok2 := readSeq(b, linC(i), st.full()).(*Lin)
			if !ok1 || !ok2 {
				return g.and(boolAtom(freshAtom("seqeq", bi(0), bi(1))))
			}
			g = g.and(condEQ(x.sub(y)))
		}
		return g
	}
	j := freshAtom("j", bi(0), nil)
	ctx := st.full().and(g).and(condGT(na.sub(linAtom(j))))
	x, ok1 := readSeq(a, linAtom(j), ctx).(*Lin)
	y, ok2 := readSeq(b, linAtom(j), ctx).(*Lin)
	if !ok1 || !ok2 {
		return g.and(boolAtom(freshAtom("seqeq", bi(0), bi(1))))
	}
	return g.and(mkExists(na, j, condEQ(x.sub(y)).not()).not())
}

func isNilFunc(f VFunc) bool { return f.fn == nil && f.blt == "" && f.meth == nil }

// ---------------------------------------------------------------- conversions

func (E *Engine) convert(fr *frame, st *State, in ssa.Instruction, v Value, from, to types.Type) (Value, *State) {
	if isInt(from) && isInt(to) {
		return wrapSt(norm(E.asLin(v, from), st), to, st), st
	}
	if isString(to) {
		if isInt(from) {
			l := E.asLin(v, from)
			if l.isC() {
				return VStr{strSeq(string(rune(l.c)))}, st
			}
			return VStr{Seq{IOpq{"runestr", []Value{l}, linAtom(opqAtom("runelen", []*Lin{l}, bi(1), bi(4)))}}}, st
		}
		if s, ok := from.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return E.forAlt(st, v, func(s *State, v Value) (Value, *State) {
					sl, ok := v.(VSlice)
					if !ok {
						return E.unknown(in, "string of %s", short(valString(v))), s
					}
					q, ok := viewSeq(s.mem, sl, s.full())
					if !ok {
						return E.unknown(in, "string of %s", short(valString(v))), s
					}
					return VStr{q}, s
				})
			}
		}
		if isString(from) {
			return v, st
		}
	}
	if s, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return E.forAlt(st, v, func(st *State, v Value) (Value, *State) {
				x, ok := v.(VStr)
				if !ok {
					return E.unknown(in, "bytes of %s", short(valString(v))), st
				}
				n := x.s.size()
				return E.newSlice(st, x.s, n, s.Elem()), st
			})
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return retype(v, to), st
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		freshN++
		return VOpq{key: fmt.Sprintf("unsafe@%d", freshN), typ: to}, st
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		E.event("unsafe", E.site(in), "conversion from unsafe.Pointer")
		return VOpq{key: "unsafeptr", args: []Value{v}, typ: to}, st
	}
	return E.unknown(in, "conversion %s to %s", from, to), st
}

// newSlice allocates a slice with the given content.
func (E *Engine) newSlice(st *State, s Seq, n *Lin, et types.Type) VSlice {
	o := newObj("new", nil, VSeq{s})
	o.fam, o.famOff = newFam(), linZero()
	st.wmem().fam[o.fam] = famState{hw: n}
	return VSlice{obj: o, off: linZero(), len: n, cap: nil, nilg: False, et: et}
}

// ---------------------------------------------------------------- indexing

func inBounds(i, n *Lin) *DD { return condGE(i).and(condGT(n.sub(i))) }

func (E *Engine) index(fr *frame, st *State, x *ssa.Index, c, iv Value) (Value, *State) {
	i := norm(E.asLin(iv, x.Index.Type()), st)
	return E.forAlt(st, c, func(s *State, c Value) (Value, *State) {
		switch y := c.(type) {
		case VArr:
			if !E.require(fr, s, inBounds(i, linC(int64(len(y.e)))), x, "index out of range") {
				return nil, nil
			}
			v, ok := stepInto(y, []Step{{idx: norm(i, s)}}, s.full())
			if !ok {
				return E.unknown(x, "array element"), s
			}
			return v, s
		case VStr:
			if !E.require(fr, s, inBounds(i, y.s.size()), x, "index out of range") {
				return nil, nil
			}
			return readSeq(y.s, norm(i, s), s.full()), s
		}
		E.mayPanic(fr, s, x, "index")
		return E.unknown(x, "index of %s", short(valString(c))), s
	})
}

func (E *Engine) indexAddr(fr *frame, st *State, x *ssa.IndexAddr, c, iv Value) (Value, *State) {
	i := norm(E.asLin(iv, x.Index.Type()), st)
	return E.forAlt(st, c, func(s *State, c Value) (Value, *State) {
		switch y := c.(type) {
		case VSlice:
			if !E.require(fr, s, inBounds(i, norm(y.len, s)), x, "index out of range") {
				return nil, nil
			}
			i := norm(i, s)
			if y.inl != nil {
				o := newObj("frozen", nil, VSeq{*y.inl})
				o.ro = true
				return VPtr{o, []Step{{idx: y.off.add(i)}}}, s
			}
			if y.obj == nil {
				return E.unknown(x, "element of nil slice"), s
			}
			return VPtr{y.obj, append(y.path[:len(y.path):len(y.path)], Step{idx: norm(y.off, s).add(i)})}, s
		case VPtr:
			if y.obj == nil {
				E.require(fr, s, False, x, "nil pointer dereference")
				return nil, nil
			}
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !E.require(fr, s, inBounds(i, linC(n)), x, "index out of range") {
				return nil, nil
			}
			return VPtr{y.obj, append(y.st[:len(y.st):len(y.st)], Step{idx: norm(i, s)})}, s
		}
		E.mayPanic(fr, s, x, "index of "+short(valString(c)))
		return E.unknown(x, "index of %s", short(valString(c))), s
	})
}

func (E *Engine) slice(fr *frame, st *State, x *ssa.Slice, get func(ssa.Value) Value) (Value, *State) {
	opt := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		return norm(E.asLin(get(v), v.Type()), st)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = linZero()
	}
	return E.forAlt(st, get(x.X), func(s *State, c Value) (Value, *State) {
		switch y := c.(type) {
		case VStr:
			n := norm(y.s.size(), s)
			h := hi
			if h == nil {
				h = n
			}
			if !E.require(fr, s, condGE(lo).and(condGE(h.sub(lo))).and(condGE(n.sub(h))), x, "slice bounds out of range") {
				return nil, nil
			}
			lo, h := norm(lo, s), norm(h, s)
			q, ok := subSeq(y.s, lo, h.sub(lo), s.full())
			if !ok {
				return VStr{Seq{IOpq{"substr", []Value{y, lo, h}, h.sub(lo)}}}, s
			}
			return VStr{q}, s
		case VSlice:
			y.len, y.off = norm(y.len, s), norm(y.off, s)
			h := hi
			if h == nil {
				h = y.len
			}
			good := condGE(lo).and(condGE(h.sub(lo)))
			switch {
			case mx != nil && y.cap != nil:
				good = good.and(condGE(mx.sub(h))).and(condGE(y.cap.sub(mx)))
			case mx != nil:
				good = good.and(condGE(mx.sub(h))).and(condGE(y.len.sub(mx)))
			case hi != nil && y.cap != nil:
				good = good.and(condGE(y.cap.sub(h)))
			case hi != nil:
				good = good.and(condGE(y.len.sub(h)))
				// capacity unknown: beyond len the outcome is undecided
				over := s.full().and(condGE(lo)).and(condGE(h.sub(lo))).and(condGT(h.sub(y.len)))
				if feasible(over) {
					E.event("undecided", E.site(x), "slice bound may exceed the length of a slice of unknown capacity")
				}
			}
			if !E.require(fr, s, good, x, "slice bounds out of range") {
				return nil, nil
			}
			lo, h := norm(lo, s), norm(h, s)
			r := y
			r.off, r.len = y.off.add(lo), h.sub(lo)
			switch {
			case mx != nil:
				r.cap = norm(mx, s).sub(lo)
			case y.cap != nil:
				r.cap = y.cap.sub(lo)
			}
			return r, s
		case VPtr:
			if y.obj == nil {
				E.require(fr, s, False, x, "nil pointer dereference")
				return nil, nil
			}
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			n := linC(at.Len())
			h, m := hi, mx
			if h == nil {
				h = n
			}
			if m == nil {
				m = n
			}
			if !E.require(fr, s, condGE(lo).and(condGE(h.sub(lo))).and(condGE(m.sub(h))).and(condGE(n.sub(m))), x, "slice bounds out of range") {
				return nil, nil
			}
			return VSlice{obj: y.obj, path: y.st, off: lo, len: h.sub(lo), cap: m.sub(lo), nilg: False, et: at.Elem()}, s
		}
		E.mayPanic(fr, s, x, "slice of "+short(valString(c)))
		return E.unknown(x, "slice of %s", short(valString(c))), s
	})
}

func (E *Engine) lookup(fr *frame, st *State, x *ssa.Lookup, c, k Value) (Value, *State) {
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		i := norm(E.asLin(k, x.Index.Type()), st)
		return E.forAlt(st, c, func(s *State, c Value) (Value, *State) {
			y, ok := c.(VStr)
			if !ok {
				E.mayPanic(fr, s, x, "index of "+short(valString(c)))
				return E.unknown(x, "index of %s", short(valString(c))), s
			}
			if !E.require(fr, s, inBounds(i, norm(y.s.size(), s)), x, "index out of range") {
				return nil, nil
			}
			return readSeq(y.s, norm(i, s), s.full()), s
		})
	}
	mt := x.X.Type().Underlying().(*types.Map)
	return E.forAlt(st, c, func(s *State, c Value) (Value, *State) {
		zero := zeroValue(mt.Elem())
		ret := func(v Value, ok *DD) (Value, *State) {
			if x.CommaOk {
				return VTuple{v, ok}, s
			}
			return v, s
		}
		m, ok := c.(VMap)
		if !ok {
			return ret(E.unknown(x, "lookup in %s", short(valString(c))), boolAtom(freshAtom("found", bi(0), bi(1))))
		}
		if m.obj == nil {
			return ret(zero, False)
		}
		mc, ok := s.mem.get(m.obj).(VMapC)
		if !ok {
			return ret(E.unknown(x, "lookup in unknown map"), boolAtom(freshAtom("found", bi(0), bi(1))))
		}
		kk := k
		if l, ok := k.(*Lin); ok {
			kk = norm(l, s)
		}
		var v Value = zero
		found := False
		es := append([]VMapE{}, mc.e...)
		sort.SliceStable(es, func(a, b int) bool {
			p, ok1 := es[a].k.(*Lin)
			q, ok2 := es[b].k.(*Lin)
			return ok1 && ok2 && p.isC() && q.isC() && p.c > q.c
		})
		for _, e := range es {
			g := E.equalG(s, kk, e.k, mt.Key(), x)
			if g == False || g != True && !feasible(s.full().and(g)) {
				continue
			}
			if g != True && entails(s.full(), g) {
				g = True
			}
			v = mergeV(g, e.v, v, nil)
			found = found.or(g)
		}
		return ret(v, found)
	})
}

func (E *Engine) typeAssert(fr *frame, st *State, x *ssa.TypeAssert, v Value) (Value, *State) {
	t := x.AssertedType
	_, toIface := t.Underlying().(*types.Interface)
	return E.forAlt(st, v, func(s *State, v Value) (Value, *State) {
		fin := func(r Value, g *DD) (Value, *State) {
			if x.CommaOk {
				if g == False {
					r = zeroValue(t)
				} else if g != True {
					r = mergeV(g, r, zeroValue(t), nil)
				}
				return VTuple{r, g}, s
			}
			if !E.require(fr, s, g, x, "type assertion fails") {
				return nil, nil
			}
			return r, s
		}
		switch y := v.(type) {
		case VIface:
			if y.typ == nil {
				return fin(zeroValue(t), False)
			}
			if toIface {
				if o, ok := y.v.(VOpq); ok && o.key == "runtime.Error" {
					return fin(y, boolAtom(freshAtom("implements", bi(0), bi(1))))
				}
				return fin(y, boolDD(types.Implements(y.typ, t.Underlying().(*types.Interface))))
			}
			if types.Identical(y.typ, t) {
				return fin(y.v, True)
			}
			return fin(zeroValue(t), False)
		case VSym:
			ta := linAtom(typeAtom(y.p))
			if toIface {
				it := t.Underlying().(*types.Interface)
				nn := condEQ(ta).not()
				if it.NumMethods() == 0 {
					return fin(VSym{y.p, t}, nn)
				}
				if src, ok := y.typ.Underlying().(*types.Interface); ok && types.Implements(src, it) {
					return fin(VSym{y.p, t}, nn)
				}
				a := opqAtom("implements:"+typeKey(t), []*Lin{ta}, bi(0), bi(1))
				return fin(VSym{y.p, t}, nn.and(boolAtom(a)))
			}
			g := condEQ(ta.addC(-typeCode(t)))
			return fin(materialise(y.p.assert(t)), g)
		}
		if !x.CommaOk {
			E.mayPanic(fr, s, x, "type assertion on "+short(valString(v)))
			return E.unknown(x, "type assertion on %s", short(valString(v))), s
		}
		return VTuple{E.unknown(x, "type assertion"), boolAtom(freshAtom("is", bi(0), bi(1)))}, s
	})
}
