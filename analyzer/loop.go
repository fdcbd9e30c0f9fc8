package main

// Loops: discovery, unrolling of small loops and summarisation of the others.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	num   map[*ssa.BasicBlock]int
	heads map[*ssa.BasicBlock]*loop
	inner map[*ssa.BasicBlock]*loop
}

type loop struct {
	head    *ssa.BasicBlock
	has     map[*ssa.BasicBlock]bool
	parent  *loop
	liveout []ssa.Value
}

func (E *Engine) loopInfo(fn *ssa.Function) *loopInfo {
	if li, ok := E.loops[fn]; ok {
		return li
	}
	li := &loopInfo{num: map[*ssa.BasicBlock]int{}, heads: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if fn.Recover != nil {
		dfs(fn.Recover)
	}
	if len(fn.Blocks) > 0 && !seen[fn.Blocks[0]] {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		li.num[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			lp := li.heads[s]
			if lp == nil {
				lp = &loop{head: s, has: map[*ssa.BasicBlock]bool{s: true}}
				li.heads[s] = lp
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if lp.has[x] {
					continue
				}
				lp.has[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	// blocks that only panic belong to the loop that reaches them
	for _, lp := range li.heads {
		for ch := true; ch; {
			ch = false
			for _, b := range li.rpo {
				if lp.has[b] || len(b.Preds) == 0 {
					continue
				}
				for _, p := range b.Preds {
					if !lp.has[p] {
						goto next
					}
				}
				if onlyPanics(b, 0) {
					lp.has[b] = true
					ch = true
				}
			next:
			}
		}
	}
	var all []*loop
	for _, lp := range li.heads {
		all = append(all, lp)
	}
	sort.Slice(all, func(i, j int) bool { return len(all[i].has) < len(all[j].has) })
	for i, lp := range all {
		for b := range lp.has {
			if li.inner[b] == nil {
				li.inner[b] = lp
			}
		}
		for _, q := range all[i+1:] {
			if q.has[lp.head] {
				lp.parent = q
				break
			}
		}
	}
	for _, lp := range all {
		for _, b := range li.rpo {
			if !lp.has[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !lp.has[r.Block()] {
						lp.liveout = append(lp.liveout, v)
						break
					}
				}
			}
		}
	}
	E.loops[fn] = li
	return li
}

func onlyPanics(b *ssa.BasicBlock, d int) bool {
	if d > 6 {
		return false
	}
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Jump:
		return onlyPanics(b.Succs[0], d+1) && len(b.Succs[0].Preds) == 1
	}
	return false
}

// ---------------------------------------------------------------- entry

func (E *Engine) evalLoop(fr *frame, lp *loop, st *State, ctl *DD, phis []Value) []edge {
	if n, ok := E.smallTrip(fr, lp, st, phis); ok {
		if es, ok := E.unroll(fr, lp, st, ctl, phis, n); ok {
			return es
		}
	}
	if E.fixed {
		if es, ok := E.unroll(fr, lp, st, ctl, phis, 140); ok {
			return es
		}
	}
	np, ne, na, ns := len(fr.panics), len(E.events), len(E.allocs), len(E.scans)
	es, why, ok := E.summarise(fr, lp, st, ctl, phis)
	if ok && E.peel && len(E.scans) > ns {
		// the first iteration apart from the others
		fr.panics, E.events, E.allocs, E.scans = fr.panics[:np], E.events[:ne], E.allocs[:na], E.scans[:ns]
		var exits, backs []edge
		for _, e := range E.region(fr, lp, lp.head, []edge{{to: lp.head, st: st, ctl: ctl, phis: phis}}, nil) {
			if !feasible(e.st.full()) {
				continue
			}
			if e.to == lp.head {
				backs = append(backs, e)
			} else {
				exits = append(exits, e)
			}
		}
		if len(backs) == 0 {
			return exits
		}
		s1, c1, p1 := E.joinEdges(backs)
		es, why, ok = E.summarise(fr, lp, s1, c1, p1)
		if ok {
			return append(exits, es...)
		}
		return append(exits, E.havocLoop(fr, lp, s1, c1, p1, why)...)
	}
	if ok {
		return es
	}
	E.trace("loop at %s: %s", E.blockPos(lp.head), why)
	if es, ok := E.unroll(fr, lp, st, ctl, phis, 16); ok {
		return es
	}
	E.trace("loop at %s not summarised: %s", E.blockPos(lp.head), why)
	return E.havocLoop(fr, lp, st, ctl, phis, why)
}

func (E *Engine) blockPos(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return E.prog.Fset.Position(in.Pos()).String()
		}
	}
	return b.Parent().String() + " " + b.Comment
}

// smallTrip bounds the number of iterations from the loop's own comparison.
func (E *Engine) smallTrip(fr *frame, lp *loop, st *State, phis []Value) (int, bool) {
	iff, ok := lp.head.Instrs[len(lp.head.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || !isInt(cmp.X.Type()) {
		return 0, false
	}
	entry := func(v ssa.Value) (*Lin, bool) { // entry value, is it a header phi
		off := int64(0)
		if b, ok := v.(*ssa.BinOp); ok && lp.has[b.Block()] && (b.Op == token.ADD || b.Op == token.SUB) {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
				off = c.Int64()
				if b.Op == token.SUB {
					off = -off
				}
				v = b.X
			}
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == lp.head {
			for i, in := range lp.head.Instrs {
				if in == ssa.Instruction(p) {
					return E.asLin(phis[i], p.Type()).addC(off), true
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok && lp.has[in.Block()] {
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if a, ok := c.Call.Args[0].(ssa.Instruction); ok && lp.has[a.Block()] {
						return nil, false
					}
					switch x := E.val(fr, st, c.Call.Args[0], lp.head).(type) {
					case VSlice:
						return x.len, false
					case VStr:
						return x.s.size(), false
					case VArr:
						return linC(int64(len(x.e))), false
					}
				}
			}
			return nil, false
		}
		if off != 0 {
			return nil, false
		}
		if l, ok := E.val(fr, st, v, lp.head).(*Lin); ok {
			return l, false
		}
		return nil, false
	}
	x, px := entry(cmp.X)
	y, py := entry(cmp.Y)
	if x == nil || y == nil || px == py {
		return 0, false
	}
	d := norm(x.sub(y), st)
	if d.isC() {
		if absI(d.c) <= 1100 {
			return int(absI(d.c)) + 2, true
		}
		return 0, false
	}
	for _, k := range []int64{4, 8} {
		if entails(st.full(), condGE(d.addC(k)).and(condGE(d.neg().addC(k)))) {
			return int(k) + 2, true
		}
	}
	return 0, false
}

func (E *Engine) unroll(fr *frame, lp *loop, st *State, ctl *DD, phis []Value, fuel int) ([]edge, bool) {
	np, ne, na := len(fr.panics), len(E.events), len(E.allocs)
	cur := []edge{{to: lp.head, st: st, ctl: ctl, phis: phis}}
	var exits []edge
	for i := 0; i < fuel; i++ {
		outs := E.region(fr, lp, lp.head, cur, nil)
		cur = nil
		for _, e := range outs {
			if e.to == lp.head {
				if feasible(e.st.full()) {
					cur = append(cur, e)
				}
			} else {
				exits = append(exits, e)
			}
		}
		if len(cur) == 0 {
			return exits, true
		}
	}
	fr.panics, E.events, E.allocs = fr.panics[:np], E.events[:ne], E.allocs[:na]
	return nil, false
}

// ---------------------------------------------------------------- leaves

type leafKind int

const (
	kInv leafKind = iota
	kLin
	kBool
	kSlice // same storage, moving window
	kAcc   // slice that grows at its end
	kStr   // string that grows at its end
	kStrSub
	kAgg
	kIface
	kFill
	kLast
	kTop
)

type leaf struct {
	kind leafKind
	name string
	typ  types.Type
	x0   Value
	kids []*leaf

	// kLin / kBool
	resolved bool
	guess    bool  // constant-step guess
	delta    *Lin  // per-iteration increment in terms of j
	dom      *DD   // what is known to hold in completed iterations
	sym      *Atom // symbol when not resolved
	isLen    bool  // length or offset of a slice
	link     *leaf
	sign     int64
	havoc    bool
	cur      bool
	next     *Lin
	nx       *Lin // value after the last pass
	early    bool // linked from the start
	noMod    bool // the residue modulo 4 is not preserved
	mode     int  // kBool: 1 or-accumulate, 2 and-accumulate
	pred     *DD

	// kAcc / kStr
	id    int
	view  Seq
	items Seq
	et    types.Type
	obj   *Obj

	// kFill
	a0   *Lin
	step int64
	pos  *leaf

	// kLast
	last Value

	hsym     *Atom
	hlo, hhi *big.Int // bounds kept when the symbol is given up
}

type loopCtx struct {
	E          *Engine
	fr         *frame
	lp         *loop
	S0         *State
	j          *Atom
	objs0      int
	phi        []*leaf
	mem        map[*Obj]*leaf
	order      []*Obj
	fams       map[*Fam]bool
	inv        []*DD // invariants over the symbols
	accN       map[int]*leaf
	cls        *Class
	starts     []*Lin
	clsFrom    []*Atom
	atom0      int
	why        string
	np, ne, na int
}

var accIDs int

func newSym(name string, l *leaf) *Atom {
	a := freshAtom(name, nil, nil)
	a.lenish = true
	a.loopSym = !strings.HasPrefix(name, "havoc")
	if l.hlo != nil || l.hhi != nil {
		a.lo, a.hi = l.hlo, l.hhi
	} else if l.isLen {
		a.lo = bi(0)
	} else if l.typ != nil {
		a.lo, a.hi = typeRange(l.typ)
	}
	if x, ok := l.x0.(*Lin); ok && l.isLen && !l.noMod && !l.havoc {
		if r := mod4of(x); r.isC() {
			a.mod4 = int(r.c)
		}
	}
	return a
}

func (lc *loopCtx) mk(x0, x1 Value, t types.Type, name string) *leaf {
	l := &leaf{x0: x0, typ: t, name: name}
	l.init(lc, x1)
	return l
}

func elemT(t types.Type, i int) (types.Type, string) {
	if t == nil {
		return nil, ""
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if i < u.NumFields() {
			return u.Field(i).Type(), u.Field(i).Name()
		}
	case *types.Array:
		return u.Elem(), fmt.Sprint(i)
	}
	return nil, ""
}

func (l *leaf) init(lc *loopCtx, x1 Value) {
	x0 := l.x0
	if sameVal(x0, x1) {
		l.kind = kInv
		return
	}
	ctx := lc.S0.full()
	switch a := x0.(type) {
	case *Lin:
		b, ok := x1.(*Lin)
		if !ok {
			break
		}
		if eqLin(a, b, ctx) {
			l.kind = kInv
			return
		}
		l.kind = kLin
		d := b.sub(a)
		if d.isC() {
			l.resolved, l.guess, l.delta = true, true, d
			return
		}
		l.sym = newSym(l.name, l)
		return
	case *DD:
		if _, ok := x1.(*DD); ok {
			l.kind = kBool
			l.sym = freshAtom("b", bi(0), bi(1))
			return
		}
	case VSlice:
		b, ok := x1.(VSlice)
		if !ok {
			break
		}
		same := a.obj == b.obj && sameSteps(a.path, b.path) && (a.inl == nil) == (b.inl == nil)
		if same && a.inl != nil {
			same = sameSeq(*a.inl, *b.inl)
		}
		if same && a.obj != nil {
			l.kind = kSlice
			mk := func(p, q *Lin, n string) *leaf {
				k := &leaf{x0: p, name: l.name + "." + n, isLen: true, typ: types.Typ[types.Int]}
				k.init(lc, q)
				return k
			}
			l.kids = []*leaf{mk(a.off, b.off, "off"), mk(a.len, b.len, "len")}
			ng := &leaf{x0: a.nilg, name: l.name + ".nil"}
			ng.init(lc, b.nilg)
			l.kids = append(l.kids, ng)
			if a.cap != nil && b.cap != nil {
				l.kids = append(l.kids, mk(a.cap, b.cap, "cap"))
			}
			// a window that shrinks from the front keeps its end
			off := l.kids[0]
			d := b.off.sub(a.off)
			for i, k := range l.kids {
				if i == 1 && k.kind == kLin && off.kind == kLin && eqLin(b.len.sub(a.len), d.neg(), ctx) ||
					i == 3 && k.kind == kLin && off.kind == kLin && eqLin(b.cap.sub(a.cap), d.neg(), ctx) {
					k.link, k.sign, k.early = off, -1, true
					k.resolved, k.guess = false, false
				}
			}
			return
		}
		v, ok := viewSeq(lc.S0.mem, a, ctx)
		if !ok {
			break
		}
		v = freezeSeq(v, lc.S0.mem, ctx)
		l.kind = kAcc
		l.view = v
		l.et = a.et
		accIDs++
		l.id = accIDs
		lc.accN[l.id] = l
		n := &leaf{x0: a.len, name: l.name + ".len", isLen: true, typ: types.Typ[types.Int]}
		n.init(lc, b.len)
		ng := &leaf{x0: a.nilg, name: l.name + ".nil"}
		ng.init(lc, b.nilg)
		l.kids = []*leaf{n, ng}
		return
	case VStr:
		b, ok := x1.(VStr)
		if !ok {
			break
		}
		if len(a.s) == 1 && len(b.s) <= 1 {
			p, ok1 := a.s[0].(ISub)
			var q ISub
			ok2 := false
			if len(b.s) == 1 {
				q, ok2 = b.s[0].(ISub)
			}
			if ok1 && ok2 && p.p == q.p {
				l.kind = kStrSub
				mk := func(x, y *Lin, n string) *leaf {
					k := &leaf{x0: x, name: l.name + "." + n, isLen: true, typ: types.Typ[types.Int]}
					k.init(lc, y)
					return k
				}
				l.kids = []*leaf{mk(p.off, q.off, "off"), mk(p.n, q.n, "len")}
				return
			}
		}
		l.kind = kStr
		l.view = a.s
		accIDs++
		l.id = accIDs
		lc.accN[l.id] = l
		n := &leaf{x0: a.s.size(), name: l.name + ".len", isLen: true, typ: types.Typ[types.Int]}
		n.init(lc, b.s.size())
		l.kids = []*leaf{n}
		return
	case VStruct:
		b, ok := x1.(VStruct)
		if !ok || len(a.f) != len(b.f) {
			break
		}
		l.kind = kAgg
		for i := range a.f {
			t, n := elemT(a.typ, i)
			l.kids = append(l.kids, lc.mk(a.f[i], b.f[i], t, l.name+"."+n))
		}
		return
	case VArr:
		b, ok := x1.(VArr)
		if !ok || len(a.e) != len(b.e) || len(a.e) > 256 {
			break
		}
		l.kind = kAgg
		for i := range a.e {
			t, n := elemT(a.typ, i)
			l.kids = append(l.kids, lc.mk(a.e[i], b.e[i], t, l.name+"."+n))
		}
		return
	case VIface:
		b, ok := x1.(VIface)
		if !ok || a.typ == nil || b.typ == nil || !types.Identical(a.typ, b.typ) {
			break
		}
		l.kind = kIface
		l.kids = []*leaf{lc.mk(a.v, b.v, a.typ, l.name)}
		return
	case VSeq:
		b, ok := x1.(VSeq)
		if !ok {
			break
		}
		if l.initFill(lc, a.s, b.s, ctx) {
			return
		}
	}
	l.kind = kLast
	if _, ok := x1.(VTop); ok {
		l.kind = kTop
	}
}

// initFill: the content is overwritten from some position upwards.
func (l *leaf) initFill(lc *loopCtx, a, b Seq, ctx *DD) bool {
	if !eqL(a.size(), b.size(), ctx, 0) {
		return false
	}
	// common prefix
	pos := linZero()
	x, y := a, b
	for len(x) > 0 && len(y) > 0 && sameItem(x[0], y[0]) {
		pos = pos.add(x[0].size())
		x, y = x[1:], y[1:]
	}
	if len(x) > 0 && len(y) > 0 {
		switch p := x[0].(type) {
		case IZero:
			if q, ok := y[0].(IZero); ok && entails(ctx, condGE(p.n.sub(q.n))) {
				pos = pos.add(q.n)
				x = Seq(nil).cat(IZero{p.n.sub(q.n), p.et}).cat(x[1:]...)
				y = y[1:]
			}
		case ISub:
			if q, ok := y[0].(ISub); ok && p.p == q.p && p.off == q.off && entails(ctx, condGE(p.n.sub(q.n))) {
				pos = pos.add(q.n)
				x = Seq(nil).cat(ISub{p.p, p.off.add(q.n), p.n.sub(q.n), p.et}).cat(x[1:]...)
				y = y[1:]
			}
		}
	}
	// the written part: y minus the common suffix
	xs, ys := x.size(), y
	n := linZero()
	for len(ys) > 0 {
		rest, ok := subSeq(x, n, xs.sub(n), ctx)
		if ok && sameSeq(rest, ys) {
			break
		}
		n = n.add(ys[0].size())
		ys = ys[1:]
	}
	if isZeroLin(n) {
		return false
	}
	l.kind = kFill
	l.view = a
	l.a0 = pos
	accIDs++
	l.id = accIDs
	lc.accN[l.id] = l
	if n.isC() {
		l.step = n.c
		return true
	}
	// follow an index variable that advances by the same amount
	l.step = -1
	l.next = n
	return true
}

// at is the hypothesised value after n completed iterations.
func (lc *loopCtx) at(l *leaf, n *Lin, final *VSub) Value {
	switch l.kind {
	case kInv:
		return l.x0
	case kLin:
		return lc.linAt(l, n)
	case kBool:
		if l.resolved {
			b0 := l.x0.(*DD)
			jj := freshAtom("i", bi(0), nil)
			switch l.mode {
			case 1:
				return b0.or(mkExists(n, jj, l.pred.subst(Sub{lc.j: linAtom(jj)})))
			case 2:
				return b0.and(mkExists(n, jj, l.pred.subst(Sub{lc.j: linAtom(jj)})).not())
			case 3:
				return iteDD(condGE(n.addC(-1)), l.pred.subst(Sub{lc.j: n.addC(-1)}), b0)
			}
		}
		if l.havoc {
			if l.hsym == nil {
				l.hsym = freshAtom("havoc", bi(0), bi(1))
			}
			return boolAtom(l.hsym)
		}
		return boolAtom(l.sym)
	case kSlice:
		x := l.x0.(VSlice)
		x.off = lc.linAt(l.kids[0], n)
		x.len = lc.linAt(l.kids[1], n)
		x.nilg = lc.at(l.kids[2], n, final).(*DD)
		x.cap = nil
		if len(l.kids) > 3 {
			x.cap = lc.linAt(l.kids[3], n)
		}
		return x
	case kAcc:
		ln := lc.linAt(l.kids[0], n)
		ng := lc.at(l.kids[1], n, final).(*DD)
		if l.havoc {
			return top("slice %s changes in the loop at %s", l.name, lc.E.blockPos(lc.lp.head))
		}
		o := newObj("acc", nil, VSeq{Seq{IAcc{l.id, ln}}})
		o.fam, o.famOff = newFam(), linZero()
		l.obj = o
		return VSlice{obj: o, off: linZero(), len: ln, cap: nil, nilg: ng, et: l.et}
	case kStr:
		if l.havoc {
			if l.hsym == nil {
				l.hsym = freshAtom("havoclen", bi(0), maxLen)
				l.hsym.lenish = true
			}
			return VStr{Seq{IOpq{"havoc", []Value{linAtom(l.hsym)}, linAtom(l.hsym)}}}
		}
		return VStr{Seq{IAcc{l.id, lc.linAt(l.kids[0], n)}}}
	case kStrSub:
		p := l.x0.(VStr).s[0].(ISub)
		return VStr{Seq(nil).cat(ISub{p.p, lc.linAt(l.kids[0], n), lc.linAt(l.kids[1], n), p.et})}
	case kAgg:
		switch x := l.x0.(type) {
		case VStruct:
			r := VStruct{typ: x.typ}
			for _, k := range l.kids {
				r.f = append(r.f, lc.at(k, n, final))
			}
			return r
		case VArr:
			r := VArr{typ: x.typ}
			for _, k := range l.kids {
				r.e = append(r.e, lc.at(k, n, final))
			}
			return r
		}
	case kIface:
		return VIface{l.x0.(VIface).typ, lc.at(l.kids[0], n, final)}
	case kFill:
		if l.havoc {
			return top("content %s changes in the loop at %s", l.name, lc.E.blockPos(lc.lp.head))
		}
		w := lc.fillLen(l, n)
		pre, ok1 := subSeq(l.view, linZero(), l.a0, lc.S0.full())
		tot := l.view.size()
		if !ok1 {
			return top("fill prefix")
		}
		// the tail is cut lazily: it is only defined while it fits
		_, rest, ok := cutSeq(l.view, l.a0, lc.S0.full())
		if !ok || len(rest) > 1 {
			return top("fill rest")
		}
		s := pre.cat(IAcc{l.id, w})
		rem := tot.sub(l.a0).sub(w)
		if len(rest) == 1 {
			switch t := rest[0].(type) {
			case IZero:
				s = s.cat(IZero{rem, t.et})
			case ISub:
				s = s.cat(ISub{t.p, t.off.add(w), rem, t.et})
			default:
				return top("fill tail")
			}
		}
		return VSeq{s}
	case kLast:
		if l.resolved {
			return mergeV(condGE(n.addC(-1)), substVal(l.last, VSub{m: Sub{lc.j: n.addC(-1)}}), l.x0, nil)
		}
		return top("%s changes in the loop at %s", l.name, lc.E.blockPos(lc.lp.head))
	}
	return top("%s changes in the loop at %s", l.name, lc.E.blockPos(lc.lp.head))
}

func (lc *loopCtx) fillLen(l *leaf, n *Lin) *Lin {
	if l.step >= 0 {
		return n.scale(l.step)
	}
	if l.pos != nil {
		return lc.linAt(l.pos, n).sub(l.pos.x0.(*Lin))
	}
	return n
}

func (lc *loopCtx) linAt(l *leaf, n *Lin) *Lin {
	if l.kind == kInv {
		return l.x0.(*Lin)
	}
	x0 := l.x0.(*Lin)
	if l.link != nil {
		return x0.add(lc.linAt(l.link, n).sub(l.link.x0.(*Lin)).scale(l.sign))
	}
	if l.havoc {
		if l.hsym == nil {
			l.hsym = newSym("havoc:"+l.name, l)
		}
		return linAtom(l.hsym)
	}
	if !l.resolved {
		return linAtom(l.sym)
	}
	if l.mode == 3 {
		return ite(condGE(n.addC(-1)), l.next.subst(Sub{lc.j: n.addC(-1)}), x0)
	}
	if l.delta.isC() {
		return x0.add(n.scale(l.delta.c))
	}
	jj := freshAtom("i", bi(0), nil)
	s := Sub{lc.j: linAtom(jj)}
	var dom *DD
	if l.dom != nil {
		dom = l.dom.subst(s)
	}
	return x0.add(mkSum(n, jj, l.delta.subst(s), dom))
}

func (lc *loopCtx) walk(f func(l *leaf)) {
	var rec func(l *leaf)
	rec = func(l *leaf) {
		f(l)
		for _, k := range l.kids {
			rec(k)
		}
	}
	for _, l := range lc.phi {
		rec(l)
	}
	for _, o := range lc.order {
		rec(lc.mem[o])
	}
}

// unresolved symbols.
func (lc *loopCtx) syms() map[*Atom]*leaf {
	m := map[*Atom]*leaf{}
	lc.walk(func(l *leaf) {
		if (l.kind == kLin || l.kind == kBool) && !l.resolved && !l.havoc && l.link == nil && l.sym != nil {
			m[l.sym] = l
		}
	})
	return m
}

// tainted: mentions an unknown that differs between iterations.
func (lc *loopCtx) tainted(fr []*Atom) bool {
	var syms map[*Atom]*leaf
	for _, a := range fr {
		if a.k == AFresh && a.id > lc.atom0 && a != lc.j {
			if syms == nil {
				syms = lc.syms()
			}
			if syms[a] == nil {
				return true
			}
		}
	}
	return false
}

func freeOf(fr []*Atom, syms map[*Atom]*leaf) bool {
	for _, a := range fr {
		if syms[a] != nil {
			return false
		}
	}
	return true
}

// learn compares the hypothesis with the value after one more iteration.
// It reports whether another pass is needed.
func (lc *loopCtx) learn(l *leaf, x1 Value, back *State, syms map[*Atom]*leaf) bool {
	ctx := back.full()
	demote := func() bool {
		l.kind = kTop
		l.kids = nil
		return true
	}
	switch l.kind {
	case kInv:
		if sameVal(l.x0, x1) {
			return false
		}
		switch a := l.x0.(type) {
		case *Lin:
			if b, ok := x1.(*Lin); ok && eqLin(a, b, ctx) {
				return false
			}
		case *DD:
			if b, ok := x1.(*DD); ok && eqDD(a, b, ctx) {
				return false
			}
		}
		l.init(lc, x1)
		if l.kind == kInv { // equal under the entry context only
			switch l.x0.(type) {
			case *Lin:
				l.kind = kLin
				l.sym = newSym(l.name, l)
			default:
				return demote()
			}
		}
		return true
	case kLin:
		n, ok := x1.(*Lin)
		if !ok {
			return demote()
		}
		l.nx = n
		if l.havoc {
			return false
		}
		h := lc.linAt(l, linAtom(lc.j))
		if l.link != nil {
			if l.link.nx == nil {
				return false
			}
			want := l.x0.(*Lin).add(l.link.nx.sub(l.link.x0.(*Lin)).scale(l.sign))
			if eqL(n, want, ctx, 1) {
				return false
			}
			l.link = nil
			if l.early {
				l.sym = newSym(l.name, l)
			} else {
				l.havoc = true
			}
			return true
		}
		if l.resolved {
			if l.mode == 3 {
				if eqL(n, l.next, ctx, 1) {
					return false
				}
				l.resolved, l.mode, l.havoc = false, 0, true
				return true
			}
			d := n.sub(h)
			if eqL(d, l.delta, ctx, 1) {
				return false
			}
			if l.guess {
				l.resolved, l.guess = false, false
				l.sym = newSym(l.name, l)
				return true
			}
			l.resolved, l.havoc = false, true
			return true
		}
		d := newSimp(ctx).lin(n.sub(h))
		l.next = n
		if l.sym != nil && l.sym.mod4 >= 0 {
			if r := mod4of(newSimp(ctx).lin(n)); !r.isC() || int(r.c) != l.sym.mod4 {
				l.noMod = true
				l.sym = newSym(l.name, l)
				return true
			}
		}
		if lc.tainted(d.fr) {
			if n2 := newSimp(ctx).lin(n); freeOf(n2.fr, syms) && !lc.tainted(n2.fr) {
				l.resolved, l.mode, l.next = true, 3, n2
				return true
			}
			l.havoc = true
			return true
		}
		if freeOf(d.fr, syms) {
			l.resolved = true
			l.delta = d
			l.dom = back.reach
			if !freeOf(back.reach.fr(), syms) {
				l.dom = nil
			}
			return true
		}
		n2 := newSimp(ctx).lin(n)
		if freeOf(n2.fr, syms) {
			l.resolved, l.mode, l.next = true, 3, n2
			return true
		}
		if debugLoop {
			fmt.Fprintln(os.Stderr, "UNRES", l.name, d)
		}
		return false
	case kBool:
		n, ok := x1.(*DD)
		if !ok {
			return demote()
		}
		if l.havoc {
			return false
		}
		if l.resolved {
			h := lc.at(l, linAtom(lc.j), nil).(*DD)
			var want *DD
			switch l.mode {
			case 1:
				want = h.or(l.pred)
			case 2:
				want = h.and(l.pred.not())
			default:
				want = l.pred
			}
			if eqDD(n, want, ctx) {
				return false
			}
			l.resolved, l.havoc = false, true
			return true
		}
		rest := map[*Atom]*leaf{}
		for a, x := range syms {
			if a != l.sym {
				rest[a] = x
			}
		}
		n1 := simp(n.subst(Sub{l.sym: linC(1)}), simpCtx(ctx.subst(Sub{l.sym: linC(1)})))
		n0 := simp(n.subst(Sub{l.sym: linC(0)}), simpCtx(ctx.subst(Sub{l.sym: linC(0)})))
		if lc.tainted(n1.fr()) || lc.tainted(n0.fr()) {
			l.havoc = true
			return true
		}
		if !freeOf(n1.fr(), rest) || !freeOf(n0.fr(), rest) {
			return false
		}
		switch {
		case n1 == n0:
			l.resolved, l.mode, l.pred = true, 3, n1
		case n1 == True:
			l.resolved, l.mode, l.pred = true, 1, n0
		case n0 == False:
			l.resolved, l.mode, l.pred = true, 2, n1.not()
		default:
			l.havoc = true
		}
		return true
	case kSlice:
		b, ok := x1.(VSlice)
		a := l.x0.(VSlice)
		if !ok || a.obj != b.obj || !sameSteps(a.path, b.path) || b.inl != nil {
			if ok {
				// the storage changes after all: growing slice
				l.kids = nil
				save := l.x0
				*l = leaf{x0: save, typ: l.typ, name: l.name}
				v, vok := viewSeq(lc.S0.mem, a, lc.S0.full())
				if vok {
					l.kind = kAcc
					l.view = freezeSeq(v, lc.S0.mem, lc.S0.full())
					l.et = a.et
					accIDs++
					l.id = accIDs
					lc.accN[l.id] = l
					n := &leaf{kind: kLin, x0: a.len, name: l.name + ".len", isLen: true, typ: types.Typ[types.Int]}
					n.sym = newSym(n.name, n)
					ng := &leaf{kind: kBool, x0: a.nilg, name: l.name + ".nil", sym: freshAtom("b", bi(0), bi(1))}
					l.kids = []*leaf{n, ng}
					return true
				}
			}
			return demote()
		}
		ch := lc.learn(l.kids[0], b.off, back, syms)
		ch = lc.learn(l.kids[1], b.len, back, syms) || ch
		ch = lc.learn(l.kids[2], b.nilg, back, syms) || ch
		if len(l.kids) > 3 {
			if b.cap == nil {
				l.kids = l.kids[:3]
				return true
			}
			ch = lc.learn(l.kids[3], b.cap, back, syms) || ch
		}
		return ch
	case kAcc:
		b, ok := x1.(VSlice)
		if l.havoc {
			return false
		}
		if !ok {
			l.havoc = true
			return true
		}
		ch := lc.learn(l.kids[0], b.len, back, syms)
		ch = lc.learn(l.kids[1], b.nilg, back, syms) || ch
		v, ok := viewSeq(back.mem, b, ctx)
		if !ok {
			l.havoc = true
			return true
		}
		return lc.learnAcc(l, v, back) || ch
	case kStr:
		if l.havoc {
			return false
		}
		b, ok := x1.(VStr)
		if !ok {
			l.havoc = true
			return true
		}
		ch := lc.learn(l.kids[0], b.s.size(), back, syms)
		return lc.learnAcc(l, b.s, back) || ch
	case kStrSub:
		b, ok := x1.(VStr)
		p := l.x0.(VStr).s[0].(ISub)
		if ok && len(b.s) == 0 {
			b.s = Seq{ISub{p.p, lc.linAt(l.kids[0], linAtom(lc.j)).add(lc.linAt(l.kids[1], linAtom(lc.j))), linZero(), p.et}}
		}
		if ok && len(b.s) == 1 {
			if q, ok := b.s[0].(ISub); ok && q.p == p.p {
				ch := lc.learn(l.kids[0], q.off, back, syms)
				return lc.learn(l.kids[1], q.n, back, syms) || ch
			}
		}
		return demote()
	case kAgg:
		var vs []Value
		switch b := x1.(type) {
		case VStruct:
			vs = b.f
		case VArr:
			vs = b.e
		}
		if len(vs) != len(l.kids) {
			return demote()
		}
		ch := false
		for i, k := range l.kids {
			ch = lc.learn(k, vs[i], back, syms) || ch
		}
		return ch
	case kIface:
		b, ok := x1.(VIface)
		if !ok || b.typ == nil || !types.Identical(b.typ, l.x0.(VIface).typ) {
			return demote()
		}
		return lc.learn(l.kids[0], b.v, back, syms)
	case kFill:
		if l.havoc {
			return false
		}
		b, ok := x1.(VSeq)
		if !ok {
			l.havoc = true
			return true
		}
		if l.step < 0 && l.pos == nil {
			lc.walk(func(k *leaf) {
				if k.kind == kLin && l.pos == nil && k.delta != nil && !k.delta.isC() {
					l.pos = k
				}
			})
			if l.pos == nil {
				l.havoc = true
			}
			return true
		}
		w := lc.fillLen(l, linAtom(lc.j))
		var w1 *Lin
		if l.step >= 0 {
			w1 = linC(l.step)
		} else if l.pos.next != nil && !l.pos.resolved {
			w1 = l.pos.next.sub(lc.linAt(l.pos, linAtom(lc.j)))
		} else if l.pos.delta != nil {
			w1 = l.pos.delta
		}
		if w1 == nil {
			l.havoc = true
			return true
		}
		// pre ++ acc ++ items ++ tail
		head, rest, ok1 := cutSeq(b.s, l.a0.add(w), ctx)
		if !ok1 {
			l.havoc = true
			return true
		}
		items, tail, ok2 := cutSeq(rest, w1, ctx)
		hv, ok3 := lc.at(l, linAtom(lc.j), nil).(VSeq)
		if !ok2 || !ok3 {
			l.havoc = true
			return true
		}
		hh, hrest, ok4 := cutSeq(hv.s, l.a0.add(w), ctx)
		if !ok4 || !sameSeq(hh, head) {
			l.havoc = true
			return true
		}
		_, htail, ok5 := cutSeq(hrest, w1, ctx)
		if !ok5 || eqS(htail, tail, ctx, "") != nil {
			l.havoc = true
			return true
		}
		items = freezeSeq(items, back.mem, ctx)
		return lc.setItems(l, items, ctx)
	case kLast:
		v := freeze(x1, back.mem, ctx)
		if hasTop(v) || !frozen(v, lc.objs0) || lc.tainted(frOfVal(v)) {
			return demote()
		}
		if l.resolved {
			if equalVal(v, l.last, ctx, "") == nil {
				return false
			}
			return demote()
		}
		l.resolved, l.last = true, v
		return true
	}
	return false
}

func simpCtx(c *DD) *DD {
	if !feasible(c) {
		return True
	}
	return c
}

func (lc *loopCtx) learnAcc(l *leaf, v Seq, back *State) bool {
	ctx := back.full()
	a, ok := Item(nil), false
	if len(v) > 0 {
		a = v[0]
		var x IAcc
		x, ok = a.(IAcc)
		ok = ok && x.id == l.id
	}
	if !ok {
		l.havoc = true
		return true
	}
	items := freezeSeq(v[1:], back.mem, ctx)
	return lc.setItems(l, items, ctx)
}

func (lc *loopCtx) setItems(l *leaf, items Seq, ctx *DD) bool {
	items = simpSeq(items, newSimp(ctx))
	bad := false
	accsOfSeq(items, func(id int) {
		if lc.accN[id] != nil {
			bad = true
		}
	})
	for _, it := range items {
		if e, ok := it.(IElem); ok && (hasTop(e.v) && false || !frozen(e.v, lc.objs0)) {
			bad = true
		}
	}
	if bad || lc.tainted(frOfSeq(items)) {
		if os.Getenv("VDEBUGLOOP") != "" {
			fmt.Fprintln(os.Stderr, "BADITEMS", l.name, bad, valString(VSeq{items}))
		}
		l.havoc = true
		return true
	}
	if l.items != nil && (sameSeq(l.items, items) || eqS(items, l.items, ctx, "") == nil) {
		return false
	}
	if l.items == nil && len(items) == 0 {
		l.items = Seq{}
		return true
	}
	l.items = items
	return true
}

// frozen: the value does not depend on objects made inside the loop.
func frozen(v Value, objs0 int) bool {
	ok := true
	var rec func(v Value)
	var recS func(s Seq)
	recS = func(s Seq) {
		for _, it := range s {
			switch x := it.(type) {
			case IElem:
				rec(x.v)
			case IAlt:
				for _, y := range x.ss {
					recS(y)
				}
			case IRep:
				recS(x.body)
			case IScan:
				recS(x.body)
			}
		}
	}
	rec = func(v Value) {
		switch x := v.(type) {
		case VPtr:
			if x.obj != nil && x.obj.id > objs0 && x.obj.sym == nil {
				ok = false
			}
		case VSlice:
			if x.obj != nil && x.obj.id > objs0 && x.obj.sym == nil {
				ok = false
			}
			if x.inl != nil {
				recS(*x.inl)
			}
		case VStruct:
			for _, y := range x.f {
				rec(y)
			}
		case VArr:
			for _, y := range x.e {
				rec(y)
			}
		case VTuple:
			for _, y := range x {
				rec(y)
			}
		case VIface:
			if x.typ != nil {
				rec(x.v)
			}
		case VAlt:
			for _, y := range x.vs {
				rec(y)
			}
		case VFunc:
			for _, y := range x.free {
				rec(y)
			}
		case VStr:
			recS(x.s)
		case VSeq:
			recS(x.s)
		}
	}
	rec(v)
	return ok
}

func hasTop(v Value) bool {
	switch x := v.(type) {
	case VTop:
		return true
	case VStruct:
		for _, y := range x.f {
			if hasTop(y) {
				return true
			}
		}
	case VArr:
		for _, y := range x.e {
			if hasTop(y) {
				return true
			}
		}
	case VTuple:
		for _, y := range x {
			if hasTop(y) {
				return true
			}
		}
	case VIface:
		return x.typ != nil && hasTop(x.v)
	case VAlt:
		for _, y := range x.vs {
			if hasTop(y) {
				return true
			}
		}
	case VSlice:
		if x.inl != nil {
			return seqHasTop(*x.inl)
		}
	case VStr:
		return seqHasTop(x.s)
	case VSeq:
		return seqHasTop(x.s)
	}
	return false
}

func seqHasTop(s Seq) bool {
	for _, it := range s {
		switch x := it.(type) {
		case IElem:
			if hasTop(x.v) {
				return true
			}
		case IAlt:
			for _, y := range x.ss {
				if seqHasTop(y) {
					return true
				}
			}
		case IRep:
			if seqHasTop(x.body) {
				return true
			}
		case IScan:
			if seqHasTop(x.body) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- passes

// hypState is the state at the start of a generic iteration.
func (lc *loopCtx) hypState() (*State, []Value) {
	n := linAtom(lc.j)
	st := lc.S0.fork()
	st.ctx = lc.S0.full().and(condGE(n))
	for _, g := range lc.inv {
		st.ctx = st.ctx.and(g)
	}
	st.reach = True
	m := st.wmem()
	for f := range lc.fams {
		x := m.fam[f]
		m.fam[f] = famState{hw: x.hw, epoch: x.epoch + 1, clob: linZero(), owner: x.owner}
	}
	for _, o := range lc.order {
		l := lc.mem[o]
		m.m[o] = lc.at(l, n, nil)
		if l.kind == kFill && o.fam != nil {
			x := m.fam[o.fam]
			m.fam[o.fam] = famState{hw: x.hw, epoch: x.epoch + 1, clob: linZero(), owner: o}
		}
	}
	var ps []Value
	for _, l := range lc.phi {
		ps = append(ps, lc.at(l, n, nil))
	}
	lc.walk(func(l *leaf) {
		if l.kind == kAcc && l.obj != nil && !l.havoc {
			m.fam[l.obj.fam] = famState{hw: lc.linAt(l.kids[0], n)}
			m.m[l.obj] = l.obj.init
			l.obj.born = true
		}
	})
	return st, ps
}

type passOut struct {
	back   *State
	phis   []Value
	exits  []edge
	panics []Panic
}

func (lc *loopCtx) reset() {
	lc.fr.panics = lc.fr.panics[:lc.np]
	lc.E.events = lc.E.events[:lc.ne]
	lc.E.allocs = lc.E.allocs[:lc.na]
}

func (lc *loopCtx) run(st *State, phis []Value) passOut {
	lc.reset()
	outs := lc.E.region(lc.fr, lc.lp, lc.lp.head, []edge{{to: lc.lp.head, st: st, ctl: True, phis: phis}}, nil)
	var po passOut
	var backs []edge
	for _, e := range outs {
		if !feasible(e.st.full()) {
			continue
		}
		if e.to == lc.lp.head {
			backs = append(backs, e)
		} else {
			po.exits = append(po.exits, e)
		}
	}
	po.panics = append([]Panic{}, lc.fr.panics[lc.np:]...)
	lc.fr.panics = lc.fr.panics[:lc.np]
	if len(backs) > 0 {
		po.back, _, po.phis = lc.E.joinEdges(backs)
	}
	return po
}

func (lc *loopCtx) isLive(o *Obj) bool {
	for _, x := range lc.fr.live {
		if x == o {
			return true
		}
	}
	return false
}

// addMem finds pre-existing objects changed by an iteration.
func (lc *loopCtx) addMem(back *State, first bool) bool {
	ch := false
	var objs []*Obj
	for o := range back.mem.m {
		if o.id <= lc.objs0 && lc.mem[o] == nil && !lc.isLive(o) {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		v0 := lc.S0.mem.get(o)
		v1 := back.mem.m[o]
		if sameVal(v0, v1) {
			continue
		}
		if l, ok := v0.(*Lin); ok {
			if k, ok := v1.(*Lin); ok && eqLin(l, k, back.full()) {
				continue
			}
		}
		lc.mem[o] = lc.mk(v0, v1, o.typ, o.name)
		lc.order = append(lc.order, o)
		ch = true
	}
	for f, x := range back.mem.fam {
		y, ok := lc.S0.mem.fam[f]
		if ok && !lc.fams[f] && (x.epoch != y.epoch || x.hw != y.hw || x.clob != y.clob) {
			lc.fams[f] = true
			ch = true
		}
	}
	return ch
}

func (E *Engine) summarise(fr *frame, lp *loop, st *State, ctl *DD, phis []Value) (res []edge, why string, ok bool) {
	lc := &loopCtx{E: E, fr: fr, lp: lp, S0: st, objs0: objN, mem: map[*Obj]*leaf{}, fams: map[*Fam]bool{},
		accN: map[int]*leaf{}, np: len(fr.panics), ne: len(E.events), na: len(E.allocs)}
	st.mem.shared = true
	lc.atom0 = len(atomList)
	lc.j = freshAtom("j", bi(0), nil)
	lc.j.lenish = true
	for _, b := range lp.head.Parent().Blocks {
		if !lp.has[b] {
			continue
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return nil, "defer in a loop", false
			}
		}
	}
	// pass 0: the first iteration
	s0 := st.fork()
	s0.ctx, s0.reach = st.full(), True
	po := lc.run(s0, phis)
	if po.back == nil {
		// at most one iteration
		lc.reset()
		es, ok := E.unroll(fr, lp, st, ctl, phis, 2)
		return es, "", ok
	}
	for i, in := range lp.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		lc.phi = append(lc.phi, lc.mk(phis[i], po.phis[i], p.Type(), p.Comment+"/"+p.Name()))
	}
	lc.addMem(po.back, true)
	final := false
	for pass := 1; pass < 20; pass++ {
		hs, hp := lc.hypState()
		po = lc.run(hs, hp)
		if po.back == nil {
			// no second iteration is possible
			lc.reset()
			es, ok := E.unroll(fr, lp, st, ctl, phis, 3)
			return es, "generic iteration never continues", ok
		}
		syms := lc.syms()
		ch := false
		for i, l := range lc.phi {
			ch = lc.learn(l, po.phis[i], po.back, syms) || ch
		}
		for _, o := range lc.order {
			ch = lc.learn(lc.mem[o], po.back.mem.get(o), po.back, syms) || ch
		}
		ch = lc.addMem(po.back, false) || ch
		if lc.checkInv(po) {
			ch = true
		}
		if E.debug {
			E.trace("loop %s pass %d changed=%v: %s", E.blockPos(lp.head), pass, ch, lc.describe())
		}
		if ch {
			continue
		}
		// fixpoint: link or classify the remaining symbols
		if lc.linkSyms(po) {
			continue
		}
		if lc.addInv(po) {
			continue
		}
		if lc.dropUnneeded(po) {
			continue
		}
		final = true
		break
	}
	if !final {
		lc.reset()
		return nil, "no fixpoint", false
	}
	res, why = lc.finish(po, ctl)
	if why != "" {
		lc.reset()
		return nil, why, false
	}
	return res, "", true
}

// dropUnneeded gives up the symbols that do not influence control.
func (lc *loopCtx) dropUnneeded(po passOut) bool {
	syms := lc.syms()
	need := map[*Atom]bool{}
	var add func(fr []*Atom)
	add = func(fr []*Atom) {
		for _, a := range fr {
			if need[a] {
				continue
			}
			if l := syms[a]; l != nil {
				need[a] = true
				if l.next != nil {
					add(l.next.fr)
				}
			}
		}
	}
	add(po.back.reach.fr())
	for _, p := range po.panics {
		add(p.g.fr())
	}
	ch := false
	inv := True
	for _, g := range lc.inv {
		inv = inv.and(g)
	}
	for a, l := range syms {
		if need[a] {
			continue
		}
		l.havoc = true
		if l.kind == kLin {
			l.hlo, l.hhi = inv.atomRange(a)
		}
		ch = true
	}
	if ch {
		var keep []*DD
		for _, g := range lc.inv {
			ok := true
			for a := range syms {
				if !need[a] && frHas(g.fr(), a) {
					ok = false
				}
			}
			if ok {
				keep = append(keep, g)
			}
		}
		lc.inv = keep
	}
	return ch
}

func (lc *loopCtx) describe() string {
	s := ""
	lc.walk(func(l *leaf) {
		if l.kind == kInv || l.kind == kAgg {
			return
		}
		s += fmt.Sprintf(" [%s k%d", l.name, l.kind)
		if l.resolved {
			s += " ok"
			if l.delta != nil {
				s += " d=" + short(l.delta.String())
			}
		}
		if l.havoc {
			s += " havoc"
		}
		if l.link != nil {
			s += " link " + l.link.name
		}
		if l.cur {
			s += " cur"
		}
		if l.items != nil {
			s += " items=" + short(seqString(l.items))
		}
		s += "]"
	})
	return s
}

// linkSyms relates symbols that change by the same amount.
func (lc *loopCtx) linkSyms(po passOut) bool {
	var open []*leaf
	lc.walk(func(l *leaf) {
		if l.kind == kLin && !l.resolved && !l.havoc && l.link == nil && l.next != nil {
			open = append(open, l)
		}
	})
	ctx := po.back.full()
	ch := false
	for i, a := range open {
		if a.link != nil {
			continue
		}
		da := a.next.sub(linAtom(a.sym))
		for _, b := range open[i+1:] {
			if b.link != nil {
				continue
			}
			db := b.next.sub(linAtom(b.sym))
			for _, s := range []int64{1, -1} {
				if eqL(db, da.scale(s), ctx, 1) {
					b.link, b.sign = a, s
					ch = true
					break
				}
			}
		}
	}
	if ch {
		// slice windows are never negative
		lc.inv = nil
		lc.slicInv()
	}
	return ch
}

func (lc *loopCtx) slicInv() {
	lc.walk(func(l *leaf) {
		if l.kind == kLin && l.isLen && l.link != nil {
			lc.inv = append(lc.inv, condGE(lc.linAt(l, linAtom(lc.j))))
		}
	})
}

// checkInv drops candidate invariants that are not inductive.
func (lc *loopCtx) checkInv(po passOut) bool { return false }

// addInv finds bounds of cursors in the exit conditions.
func (lc *loopCtx) addInv(po passOut) bool {
	syms := lc.syms()
	if len(syms) == 0 {
		return false
	}
	sub := Sub{}
	ent := Sub{}
	for a, l := range syms {
		if l.kind != kLin || l.next == nil {
			return false
		}
		sub[a] = l.next
		ent[a] = l.x0.(*Lin)
	}
	sub[lc.j] = linAtom(lc.j).addC(1)
	ent[lc.j] = linZero()
	ch := false
	have := map[*DD]bool{}
	for _, g := range lc.inv {
		have[g] = true
	}
	try := func(l *Lin) {
		g := condGE(l)
		if g == True || have[g] || freeOf(l.fr, syms) {
			return
		}
		have[g] = true
		if entails(po.back.ctx, g) {
			return
		}
		if !entails(lc.S0.full(), condGE(l.subst(ent))) {
			return
		}
		if !entails(po.back.full().and(g), condGE(l.subst(sub))) {
			return
		}
		lc.inv = append(lc.inv, g)
		ch = true
	}
	for a := range syms {
		try(linAtom(a))
	}
	conds := []*DD{po.back.reach}
	for _, e := range po.exits {
		conds = append(conds, e.st.reach)
	}
	for _, l := range syms {
		for _, t := range l.next.t {
			if t.a.k == AG {
				conds = append(conds, t.a.g)
			}
		}
	}
	for _, c := range conds {
		atomsOfDDNodes(c, map[*DD]bool{}, func(d *DD) {
			for _, c := range d.cuts {
				try(d.v.addC(-c))
				try(d.v.addC(-c + 1))
				try(d.v.neg().addC(c))
				try(d.v.neg().addC(c - 1))
			}
		})
	}
	return ch
}

func atomsOfDDNodes(d *DD, seen map[*DD]bool, f func(d *DD)) {
	if d.term() || seen[d] {
		return
	}
	seen[d] = true
	f(d)
	for _, k := range d.kids {
		atomsOfDDNodes(k, seen, f)
	}
}

// ---------------------------------------------------------------- trip count

// firstTrue is the least j >= 0 with x(j), for x a combination of linear
// conditions on j.
func firstTrue(x *DD, j *Atom, ctx *DD) (t *Lin, never bool, ok bool) {
	if x == True {
		return linZero(), false, true
	}
	if x == False {
		return nil, true, true
	}
	if !frHas(x.fr(), j) {
		// true at once or never
		if entails(ctx, x) {
			return linZero(), false, true
		}
		if entails(ctx, x.not()) {
			return nil, true, true
		}
		return nil, false, false
	}
	v := x.v
	if !frHas(v.fr, j) {
		var r *Lin
		for i := len(x.kids) - 1; i >= 0; i-- {
			p := pieceDD(x, i)
			c := ctx.and(p)
			if !feasible(c) {
				continue
			}
			t, nv, ok := firstTrue(x.kids[i], j, c)
			if !ok {
				return nil, false, false
			}
			if nv {
				return nil, false, false
			}
			if r == nil {
				r = t
			} else {
				r = ite(p, t, r)
			}
		}
		if r == nil {
			return nil, true, true
		}
		return r, false, true
	}
	var k int64
	m := map[*Atom]int64{}
	for _, y := range v.t {
		if y.a == j {
			k = y.k
		} else {
			if frHas(y.a.fr, j) {
				return nil, false, false
			}
			m[y.a] = y.k
		}
	}
	rest := buildLin(v.c, m)
	// normalise to increasing
	cuts, kids := x.cuts, x.kids
	if k < 0 {
		k = -k
		rest = rest.neg()
		n := len(cuts)
		cuts = make([]int64, n)
		for i := range cuts {
			cuts[i] = 1 - x.cuts[n-1-i]
		}
		kids = make([]*DD, len(x.kids))
		for i := range kids {
			kids[i] = x.kids[len(kids)-1-i]
		}
	}
	// rest + k*j crosses cuts[i] first at threshold i
	thr := func(c int64) (*Lin, bool) {
		d := linC(c).sub(rest) // k*j >= d
		if k != 1 {
			e := d.addC(k - 1)
			if q, ok := divExact(d, k); ok {
				d = q
			} else if k&(k-1) == 0 {
				s := 0
				for 1<<uint(s) < k {
					s++
				}
				d = mkShr(e, s)
			} else {
				return nil, false
			}
		}
		return max0(d, ctx), true
	}
	cur := linZero() // lower end of the current piece
	var best *Lin
	for i, kid := range kids {
		var end *Lin // exclusive end of the piece, nil: infinite
		if i < len(cuts) {
			var ok bool
			end, ok = thr(cuts[i])
			if !ok {
				return nil, false, false
			}
		}
		empty := end != nil && entails(ctx, condGE(cur.sub(end)))
		if !empty {
			switch {
			case kid == False:
			case kid == True:
				if best == nil {
					if end == nil || entails(ctx, condGE(end.sub(cur).addC(-1))) {
						return cur, false, true
					}
					// maybe empty piece: only an equality exit with a known start
					return nil, false, false
				}
				// candidate from earlier pieces may lie beyond cur
				return minLin(best, cur, ctx), false, true
			default:
				t, nv, ok := firstTrue(kid, j, ctx)
				if !ok {
					return nil, false, false
				}
				if !nv {
					// kid must be monotone for the choice below
					if !entails(ctx.and(condGE(linAtom(j))).and(kid), kid.subst(Sub{j: linAtom(j).addC(1)})) {
						return nil, false, false
					}
					c := maxLin(t, cur, ctx)
					if end == nil {
						if best == nil {
							return c, false, true
						}
						return minLin(best, c, ctx), false, true
					}
					// valid only before end; the following piece must be True
					if i+1 < len(kids) && kids[i+1] == True && i+2 == len(kids) {
						return minLin(c, end, ctx), false, true
					}
					return nil, false, false
				}
			}
		}
		if end != nil {
			cur = end
		}
	}
	if best != nil {
		return best, false, true
	}
	return nil, true, true
}

func max0(d *Lin, ctx *DD) *Lin { return maxLin(d, linZero(), ctx) }

func maxLin(a, b *Lin, ctx *DD) *Lin {
	g := condGE(a.sub(b))
	if entails(ctx, g) {
		return a
	}
	if entails(ctx, condGE(b.sub(a))) {
		return b
	}
	return ite(g, a, b)
}

func minLin(a, b *Lin, ctx *DD) *Lin {
	g := condGE(b.sub(a))
	if entails(ctx, g) {
		return a
	}
	if entails(ctx, condGE(a.sub(b))) {
		return b
	}
	return ite(g, a, b)
}

// linearIn: every node of d is free of j or linear in j.
func linearIn(d *DD, j *Atom) bool {
	ok := true
	atomsOfDDNodes(d, map[*DD]bool{}, func(n *DD) {
		for _, x := range n.v.t {
			if x.a != j && frHas(x.a.fr, j) {
				ok = false
			}
		}
	})
	return ok
}

// firstAtom is the least j < n with p(j); n if there is none.
func firstAtom(n *Lin, j *Atom, p *DD) *Lin {
	if n.isC() && n.c <= 0 {
		return linZero()
	}
	inr := condGE(linAtom(j)).and(condGT(n.sub(linAtom(j))))
	p = simp(p, inr)
	if p == False {
		return n
	}
	h := p.height()
	b := binderAtom(h+1, "j")
	if b != j {
		p = p.subst(Sub{j: linAtom(b)})
	}
	key := fmt.Sprintf("first:%d:%d:%d", n.id, b.id, p.id)
	if a, ok := atomTab[key]; ok {
		return linAtom(a)
	}
	inr = condGE(linAtom(b)).and(condGT(n.sub(linAtom(b))))
	for _, a := range firstAtoms {
		if (a.num == n || eqLin(a.num, n, True)) && a.j == b && eqDD(a.pred, p, inr) {
			return linAtom(a)
		}
	}
	a := internAtom(key, func() *Atom {
		return &Atom{k: AFirst, num: n, j: b, pred: p, lo: bi(0), mod4: -1, lenish: true,
			fr: frMinus(frUnion(n.fr, p.fr()), b)}
	})
	firstAtoms = append(firstAtoms, a)
	a.facts = []*Lin{n.sub(linAtom(a))}
	ex := mkExists(n, b, p)
	at := p.subst(Sub{b: linAtom(a)}).and(condGT(n.sub(linAtom(a))))
	a.axioms = []*DD{ex.not().or(at), ex.or(condEQ(n.sub(linAtom(a))))}
	return linAtom(a)
}

var firstAtoms []*Atom

// ---------------------------------------------------------------- finish

func (lc *loopCtx) finish(po passOut, ctl *DD) ([]edge, string) {
	if debugLoop {
		fmt.Fprintln(os.Stderr, "finish", lc.E.blockPos(lc.lp.head), lc.describe())
	}
	syms := lc.syms()
	var curs []*leaf
	lc.walk(func(l *leaf) {
		if l.kind == kLin && !l.resolved && !l.havoc && l.link == nil {
			curs = append(curs, l)
		}
	})
	for _, l := range syms {
		if l.kind == kBool {
			return nil, "boolean " + l.name + " has no closed form"
		}
	}
	if len(curs) > 0 {
		return lc.finishScan(po, ctl, curs)
	}
	j := lc.j
	S0 := lc.S0
	P := False
	for _, e := range po.exits {
		if lc.tainted(e.st.reach.fr()) {
			return nil, "an exit depends on an unknown value"
		}
	}
	for _, p := range po.panics {
		if lc.tainted(p.g.fr()) {
			return nil, "a panic depends on an unknown value: " + p.site
		}
		P = P.or(p.g)
	}
	hctx := S0.full().and(condGE(linAtom(j)))
	// exits that depend linearly on j determine the trip count
	X := False
	var lin, data []edge
	E := False
	for _, e := range po.exits {
		if debugLoop {
			fmt.Fprintln(os.Stderr, "exit", short2(e.st.reach.String()), "\nP", short2(P.String()), "\nS0", short2(S0.full().String()))
		}
		g := simp(e.st.reach, hctx.and(P.not()))
		if linearIn(g, j) {
			X = X.or(g)
			lin = append(lin, e)
		} else {
			data = append(data, e)
			E = E.or(e.st.reach)
		}
	}
	var T *Lin
	if X != False {
		t, never, ok := firstTrue(simp(X, hctx.and(P.not())), j, S0.full())
		if ok && !never {
			T = t
		} else if !ok {
			// treat the exits that are not thresholds as data dependent
			X = False
			var l2 []edge
			for _, e := range lin {
				g := simp(e.st.reach, hctx.and(P.not()))
				t, never, ok := firstTrue(g, j, S0.full())
				if ok && !never && T == nil {
					T = t
					X = g
					l2 = append(l2, e)
				} else {
					data = append(data, e)
					E = E.or(e.st.reach)
				}
			}
			lin = l2
		}
	}
	if T == nil {
		return nil, fmt.Sprintf("no trip count for %s", X)
	}
	T = newSimp(S0.full()).lin(T)
	lc.E.allocs = append(lc.E.allocs, AllocRec{hctx.and(P.not()).and(condGT(T.sub(linAtom(j)))), linAtom(j), lc.E.blockPos(lc.lp.head), lc.E.path(), "iteration"})
	// panics up to and including the last, partial iteration
	np := T
	if P != False {
		atT := P.subst(Sub{j: T})
		if feasible(S0.full().and(atT)) {
			np = T.addC(1)
		}
	}
	stopP := mkExists(np, j, P)
	var edges []edge
	if E == False {
		for _, p := range po.panics {
			g := mkExists(np, j, p.g)
			lc.addPanic(p, g)
		}
		ok := simp(stopP.not(), S0.full())
		for _, e := range lin {
			edges = append(edges, lc.exit(e, T, ok, ctl, len(lin) > 1, nil)...)
		}
		return edges, ""
	}
	// data dependent exits: the first of them, or the first panic
	Q := E.or(P)
	J := firstAtom(np, j, Q)
	ex := mkExists(np, j, Q)
	for _, p := range po.panics {
		g := mkExists(np, j, p.g)
		if eqDD(P, Q, hctx) {
			lc.addPanic(p, g)
		} else {
			lc.addPanic(p, ex.and(p.g.subst(Sub{j: J})))
		}
	}
	for _, e := range lin {
		edges = append(edges, lc.exit(e, T, ex.not(), ctl, len(lin) > 1, nil)...)
	}
	for _, e := range data {
		multi := len(data) > 1 || P != False
		edges = append(edges, lc.exit(e, J, ex, ctl, multi, nil)...)
	}
	return edges, ""
}

func (lc *loopCtx) addPanic(p Panic, g *DD) {
	if g == False {
		return
	}
	g = lc.S0.reach.and(g)
	if !feasible(lc.S0.ctx.and(g)) {
		return
	}
	mem := lc.S0.mem.clone()
	for _, o := range lc.order {
		mem.m[o] = lc.coarseLeaf(lc.mem[o])
	}
	for f := range lc.fams {
		x := mem.fam[f]
		mem.fam[f] = famState{hw: x.hw, epoch: x.epoch + 1, clob: linZero()}
	}
	mem.shared = true
	val := p.val
	if hitsAny(frOfVal(val), lc.j) || !frozen(val, lc.objs0) {
		val = VIface{typ: runtimePanicType, v: VOpq{key: "panic in loop", typ: runtimePanicType}}
	}
	lc.fr.panics = append(lc.fr.panics, Panic{g: g, val: val, mem: mem, defers: lc.S0.defers, site: p.site, what: p.what})
}

func hitsAny(fr []*Atom, as ...*Atom) bool {
	for _, a := range as {
		if frHas(fr, a) {
			return true
		}
	}
	return false
}

func (lc *loopCtx) coarseLeaf(l *leaf) Value {
	switch l.kind {
	case kInv:
		return l.x0
	case kAgg:
		switch x := l.x0.(type) {
		case VStruct:
			r := VStruct{typ: x.typ}
			for _, k := range l.kids {
				r.f = append(r.f, lc.coarseLeaf(k))
			}
			return r
		}
	case kBool:
		return boolAtom(freshAtom("havoc", bi(0), bi(1)))
	case kLin:
		return linAtom(newSym("havoc", l))
	}
	return top("%s at a panic in a loop", l.name)
}

// exit instantiates an exit edge at iteration n.
func (lc *loopCtx) exit(e edge, n *Lin, g, ctl *DD, own bool, vs *VSub) []edge {
	S0 := lc.S0
	sub := VSub{m: Sub{lc.j: n}, acc: map[int]Seq{}}
	if vs != nil {
		sub = *vs
	} else {
		for id, l := range lc.accN {
			sub.acc[id] = lc.accAt(l, n, nil)
		}
	}
	guard := g
	cg := g
	if own {
		guard = guard.and(e.st.reach.subst(sub.m))
		cg = cg.and(e.ctl.subst(sub.m))
	} else {
		guard = guard.and(simp(e.st.reach.subst(sub.m), S0.full().and(g)))
	}
	reach := S0.reach.and(guard)
	if !feasible(S0.ctx.and(reach)) {
		return nil
	}
	st := &State{ctx: S0.ctx, reach: reach, defers: e.st.defers}
	simpC := newSimp(st.full())
	fix := func(v Value) Value { return substVal(v, sub) }
	_ = simpC
	mem := newMem()
	for o, v := range e.st.mem.m {
		if o.id <= lc.objs0 && lc.mem[o] == nil {
			if w, ok := S0.mem.m[o]; ok && sameVal(v, w) {
				mem.m[o] = v
				continue
			}
		}
		mem.m[o] = fix(v)
	}
	for o, v := range S0.mem.m {
		if _, ok := mem.m[o]; !ok {
			mem.m[o] = v
		}
	}
	for f, x := range e.st.mem.fam {
		if x.hw != nil {
			x.hw = x.hw.subst(sub.m)
		}
		if x.clob != nil {
			x.clob = x.clob.subst(sub.m)
		}
		mem.fam[f] = x
	}
	st.mem = mem
	ne := edge{from: e.from, to: e.to, st: st, ctl: ctl.and(cg)}
	for _, v := range e.phis {
		ne.phis = append(ne.phis, fix(v))
	}
	// objects made in the loop keep their content under the substitution
	seen := map[*Obj]bool{}
	var touch func(v Value)
	var touchS func(s Seq)
	obj := func(o *Obj) {
		if o == nil || seen[o] || o.id <= lc.objs0 || o.sym != nil {
			return
		}
		seen[o] = true
		if _, ok := mem.m[o]; !ok {
			mem.m[o] = fix(o.init)
		}
		touch(mem.m[o])
	}
	touchS = func(s Seq) {
		for _, it := range s {
			switch x := it.(type) {
			case IElem:
				touch(x.v)
			case IAlt:
				for _, y := range x.ss {
					touchS(y)
				}
			}
		}
	}
	touch = func(v Value) {
		switch x := v.(type) {
		case VPtr:
			obj(x.obj)
		case VSlice:
			obj(x.obj)
		case VMap:
			obj(x.obj)
		case VStruct:
			for _, y := range x.f {
				touch(y)
			}
		case VArr:
			for _, y := range x.e {
				touch(y)
			}
		case VTuple:
			for _, y := range x {
				touch(y)
			}
		case VIface:
			if x.typ != nil {
				touch(x.v)
			}
		case VAlt:
			for _, y := range x.vs {
				touch(y)
			}
		case VFunc:
			for _, y := range x.free {
				touch(y)
			}
		case VSeq:
			touchS(x.s)
		}
	}
	var keys []*Obj
	for o := range mem.m {
		keys = append(keys, o)
	}
	for _, o := range keys {
		touch(mem.m[o])
	}
	for _, v := range ne.phis {
		touch(v)
	}
	// registers defined outside the loop but used after it need no fixing
	return []edge{ne}
}

// accAt is the content accumulated in n iterations.
func (lc *loopCtx) accAt(l *leaf, n *Lin, scan *Class) Seq {
	if l.havoc || l.items == nil {
		return Seq{IOpq{"havoc", []Value{top("accumulated content %s", l.name)}, linAtom(newSym("havoc", &leaf{isLen: true}))}}
	}
	var dom *DD
	var pre Seq
	if l.kind != kFill {
		pre = l.view
	}
	if scan != nil {
		body := l.items
		sz := body.size()
		sub := Sub{}
		for i, c := range lc.clsFrom {
			sub[c] = linAtom(scan.cur[i])
		}
		body = substSeq(body, VSub{m: sub})
		var tot *Lin
		if sz.isC() {
			tot = scan.component("cnt", 0, lc.starts).scale(sz.c)
		} else {
			tot = linAtom(newSym("scan length", &leaf{isLen: true}))
		}
		return pre.cat(IScan{scan, lc.starts, body, tot})
	}
	return pre.cat(IRep{n, lc.j, l.items, dom})
}

var debugLoop = os.Getenv("VDEBUGLOOP") != ""
