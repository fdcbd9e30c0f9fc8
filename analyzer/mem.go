package main

// Sequence operations, memory, joins.

import (
	"fmt"
	"go/types"
	"os"
)

// ---------------------------------------------------------------- sequences

func firstGuard(l *Lin) *DD {
	for _, x := range l.t {
		if x.a.k == AG {
			return x.a.g
		}
	}
	for _, x := range l.t {
		if x.a.k == AFF && len(x.a.tab) > 1 {
			lo, hi := x.a.tab[0], x.a.tab[0]
			vals := map[int64]bool{}
			for _, v := range x.a.tab {
				vals[v] = true
				if v < lo {
					lo = v
				}
				if v > hi {
					hi = v
				}
			}
			if len(vals) <= 4 && lo < hi {
				return condGE(linAtom(x.a).addC(-hi))
			}
		}
	}
	return nil
}

// assumeS is l given that g has a value.
func assumeS(l *Lin, g *DD, val bool) *Lin {
	l = assumeG(l, g, val)
	if !val {
		g = g.not()
	}
	for _, x := range l.t {
		if x.a.k == AFF {
			return newSimp(g).lin(l)
		}
	}
	return l
}

// cutSeq splits s at element position pos.
func cutSeq(s Seq, pos *Lin, ctx *DD) (left, right Seq, ok bool) {
	return cutSeqD(s, pos, ctx, 0)
}

func cutSeqD(s Seq, pos *Lin, ctx *DD, depth int) (left, right Seq, ok bool) {
	rem := pos
	for i, it := range s {
		if isZeroLin(rem) {
			return s[:i:i], s[i:], true
		}
		n := it.size()
		d := rem.sub(n)
		if d.isC() {
			if d.c >= 0 {
				rem = d
				continue
			}
		} else if entails(ctx, condGE(d)) {
			rem = d
			continue
		}
		if !rem.isC() && entails(ctx, condEQ(rem)) {
			return s[:i:i], s[i:], true
		}
		inside := entails(ctx, condGE(rem).and(condGE(d.neg())))
		if inside {
			if a, b, ok := cutItem(it, rem, ctx, depth); ok {
				return s[:i:i].cat(a...), Seq(nil).cat(b...).cat(s[i+1:]...), true
			}
		}
		if depth < 4 {
			var g *DD
			if a, ok := it.(IAlt); ok && len(a.gs) > 1 {
				g = a.gs[0]
				// decide the alternative
				t := s[:i:i].cat(a.ss[0]...).cat(s[i+1:]...)
				f := s[:i:i].cat(IAlt{a.gs[1:], a.ss[1:]}).cat(s[i+1:]...)
				l1, r1, ok1 := cutSeqD(t, assumeG(pos, g, true), ctx.and(g), depth+1)
				l2, r2, ok2 := cutSeqD(f, assumeG(pos, g, false), ctx.and(g.not()), depth+1)
				if ok1 && ok2 {
					return mergeSeq(g, l1, l2), mergeSeq(g, r1, r2), true
				}
			} else if g = firstGuard(rem); g != nil {
				l1, r1, ok1 := cutSeqD(s, assumeS(pos, g, true), ctx.and(g), depth+1)
				l2, r2, ok2 := cutSeqD(s, assumeS(pos, g, false), ctx.and(g.not()), depth+1)
				if ok1 && ok2 {
					return mergeSeq(g, l1, l2), mergeSeq(g, r1, r2), true
				}
			} else if g = firstGuard(n); g != nil {
				l1, r1, ok1 := cutSeqD(simpSeqG(s, g, true), pos, ctx.and(g), depth+1)
				l2, r2, ok2 := cutSeqD(simpSeqG(s, g, false), pos, ctx.and(g.not()), depth+1)
				if ok1 && ok2 {
					return mergeSeq(g, l1, l2), mergeSeq(g, r1, r2), true
				}
			}
		}
		return nil, nil, false
	}
	if isZeroLin(rem) || entails(ctx, condEQ(rem)) {
		return s, nil, true
	}
	return nil, nil, false
}

func simpSeqG(s Seq, g *DD, val bool) Seq {
	c := g
	if !val {
		c = g.not()
	}
	return simpSeq(s, newSimp(c))
}

func cutItem(it Item, at *Lin, ctx *DD, depth int) (a, b Seq, ok bool) {
	switch x := it.(type) {
	case ISub:
		return Seq{ISub{x.p, x.off, at, x.et}}, Seq{ISub{x.p, x.off.add(at), x.n.sub(at), x.et}}, true
	case IZero:
		return Seq{IZero{at, x.et}}, Seq{IZero{x.n.sub(at), x.et}}, true
	case IRep:
		k := x.body.size()
		if k.isC() && k.c > 0 {
			q, ok := divExact(at, k.c)
			if !ok {
				return nil, nil, false
			}
			return Seq(nil).cat(IRep{q, x.j, x.body, x.dom}),
				Seq(nil).cat(IRep{x.n.sub(q), x.j, substSeq(x.body, VSub{m: Sub{x.j: linAtom(x.j).add(q)}}), nil}), true
		}
	case IAlt:
		var l, r IAlt
		for i := range x.gs {
			c := ctx.and(x.gs[i])
			if !feasible(c) {
				continue
			}
			a, b, ok := cutSeqD(x.ss[i], at, c, depth+1)
			if !ok {
				return nil, nil, false
			}
			l.gs = append(l.gs, x.gs[i])
			l.ss = append(l.ss, a)
			r.gs = append(r.gs, x.gs[i])
			r.ss = append(r.ss, b)
		}
		return Seq(nil).cat(l), Seq(nil).cat(r), true
	}
	return nil, nil, false
}

func divExact(l *Lin, k int64) (*Lin, bool) {
	if l.c%k != 0 {
		return nil, false
	}
	ts := make([]Term, len(l.t))
	for i, x := range l.t {
		if x.k%k != 0 {
			return nil, false
		}
		ts[i] = Term{x.a, x.k / k}
	}
	return rawLin(l.c/k, ts), true
}

// subSeq is s[lo:lo+n].
func subSeq(s Seq, lo, n *Lin, ctx *DD) (Seq, bool) {
	_, r, ok := cutSeq(s, lo, ctx)
	if !ok {
		return nil, false
	}
	m, _, ok := cutSeq(r, n, ctx)
	return m, ok
}

// readSeq is s[idx]; the caller has established that idx is in range.
func readSeq(s Seq, idx *Lin, ctx *DD) Value {
	// constant table
	if b := idx.onlySmallBase(); b != nil && !idx.isC() {
		tab := make([]int64, 0, len(s))
		ok := true
		for _, it := range s {
			e, isE := it.(IElem)
			if !isE {
				ok = false
				break
			}
			l, isL := e.v.(*Lin)
			if !isL || !l.isC() {
				ok = false
				break
			}
			tab = append(tab, l.c)
		}
		if ok && len(tab) > 0 {
			return tabulate(b, func(v int64) int64 {
				i := idx.evalSmall(b, v)
				if i < 0 {
					i = 0
				}
				if i >= int64(len(tab)) {
					i = int64(len(tab)) - 1
				}
				return tab[i]
			})
		}
	}
	return readSeqD(s, idx, ctx, 0)
}

func readSeqD(s Seq, idx *Lin, ctx *DD, depth int) Value {
	rem := idx
	if depth > 300 {
		return top("read: too many alternatives")
	}
	for i, it := range s {
		n := it.size()
		d := rem.sub(n) // >= 0: beyond
		if d.isC() && d.c >= 0 || !d.isC() && entails(ctx, condGE(d)) {
			rem = d
			continue
		}
		if rem.isC() && n.isC() || entails(ctx, condGE(d.neg().addC(-1))) {
			if v := readItem(it, rem, ctx, depth); v != nil {
				return v
			}
			return top("read at %s in %s", rem, itemString(it))
		}
		g := condGE(d.neg().addC(-1))
		v := readItem(it, rem, ctx.and(g), depth)
		if v == nil {
			return top("read at %s in %s", rem, itemString(it))
		}
		rest := readSeqD(s[i+1:], d, ctx.and(g.not()), depth+1)
		return mergeV(g, v, rest, nil)
	}
	return top("read at %s: out of content", idx)
}

func readItem(it Item, rem *Lin, ctx *DD, depth int) Value {
	switch x := it.(type) {
	case IElem:
		return x.v
	case ISub:
		return materialise(x.p.index(x.off.add(rem), x.et))
	case IZero:
		return zeroValue(x.et)
	case IRep:
		k := x.body.size()
		if k.isC() && k.c == 1 {
			if e, ok := x.body[0].(IElem); ok && len(x.body) == 1 {
				return substVal(e.v, VSub{m: Sub{x.j: rem}})
			}
		}
		if k.isC() && k.c > 1 {
			if rem.c >= 0 {
				r := rem.c % k.c
				if q, ok := divExact(rem.addC(-r), k.c); ok {
					b := substSeq(x.body, VSub{m: Sub{x.j: q}})
					return readSeqD(b, linC(r), ctx, depth+1)
				}
			}
		}
	case IAlt:
		var r Value
		for i := len(x.gs) - 1; i >= 0; i-- {
			c := ctx.and(x.gs[i])
			if !feasible(c) {
				continue
			}
			v := readSeqD(x.ss[i], rem, c, depth+1)
			if r == nil {
				r = v
			} else {
				r = mergeV(x.gs[i], v, r, nil)
			}
		}
		return r
	}
	return nil
}

// writeSeq replaces n elements at pos by items.
func writeSeq(s Seq, pos, n *Lin, items Seq, ctx *DD) (Seq, bool) {
	l, r, ok := cutSeq(s, pos, ctx)
	if !ok {
		return nil, false
	}
	_, r2, ok := cutSeq(r, n, ctx)
	if !ok {
		return nil, false
	}
	return l.cat(items...).cat(r2...), true
}

// ---------------------------------------------------------------- structural equality

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Lin:
		y, ok := b.(*Lin)
		return ok && x == y
	case *DD:
		y, ok := b.(*DD)
		return ok && x == y
	case VStr:
		y, ok := b.(VStr)
		return ok && sameSeq(x.s, y.s)
	case VSeq:
		y, ok := b.(VSeq)
		return ok && sameSeq(x.s, y.s)
	case VSlice:
		y, ok := b.(VSlice)
		if !ok || x.obj != y.obj || x.off != y.off || x.len != y.len || x.nilg != y.nilg || x.cap != y.cap || !sameAl(x.al, y.al) {
			return false
		}
		if !sameSteps(x.path, y.path) {
			return false
		}
		if (x.inl == nil) != (y.inl == nil) {
			return false
		}
		return x.inl == nil || x.inl == y.inl || sameSeq(*x.inl, *y.inl)
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.f) != len(y.f) || !types.Identical(x.typ, y.typ) {
			return false
		}
		if len(x.f) > 0 && &x.f[0] == &y.f[0] {
			return true
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case VArr:
		y, ok := b.(VArr)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		if len(x.e) > 0 && &x.e[0] == &y.e[0] {
			return true
		}
		for i := range x.e {
			if !sameVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x.obj == y.obj && sameSteps(x.st, y.st)
	case VFunc:
		y, ok := b.(VFunc)
		if !ok || x.fn != y.fn || x.meth != y.meth || x.blt != y.blt || len(x.free) != len(y.free) || !sameVal(x.recv, y.recv) {
			return false
		}
		for i := range x.free {
			if !sameVal(x.free[i], y.free[i]) {
				return false
			}
		}
		return true
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && sameVal(x.v, y.v)
	case VSym:
		y, ok := b.(VSym)
		return ok && x.p == y.p
	case VMap:
		y, ok := b.(VMap)
		return ok && x.obj == y.obj
	case VMapC:
		y, ok := b.(VMapC)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameVal(x.e[i].k, y.e[i].k) || !sameVal(x.e[i].v, y.e[i].v) {
				return false
			}
		}
		return true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case VAlt:
		y, ok := b.(VAlt)
		if !ok || len(x.gs) != len(y.gs) {
			return false
		}
		for i := range x.gs {
			if x.gs[i] != y.gs[i] || !sameVal(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case VOpq:
		y, ok := b.(VOpq)
		if !ok || x.key != y.key || len(x.args) != len(y.args) {
			return false
		}
		for i := range x.args {
			if !sameVal(x.args[i], y.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func sameSteps(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].field != b[i].field || a[i].idx != b[i].idx {
			return false
		}
	}
	return true
}

func sameItem(a, b Item) bool {
	switch x := a.(type) {
	case IElem:
		y, ok := b.(IElem)
		return ok && sameVal(x.v, y.v)
	case ISub:
		y, ok := b.(ISub)
		return ok && x.p == y.p && x.off == y.off && x.n == y.n
	case IZero:
		y, ok := b.(IZero)
		return ok && x.n == y.n
	case IRep:
		y, ok := b.(IRep)
		if !ok || x.n != y.n {
			return false
		}
		if x.j == y.j {
			return sameSeq(x.body, y.body)
		}
		return sameSeq(x.body, substSeq(y.body, VSub{m: Sub{y.j: linAtom(x.j)}}))
	case IScan:
		y, ok := b.(IScan)
		if !ok || x.cls != y.cls || !sameSeq(x.body, y.body) || len(x.starts) != len(y.starts) {
			return false
		}
		for i := range x.starts {
			if x.starts[i] != y.starts[i] {
				return false
			}
		}
		return true
	case IAlt:
		y, ok := b.(IAlt)
		if !ok || len(x.gs) != len(y.gs) {
			return false
		}
		for i := range x.gs {
			if x.gs[i] != y.gs[i] || !sameSeq(x.ss[i], y.ss[i]) {
				return false
			}
		}
		return true
	case IOpq:
		y, ok := b.(IOpq)
		if !ok || x.key != y.key || x.n != y.n || len(x.args) != len(y.args) {
			return false
		}
		for i := range x.args {
			if !sameVal(x.args[i], y.args[i]) {
				return false
			}
		}
		return true
	case IAcc:
		y, ok := b.(IAcc)
		return ok && x.id == y.id
	}
	return false
}

func sameSeq(a, b Seq) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) > 0 && &a[0] == &b[0] {
		return true
	}
	for i := range a {
		if !sameItem(a[i], b[i]) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- joins

// mergeSeq is "if g then a else b".
func mergeSeq(g *DD, a, b Seq) Seq {
	if g == True {
		return a
	}
	if g == False {
		return b
	}
	i := 0
	for i < len(a) && i < len(b) && sameItem(a[i], b[i]) {
		i++
	}
	pre := a[:i:i]
	a, b = a[i:], b[i:]
	k := 0
	for k < len(a) && k < len(b) && sameItem(a[len(a)-1-k], b[len(b)-1-k]) {
		k++
	}
	suf := a[len(a)-k:]
	a, b = a[:len(a)-k:len(a)-k], b[:len(b)-k:len(b)-k]
	if len(a) == 0 && len(b) == 0 {
		return pre.cat(suf...)
	}
	// same shape: element-wise
	if len(a) == len(b) {
		ok := true
		for i := range a {
			_, x := a[i].(IElem)
			_, y := b[i].(IElem)
			if !x || !y {
				ok = false
				break
			}
		}
		if ok {
			out := pre
			for i := range a {
				out = out.cat(IElem{mergeV(g, a[i].(IElem).v, b[i].(IElem).v, nil)})
			}
			return out.cat(suf...)
		}
		if len(a) == 1 {
			x, ok1 := a[0].(ISub)
			y, ok2 := b[0].(ISub)
			if ok1 && ok2 && x.p == y.p {
				return pre.cat(ISub{x.p, ite(g, x.off, y.off), ite(g, x.n, y.n), x.et}).cat(suf...)
			}
		}
	}
	return pre.cat(mkAlt(g, a, b)).cat(suf...)
}

func mkAlt(g *DD, a, b Seq) IAlt {
	var r IAlt
	add := func(gd *DD, s Seq) {
		if gd == False {
			return
		}
		for i := range r.ss {
			if sameSeq(r.ss[i], s) {
				r.gs[i] = r.gs[i].or(gd)
				return
			}
		}
		r.gs = append(r.gs, gd)
		r.ss = append(r.ss, s)
	}
	side := func(gd *DD, s Seq) {
		if len(s) == 1 {
			if x, ok := s[0].(IAlt); ok {
				// guards of x cover the whole of gd only: the last takes the rest
				rest := gd
				for i := range x.gs {
					if i == len(x.gs)-1 {
						add(rest, x.ss[i])
					} else {
						add(rest.and(x.gs[i]), x.ss[i])
						rest = rest.and(x.gs[i].not())
					}
				}
				return
			}
		}
		add(gd, s)
	}
	side(g, a)
	side(g.not(), b)
	return r
}

type mergeCtx struct {
	ma, mb *Mem
	ctx    *DD
}

// mergeV is "if g then a else b".
// keepStr: different strings stay apart at joins.
var keepStr bool

func mergeV(g *DD, a, b Value, mc *mergeCtx) Value {
	if g == True {
		return a
	}
	if g == False {
		return b
	}
	if sameVal(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Lin:
		if y, ok := b.(*Lin); ok {
			return ite(g, x, y)
		}
	case *DD:
		if y, ok := b.(*DD); ok {
			return iteDD(g, x, y)
		}
	case VStr:
		if y, ok := b.(VStr); ok && !keepStr {
			return VStr{mergeSeq(g, x.s, y.s)}
		}
	case VSeq:
		if y, ok := b.(VSeq); ok {
			return VSeq{mergeSeq(g, x.s, y.s)}
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			r := VStruct{typ: x.typ, f: make([]Value, len(x.f))}
			for i := range x.f {
				r.f[i] = mergeV(g, x.f[i], y.f[i], mc)
			}
			return r
		}
	case VArr:
		if y, ok := b.(VArr); ok && len(x.e) == len(y.e) {
			r := VArr{typ: x.typ, e: make([]Value, len(x.e))}
			for i := range x.e {
				r.e[i] = mergeV(g, x.e[i], y.e[i], mc)
			}
			return r
		}
	case VTuple:
		if y, ok := b.(VTuple); ok && len(x) == len(y) {
			r := make(VTuple, len(x))
			for i := range x {
				r[i] = mergeV(g, x[i], y[i], mc)
			}
			return r
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			if r, ok := mergeSlice(g, x, y, mc); ok {
				return r
			}
		}
	case VIface:
		if y, ok := b.(VIface); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			return VIface{x.typ, mergeV(g, x.v, y.v, mc)}
		}
	}
	return mkVAlt(g, a, b, mc)
}

func mkVAlt(g *DD, a, b Value, mc *mergeCtx) Value {
	var r VAlt
	add := func(gd *DD, v Value) {
		if gd == False {
			return
		}
		for i := range r.vs {
			if sameVal(r.vs[i], v) {
				r.gs[i] = r.gs[i].or(gd)
				return
			}
			// interfaces of one dynamic type share an entry
			x, ok1 := r.vs[i].(VIface)
			y, ok2 := v.(VIface)
			if ok1 && ok2 && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) && mc == nil {
				r.vs[i] = VIface{x.typ, mergeV(gd, y.v, x.v, mc)}
				r.gs[i] = r.gs[i].or(gd)
				return
			}
		}
		r.gs = append(r.gs, gd)
		r.vs = append(r.vs, v)
	}
	side := func(gd *DD, v Value) {
		if x, ok := v.(VAlt); ok {
			rest := gd
			for i := range x.gs {
				if i == len(x.gs)-1 {
					add(rest, x.vs[i])
				} else {
					add(rest.and(x.gs[i]), x.vs[i])
					rest = rest.and(x.gs[i].not())
				}
			}
			return
		}
		add(gd, v)
	}
	side(g, a)
	side(g.not(), b)
	if len(r.vs) == 1 {
		return r.vs[0]
	}
	return r
}

func mergeSlice(g *DD, x, y VSlice, mc *mergeCtx) (Value, bool) {
	nilg := iteDD(g, x.nilg, y.nilg)
	cp := func() *Lin {
		if x.cap == nil || y.cap == nil {
			return nil
		}
		return ite(g, x.cap, y.cap)
	}
	// a slice without backing joins anything
	if x.obj == nil && x.inl == nil {
		r := y
		r.len, r.cap, r.nilg = ite(g, linZero(), y.len), cp(), nilg
		return r, true
	}
	if y.obj == nil && y.inl == nil {
		r := x
		r.len, r.cap, r.nilg = ite(g, x.len, linZero()), cp(), nilg
		return r, true
	}
	if x.obj != nil && x.obj == y.obj && sameSteps(x.path, y.path) {
		r := x
		r.off, r.len, r.cap, r.nilg = ite(g, x.off, y.off), ite(g, x.len, y.len), cp(), nilg
		return r, true
	}
	if x.inl != nil && y.inl != nil && sameSeq(*x.inl, *y.inl) {
		r := x
		r.al = joinAl(g, x.al, y.al)
		r.off, r.len, r.cap, r.nilg = ite(g, x.off, y.off), ite(g, x.len, y.len), cp(), nilg
		return r, true
	}
	var ma, mb *Mem
	ctx := True
	if mc != nil {
		ma, mb, ctx = mc.ma, mc.mb, mc.ctx
	}
	sx, ok1 := viewSeq(ma, x, ctx.and(g))
	sy, ok2 := viewSeq(mb, y, ctx.and(g.not()))
	if !ok1 || !ok2 {
		return nil, false
	}
	s := mergeSeq(g, sx, sy)
	// keep the append family when both grew from one buffer
	o := newObj("join", nil, VSeq{s})
	o.ro = true
	o.al = joinAl(g, x.prov(), y.prov())
	if x.obj != nil && y.obj != nil && x.obj.fam != nil && x.obj.fam == y.obj.fam && isZeroLin(x.off) && isZeroLin(y.off) && x.obj.famOff == y.obj.famOff {
		o.fam, o.famOff = x.obj.fam, x.obj.famOff
		o.epoch = x.obj.epoch
		if y.obj.epoch < o.epoch {
			o.epoch = y.obj.epoch
		}
	}
	return VSlice{obj: o, off: linZero(), len: ite(g, x.len, y.len), cap: cp(), nilg: nilg, et: x.et}, true
}

// ---------------------------------------------------------------- memory

type famState struct {
	hw    *Lin
	epoch int
	clob  *Lin // objects of an older epoch are unreliable from here on
	owner *Obj // except this one
}

type Mem struct {
	m      map[*Obj]Value
	fam    map[*Fam]famState
	shared bool
}

func newMem() *Mem { return &Mem{m: map[*Obj]Value{}, fam: map[*Fam]famState{}} }

func (m *Mem) clone() *Mem {
	n := &Mem{m: make(map[*Obj]Value, len(m.m)), fam: make(map[*Fam]famState, len(m.fam))}
	for k, v := range m.m {
		n.m[k] = v
	}
	for k, v := range m.fam {
		n.fam[k] = v
	}
	return n
}

func (m *Mem) get(o *Obj) Value {
	if m != nil {
		if v, ok := m.m[o]; ok {
			return v
		}
	}
	return o.init
}

// State of the abstract machine: reach is relative to ctx.
type State struct {
	ctx    *DD
	reach  *DD
	mem    *Mem
	defers *deferList
}

func (s *State) full() *DD { return s.ctx.and(s.reach) }

func (s *State) fork() *State {
	s.mem.shared = true
	c := *s
	return &c
}

func (s *State) wmem() *Mem {
	if s.mem.shared {
		s.mem = s.mem.clone()
	}
	return s.mem
}

func (s *State) set(o *Obj, v Value) { s.wmem().m[o] = v }

type deferList struct {
	prev *deferList
	d    *deferred
}

// viewSeq is the content of a slice value.
func viewSeq(m *Mem, s VSlice, ctx *DD) (Seq, bool) {
	if isZeroLin(s.len) {
		return nil, true
	}
	if s.inl != nil {
		return subSeq(*s.inl, s.off, s.len, ctx)
	}
	if s.obj == nil {
		return nil, true
	}
	if clobbered(m, s.obj, s.off.add(s.len), ctx) {
		return nil, false
	}
	v := m.get(s.obj)
	if base, ok := stepInto(v, s.path, ctx); ok {
		if q, ok := asSeq(base); ok {
			if r, ok := subSeq(q, s.off, s.len, ctx); ok {
				return r, true
			}
		}
	}
	// only what can be there when the slice is not empty
	c := ctx.and(condGE(s.len.addC(-1)))
	if !feasible(c) {
		return nil, true
	}
	base, ok := stepInto(simpVal(v, newSimp(c)), s.path, c)
	if !ok {
		return nil, false
	}
	q, ok := asSeq(base)
	if !ok {
		return nil, false
	}
	r, ok := subSeq(q, s.off, s.len, c)
	if !ok {
		return nil, false
	}
	if c != ctx {
		return mergeSeq(condGE(s.len.addC(-1)), r, nil), true
	}
	return r, true
}

func clobbered(m *Mem, o *Obj, end *Lin, ctx *DD) bool {
	if o.fam == nil || m == nil {
		return false
	}
	f, ok := m.fam[o.fam]
	if !ok || f.clob == nil || o.epoch >= f.epoch || f.owner == o {
		return false
	}
	e := end.add(o.famOff)
	return !entails(ctx, condGE(f.clob.sub(e)))
}

func asSeq(v Value) (Seq, bool) {
	switch x := v.(type) {
	case VSeq:
		return x.s, true
	case VArr:
		s := make(Seq, len(x.e))
		for i := range x.e {
			s[i] = IElem{x.e[i]}
		}
		return s, true
	case VStr:
		return x.s, true
	}
	return nil, false
}

// stepInto selects the part of v named by steps.
func stepInto(v Value, st []Step, ctx *DD) (Value, bool) {
	for _, s := range st {
		switch x := v.(type) {
		case VStruct:
			if s.idx != nil || s.field >= len(x.f) {
				return nil, false
			}
			v = x.f[s.field]
		case VArr:
			if s.idx == nil {
				return nil, false
			}
			if s.idx.isC() {
				if s.idx.c < 0 || s.idx.c >= int64(len(x.e)) {
					return nil, false
				}
				v = x.e[s.idx.c]
			} else {
				q, _ := asSeq(x)
				v = readSeq(q, s.idx, ctx)
			}
		case VSeq:
			if s.idx == nil {
				return nil, false
			}
			v = readSeq(x.s, s.idx, ctx)
		case VAlt:
			var r Value
			for i := len(x.gs) - 1; i >= 0; i-- {
				c := ctx.and(x.gs[i])
				if !feasible(c) {
					continue
				}
				w, ok := stepInto(x.vs[i], []Step{s}, c)
				if !ok {
					w = top("field of alternative")
				}
				if r == nil {
					r = w
				} else {
					r = mergeV(x.gs[i], w, r, nil)
				}
			}
			if r == nil {
				return nil, false
			}
			v = r
		default:
			return nil, false
		}
	}
	return v, true
}

// stepSet replaces the part of v named by steps.
func stepSet(v Value, st []Step, w Value, ctx *DD) (Value, bool) {
	if len(st) == 0 {
		return w, true
	}
	s := st[0]
	switch x := v.(type) {
	case VStruct:
		if s.idx != nil || s.field >= len(x.f) {
			return nil, false
		}
		n, ok := stepSet(x.f[s.field], st[1:], w, ctx)
		if !ok {
			return nil, false
		}
		r := VStruct{typ: x.typ, f: append([]Value{}, x.f...)}
		r.f[s.field] = n
		return r, true
	case VArr:
		if s.idx == nil {
			return nil, false
		}
		if s.idx.isC() {
			if s.idx.c < 0 || s.idx.c >= int64(len(x.e)) {
				return nil, false
			}
			n, ok := stepSet(x.e[s.idx.c], st[1:], w, ctx)
			if !ok {
				return nil, false
			}
			r := VArr{typ: x.typ, e: append([]Value{}, x.e...)}
			r.e[s.idx.c] = n
			return r, true
		}
		if len(x.e) > 64 {
			return nil, false
		}
		r := VArr{typ: x.typ, e: append([]Value{}, x.e...)}
		for i := range x.e {
			g := condEQ(s.idx.addC(-int64(i)))
			if g == False {
				continue
			}
			n, ok := stepSet(x.e[i], st[1:], w, ctx)
			if !ok {
				return nil, false
			}
			r.e[i] = mergeV(g, n, x.e[i], nil)
		}
		return r, true
	case VSeq:
		if s.idx == nil {
			return nil, false
		}
		n := w
		if len(st) > 1 {
			old := readSeq(x.s, s.idx, ctx)
			var ok bool
			n, ok = stepSet(old, st[1:], w, ctx)
			if !ok {
				return nil, false
			}
		}
		q, ok := writeSeq(x.s, s.idx, linC(1), Seq{IElem{n}}, ctx)
		if !ok {
			return nil, false
		}
		return VSeq{q}, true
	}
	return nil, false
}

// freeze makes a value independent of memory.
func freeze(v Value, m *Mem, ctx *DD) Value {
	switch x := v.(type) {
	case VSlice:
		if x.inl != nil {
			return x
		}
		if x.obj == nil {
			return x
		}
		s, ok := viewSeq(m, x, ctx)
		if !ok {
			if os.Getenv("VDEBUGLOOP") != "" {
				fmt.Fprintln(os.Stderr, "VIEW", valString(m.get(x.obj)))
			}
			return top("content of slice %s", valString(x))
		}
		s = freezeSeq(s, m, ctx)
		return VSlice{inl: &s, off: linZero(), len: x.len, cap: nil, nilg: x.nilg, et: x.et, al: x.prov()}
	case VStruct:
		r := VStruct{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = freeze(x.f[i], m, ctx)
		}
		return r
	case VArr:
		r := VArr{typ: x.typ, e: make([]Value, len(x.e))}
		for i := range x.e {
			r.e[i] = freeze(x.e[i], m, ctx)
		}
		return r
	case VTuple:
		r := make(VTuple, len(x))
		for i := range x {
			r[i] = freeze(x[i], m, ctx)
		}
		return r
	case VIface:
		if x.typ == nil {
			return x
		}
		return VIface{x.typ, freeze(x.v, m, ctx)}
	case VAlt:
		r := VAlt{gs: x.gs, vs: make([]Value, len(x.vs))}
		for i := range x.vs {
			c := ctx.and(x.gs[i])
			r.vs[i] = freeze(x.vs[i], m, c)
		}
		return r
	case VSeq:
		return VSeq{freezeSeq(x.s, m, ctx)}
	}
	return v
}

func freezeSeq(s Seq, m *Mem, ctx *DD) Seq {
	out := make(Seq, len(s))
	for i, it := range s {
		switch x := it.(type) {
		case IElem:
			out[i] = IElem{freeze(x.v, m, ctx)}
		case IAlt:
			a := IAlt{gs: x.gs, ss: make([]Seq, len(x.ss))}
			for k := range x.ss {
				a.ss[k] = freezeSeq(x.ss[k], m, ctx.and(x.gs[k]))
			}
			out[i] = a
		default:
			out[i] = it
		}
	}
	return out
}

// mergeStates joins states; gs[i] is the guard of state i among them.
func mergeStates(gs []*DD, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	r := &State{ctx: sts[0].ctx, reach: False, defers: sts[0].defers}
	for _, s := range sts {
		r.reach = r.reach.or(s.reach)
	}
	acc := sts[len(sts)-1]
	mem := acc.mem
	for i := len(sts) - 2; i >= 0; i-- {
		mem = mergeMem(gs[i], sts[i].mem, mem, r.ctx)
	}
	mem.shared = true
	r.mem = mem
	return r
}

func mergeMem(g *DD, a, b *Mem, ctx *DD) *Mem {
	if a == b {
		return a
	}
	out := newMem()
	mc := &mergeCtx{a, b, ctx}
	for o, v := range a.m {
		w, ok := b.m[o]
		if !ok {
			w = o.init
		}
		if sameVal(v, w) || !ok && o.born {
			out.m[o] = v
		} else {
			out.m[o] = mergeV(g, v, w, mc)
		}
	}
	for o, w := range b.m {
		if _, ok := a.m[o]; ok {
			continue
		}
		if sameVal(o.init, w) || o.born {
			out.m[o] = w
		} else {
			out.m[o] = mergeV(g, o.init, w, mc)
		}
	}
	for f, x := range a.fam {
		y, ok := b.fam[f]
		if !ok || x == y {
			out.fam[f] = x
			continue
		}
		z := famState{hw: ite(g, x.hw, y.hw), epoch: x.epoch, clob: x.clob}
		if x.owner == y.owner {
			z.owner = x.owner
		}
		if y.epoch > z.epoch {
			z.epoch = y.epoch
		}
		if z.clob == nil {
			z.clob = y.clob
		} else if y.clob != nil && y.clob != z.clob {
			z.clob = linZero()
		}
		out.fam[f] = z
	}
	for f, y := range b.fam {
		if _, ok := a.fam[f]; !ok {
			out.fam[f] = y
		}
	}
	return out
}

// ---------------------------------------------------------------- restrict

var restrictMemo = map[ddPair]*DD{}

// restrict simplifies f using don't-cares outside c (syntactically).
func restrict(f, c *DD) *DD {
	if c == True || f.term() {
		return f
	}
	if c == False {
		return f
	}
	if f == c {
		return True
	}
	k := ddPair{f, c}
	if r, ok := restrictMemo[k]; ok {
		return r
	}
	var r *DD
	switch {
	case f.v == c.v:
		// walk the merged intervals
		type pc struct {
			cut int64
			kid *DD
		}
		var cuts []int64
		var kids []*DD
		i, j := 0, 0
		for {
			if c.kids[j] == False {
				kids = append(kids, nil)
			} else {
				kids = append(kids, restrict(f.kids[i], c.kids[j]))
			}
			ci, cj := i < len(f.cuts), j < len(c.cuts)
			if !ci && !cj {
				break
			}
			switch {
			case ci && cj && f.cuts[i] == c.cuts[j]:
				cuts = append(cuts, f.cuts[i])
				i++
				j++
			case ci && (!cj || f.cuts[i] < c.cuts[j]):
				cuts = append(cuts, f.cuts[i])
				i++
			default:
				cuts = append(cuts, c.cuts[j])
				j++
			}
		}
		var last *DD
		for i := range kids {
			if kids[i] == nil {
				kids[i] = last
			}
			last = kids[i]
		}
		last = nil
		for i := len(kids) - 1; i >= 0; i-- {
			if kids[i] == nil {
				kids[i] = last
			}
			last = kids[i]
		}
		r = mkDD(f.v, cuts, kids)
	case ddLess(f.v, c.v):
		kids := make([]*DD, len(f.kids))
		for i, x := range f.kids {
			kids[i] = restrict(x, c)
		}
		r = mkDD(f.v, f.cuts, kids)
	default:
		u := False
		for _, x := range c.kids {
			u = u.or(x)
		}
		r = restrict(f, u)
	}
	restrictMemo[k] = r
	return r
}
