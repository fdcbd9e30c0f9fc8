package main

// Simplification under a guard and semantic equality of values.

import (
	"fmt"
	"go/types"
)

// ---------------------------------------------------------------- simplification

type Simp struct {
	ctx *DD
	lm  map[*Lin]*Lin
	am  map[*Atom]*Lin
	dm  map[*DD]*DD
	pm  map[*Path]*Path
	n   int
}

var simpCache = map[*DD]*Simp{}

func newSimp(ctx *DD) *Simp {
	if s, ok := simpCache[ctx]; ok {
		return s
	}
	if len(simpCache) > 20000 {
		simpCache = map[*DD]*Simp{}
	}
	s := &Simp{ctx: ctx, lm: map[*Lin]*Lin{}, am: map[*Atom]*Lin{}, dm: map[*DD]*DD{}, pm: map[*Path]*Path{}}
	simpCache[ctx] = s
	return s
}

func (s *Simp) lin(l *Lin) *Lin {
	if l.isC() || s.ctx == True {
		return l
	}
	if r, ok := s.lm[l]; ok {
		return r
	}
	r := linC(l.c)
	for _, x := range l.t {
		r = r.addk(s.atom(x.a), x.k)
	}
	s.lm[l] = r
	return r
}

func (s *Simp) guard(g *DD) *DD {
	if g.term() {
		return g
	}
	if r, ok := s.dm[g]; ok {
		return r
	}
	var r *DD
	switch {
	case entails(s.ctx, g):
		r = True
	case entails(s.ctx, g.not()):
		r = False
	default:
		r = g
	}
	s.dm[g] = r
	return r
}

func (s *Simp) path(p *Path) *Path {
	if p.kind == PRoot {
		return p
	}
	if r, ok := s.pm[p]; ok {
		return r
	}
	q := s.path(p.parent)
	var r *Path
	switch p.kind {
	case PField:
		r = q.field(p.name, p.typ)
	case PIndex:
		r = q.index(s.lin(p.idx), p.typ)
	case PAssert:
		r = q.assert(p.typ)
	case PDeref:
		r = q.deref(p.typ)
	}
	s.pm[p] = r
	return r
}

func (s *Simp) atom(a *Atom) *Lin {
	if r, ok := s.am[a]; ok {
		return r
	}
	r := s.atom0(a)
	s.am[a] = r
	return r
}

func (s *Simp) atom0(a *Atom) *Lin {
	if a.k != AG && a.k != AFF {
		if lo, hi := s.ctx.atomRange(a); lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.IsInt64() {
			return linC(lo.Int64())
		}
	}
	switch a.k {
	case ASym:
		if a.name == "isnil" {
			return linAtom(nilAtom(s.path(a.path)))
		}
		return linAtom(symAtom(s.path(a.path)))
	case ALen:
		return linAtom(lenAtom(s.path(a.path)))
	case ACap:
		return linAtom(capAtom(s.path(a.path)))
	case AType:
		return linAtom(typeAtom(s.path(a.path)))
	case AFF:
		b := s.atom(a.base)
		if len(b.t) == 1 && b.t[0].a == a.base {
			lo, hi := s.ctx.atomRange(a.base)
			if lo != nil && hi != nil && lo.IsInt64() && hi.IsInt64() {
				bl := a.base.lo.Int64()
				same := true
				for v := lo.Int64(); v <= hi.Int64(); v++ {
					if a.tab[v-bl] != a.tab[lo.Int64()-bl] {
						same = false
						break
					}
				}
				if same && lo.Cmp(hi) <= 0 {
					return linC(a.tab[lo.Int64()-bl])
				}
			}
			return linAtom(a)
		}
		return a.subst(Sub{a.base: b})
	case AG:
		g := s.guard(a.g)
		if a.inner == nil {
			return mkG(g, nil)
		}
		return gmul(g, s.atom(a.inner))
	case ABits:
		return mkBits(s.lin(a.l), a.n1, a.n2)
	case AShr:
		return mkShr(s.lin(a.l), a.n1)
	case ASum:
		n := s.lin(a.num)
		b := a.body
		if frHas(s.ctx.fr(), a.j) {
			return sumAtom(n, a.j, b, a.dom)
		}
		return sumAtom(n, a.j, s.lin(b), a.dom)
	case AClass:
		st := make([]*Lin, len(a.starts))
		for i, l := range a.starts {
			st[i] = s.lin(l)
		}
		return a.cls.component(a.name, a.n1, st)
	case AOpq:
		as := make([]*Lin, len(a.args))
		ch := false
		for i, l := range a.args {
			as[i] = s.lin(l)
			ch = ch || as[i] != l
		}
		if !ch {
			return linAtom(a)
		}
		if a.name == "mul" {
			return mulLin(as[0], as[1])
		}
		if a.name == "mulnn" {
			return mulNN(as[0], as[1])
		}
		n := opqAtom(a.name, as, a.lo, a.hi)
		n.lenish = a.lenish
		return linAtom(n)
	}
	return linAtom(a)
}

func simpSeq(q Seq, s *Simp) Seq {
	if s.ctx == True {
		return q
	}
	var out Seq
	for _, it := range q {
		switch x := it.(type) {
		case IElem:
			out = out.cat(IElem{simpVal(x.v, s)})
		case ISub:
			out = out.cat(ISub{s.path(x.p), s.lin(x.off), s.lin(x.n), x.et})
		case IZero:
			out = out.cat(IZero{s.lin(x.n), x.et})
		case IRep:
			if frHas(s.ctx.fr(), x.j) {
				out = out.cat(IRep{s.lin(x.n), x.j, x.body, x.dom})
			} else {
				out = out.cat(IRep{s.lin(x.n), x.j, simpSeq(x.body, s), x.dom})
			}
		case IScan:
			st := make([]*Lin, len(x.starts))
			for i, l := range x.starts {
				st[i] = s.lin(l)
			}
			out = out.cat(IScan{x.cls, st, x.body, s.lin(x.n)})
		case IAlt:
			var a IAlt
			for i := range x.gs {
				g := s.guard(x.gs[i])
				if g == False {
					continue
				}
				a.gs = append(a.gs, g)
				a.ss = append(a.ss, simpSeq(x.ss[i], s))
				if g == True {
					a.gs, a.ss = a.gs[len(a.gs)-1:], a.ss[len(a.ss)-1:]
					break
				}
			}
			out = out.cat(a)
		case IOpq:
			y := IOpq{key: x.key, n: s.lin(x.n)}
			for _, v := range x.args {
				y.args = append(y.args, simpVal(v, s))
			}
			out = out.cat(y)
		default:
			out = out.cat(it)
		}
	}
	return out
}

func simpVal(v Value, s *Simp) Value {
	if s.ctx == True {
		return v
	}
	switch x := v.(type) {
	case *Lin:
		return s.lin(x)
	case *DD:
		return s.guard(x)
	case VStr:
		return VStr{simpSeq(x.s, s)}
	case VSlice:
		y := x
		y.off, y.len = s.lin(x.off), s.lin(x.len)
		if x.cap != nil {
			y.cap = s.lin(x.cap)
		}
		if x.inl != nil {
			q := simpSeq(*x.inl, s)
			y.inl = &q
		}
		return y
	case VStruct:
		r := VStruct{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = simpVal(x.f[i], s)
		}
		return r
	case VArr:
		r := VArr{typ: x.typ, e: make([]Value, len(x.e))}
		for i := range x.e {
			r.e[i] = simpVal(x.e[i], s)
		}
		return r
	case VIface:
		if x.typ == nil {
			return x
		}
		return VIface{x.typ, simpVal(x.v, s)}
	case VSym:
		return VSym{s.path(x.p), x.typ}
	case VTuple:
		r := make(VTuple, len(x))
		for i := range x {
			r[i] = simpVal(x[i], s)
		}
		return r
	case VAlt:
		var r VAlt
		for i := range x.gs {
			g := s.guard(x.gs[i])
			if g == False {
				continue
			}
			if g == True {
				return simpVal(x.vs[i], s)
			}
			r.gs = append(r.gs, g)
			r.vs = append(r.vs, simpVal(x.vs[i], s))
		}
		if len(r.vs) == 1 {
			return r.vs[0]
		}
		if len(r.vs) == 0 {
			return x
		}
		return r
	case VOpq:
		y := VOpq{key: x.key, typ: x.typ}
		for _, a := range x.args {
			y.args = append(y.args, simpVal(a, s))
		}
		return y
	}
	return v
}

// ---------------------------------------------------------------- equality

// Diff explains why two values could not be shown equal.
type Diff struct {
	where string
	why   string
	ctx   *DD
}

func (d *Diff) String() string {
	if d == nil {
		return ""
	}
	c := d.ctx.String()
	if len(c) > 700 {
		c = c[:700] + "..."
	}
	return fmt.Sprintf("at %s: %s (under %s)", d.where, d.why, c)
}

var eqBudget int

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// equalVal compares frozen values a and b wherever ctx holds.
func equalVal(a, b Value, ctx *DD, where string) *Diff {
	eqBudget = 20000
	return eqV(a, b, ctx, where)
}

func eqV(a, b Value, ctx *DD, where string) *Diff {
	if sameVal(a, b) {
		if t, ok := a.(VTop); ok {
			return &Diff{where, "undecided: " + t.why, ctx}
		}
		return nil
	}
	if !feasible(ctx) {
		return nil
	}
	eqBudget--
	if eqBudget < 0 {
		return &Diff{where, "comparison budget exhausted", ctx}
	}
	s := newSimp(ctx)
	a, b = simpVal(a, s), simpVal(b, s)
	if x, ok := a.(VAlt); ok {
		return eqAlt(x, b, ctx, where, false)
	}
	if y, ok := b.(VAlt); ok {
		return eqAlt(y, a, ctx, where, true)
	}
	bad := func() *Diff {
		return &Diff{where, fmt.Sprintf("have %s, want %s", short(valString(a)), short(valString(b))), ctx}
	}
	switch x := a.(type) {
	case *Lin:
		if y, ok := b.(*Lin); ok {
			if eqL(x, y, ctx, 0) {
				return nil
			}
		}
	case *DD:
		if y, ok := b.(*DD); ok && eqDD(x, y, ctx) {
			return nil
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return eqS(x.s, y.s, ctx, where)
		}
	case VSlice:
		y, ok := b.(VSlice)
		if !ok {
			break
		}
		if (x.obj != nil && x.obj.sym == nil) || (y.obj != nil && y.obj.sym == nil) {
			return &Diff{where, "internal: unfrozen slice", ctx}
		}
		sx, ok1 := viewSeq(nil, x, ctx)
		sy, ok2 := viewSeq(nil, y, ctx)
		if !ok1 || !ok2 {
			return &Diff{where, fmt.Sprintf("undecided: slice content %s / %s", short(valString(x)), short(valString(y))), ctx}
		}
		return eqS(sx, sy, ctx, where)
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.f) != len(y.f) {
			break
		}
		st := x.typ.Underlying().(*types.Struct)
		for i := range x.f {
			if d := eqV(x.f[i], y.f[i], ctx, where+"."+st.Field(i).Name()); d != nil {
				return d
			}
		}
		return nil
	case VArr:
		y, ok := b.(VArr)
		if !ok || len(x.e) != len(y.e) {
			break
		}
		for i := range x.e {
			if d := eqV(x.e[i], y.e[i], ctx, fmt.Sprintf("%s[%d]", where, i)); d != nil {
				return d
			}
		}
		return nil
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x) != len(y) {
			break
		}
		for i := range x {
			if d := eqV(x[i], y[i], ctx, fmt.Sprintf("%s#%d", where, i)); d != nil {
				return d
			}
		}
		return nil
	case VIface:
		switch y := b.(type) {
		case VIface:
			if x.typ == nil && y.typ == nil {
				return nil
			}
			if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
				return eqV(x.v, y.v, ctx, where)
			}
			return &Diff{where, fmt.Sprintf("dynamic type: have %s, want %s", short(valString(a)), short(valString(b))), ctx}
		case VSym:
			return eqIfaceSym(x, y, ctx, where)
		}
	case VSym:
		if y, ok := b.(VIface); ok {
			return eqIfaceSym(y, x, ctx, where)
		}
		if y, ok := b.(VSym); ok && eqPath(x.p, y.p, ctx, 0) {
			return nil
		}
	case VOpq:
		if y, ok := b.(VOpq); ok && x.key == y.key && len(x.args) == len(y.args) {
			for i := range x.args {
				if d := eqV(x.args[i], y.args[i], ctx, where+"("+x.key+")"); d != nil {
					return d
				}
			}
			return nil
		}
	case VTop:
		return &Diff{where, "undecided: " + x.why, ctx}
	}
	if y, ok := b.(VTop); ok {
		return &Diff{where, "undecided: " + y.why, ctx}
	}
	return bad()
}

func eqIfaceSym(x VIface, y VSym, ctx *DD, where string) *Diff {
	ta := linAtom(typeAtom(y.p))
	code := int64(0)
	if x.typ != nil {
		code = typeCode(x.typ)
	}
	if !entails(ctx, condEQ(ta.addC(-code))) {
		return &Diff{where, fmt.Sprintf("dynamic type of %s is not known to be that of %s", y.p, short(valString(x))), ctx}
	}
	if x.typ == nil {
		return nil
	}
	return eqV(x.v, materialise(y.p.assert(x.typ)), ctx, where)
}

func eqAlt(x VAlt, b Value, ctx *DD, where string, swap bool) *Diff {
	rest := ctx
	for i := range x.gs {
		c := rest.and(x.gs[i])
		if i == len(x.gs)-1 {
			c = rest
		}
		rest = rest.and(x.gs[i].not())
		if !feasible(c) {
			continue
		}
		var d *Diff
		if swap {
			d = eqV(b, x.vs[i], c, where)
		} else {
			d = eqV(x.vs[i], b, c, where)
		}
		if d != nil {
			return d
		}
	}
	return nil
}

func eqPath(p, q *Path, ctx *DD, depth int) bool {
	if p == q {
		return true
	}
	if p.kind != q.kind || p.name != q.name {
		return false
	}
	if p.kind == PRoot {
		return false
	}
	if p.kind == PIndex && !eqL(p.idx, q.idx, ctx, depth+1) {
		return false
	}
	if p.kind == PAssert && !types.Identical(p.typ, q.typ) {
		return false
	}
	return eqPath(p.parent, q.parent, ctx, depth)
}

// eqL shows a == b under ctx.
func eqL(a, b *Lin, ctx *DD, depth int) bool {
	if a == b {
		return true
	}
	if depth > 6 {
		return false
	}
	if depth > 0 {
		s := newSimp(ctx)
		a, b = s.lin(a), s.lin(b)
	}
	if eqLin(a, b, ctx) {
		return true
	}
	d := a.sub(b)
	if d.isC() {
		return false
	}
	// congruence: cancel atoms that are equal under ctx
	ts := append([]Term{}, d.t...)
	c := d.c
	changed := false
	for i := range ts {
		if ts[i].k == 0 {
			continue
		}
		for j := i + 1; j < len(ts); j++ {
			if ts[j].k == 0 || (ts[i].k > 0) == (ts[j].k > 0) {
				continue
			}
			if eqAtom(ts[i].a, ts[j].a, ctx, depth) {
				ts[i].k += ts[j].k
				ts[j].k = 0
				changed = true
				if ts[i].k == 0 {
					break
				}
			}
		}
	}
	if changed {
		m := map[*Atom]int64{}
		for _, t := range ts {
			if t.k != 0 {
				m[t.a] += t.k
			}
		}
		r := buildLin(c, m)
		if eqLin(r, linZero(), ctx) {
			return true
		}
		d = r
	}
	// split on a guard
	if g := firstGuard(d); g != nil && depth < 5 {
		c1, c2 := ctx.and(g), ctx.and(g.not())
		if c1 != ctx && c2 != ctx {
			return (!feasible(c1) || eqL(assumeS(a, g, true), assumeS(b, g, true), c1, depth+1)) &&
				(!feasible(c2) || eqL(assumeS(a, g, false), assumeS(b, g, false), c2, depth+1))
		}
	}
	return false
}

func eqAtom(a, b *Atom, ctx *DD, depth int) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case ASym:
		return a.name == b.name && eqPath(a.path, b.path, ctx, depth)
	case ALen, ACap, AType:
		return eqPath(a.path, b.path, ctx, depth)
	case ABits:
		return a.n1 == b.n1 && a.n2 == b.n2 && eqL(a.l, b.l, ctx, depth+1)
	case AShr:
		return a.n1 == b.n1 && eqL(a.l, b.l, ctx, depth+1)
	case AFF:
		if len(a.tab) != len(b.tab) {
			return false
		}
		for i := range a.tab {
			if a.tab[i] != b.tab[i] {
				return false
			}
		}
		return eqAtom(a.base, b.base, ctx, depth)
	case ASum:
		if !eqL(a.num, b.num, ctx, depth+1) {
			return false
		}
		j := freshAtom("j", bi(0), nil)
		c := instCtx(ctx, a.num, j)
		x, y := a.body.subst(Sub{a.j: linAtom(j)}), b.body.subst(Sub{b.j: linAtom(j)})
		return eqL(x, y, c, depth+1)
	case AOpq:
		if a.name != b.name || len(a.args) != len(b.args) {
			return false
		}
		for i := range a.args {
			if !eqL(a.args[i], b.args[i], ctx, depth+1) {
				return false
			}
		}
		return true
	case AClass:
		if a.cls != b.cls || a.name != b.name || a.n1 != b.n1 {
			return false
		}
		for i := range a.starts {
			if !eqL(a.starts[i], b.starts[i], ctx, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// instCtx adds 0<=j<n and what ctx says about all indices below n.
func instCtx(ctx *DD, n *Lin, j *Atom) *DD {
	c := ctx.and(condGE(linAtom(j))).and(condGT(n.sub(linAtom(j))))
	var exs []*Atom
	atomsOfDD(ctx, map[*DD]bool{}, func(a *Atom) {
		if a.k == AExists && (a.num == n || eqLin(a.num, n, ctx)) {
			exs = append(exs, a)
		}
	})
	for _, e := range exs {
		if entails(ctx, boolAtom(e).not()) {
			c = c.and(e.pred.subst(Sub{e.j: linAtom(j)}).not())
		}
	}
	return c
}

func eqS(a, b Seq, ctx *DD, where string) *Diff {
	pos := 0
	for {
		eqBudget--
		if eqBudget < 0 {
			return &Diff{where, "comparison budget exhausted", ctx}
		}
		for len(a) > 0 && len(b) > 0 && sameItem(a[0], b[0]) {
			if e, ok := a[0].(IElem); ok {
				if t, ok := e.v.(VTop); ok {
					return &Diff{where, "undecided: " + t.why, ctx}
				}
			}
			a, b = a[1:], b[1:]
			pos++
		}
		if len(a) == 0 && len(b) == 0 {
			return nil
		}
		if !feasible(ctx) {
			return nil
		}
		w := fmt.Sprintf("%s[item %d]", where, pos)
		if len(a) == 0 || len(b) == 0 {
			rest := a
			side := "extra"
			if len(a) == 0 {
				rest = b
				side = "missing"
			}
			// drop a head that may be empty
			if alt, ok := rest[0].(IAlt); ok {
				for i := range alt.gs {
					c := ctx.and(alt.gs[i])
					if !feasible(c) {
						continue
					}
					s := newSimp(c)
					r := Seq(nil).cat(simpSeq(alt.ss[i], s)...).cat(simpSeq(rest[1:], s)...)
					var d *Diff
					if len(a) == 0 {
						d = eqS(nil, r, c, where)
					} else {
						d = eqS(r, nil, c, where)
					}
					if d != nil {
						return d
					}
				}
				return nil
			}
			n := rest.size()
			if entails(ctx, condGE(n.neg())) {
				return nil
			}
			return &Diff{w, fmt.Sprintf("%s %s", side, short(seqString(rest))), ctx}
		}
		// alternatives: split
		if alt, ok := a[0].(IAlt); ok {
			return eqSAlt(alt, a[1:], b, ctx, where, false)
		}
		if alt, ok := b[0].(IAlt); ok {
			return eqSAlt(alt, b[1:], a, ctx, where, true)
		}
		// empty heads
		za := a[0].size()
		if _, ok := a[0].(IElem); !ok && entails(ctx, condGE(za.neg())) {
			a = a[1:]
			continue
		}
		zb := b[0].size()
		if _, ok := b[0].(IElem); !ok && entails(ctx, condGE(zb.neg())) {
			b = b[1:]
			continue
		}
		adv, na, nb, d, split := eqHead(a, b, ctx, w)
		if d != nil {
			return d
		}
		if split != nil {
			c1, c2 := ctx.and(split), ctx.and(split.not())
			for _, c := range []*DD{c1, c2} {
				if !feasible(c) {
					continue
				}
				s := newSimp(c)
				if d := eqS(simpSeq(a, s), simpSeq(b, s), c, where); d != nil {
					return d
				}
			}
			return nil
		}
		if adv {
			a, b = na, nb
			pos++
		}
	}
}

func eqSAlt(alt IAlt, rest, other Seq, ctx *DD, where string, swap bool) *Diff {
	left := ctx
	for i := range alt.gs {
		c := left.and(alt.gs[i])
		if i == len(alt.gs)-1 {
			c = left
		}
		left = left.and(alt.gs[i].not())
		if !feasible(c) {
			continue
		}
		s := newSimp(c)
		x := Seq(nil).cat(simpSeq(alt.ss[i], s)...).cat(simpSeq(rest, s)...)
		y := simpSeq(other, s)
		var d *Diff
		if swap {
			d = eqS(y, x, c, where)
		} else {
			d = eqS(x, y, c, where)
		}
		if d != nil {
			return d
		}
	}
	return nil
}

// takeOne splits the first element off a sequence whose head is not an Alt.
func takeOne(s Seq, ctx *DD) (v Value, rest Seq, split *DD, ok bool) {
	switch x := s[0].(type) {
	case IElem:
		return x.v, s[1:], nil, true
	case ISub, IZero, IRep:
		n := s[0].size()
		if !entails(ctx, condGE(n.addC(-1))) {
			return nil, nil, condGE(n.addC(-1)), true
		}
		if r, ok := x.(IRep); ok {
			k := r.body.size()
			if !k.isC() || k.c != 1 {
				// peel one round
				b := substSeq(r.body, VSub{m: Sub{r.j: linZero()}})
				rest := Seq(nil).cat(b...).cat(IRep{r.n.addC(-1), r.j, substSeq(r.body, VSub{m: Sub{r.j: linAtom(r.j).addC(1)}}), nil}).cat(s[1:]...)
				if len(b) > 0 {
					if e, ok := b[0].(IElem); ok {
						return e.v, rest[1:], nil, true
					}
				}
				return nil, nil, nil, false
			}
		}
		v := readItem(s[0], linZero(), ctx, 0)
		if v == nil {
			return nil, nil, nil, false
		}
		_, b, ok := cutItem(s[0], linC(1), ctx, 0)
		if !ok {
			return nil, nil, nil, false
		}
		return v, Seq(nil).cat(b...).cat(s[1:]...), nil, true
	}
	return nil, nil, nil, false
}

func eqHead(a, b Seq, ctx *DD, where string) (adv bool, na, nb Seq, d *Diff, split *DD) {
	mism := func() *Diff {
		return &Diff{where, fmt.Sprintf("have %s, want %s", short(itemString(a[0])), short(itemString(b[0]))), ctx}
	}
	switch x := a[0].(type) {
	case ISub:
		if y, ok := b[0].(ISub); ok && eqPath(x.p, y.p, ctx, 0) {
			if !eqL(x.off, y.off, ctx, 0) {
				return false, nil, nil, mism(), nil
			}
			if x.n == y.n || eqL(x.n, y.n, ctx, 0) {
				return true, a[1:], b[1:], nil, nil
			}
			dd := y.n.sub(x.n)
			if entails(ctx, condGE(dd)) {
				return true, a[1:], Seq{ISub{y.p, y.off.add(x.n), dd, y.et}}.cat(b[1:]...), nil, nil
			}
			if entails(ctx, condGE(dd.neg())) {
				return true, Seq{ISub{x.p, x.off.add(y.n), dd.neg(), x.et}}.cat(a[1:]...), b[1:], nil, nil
			}
			return false, nil, nil, nil, condGE(dd)
		}
	case IZero:
		if y, ok := b[0].(IZero); ok {
			if x.n == y.n || eqL(x.n, y.n, ctx, 0) {
				return true, a[1:], b[1:], nil, nil
			}
			dd := y.n.sub(x.n)
			if entails(ctx, condGE(dd)) {
				return true, a[1:], Seq{IZero{dd, y.et}}.cat(b[1:]...), nil, nil
			}
			if entails(ctx, condGE(dd.neg())) {
				return true, Seq{IZero{dd.neg(), x.et}}.cat(a[1:]...), b[1:], nil, nil
			}
			return false, nil, nil, nil, condGE(dd)
		}
	case IRep:
		if y, ok := b[0].(IRep); ok {
			kx, ky := x.body.size(), y.body.size()
			if eqL(x.n, y.n, ctx, 0) {
				j := freshAtom("j", bi(0), nil)
				c := instCtx(ctx, x.n, j)
				sx := substSeq(x.body, VSub{m: Sub{x.j: linAtom(j)}})
				sy := substSeq(y.body, VSub{m: Sub{y.j: linAtom(j)}})
				s := newSimp(c)
				if d := eqS(simpSeq(sx, s), simpSeq(sy, s), c, where+".each"); d != nil {
					return false, nil, nil, d, nil
				}
				return true, a[1:], b[1:], nil, nil
			}
			_ = kx
			_ = ky
			if g := firstGuard(x.n.sub(y.n)); g != nil && !entails(ctx, g) && !entails(ctx, g.not()) {
				return false, nil, nil, nil, g
			}
			return false, nil, nil, mism(), nil
		}
	case IScan:
		y, ok := b[0].(IScan)
		if !ok {
			return false, nil, nil, mism(), nil
		}
		if x.cls != y.cls {
			return false, nil, nil, &Diff{where, "different parsing loops: " + classDiff(x.cls, y.cls), ctx}, nil
		}
		for i := range x.starts {
			if !eqL(x.starts[i], y.starts[i], ctx, 0) {
				return false, nil, nil, &Diff{where, fmt.Sprintf("loop starts at %s, want %s", x.starts[i], y.starts[i]), ctx}, nil
			}
		}
		c := ctx.and(x.cls.cont).and(x.cls.panicG.not())
		for _, iv := range x.cls.inv {
			c = c.and(iv)
		}
		s := newSimp(c)
		if d := eqS(simpSeq(x.body, s), simpSeq(y.body, s), c, where+".each"); d != nil {
			return false, nil, nil, d, nil
		}
		return true, a[1:], b[1:], nil, nil
	case IOpq:
		if y, ok := b[0].(IOpq); ok && x.key == y.key && len(x.args) == len(y.args) {
			for i := range x.args {
				if d := eqV(x.args[i], y.args[i], ctx, where+"("+x.key+")"); d != nil {
					return false, nil, nil, d, nil
				}
			}
			return true, a[1:], b[1:], nil, nil
		}
		return false, nil, nil, mism(), nil
	}
	// element by element
	v1, r1, sp1, ok1 := takeOne(a, ctx)
	if !ok1 {
		return false, nil, nil, mism(), nil
	}
	if sp1 != nil {
		return false, nil, nil, nil, sp1
	}
	v2, r2, sp2, ok2 := takeOne(b, ctx)
	if !ok2 {
		return false, nil, nil, mism(), nil
	}
	if sp2 != nil {
		return false, nil, nil, nil, sp2
	}
	if d := eqV(v1, v2, ctx, where); d != nil {
		return false, nil, nil, d, nil
	}
	return true, r1, r2, nil, nil
}
