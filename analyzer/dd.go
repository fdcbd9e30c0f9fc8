package main

// Guards: interval decision diagrams over linear expressions, with a
// polyhedral feasibility test (Fourier-Motzkin elimination over the atoms).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type DD struct {
	id   int
	v    *Lin    // decision expression (no constant term, primitive)
	cuts []int64 // increasing; kid i covers [cuts[i-1], cuts[i])
	kids []*DD
	frc  []*Atom
	frOK bool
	h    int
	hOK  bool
	feas int // 0 unknown, 1 feasible, 2 infeasible
	neg  *DD
	os   *Atom
	osOK bool
}

var (
	True  = &DD{id: 1}
	False = &DD{id: 0}
	ddTab = map[string]*DD{}
	ddN   = 2
)

func boolDD(b bool) *DD {
	if b {
		return True
	}
	return False
}

func (d *DD) term() bool { return d.v == nil }

func mkDD(v *Lin, cuts []int64, kids []*DD) *DD {
	// merge equal neighbours
	var c2 []int64
	k2 := []*DD{kids[0]}
	for i := 1; i < len(kids); i++ {
		if kids[i] == k2[len(k2)-1] {
			continue
		}
		c2 = append(c2, cuts[i-1])
		k2 = append(k2, kids[i])
	}
	if len(k2) == 1 {
		return k2[0]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", v.id)
	for _, c := range c2 {
		fmt.Fprintf(&sb, ",%d", c)
	}
	for _, k := range k2 {
		fmt.Fprintf(&sb, ";%d", k.id)
	}
	if d, ok := ddTab[sb.String()]; ok {
		return d
	}
	d := &DD{id: ddN, v: v, cuts: c2, kids: k2}
	ddN++
	ddTab[sb.String()] = d
	return d
}

func (d *DD) fr() []*Atom {
	if d.term() {
		return nil
	}
	if !d.frOK {
		frs := [][]*Atom{d.v.fr}
		for _, k := range d.kids {
			frs = append(frs, k.fr())
		}
		d.frc = frUnion(frs...)
		d.frOK = true
	}
	return d.frc
}

func (d *DD) height() int {
	if d.term() {
		return 0
	}
	if !d.hOK {
		h := linHeight(d.v)
		for _, k := range d.kids {
			if x := k.height(); x > h {
				h = x
			}
		}
		d.h, d.hOK = h, true
	}
	return d.h
}

// onlySmall returns the small atom that is the only thing d depends on.
func (d *DD) onlySmall() *Atom {
	if d.term() {
		return nil
	}
	if d.osOK {
		return d.os
	}
	d.osOK = true
	if len(d.v.t) != 1 || d.v.t[0].k != 1 || !d.v.t[0].a.small() {
		return nil
	}
	for _, k := range d.kids {
		if !k.term() {
			return nil
		}
	}
	d.os = d.v.t[0].a
	return d.os
}

func (d *DD) evalSmall(v int64) bool {
	for !d.term() {
		i := sort.Search(len(d.cuts), func(i int) bool { return d.cuts[i] > v })
		d = d.kids[i]
	}
	return d == True
}

type ddPair struct{ a, b *DD }

var andMemo = map[ddPair]*DD{}

func (d *DD) and(e *DD) *DD {
	if d == e || e == True {
		return d
	}
	if d == True {
		return e
	}
	if d == False || e == False {
		return False
	}
	if d.id > e.id {
		d, e = e, d
	}
	k := ddPair{d, e}
	if r, ok := andMemo[k]; ok {
		return r
	}
	var r *DD
	switch {
	case d.v == e.v:
		// merge cuts
		var cuts []int64
		var kids []*DD
		i, j := 0, 0
		for {
			kids = append(kids, d.kids[i].and(e.kids[j]))
			ci, cj := i < len(d.cuts), j < len(e.cuts)
			if !ci && !cj {
				break
			}
			switch {
			case ci && cj && d.cuts[i] == e.cuts[j]:
				cuts = append(cuts, d.cuts[i])
				i++
				j++
			case ci && (!cj || d.cuts[i] < e.cuts[j]):
				cuts = append(cuts, d.cuts[i])
				i++
			default:
				cuts = append(cuts, e.cuts[j])
				j++
			}
		}
		r = mkDD(d.v, cuts, kids)
	case ddLess(d.v, e.v):
		kids := make([]*DD, len(d.kids))
		for i, x := range d.kids {
			kids[i] = x.and(e)
		}
		r = mkDD(d.v, d.cuts, kids)
	default:
		kids := make([]*DD, len(e.kids))
		for i, x := range e.kids {
			kids[i] = d.and(x)
		}
		r = mkDD(e.v, e.cuts, kids)
	}
	andMemo[k] = r
	return r
}

func ddLess(a, b *Lin) bool { return a.id < b.id }

func (d *DD) not() *DD {
	if d == True {
		return False
	}
	if d == False {
		return True
	}
	if d.neg != nil {
		return d.neg
	}
	kids := make([]*DD, len(d.kids))
	for i, k := range d.kids {
		kids[i] = k.not()
	}
	n := mkDD(d.v, d.cuts, kids)
	d.neg = n
	n.neg = d
	return n
}

func (d *DD) or(e *DD) *DD  { return d.not().and(e.not()).not() }
func (d *DD) xor(e *DD) *DD { return d.and(e.not()).or(e.and(d.not())) }
func iteDD(g, a, b *DD) *DD { return g.and(a).or(g.not().and(b)) }

// atomRange is the interval of atom a implied by d (single-atom nodes only).
func (d *DD) atomRange(a *Atom) (lo, hi *big.Int) {
	lo, hi = a.lo, a.hi
	if d.term() {
		return
	}
	if !d.mentions(a) {
		return
	}
	var l2, h2 *big.Int
	any, linf, hinf := false, false, false
	memo := map[*DD]bool{}
	var rec func(x *DD, lo, hi *big.Int)
	rec = func(x *DD, lo, hi *big.Int) {
		if x == False {
			return
		}
		if lo != nil && hi != nil && lo.Cmp(hi) > 0 {
			return
		}
		if !x.term() && x.mentions(a) {
			if len(x.v.t) == 1 && x.v.t[0].a == a {
				for i, k := range x.kids {
					l, h := lo, hi
					if i > 0 {
						c := bi(x.cuts[i-1])
						if l == nil || c.Cmp(l) > 0 {
							l = c
						}
					}
					if i < len(x.cuts) {
						c := bi(x.cuts[i] - 1)
						if h == nil || c.Cmp(h) < 0 {
							h = c
						}
					}
					rec(k, l, h)
				}
				return
			}
			if memo[x] {
				return
			}
			memo[x] = true
			for _, k := range x.kids {
				rec(k, lo, hi)
			}
			return
		}
		if !any {
			any = true
			l2, h2 = lo, hi
			linf, hinf = lo == nil, hi == nil
			return
		}
		if lo == nil {
			linf = true
		}
		if hi == nil {
			hinf = true
		}
		if !linf && lo.Cmp(l2) < 0 {
			l2 = lo
		}
		if !hinf && hi.Cmp(h2) > 0 {
			h2 = hi
		}
	}
	rec(d, lo, hi)
	if !any {
		return bi(1), bi(0)
	}
	if linf {
		l2 = nil
	}
	if hinf {
		h2 = nil
	}
	return l2, h2
}

var mentionMemo = map[*DD]map[*Atom]bool{}

func (d *DD) mentions(a *Atom) bool {
	if d.term() {
		return false
	}
	m := mentionMemo[d]
	if m == nil {
		m = map[*Atom]bool{}
		mentionMemo[d] = m
	}
	if r, ok := m[a]; ok {
		return r
	}
	r := false
	if len(d.v.t) == 1 && d.v.t[0].a == a {
		r = true
	} else {
		for _, k := range d.kids {
			if k.mentions(a) {
				r = true
				break
			}
		}
	}
	m[a] = r
	return r
}

// constrainLit simplifies h given that g holds, syntactically: if g entails
// h or its complement the result is a constant.
func (h *DD) constrainLit(g *DD) *DD {
	if g.and(h) == False {
		return False
	}
	if g.and(h.not()) == False {
		return True
	}
	return h
}

func (d *DD) String() string {
	if d == True {
		return "true"
	}
	if d == False {
		return "false"
	}
	s := d.render(0)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

func (d *DD) render(depth int) string {
	if d == True {
		return "T"
	}
	if d == False {
		return "F"
	}
	if depth > 12 {
		return "..."
	}
	var parts []string
	for i, k := range d.kids {
		if k == False {
			continue
		}
		var c string
		v := d.v.String()
		switch {
		case i == 0:
			c = fmt.Sprintf("%s<%d", v, d.cuts[0])
		case i == len(d.cuts):
			c = fmt.Sprintf("%s>=%d", v, d.cuts[i-1])
		case d.cuts[i] == d.cuts[i-1]+1:
			c = fmt.Sprintf("%s=%d", v, d.cuts[i-1])
		default:
			c = fmt.Sprintf("%d<=%s<%d", d.cuts[i-1], v, d.cuts[i])
		}
		if k != True {
			c += "&" + k.render(depth+1)
		}
		parts = append(parts, c)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(" + strings.Join(parts, " | ") + ")"
}

var substDD = map[string]*DD{}

func (d *DD) subst(m Sub) *DD {
	if d.term() || !m.hits(d.fr()) {
		return d
	}
	memo := map[*DD]*DD{}
	var rec func(x *DD) *DD
	rec = func(x *DD) *DD {
		if x.term() || !m.hits(x.fr()) {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		v := x.v.subst(m)
		r := False
		for i, k := range x.kids {
			kk := rec(k)
			if kk == False {
				continue
			}
			g := True
			if i > 0 {
				g = g.and(condGE(v.addC(-x.cuts[i-1])))
			}
			if i < len(x.cuts) {
				g = g.and(condGE(v.neg().addC(x.cuts[i] - 1)))
			}
			r = r.or(g.and(kk))
		}
		memo[x] = r
		return r
	}
	return rec(d)
}

// ---------------------------------------------------------------- literals

var condMemo = map[*Lin]*DD{}

// condGE is the guard "l >= 0".
func condGE(l *Lin) *DD {
	if d, ok := condMemo[l]; ok {
		return d
	}
	d := condGE0(l)
	condMemo[l] = d
	return d
}

func condGT(l *Lin) *DD { return condGE(l.addC(-1)) }
func condEQ(l *Lin) *DD { return condGE(l).and(condGE(l.neg())) }

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

func condGE0(l *Lin) *DD {
	if l.isC() {
		return boolDD(l.c >= 0)
	}
	lo, hi := l.rng()
	if lo != nil && lo.Sign() >= 0 {
		return True
	}
	if hi != nil && hi.Sign() < 0 {
		return False
	}
	// one small atom: pointwise
	if b := l.onlySmallBase(); b != nil {
		bl := b.lo.Int64()
		n := b.hi.Int64() - bl
		var cuts []int64
		kids := []*DD{boolDD(l.evalSmall(b, bl) >= 0)}
		for i := int64(1); i <= n; i++ {
			cuts = append(cuts, bl+i)
			kids = append(kids, boolDD(l.evalSmall(b, bl+i) >= 0))
		}
		if len(kids) == 1 {
			return kids[0]
		}
		return mkDD(linAtom(b), cuts, kids)
	}
	// guarded terms: split
	for _, x := range l.t {
		if x.a.k == AG {
			g := x.a.g
			return iteDD(g, condGE(assumeG(l, g, true)), condGE(assumeG(l, g, false)))
		}
	}
	// dominating atom
	bigi := -1
	for i, x := range l.t {
		if bigi < 0 || absI(x.k) > absI(l.t[bigi].k) {
			bigi = i
		}
	}
	if len(l.t) > 1 && absI(l.t[bigi].k) > 1 {
		M := l.t[bigi].k
		a := l.t[bigi].a
		rest := rawLin(l.c, append(append([]Term{}, l.t[:bigi]...), l.t[bigi+1:]...))
		rl, rh := rest.rng()
		if rl != nil && rh != nil && rl.IsInt64() && rh.IsInt64() {
			w := new(big.Int).Sub(rh, rl)
			if w.Cmp(bi(absI(M))) < 0 {
				if M > 0 {
					// a >= ceil(-rest/M)
					t1, t2 := ceilDiv(-rh.Int64(), M), ceilDiv(-rl.Int64(), M)
					r := condGE(linAtom(a).addC(-t2))
					if t2 > t1 {
						r = r.or(condEQ(linAtom(a).addC(-t1)).and(condGE(rest.addC(M * t1))))
					}
					return r
				}
				// |M|*a <= rest  <=>  a <= floor(rest/|M|)
				m := -M
				t1, t2 := floorDiv(rl.Int64(), m), floorDiv(rh.Int64(), m)
				r := condGE(linAtom(a).neg().addC(t1))
				if t2 > t1 {
					r = r.or(condEQ(linAtom(a).addC(-t2)).and(condGE(rest.addC(-m * t2))))
				}
				return r
			}
		}
	}
	// primitive form
	var g int64
	for _, x := range l.t {
		g = gcd(g, x.k)
	}
	if l.t[0].k < 0 {
		g = -g
	}
	ts := make([]Term, len(l.t))
	for i, x := range l.t {
		ts[i] = Term{x.a, x.k / g}
	}
	v := rawLin(0, ts)
	if g > 0 {
		// g*v + c >= 0 <=> v >= ceil(-c/g)
		return mkDD(v, []int64{ceilDiv(-l.c, g)}, []*DD{False, True})
	}
	// g<0: v <= floor(c/|g|)
	return mkDD(v, []int64{floorDiv(l.c, -g) + 1}, []*DD{True, False})
}

func absI(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// boolAtom is the guard "a != 0" for a 0/1 atom.
func boolAtom(a *Atom) *DD { return condGE(linAtom(a).addC(-1)) }

// ---------------------------------------------------------------- exists

var existsAtoms []*Atom

// mkExists is the guard "some j in [0,n) satisfies p(j)".
func mkExists(n *Lin, j *Atom, p *DD) *DD {
	if p == False {
		return False
	}
	inr := condGE(linAtom(j)).and(condGT(n.sub(linAtom(j))))
	if !feasible(p.and(inr)) {
		return False
	}
	p = simp(p, inr)
	if !frHas(p.fr(), j) {
		return condGT(n).and(p)
	}
	if n.isC() && n.c <= 8 {
		r := False
		for i := int64(0); i < n.c; i++ {
			r = r.or(p.subst(Sub{j: linC(i)}))
		}
		return r
	}
	if r, ok := elimExists(n, j, p); ok {
		return r
	}
	h := p.height()
	b := binderAtom(h+1, "j")
	if b != j {
		p = p.subst(Sub{j: linAtom(b)})
	}
	key := fmt.Sprintf("ex:%d:%d:%d", n.id, b.id, p.id)
	if a, ok := atomTab[key]; ok {
		return boolAtom(a)
	}
	inr = condGE(linAtom(b)).and(condGT(n.sub(linAtom(b))))
	for _, a := range existsAtoms {
		if a.num == n && a.j == b && eqDD(a.pred, p, inr) {
			return boolAtom(a)
		}
	}
	a := internAtom(key, func() *Atom {
		return &Atom{k: AExists, num: n, j: b, pred: p, lo: bi(0), hi: bi(1), mod4: -1,
			fr: frMinus(frUnion(n.fr, p.fr()), b)}
	})
	existsAtoms = append(existsAtoms, a)
	return boolAtom(a)
}

// elimExists eliminates j when p constrains it only linearly.
func elimExists(n *Lin, j *Atom, p *DD) (*DD, bool) {
	// every node variable either is free of j or has j as a plain atom
	ok := true
	seen := map[*DD]bool{}
	var chk func(d *DD)
	chk = func(d *DD) {
		if d.term() || seen[d] || !ok {
			return
		}
		seen[d] = true
		for _, x := range d.v.t {
			if x.a != j && frHas(x.a.fr, j) {
				ok = false
				return
			}
		}
		for _, k := range d.kids {
			chk(k)
		}
	}
	chk(p)
	if !ok {
		return nil, false
	}
	type bound struct {
		k int64 // k*j >= l (lower) or k*j <= l (upper), k>0
		l *Lin
	}
	res := False
	paths := 0
	var rec func(d *DD, free *DD, lows, ups []bound)
	rec = func(d *DD, free *DD, lows, ups []bound) {
		if d == False || free == False || !ok {
			return
		}
		if d == True {
			paths++
			if paths > 64 {
				ok = false
				return
			}
			g := free
			for _, l := range lows {
				for _, u := range ups {
					if l.k != 1 && u.k != 1 {
						ok = false
						return
					}
					// exists integer j: l.l <= l.k*j, u.k*j <= u.l
					// with one coefficient 1: l.l*u.k <= u.l*l.k is exact
					g = g.and(condGE(u.l.scale(l.k).sub(l.l.scale(u.k))))
				}
			}
			res = res.or(g)
			return
		}
		var kj int64
		m := map[*Atom]int64{}
		for _, x := range d.v.t {
			if x.a == j {
				kj = x.k
			} else {
				m[x.a] = x.k
			}
		}
		if kj == 0 {
			for i, k := range d.kids {
				rec(k, free.and(pieceDD(d, i)), lows, ups)
			}
			return
		}
		rest := buildLin(0, m)
		for i, k := range d.kids {
			ls, us := lows, ups
			// cuts[i-1] <= rest + kj*j <= cuts[i]-1
			if i > 0 {
				r := linC(d.cuts[i-1]).sub(rest) // kj*j >= r
				if kj > 0 {
					ls = append(ls[:len(ls):len(ls)], bound{kj, r})
				} else {
					us = append(us[:len(us):len(us)], bound{-kj, r.neg()})
				}
			}
			if i < len(d.cuts) {
				r := linC(d.cuts[i] - 1).sub(rest) // kj*j <= r
				if kj > 0 {
					us = append(us[:len(us):len(us)], bound{kj, r})
				} else {
					ls = append(ls[:len(ls):len(ls)], bound{-kj, r.neg()})
				}
			}
			rec(k, free, ls, us)
		}
	}
	rec(p, True, []bound{{1, linZero()}}, []bound{{1, n.addC(-1)}})
	if !ok {
		return nil, false
	}
	return res, true
}

func pieceOf(d *DD, idx []int) *DD {
	kids := make([]*DD, len(d.kids))
	for k := range kids {
		kids[k] = False
	}
	for _, i := range idx {
		kids[i] = True
	}
	return mkDD(d.v, d.cuts, kids)
}

func pieceDD(d *DD, i int) *DD {
	kids := make([]*DD, len(d.kids))
	for k := range kids {
		kids[k] = False
	}
	kids[i] = True
	return mkDD(d.v, d.cuts, kids)
}

// ---------------------------------------------------------------- feasibility

type cons struct {
	v      *Lin
	lo, hi *int64
	set    *smallSet // values of a small atom, when not an interval
}

// smallSet is a set of values of a small atom, relative to its lower bound.
type smallSet [5]uint64

func (s *smallSet) add(i int64)      { s[i>>6] |= 1 << uint(i&63) }
func (s *smallSet) has(i int64) bool { return s[i>>6]>>uint(i&63)&1 != 0 }

// group is the part of a node that leads to one child.
type group struct {
	kid *DD
	c   cons
	idx []int
}

// groups collects the intervals of a node by child; intervals of a small atom
// that lead to the same child become one set.
func (d *DD) groups() []group {
	var out []group
	mk := func(i int) cons {
		var c cons
		c.v = d.v
		if i > 0 {
			x := d.cuts[i-1]
			c.lo = &x
		}
		if i < len(d.cuts) {
			x := d.cuts[i] - 1
			c.hi = &x
		}
		return c
	}
	small := len(d.kids) > 3 && len(d.v.t) == 1 && d.v.c == 0 && d.v.t[0].k == 1 && d.v.t[0].a.small()
	if !small {
		for i, k := range d.kids {
			out = append(out, group{k, mk(i), []int{i}})
		}
		return out
	}
	a := d.v.t[0].a
	base, top := a.lo.Int64(), a.hi.Int64()
	at := map[*DD]int{}
	for i, k := range d.kids {
		lo, hi := base, top
		if i > 0 && d.cuts[i-1] > lo {
			lo = d.cuts[i-1]
		}
		if i < len(d.cuts) && d.cuts[i]-1 < hi {
			hi = d.cuts[i] - 1
		}
		if lo > hi {
			continue
		}
		g, ok := at[k]
		if !ok {
			g = len(out)
			at[k] = g
			l := lo
			out = append(out, group{k, cons{v: d.v, lo: &l, set: &smallSet{}}, nil})
		}
		h := hi
		out[g].c.hi = &h
		out[g].idx = append(out[g].idx, i)
		for v := lo; v <= hi; v++ {
			out[g].c.set.add(v - base)
		}
	}
	for i := range out {
		if len(out[i].idx) == 1 {
			out[i].c.set = nil
		}
	}
	return out
}

var feasCalls, fmCalls int

func feasible(d *DD) bool {
	if d == True {
		return true
	}
	if d == False {
		return false
	}
	if d.feas != 0 {
		return d.feas == 1
	}
	feasCalls++
	// add axioms of atoms that occur
	e := withAxioms(d)
	r := false
	if e != False {
		var path []cons
		budget := 200000
		r = feasRec(e, path, &budget)
	}
	if r {
		d.feas = 1
	} else {
		d.feas = 2
	}
	return r
}

var axiomMemo = map[*DD]*DD{}

func withAxioms(d *DD) *DD {
	if r, ok := axiomMemo[d]; ok {
		return r
	}
	e := d
	done := map[*Atom]bool{}
	for round := 0; round < 4; round++ {
		var as []*Atom
		atomsOfDD(e, map[*DD]bool{}, func(a *Atom) {
			if len(a.axioms) > 0 && !done[a] {
				as = append(as, a)
				done[a] = true
			}
		})
		if len(as) == 0 {
			break
		}
		for _, a := range as {
			for _, x := range a.axioms {
				e = e.and(x)
			}
		}
	}
	axiomMemo[d] = e
	return e
}

func atomsOfDD(d *DD, seen map[*DD]bool, f func(a *Atom)) {
	if d.term() || seen[d] {
		return
	}
	seen[d] = true
	for _, x := range d.v.t {
		f(x.a)
		if x.a.k == AFF {
			f(x.a.base)
		}
		if x.a.k == ABits || x.a.k == AShr {
			for _, y := range x.a.l.t {
				f(y.a)
			}
		}
	}
	for _, k := range d.kids {
		atomsOfDD(k, seen, f)
	}
}

func feasRec(d *DD, path []cons, budget *int) bool {
	*budget--
	if *budget <= 0 {
		return true
	}
	if d == False {
		return false
	}
	if d == True {
		return pathFeasible(path)
	}
	for _, gr := range d.groups() {
		k, c := gr.kid, gr.c
		if k == False {
			continue
		}
		if !quickOK(c) {
			continue
		}
		np := append(path[:len(path):len(path)], c)
		if len(d.v.t) > 1 && len(np) > 1 && k != True {
			if !pathFeasible(np) {
				continue
			}
		}
		if feasRec(k, np, budget) {
			return true
		}
	}
	return false
}

func quickOK(c cons) bool {
	lo, hi := c.v.rng()
	if c.lo != nil && hi != nil && hi.Cmp(bi(*c.lo)) < 0 {
		return false
	}
	if c.hi != nil && lo != nil && lo.Cmp(bi(*c.hi)) > 0 {
		return false
	}
	return true
}

// ineq: sum k*a + c >= 0
type ineq struct {
	t []Term
	c int64
}

var pathMemo = map[string]bool{}

func pathFeasible(path []cons) bool {
	fmCalls++
	var kb []byte
	for _, c := range path {
		kb = fmt.Appendf(kb, "%d", c.v.id)
		if c.lo != nil {
			kb = fmt.Appendf(kb, "[%d", *c.lo)
		}
		if c.hi != nil {
			kb = fmt.Appendf(kb, "]%d", *c.hi)
		}
		if c.set != nil {
			kb = fmt.Appendf(kb, "%x", *c.set)
		}
		kb = append(kb, ';')
	}
	if r, ok := pathMemo[string(kb)]; ok {
		return r
	}
	r := pathFeasible0(path)
	pathMemo[string(kb)] = r
	return r
}

func pathFeasible0(path []cons) bool {
	var qs []ineq
	var exTrue, exFalse []*Atom
	atoms := map[*Atom]bool{}
	multi := map[*Atom]int{}
	small := map[*Atom]*cons{}
	for _, c := range path {
		if len(c.v.t) == 1 && c.v.t[0].a.k == AExists {
			if c.lo != nil && *c.lo >= 1 {
				exTrue = append(exTrue, c.v.t[0].a)
			} else {
				exFalse = append(exFalse, c.v.t[0].a)
			}
			continue
		}
		for _, x := range c.v.t {
			atoms[x.a] = true
		}
		if len(c.v.t) == 1 && c.v.c == 0 && c.v.t[0].k == 1 && c.v.t[0].a.small() {
			c := c
			small[c.v.t[0].a] = &c
		}
		if c.lo != nil {
			qs = append(qs, ineq{c.v.t, -*c.lo})
		}
		if c.hi != nil {
			qs = append(qs, ineq{negTerms(c.v.t), *c.hi})
		}
	}
	for _, a := range exTrue {
		q := a.num.addC(-1)
		qs = append(qs, ineq{q.t, q.c})
		for _, x := range q.t {
			atoms[x.a] = true
		}
	}
	// facts, transitively
	work := make([]*Atom, 0, len(atoms))
	for a := range atoms {
		work = append(work, a)
	}
	sort.Slice(work, func(i, j int) bool { return work[i].id < work[j].id })
	for i := 0; i < len(work); i++ {
		if a := work[i]; a.k == AFF {
			if c := small[a.base]; c != nil {
				if q, ok := tabFacts(a, c); ok {
					qs = append(qs, q...)
				} else {
					return false
				}
			}
		}
		for _, f := range work[i].facts {
			hasG := false
			for _, x := range f.t {
				if x.a.k == AG {
					hasG = true
				}
			}
			if hasG {
				continue
			}
			qs = append(qs, ineq{f.t, f.c})
			for _, x := range f.t {
				if !atoms[x.a] {
					atoms[x.a] = true
					work = append(work, x.a)
				}
			}
		}
	}
	for _, q := range qs[:len(qs):len(qs)] {
		qs = append(qs, sumFacts(q, exFalse)...)
	}
	for _, q := range qs {
		if len(q.t) > 1 {
			for _, x := range q.t {
				multi[x.a]++
			}
		}
	}
	for _, a := range work {
		if a.lo != nil && a.lo.IsInt64() && absI(a.lo.Int64()) < 1<<62 && a.lo.Int64() != -1<<63 {
			qs = append(qs, ineq{[]Term{{a, 1}}, -a.lo.Int64()})
		}
		if a.hi != nil && a.hi.IsInt64() && absI(a.hi.Int64()) < 1<<62 {
			qs = append(qs, ineq{[]Term{{a, -1}}, a.hi.Int64()})
		}
	}
	if !fmFeasible(qs) {
		return false
	}
	// families of existential atoms over one index range
	for _, t := range exTrue {
		p := t.pred.and(condGE(linAtom(t.j))).and(condGT(t.num.sub(linAtom(t.j))))
		for _, f := range exFalse {
			if f.num == t.num && f.j == t.j {
				p = p.and(f.pred.not())
			} else if f.num == t.num {
				p = p.and(f.pred.subst(Sub{f.j: linAtom(t.j)}).not())
			}
		}
		if p == False || !feasible(p) {
			return false
		}
	}
	return true
}

var sumMemo = map[string][]ineq{}
var sumBinder = map[*Lin]*Atom{}

// sumFacts bounds the sums of one constraint that range over the same index
// set by the bounds of their summed bodies: lo*n <= sum <= hi*n.
func sumFacts(q ineq, exFalse []*Atom) []ineq {
	var nums []*Lin
	by := map[*Lin][]Term{}
	for _, x := range q.t {
		if x.a.k == ASum {
			if by[x.a.num] == nil {
				nums = append(nums, x.a.num)
			}
			by[x.a.num] = append(by[x.a.num], x)
		}
	}
	if nums == nil {
		return nil
	}
	var kb []byte
	for _, x := range q.t {
		if x.a.k == ASum {
			kb = fmt.Appendf(kb, "%d*%d;", x.k, x.a.id)
		}
	}
	for _, f := range exFalse {
		kb = fmt.Appendf(kb, "!%d", f.id)
	}
	if r, ok := sumMemo[string(kb)]; ok {
		return r
	}
	var out []ineq
	for _, n := range nums {
		if lo, _ := n.rng(); lo == nil || lo.Sign() < 0 {
			continue
		}
		j := sumBinder[n]
		if j == nil {
			j = freshAtom("sumj", bi(0), maxLen)
			sumBinder[n] = j
		}
		ctx := condGT(n.sub(linAtom(j)))
		body := linZero()
		for _, x := range by[n] {
			s := Sub{x.a.j: linAtom(j)}
			body = body.add(x.a.body.subst(s).scale(x.k))
			if x.a.dom != nil {
				ctx = ctx.and(x.a.dom.subst(s))
			}
		}
		for _, f := range exFalse {
			if f.num == n {
				ctx = ctx.and(f.pred.subst(Sub{f.j: linAtom(j)}).not())
			}
		}
		if ctx == False {
			continue
		}
		lo, hi := rngGRec(body, ctx, 0)
		if lo != nil && lo.IsInt64() && absI(lo.Int64()) < 1<<40 {
			m := n.scale(-lo.Int64())
			for _, x := range by[n] {
				m = m.add(linAtom(x.a).scale(x.k))
			}
			out = append(out, ineq{m.t, m.c})
		}
		if hi != nil && hi.IsInt64() && absI(hi.Int64()) < 1<<40 {
			m := n.scale(hi.Int64())
			for _, x := range by[n] {
				m = m.sub(linAtom(x.a).scale(x.k))
			}
			out = append(out, ineq{m.t, m.c})
		}
	}
	sumMemo[string(kb)] = out
	return out
}

// tabFacts bounds a table atom under a constraint on its base.
func tabFacts(a *Atom, c *cons) ([]ineq, bool) {
	b := a.base
	base := b.lo.Int64()
	var x0, y0, x1, y1 int64
	n := 0
	lin := true
	var lo, hi, slo, shi, dlo, dhi int64
	for i, y := range a.tab {
		x := base + int64(i)
		if c.lo != nil && x < *c.lo || c.hi != nil && x > *c.hi || c.set != nil && !c.set.has(int64(i)) {
			continue
		}
		n++
		if n == 1 {
			x0, y0 = x, y
			lo, hi, slo, shi, dlo, dhi = y, y, y+x, y+x, y-x, y-x
			continue
		}
		lo, hi = min(lo, y), max(hi, y)
		slo, shi = min(slo, y+x), max(shi, y+x)
		dlo, dhi = min(dlo, y-x), max(dhi, y-x)
		if n == 2 {
			x1, y1 = x, y
		} else if (y-y0)*(x1-x0) != (y1-y0)*(x-x0) {
			lin = false
		}
	}
	if n == 0 {
		return nil, false
	}
	qs := []ineq{{[]Term{{a, 1}}, -lo}, {[]Term{{a, -1}}, hi}}
	rel := func(p, q, k int64) { // p*a + q*b + k >= 0
		qs = append(qs, ineq{sortTerms([]Term{{a, p}, {b, q}}), k})
	}
	if n > 1 {
		rel(1, 1, -slo)
		rel(-1, -1, shi)
		rel(1, -1, -dlo)
		rel(-1, 1, dhi)
		if lin && y1 != y0 {
			dx, dy := x1-x0, y1-y0
			k := dy*x0 - dx*y0
			rel(dx, -dy, k)
			rel(-dx, dy, -k)
		}
	}
	return qs, true
}

// fmFeasible decides rational feasibility by Fourier-Motzkin elimination
// (with integer tightening of single-atom bounds). Gives up as feasible.
func fmFeasible(qs []ineq) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Overflow); ok {
				res = true
				return
			}
			panic(r)
		}
	}()
	for {
		// drop trivial, find contradictions, tighten, dedupe
		best := map[string]int{}
		var out []ineq
		for _, q := range qs {
			if len(q.t) == 0 {
				if q.c < 0 {
					return false
				}
				continue
			}
			var g int64
			for _, x := range q.t {
				g = gcd(g, x.k)
			}
			if g > 1 {
				t := make([]Term, len(q.t))
				for i, x := range q.t {
					t[i] = Term{x.a, x.k / g}
				}
				q = ineq{t, floorDiv(q.c, g)}
			}
			var kb []byte
			for _, x := range q.t {
				kb = fmt.Appendf(kb, "%d*%d,", x.a.id, x.k)
			}
			if i, ok := best[string(kb)]; ok {
				if q.c < out[i].c {
					out[i].c = q.c
				}
				continue
			}
			best[string(kb)] = len(out)
			out = append(out, q)
		}
		qs = out
		if len(qs) == 0 {
			return true
		}
		// opposite pairs: quick contradiction
		for _, q := range qs {
			var kb []byte
			for _, x := range q.t {
				kb = fmt.Appendf(kb, "%d*%d,", x.a.id, -x.k)
			}
			if i, ok := best[string(kb)]; ok {
				if addI(q.c, qs[i].c) < 0 {
					return false
				}
			}
		}
		// choose atom with least pos*neg
		type pn struct{ p, n int }
		cnt := map[*Atom]*pn{}
		for _, q := range qs {
			for _, x := range q.t {
				c := cnt[x.a]
				if c == nil {
					c = &pn{}
					cnt[x.a] = c
				}
				if x.k > 0 {
					c.p++
				} else {
					c.n++
				}
			}
		}
		var pick *Atom
		bestv := 1 << 30
		for a, c := range cnt {
			v := c.p*c.n - c.p - c.n
			if v < bestv || v == bestv && a.id < pick.id {
				bestv, pick = v, a
			}
		}
		var pos, neg, rest []ineq
		for _, q := range qs {
			k := int64(0)
			for _, x := range q.t {
				if x.a == pick {
					k = x.k
				}
			}
			switch {
			case k > 0:
				pos = append(pos, q)
			case k < 0:
				neg = append(neg, q)
			default:
				rest = append(rest, q)
			}
		}
		if len(pos)*len(neg)+len(rest) > 1500 {
			return true
		}
		for _, p := range pos {
			for _, n := range neg {
				rest = append(rest, combine(p, n, pick))
			}
		}
		qs = rest
	}
}

func combine(p, n ineq, a *Atom) ineq {
	var kp, kn int64
	for _, x := range p.t {
		if x.a == a {
			kp = x.k
		}
	}
	for _, x := range n.t {
		if x.a == a {
			kn = -x.k
		}
	}
	g := gcd(kp, kn)
	mp, mn := kn/g, kp/g
	var t []Term
	i, j := 0, 0
	for i < len(p.t) || j < len(n.t) {
		switch {
		case j >= len(n.t) || i < len(p.t) && p.t[i].a.id < n.t[j].a.id:
			t = append(t, Term{p.t[i].a, mulI(p.t[i].k, mp)})
			i++
		case i >= len(p.t) || n.t[j].a.id < p.t[i].a.id:
			t = append(t, Term{n.t[j].a, mulI(n.t[j].k, mn)})
			j++
		default:
			k := addI(mulI(p.t[i].k, mp), mulI(n.t[j].k, mn))
			if k != 0 {
				t = append(t, Term{p.t[i].a, k})
			}
			i++
			j++
		}
	}
	return ineq{t, addI(mulI(p.c, mp), mulI(n.c, mn))}
}

func entails(ctx, g *DD) bool {
	if g == True {
		return true
	}
	return !feasible(ctx.and(g.not()))
}

func eqDD(a, b, ctx *DD) bool {
	if a == b {
		return true
	}
	return !feasible(ctx.and(a.xor(b)))
}

func eqLin(a, b *Lin, ctx *DD) bool {
	if a == b {
		return true
	}
	d := a.sub(b)
	if d.isC() {
		return d.c == 0 || !feasible(ctx)
	}
	return !feasible(ctx.and(condGE(d.addC(-1)).or(condGE(d.neg().addC(-1)))))
}

var simpMemo = map[ddPair]*DD{}

// simp returns a guard equal to g wherever ctx holds.
func simp(g, ctx *DD) *DD {
	if g.term() || ctx == True {
		return g
	}
	k := ddPair{g, ctx}
	if r, ok := simpMemo[k]; ok {
		return r
	}
	r := simpRec(g, ctx)
	if r == nil {
		r = False
	}
	simpMemo[k] = r
	return r
}

func simpRec(g, c *DD) *DD {
	if !feasible(c) {
		return nil
	}
	if g.term() {
		return g
	}
	key := ddPair{g, c}
	if r, ok := simpRecMemo[key]; ok {
		return r
	}
	kids := make([]*DD, len(g.kids))
	for _, gr := range g.groups() {
		p := pieceOf(g, gr.idx)
		k := simpRec(gr.kid, c.and(p))
		for _, i := range gr.idx {
			kids[i] = k
		}
	}
	r := fillKids(g, kids)
	simpRecMemo[key] = r
	return r
}

var simpRecMemo = map[ddPair]*DD{}

func fillKids(g *DD, kids []*DD) *DD {
	// fill don't-cares from neighbours
	var last *DD
	for i := range kids {
		if kids[i] == nil {
			kids[i] = last
		}
		last = kids[i]
	}
	last = nil
	for i := len(kids) - 1; i >= 0; i-- {
		if kids[i] == nil {
			kids[i] = last
		}
		last = kids[i]
	}
	if kids[0] == nil {
		return nil
	}
	return mkDD(g.v, g.cuts, kids)
}
