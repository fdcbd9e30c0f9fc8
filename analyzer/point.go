package main

// Confirmation of alarms. The engine's summaries are closed forms over the
// inputs. Before an alarm is raised, a valuation of the inputs is looked for
// at which the closed forms really disagree (or the guard of the violation
// really holds); a comparison that is merely not proved gives no alarm. The
// proof that a property holds never relies on this.

import (
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

type unkn struct{ why string }

// Point is a valuation of leaf atoms, extended lazily.
type Point struct {
	leaf  map[*Atom]*big.Int
	order []*Atom
	env   map[*Atom]*big.Int
	box   map[*Atom]*[2]*big.Int // bounds of leaves not chosen yet
	rng   *rand.Rand
	fuel  int
	lost  string
	iter  bool // iteration variables may be chosen too
	aim   int  // style of default values
}

func newPoint(rng *rand.Rand) *Point {
	return &Point{leaf: map[*Atom]*big.Int{}, env: map[*Atom]*big.Int{}, box: map[*Atom]*[2]*big.Int{}, rng: rng, fuel: 200000, aim: rng.Intn(4)}
}

func (p *Point) burn(n int) {
	p.fuel -= n
	if p.fuel < 0 {
		panic(unkn{"fuel"})
	}
}

// concrete path: indices evaluated.
func (p *Point) path(q *Path) *Path {
	if q.unknown() {
		// what a library function returns is not an input
		panic(unkn{"library result"})
	}
	if len(q.fr) == 0 && !hasIdx(q) {
		return q
	}
	switch q.kind {
	case PField:
		return p.path(q.parent).field(q.name, q.typ)
	case PIndex:
		i := p.lin(q.idx)
		if !i.IsInt64() || i.Sign() < 0 {
			panic(unkn{"index"})
		}
		return p.path(q.parent).index(linC(i.Int64()), q.typ)
	case PAssert:
		return p.path(q.parent).assert(q.typ)
	case PDeref:
		return p.path(q.parent).deref(q.typ)
	}
	return q
}

// unknown: the root of the path is the result of a function not analysed.
func (q *Path) unknown() bool {
	if q.lib == 0 {
		q.lib = 1
		switch {
		case q.parent != nil:
			if q.parent.unknown() {
				q.lib = 2
			}
		case strings.Contains(q.name, "@"):
			q.lib = 2
		}
	}
	return q.lib == 2
}

func hasIdx(q *Path) bool {
	for ; q != nil; q = q.parent {
		if q.kind == PIndex && !q.idx.isC() {
			return true
		}
	}
	return false
}

func (p *Point) leafAtom(a *Atom) *Atom {
	if a.path == nil {
		return a
	}
	q := p.path(a.path)
	if q == a.path {
		return a
	}
	switch a.k {
	case ALen:
		return lenAtom(q)
	case ACap:
		return capAtom(q)
	case AType:
		return typeAtom(q)
	}
	if a.name == "isnil" {
		return nilAtom(q)
	}
	return symAtom(q)
}

// isLeaf: inputs, and (in a hint) the free iteration variables.
func (p *Point) isLeaf(a *Atom) bool {
	return a.isLeaf() || p.iter && a.k == AFresh && a.iterVar()
}

func (a *Atom) iterVar() bool {
	if strings.HasPrefix(a.name, "$") || strings.HasPrefix(a.name, "j#") || strings.HasPrefix(a.name, "i#") {
		return true
	}
	return a.loopSym
}

func (a *Atom) isLeaf() bool { return a.k == ASym || a.k == ALen || a.k == ACap || a.k == AType }

func (p *Point) set(a *Atom, v *big.Int) {
	p.leaf[a] = v
	p.order = append(p.order, a)
}

var nasty = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 127, 128, 129, 255, 256, 257, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1}

func (p *Point) rnd(lo, hi *big.Int) *big.Int {
	p.burn(1)
	d := new(big.Int).Sub(hi, lo)
	if d.Sign() <= 0 {
		return lo
	}
	d.Add(d, bi(1))
	return new(big.Int).Add(lo, new(big.Int).Rand(p.rng, d))
}

// choose picks a value of leaf a in [lo,hi] (nil: no bound).
func (p *Point) choose(a *Atom, lo, hi *big.Int) (*big.Int, bool) {
	if a.lo != nil && (lo == nil || lo.Cmp(a.lo) < 0) {
		lo = a.lo
	}
	if a.hi != nil && (hi == nil || hi.Cmp(a.hi) > 0) {
		hi = a.hi
	}
	if a.k == ACap || a.k == ALen {
		if hi == nil {
			hi = maxLen
		}
	}
	if a.k == ACap {
		n := p.atom(lenAtom(a.path))
		if hi != nil && hi.Cmp(n) < 0 {
			return nil, false
		}
		if lo == nil || lo.Cmp(n) < 0 {
			lo = n
		}
	}
	if a.k == ALen {
		if c, ok := p.leaf[capAtom(a.path)]; ok && (hi == nil || hi.Cmp(c) > 0) {
			hi = c
		}
	}
	if lo == nil {
		lo = bi(-1 << 40)
	}
	if hi == nil {
		hi = bi(1 << 40)
	}
	if lo.Cmp(hi) > 0 {
		return nil, false
	}
	in := func(v *big.Int) bool { return v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 }
	if a.k == AFresh {
		n := bi(int64(p.rng.Intn(8)))
		if p.rng.Intn(2) == 0 {
			n = bi(4 * int64(p.rng.Intn(16)))
		}
		if !in(n) {
			n = lo
		}
		return n, true
	}
	switch a.k {
	case ALen:
		n := []int64{0, 1, 2, 3, 4, 5, 6, 8}[p.rng.Intn(8)]
		if isOid(a.path) && p.rng.Intn(3) > 0 {
			n = int64(5 + p.rng.Intn(3))
		}
		if p.aim == 3 && p.rng.Intn(8) == 0 {
			n = []int64{32768, 65535, 65536, 65537, 1 << 20, 1 << 24, 1 << 28}[p.rng.Intn(7)]
		} else if p.aim == 3 && p.rng.Intn(4) == 0 {
			n = 4 * int64(100+p.rng.Intn(200))
		} else if p.rng.Intn(12) == 0 {
			n = []int64{12, 20, 24, 40, 100, 127, 128, 129, 130, 255, 256, 300}[p.rng.Intn(12)]
		}
		v := bi(n)
		if !in(v) {
			v = lo
			if p.rng.Intn(3) == 0 {
				v = new(big.Int).Add(lo, bi(int64(p.rng.Intn(8))))
				if !in(v) {
					v = hi
				}
			}
		}
		return v, true
	case ACap:
		v := new(big.Int).Add(lo, bi(int64(p.rng.Intn(9))))
		if !in(v) {
			v = lo
		}
		return v, true
	case AType:
		var cs []int64
		for c := range typeCodeNames {
			if in(bi(int64(c))) && typeFits(a.path.typ, int64(c)) {
				cs = append(cs, int64(c))
			}
		}
		if it, ok := a.path.typ.Underlying().(*types.Interface); ok && it.NumMethods() == 0 && in(bi(1<<19)) {
			cs = append(cs, 1<<19) // some other type
		}
		if len(cs) == 0 {
			return nil, false
		}
		return bi(cs[p.rng.Intn(len(cs))]), true
	}
	if a.k == ASym && a.path.kind == PRoot && a.path.name == "size" {
		v := bi(4 * int64(p.rng.Intn(24)))
		if p.aim == 3 {
			v = bi(4 * int64(100+p.rng.Intn(200)))
		}
		if in(v) {
			return v, true
		}
	}
	if p.aim != 2 && a.hi != nil && a.hi.Cmp(bi(255)) == 0 { // bytes are mostly small
		n := p.rng.Intn(10)
		if n < 6 {
			n = 0
		} else {
			n = 1 + p.rng.Intn(9)
		}
		if v := bi(int64(n)); in(v) {
			return v, true
		}
		if p.rng.Intn(2) == 0 {
			return lo, true
		}
	}
	for i := 0; i < 3; i++ {
		switch p.rng.Intn(6) {
		case 0:
			return lo, true
		case 1:
			return hi, true
		case 2, 3:
			v := bi(nasty[p.rng.Intn(len(nasty))])
			if in(v) {
				return v, true
			}
		case 4:
			if isOid(parentOf(a.path)) && a.path.kind == PIndex && a.path.idx.isC() && a.path.idx.c < 5 {
				v := bi([]int64{1, 3, 6, 1, 4}[a.path.idx.c])
				if in(v) {
					return v, true
				}
			}
		}
	}
	return p.rnd(lo, hi), true
}

func parentOf(q *Path) *Path { return q.parent }

func isOid(q *Path) bool {
	if q == nil {
		return false
	}
	s, ok := q.typ.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

var codeTypes = map[int64]types.Type{}

// typeFits: can an interface of type t hold the type with this code?
func typeFits(t types.Type, code int64) bool {
	if code == 0 {
		return true
	}
	ct := codeTypes[code]
	if ct == nil {
		return false
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	return types.Implements(ct, it)
}

// ---------------------------------------------------------------- evaluation

func (p *Point) lin(l *Lin) *big.Int {
	p.burn(1)
	r := bi(l.c)
	for _, t := range l.t {
		v := p.atom(t.a)
		r.Add(r, new(big.Int).Mul(v, bi(t.k)))
	}
	return r
}

func (p *Point) count(l *Lin) int64 {
	n := p.lin(l)
	if !n.IsInt64() || n.Int64() > 4000 {
		panic(unkn{"long loop"})
	}
	return n.Int64()
}

func (p *Point) size(l *Lin) int64 {
	n := p.lin(l)
	if !n.IsInt64() || n.Int64() > 1<<40 {
		panic(unkn{"huge"})
	}
	return n.Int64()
}

func (p *Point) with(j *Atom, v int64, f func()) {
	old, had := p.env[j]
	p.env[j] = bi(v)
	f()
	if had {
		p.env[j] = old
	} else {
		delete(p.env, j)
	}
}

func (p *Point) bits(v *big.Int, lo, n int) *big.Int {
	m := new(big.Int).Lsh(bi(1), uint(n))
	x := new(big.Int).Rsh(v, uint(lo)) // arithmetic: floor
	return x.Mod(x, m)
}

func (p *Point) atom(a *Atom) *big.Int {
	p.burn(1)
	if v, ok := p.env[a]; ok {
		return v
	}
	k := a.k
	if p.isLeaf(a) {
		k = ASym
	}
	switch k {
	case ASym, ALen, ACap, AType:
		a = p.leafAtom(a)
		if v, ok := p.leaf[a]; ok {
			return v
		}
		var lo, hi *big.Int
		if b := p.box[a]; b != nil {
			lo, hi = b[0], b[1]
		}
		v, ok := p.choose(a, lo, hi)
		if !ok {
			panic(unkn{"no value"})
		}
		p.set(a, v)
		return v
	case AFF:
		b := p.atom(a.base)
		i := new(big.Int).Sub(b, a.base.lo).Int64()
		if i < 0 || i >= int64(len(a.tab)) {
			panic(unkn{"table"})
		}
		return bi(a.tab[i])
	case AG:
		if !p.dd(a.g) {
			return bi(0)
		}
		if a.inner == nil {
			return bi(1)
		}
		return p.atom(a.inner)
	case ABits:
		return p.bits(p.lin(a.l), a.n1, a.n2)
	case AShr:
		return new(big.Int).Rsh(p.lin(a.l), uint(a.n1))
	case ASum:
		n := p.count(a.num)
		r := bi(0)
		for i := int64(0); i < n; i++ {
			p.with(a.j, i, func() { r.Add(r, p.lin(a.body)) })
		}
		return r
	case AExists, AFirst:
		n := p.count(a.num)
		for i := int64(0); i < n; i++ {
			hit := false
			p.with(a.j, i, func() { hit = p.dd(a.pred) })
			if hit {
				if a.k == AExists {
					return bi(1)
				}
				return bi(i)
			}
		}
		if a.k == AExists {
			return bi(0)
		}
		return bi(max(n, 0))
	case AClass:
		cnt, end := p.class(a.cls, a.starts, nil, nil, nil)
		switch a.name {
		case "cnt":
			return bi(cnt)
		case "end":
			return end[a.n1]
		}
	case AOpq:
		return p.opq(a)
	}
	panic(unkn{a.String()})
}

func (p *Point) opq(a *Atom) *big.Int {
	var v []*big.Int
	for _, l := range a.args {
		v = append(v, p.lin(l))
	}
	r := new(big.Int)
	if b, ok := strings.CutPrefix(a.name, "len:numeral:"); ok {
		k, _ := strconv.Atoi(b)
		return bi(int64(len(v[0].Text(k))))
	}
	switch a.name {
	case "declen":
		return bi(int64(len(v[0].String())))
	case "mul", "mulnn":
		return r.Mul(v[0], v[1])
	case "div":
		if v[1].Sign() != 0 {
			return r.Quo(v[0], v[1])
		}
	case "rem":
		if v[1].Sign() != 0 {
			return r.Rem(v[0], v[1])
		}
	case "bit&":
		return r.And(v[0], v[1])
	case "bit|":
		return r.Or(v[0], v[1])
	case "bit^":
		return r.Xor(v[0], v[1])
	case "bit&^":
		return r.AndNot(v[0], v[1])
	case "<<", ">>":
		if v[1].Sign() >= 0 && v[1].IsInt64() && a.lo != nil && a.hi != nil {
			k := uint(min(v[1].Int64(), 200))
			if a.name == ">>" {
				return r.Rsh(v[0], k)
			}
			r.Lsh(v[0], k)
			m := new(big.Int).Sub(a.hi, a.lo)
			m.Add(m, bi(1))
			r.Mod(r, m)
			if r.Cmp(a.hi) > 0 {
				r.Sub(r, m)
			}
			return r
		}
	case "int64":
		r = p.bits(v[0], 0, 64)
		if r.Bit(63) == 1 {
			r.Sub(r, new(big.Int).Lsh(bi(1), 64))
		}
		return r
	}
	panic(unkn{a.name})
}

// class runs a scanning loop; each calls f at the start of each iteration.
// decide, if given, may steer the values that are still free.
func (p *Point) class(c *Class, starts []*Lin, each func(), decide func(cur []*big.Int, n int64) bool, tries *int) (int64, []*big.Int) {
	cur := make([]*big.Int, len(c.cur))
	for i := range cur {
		cur[i] = p.lin(starts[i])
	}
	old := make([]*big.Int, len(c.cur))
	for i, x := range c.cur {
		old[i] = p.env[x]
	}
	defer func() {
		for i, x := range c.cur {
			if old[i] == nil {
				delete(p.env, x)
			} else {
				p.env[x] = old[i]
			}
		}
	}()
	for n := int64(0); ; n++ {
		if n > 2000 {
			panic(unkn{"long loop"})
		}
		for i, x := range c.cur {
			p.env[x] = cur[i]
		}
		if decide != nil {
			p.satisfy(c.cont, decide(cur, n))
		}
		if !p.dd(c.cont) {
			return n, cur
		}
		if each != nil {
			each()
		}
		next := make([]*big.Int, len(cur))
		for i := range cur {
			next[i] = p.lin(c.next[i])
		}
		cur = next
	}
}

func (d *DD) pick(v *big.Int) *DD {
	i := sort.Search(len(d.cuts), func(i int) bool { return v.Cmp(bi(d.cuts[i])) < 0 })
	return d.kids[i]
}

func (p *Point) dd(d *DD) bool {
	for !d.term() {
		p.burn(1)
		d = d.pick(p.lin(d.v))
	}
	return d == True
}

// ---------------------------------------------------------------- steering

// known: does the value of l depend only on leaves already chosen?
// (cheap approximation: plain leaf atoms only)
func (p *Point) free(a *Atom) (*Atom, bool) {
	if _, ok := p.env[a]; ok {
		return nil, false
	}
	if !p.isLeaf(a) {
		return nil, false
	}
	a = p.leafAtom(a)
	_, ok := p.leaf[a]
	return a, !ok
}

// satisfy steers free leaves towards d == want; the result says whether the
// walk reached want.
func (p *Point) satisfy(d *DD, want bool) bool {
	bad := boolDD(!want)
	for !d.term() {
		p.burn(1)
		n := len(d.kids)
		k0 := p.rng.Intn(n)
		done := false
		for i := 0; i < n && !done; i++ {
			k := (k0 + i) % n
			if d.kids[k] == bad {
				continue
			}
			var lo, hi *big.Int
			if k > 0 {
				lo = bi(d.cuts[k-1])
			}
			if k < n-1 {
				hi = bi(d.cuts[k] - 1)
			}
			if p.setLin(d.v, lo, hi) {
				d = d.kids[k]
				done = true
			}
		}
		if !done {
			if os.Getenv("VDEBUGWIT") != "" {
				p.lost = short2(d.v.String())
			}
			return false
		}
	}
	return d != bad
}

func inside(v, lo, hi *big.Int) bool {
	return (lo == nil || v.Cmp(lo) >= 0) && (hi == nil || v.Cmp(hi) <= 0)
}

func (p *Point) setLin(l *Lin, lo, hi *big.Int) bool {
	if len(l.t) == 0 {
		return inside(bi(l.c), lo, hi)
	}
	// pivot: a free leaf if there is one, else any steerable atom
	piv := -1
	for _, i := range p.rng.Perm(len(l.t)) {
		if _, ok := p.free(l.t[i].a); ok {
			piv = i
			break
		}
	}
	if piv < 0 {
		for _, i := range p.rng.Perm(len(l.t)) {
			if !p.isLeaf(l.t[i].a) {
				piv = i
				break
			}
		}
	}
	if piv < 0 {
		return inside(p.lin(l), lo, hi)
	}
	rest := bi(l.c)
	for i, t := range l.t {
		if i != piv {
			rest.Add(rest, new(big.Int).Mul(p.atom(t.a), bi(t.k)))
		}
	}
	k := bi(l.t[piv].k)
	var a, b *big.Int // bounds of k*pivot
	if lo != nil {
		a = new(big.Int).Sub(lo, rest)
	}
	if hi != nil {
		b = new(big.Int).Sub(hi, rest)
	}
	if k.Sign() < 0 {
		k = new(big.Int).Neg(k)
		if a != nil {
			a = new(big.Int).Neg(a)
		}
		if b != nil {
			b = new(big.Int).Neg(b)
		}
		a, b = b, a
	}
	if a != nil { // ceil
		q, m := new(big.Int).DivMod(a, k, new(big.Int))
		if m.Sign() != 0 {
			q.Add(q, bi(1))
		}
		a = q
	}
	if b != nil {
		b = new(big.Int).Div(b, k)
	}
	if a != nil && b != nil && a.Cmp(b) > 0 {
		return false
	}
	return p.setAtom(l.t[piv].a, a, b) && (p.isLeaf(l.t[piv].a) || inside(p.lin(l), lo, hi))
}

func (p *Point) setAtom(a *Atom, lo, hi *big.Int) bool {
	p.burn(1)
	if v, ok := p.env[a]; ok {
		return inside(v, lo, hi)
	}
	k := a.k
	if p.isLeaf(a) {
		k = ASym
	}
	switch k {
	case ASym, ALen, ACap, AType:
		a = p.leafAtom(a)
		if v, ok := p.leaf[a]; ok {
			return inside(v, lo, hi)
		}
		// only narrow it: the value is chosen when it is needed
		b := [2]*big.Int{a.lo, a.hi}
		if q := p.box[a]; q != nil {
			b = *q
		}
		if a.k == ALen || a.k == ACap {
			if b[0] == nil {
				b[0] = bi(0)
			}
			if b[1] == nil {
				b[1] = maxLen
			}
		}
		if lo != nil && (b[0] == nil || b[0].Cmp(lo) < 0) {
			b[0] = lo
		}
		if hi != nil && (b[1] == nil || b[1].Cmp(hi) > 0) {
			b[1] = hi
		}
		if b[0] != nil && b[1] != nil && b[0].Cmp(b[1]) > 0 {
			return false
		}
		if a.k == ACap {
			if n, ok := p.leaf[lenAtom(a.path)]; ok && b[1].Cmp(n) < 0 {
				return false
			}
		}
		p.box[a] = &b
		if b[0] == nil || b[1] == nil || b[0].Cmp(b[1]) < 0 && a.k != AType {
			return true
		}
		v, ok := p.choose(a, b[0], b[1])
		if !ok {
			return false
		}
		p.set(a, v)
		return true
	case AFF:
		var vs []int64
		for i, x := range a.tab {
			if inside(bi(x), lo, hi) {
				vs = append(vs, a.base.lo.Int64()+int64(i))
			}
		}
		if len(vs) == 0 {
			return false
		}
		for i := 0; i < 4; i++ {
			v := bi(vs[p.rng.Intn(len(vs))])
			if p.setAtom(a.base, v, v) {
				return true
			}
		}
	case AG:
		zero := inside(bi(0), lo, hi)
		if !zero || p.rng.Intn(2) == 0 {
			if p.satisfy(a.g, true) {
				if a.inner != nil {
					p.setAtom(a.inner, lo, hi)
				}
			}
		} else {
			p.satisfy(a.g, false)
		}
	case ABits:
		m := new(big.Int).Lsh(bi(1), uint(a.n2))
		m.Sub(m, bi(1))
		l, h := bi(0), m
		if lo != nil && lo.Cmp(l) > 0 {
			l = lo
		}
		if hi != nil && hi.Cmp(h) < 0 {
			h = hi
		}
		if l.Cmp(h) > 0 {
			return false
		}
		var f *big.Int
		switch p.rng.Intn(3) {
		case 0:
			f = l
		case 1:
			f = h
		default:
			f = p.rnd(l, h)
		}
		if len(a.l.t) == 1 && a.l.t[0].k == 1 && a.l.c == 0 && p.isLeaf(a.l.t[0].a) {
			x, free := p.free(a.l.t[0].a)
			if !free {
				break
			}
			var bl, bh *big.Int
			if b := p.box[x]; b != nil {
				bl, bh = b[0], b[1]
			}
			for i := 0; i < 5; i++ {
				v, ok := p.choose(x, bl, bh)
				if !ok {
					return false
				}
				old := p.bits(v, a.n1, a.n2)
				v = new(big.Int).Add(v, new(big.Int).Lsh(new(big.Int).Sub(f, old), uint(a.n1)))
				if inside(v, bl, bh) && inside(v, x.lo, x.hi) {
					p.set(x, v)
					return true
				}
			}
			return false
		}
		// the whole expression: this field, other bits small or random
		llo, lhi := a.l.rng()
		t := new(big.Int).Lsh(f, uint(a.n1))
		if p.rng.Intn(2) == 0 && a.n1 > 0 {
			t.Add(t, p.rnd(bi(0), new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(a.n1)), bi(1))))
		}
		w := new(big.Int).Lsh(bi(1), uint(a.n1+a.n2))
		if llo != nil && llo.Sign() < 0 && p.rng.Intn(2) == 0 {
			t.Sub(t, w)
		}
		if p.rng.Intn(3) == 0 {
			t.Add(t, new(big.Int).Mul(w, bi(int64(p.rng.Intn(4)))))
		}
		if (lhi == nil || t.Cmp(lhi) <= 0) && p.setLin(a.l, t, t) {
			break
		}
		p.lin(a.l)
	case AShr:
		var l, h *big.Int
		if lo != nil {
			l = new(big.Int).Lsh(lo, uint(a.n1))
		}
		if hi != nil {
			h = new(big.Int).Lsh(new(big.Int).Add(hi, bi(1)), uint(a.n1))
			h.Sub(h, bi(1))
		}
		return p.setLin(a.l, l, h)
	case ASum:
		n := p.count(a.num)
		r := bi(0)
		for i := int64(0); i < n; i++ {
			p.with(a.j, i, func() {
				if i == n-1 {
					var l, h *big.Int
					if lo != nil {
						l = new(big.Int).Sub(lo, r)
					}
					if hi != nil {
						h = new(big.Int).Sub(hi, r)
					}
					p.setLin(a.body, l, h)
				}
				r.Add(r, p.lin(a.body))
			})
		}
	case AExists:
		want := !inside(bi(0), lo, hi) || inside(bi(1), lo, hi) && p.rng.Intn(2) == 0
		var l *big.Int
		if want {
			l = bi(1)
		}
		if !p.setLin(a.num, l, nil) {
			return false
		}
		n := p.count(a.num)
		w := int64(-1)
		if want && n > 0 {
			w = p.rng.Int63n(n)
		}
		for i := int64(0); i < n; i++ {
			p.with(a.j, i, func() { p.satisfy(a.pred, i == w) })
		}
	case AFirst:
		if !p.setLin(a.num, lo, nil) {
			return false
		}
		n := p.count(a.num)
		f := n
		if hi != nil && hi.Cmp(bi(n)) < 0 {
			f = hi.Int64()
		}
		if lo != nil && lo.IsInt64() && lo.Int64() < f && p.rng.Intn(2) == 0 {
			f = lo.Int64()
		}
		for i := int64(0); i < n && i <= f; i++ {
			p.with(a.j, i, func() { p.satisfy(a.pred, i == f) })
		}
	case AClass:
		stop := int64(p.rng.Intn(4))
		p.class(a.cls, a.starts, nil, func(cur []*big.Int, n int64) bool {
			v := bi(n)
			if a.name == "end" {
				v = cur[a.n1]
			}
			if lo != nil && v.Cmp(lo) < 0 {
				return true
			}
			if hi == nil {
				return n < stop
			}
			return v.Cmp(hi) < 0 && p.rng.Intn(2) == 0
		}, nil)
	case AOpq:
		switch a.name {
		case "bit|":
			for _, l := range a.args {
				if p.rng.Intn(2) == 0 {
					p.setLin(l, lo, hi)
				} else {
					p.setLin(l, bi(0), bi(0))
				}
			}
		case "div":
			if a.args[1].isC() && a.args[1].c > 0 {
				var l, h *big.Int
				if lo != nil {
					l = new(big.Int).Mul(lo, bi(a.args[1].c))
				}
				if hi != nil {
					h = new(big.Int).Mul(hi, bi(a.args[1].c))
					h.Add(h, bi(a.args[1].c-1))
				}
				p.setLin(a.args[0], l, h)
			}
		}
	}
	return inside(p.atom(a), lo, hi)
}

// ---------------------------------------------------------------- values

// cval is a concrete value: *big.Int, bool, string tokens, []interface{}.
type cunk struct{}

func (p *Point) val(v Value) interface{} {
	p.burn(1)
	switch x := v.(type) {
	case *Lin:
		return p.lin(x)
	case *DD:
		return p.dd(x)
	case VStr:
		return p.seq(x.s)
	case VSlice:
		if x.inl == nil && x.obj == nil {
			return []interface{}{}
		}
		if x.obj != nil && x.obj.sym == nil {
			return cunk{}
		}
		n := p.lin(x.len)
		var l []interface{}
		if x.inl != nil {
			off := p.lin(x.off)
			l = p.seq(*x.inl)
			if off.Sign() == 0 && n.IsInt64() && clen(l) == n.Int64() {
				return l
			}
			if off.Sign() < 0 || !off.IsInt64() || off.Int64()+n.Int64() > clen(l) || clen(l) != int64(len(l)) {
				panic(unkn{"slice bounds"})
			}
			return l[off.Int64() : off.Int64()+n.Int64()]
		}
		if n.Cmp(bi(200)) > 0 {
			return []interface{}{chunk{p.path(x.obj.sym), x.off.evalAt(p).c, p.size(x.len), x.et}}
		}
		for i := int64(0); i < n.Int64(); i++ {
			l = append(l, p.val(materialise(p.path(x.obj.sym).index(x.off.addC(i).evalAt(p), x.et))))
		}
		return l
	case VStruct:
		var l []interface{}
		for _, f := range x.f {
			l = append(l, p.val(f))
		}
		return l
	case VArr:
		var l []interface{}
		for _, f := range x.e {
			l = append(l, p.val(f))
		}
		return l
	case VTuple:
		var l []interface{}
		for _, f := range x {
			l = append(l, p.val(f))
		}
		return l
	case VIface:
		if x.typ == nil {
			return "nil"
		}
		return []interface{}{"type " + typeKey(x.typ), p.val(x.v)}
	case VSym:
		if _, ok := x.typ.Underlying().(*types.Interface); !ok {
			return cunk{}
		}
		q := p.path(x.p)
		c := p.atom(typeAtom(q)).Int64()
		if c == 0 {
			return "nil"
		}
		t := codeTypes[c]
		if t == nil {
			return cunk{}
		}
		return []interface{}{"type " + typeKey(t), p.val(materialise(q.assert(t)))}
	case VAlt:
		for i := range x.gs {
			if i == len(x.gs)-1 || p.dd(x.gs[i]) {
				return p.val(x.vs[i])
			}
		}
	case VSeq:
		return p.seq(x.s)
	}
	return cunk{}
}

func (l *Lin) evalAt(p *Point) *Lin {
	v := p.lin(l)
	if !v.IsInt64() {
		panic(unkn{"index"})
	}
	return linC(v.Int64())
}

func (p *Point) seq(s Seq) []interface{} {
	out := []interface{}{}
	for _, it := range s {
		p.burn(1)
		switch x := it.(type) {
		case IElem:
			out = append(out, p.val(x.v))
		case ISub:
			n := p.size(x.n)
			off := x.off.evalAt(p)
			q := p.path(x.p)
			if n > 200 {
				out = append(out, chunk{q, off.c, n, x.et})
				continue
			}
			for i := int64(0); i < n; i++ {
				out = append(out, p.val(materialise(q.index(off.addC(i), x.et))))
			}
		case IZero:
			n := p.size(x.n)
			if n > 200 {
				out = append(out, chunk{nil, 0, n, x.et})
				continue
			}
			z := p.val(zeroValue(x.et))
			for i := int64(0); i < n; i++ {
				out = append(out, z)
			}
		case IRep:
			n := p.count(x.n)
			for i := int64(0); i < n; i++ {
				p.with(x.j, i, func() { out = append(out, p.seq(x.body)...) })
			}
		case IScan:
			p.class(x.cls, x.starts, func() { out = append(out, p.seq(x.body)...) }, nil, nil)
		case IAlt:
			for i := range x.gs {
				if i == len(x.gs)-1 || p.dd(x.gs[i]) {
					out = append(out, p.seq(x.ss[i])...)
					break
				}
			}
		case IOpq:
			v, ok := interface{}(nil), false
			base := numeralBase(x)
			if base > 0 {
				v = p.val(x.args[0])
				_, ok = v.(*big.Int)
			}
			if !ok {
				panic(unkn{"item"})
			}
			for _, c := range v.(*big.Int).Text(base) {
				out = append(out, bi(int64(c)))
			}
		default:
			panic(unkn{"item"})
		}
	}
	return out
}

// chunk is a long run of input elements (p) or of zeros.
type chunk struct {
	p      *Path
	off, n int64
	et     types.Type
}

func (c chunk) at(p *Point, i int64) interface{} {
	if c.p == nil {
		return p.val(zeroValue(c.et))
	}
	return p.val(materialise(c.p.index(linC(c.off+i), c.et)))
}

func clen(l []interface{}) int64 {
	n := int64(0)
	for _, x := range l {
		if c, ok := x.(chunk); ok {
			n += c.n
		} else {
			n++
		}
	}
	return n
}

// ldiff compares lists with chunks.
func (p *Point) ldiff(x, y []interface{}, where string) string {
	if clen(x) != clen(y) {
		return fmt.Sprintf("%s has %d elements instead of %d", where, clen(x), clen(y))
	}
	var i, j int
	var di, dj int64 // progress inside chunks
	pos := int64(0)
	for i < len(x) && j < len(y) {
		p.burn(1)
		a, aok := x[i].(chunk)
		b, bok := y[j].(chunk)
		if aok && bok && a.p == b.p && (a.p == nil || a.off+di == b.off+dj) {
			k := min(a.n-di, b.n-dj)
			di, dj, pos = di+k, dj+k, pos+k
		} else {
			u, v := x[i], y[j]
			if aok {
				u = a.at(p, di)
			}
			if bok {
				v = b.at(p, dj)
			}
			if d := p.cdiff(u, v, fmt.Sprintf("%s/%d", where, pos)); d != "" {
				return d
			}
			di, dj, pos = di+1, dj+1, pos+1
		}
		if !aok || di == a.n {
			i, di = i+1, 0
		}
		if !bok || dj == b.n {
			j, dj = j+1, 0
		}
	}
	return ""
}

// cdiff: where two concrete values differ ("" if nowhere).
func (p *Point) cdiff(a, b interface{}, where string) string {
	if _, ok := a.(cunk); ok {
		return ""
	}
	if _, ok := b.(cunk); ok {
		return ""
	}
	switch x := a.(type) {
	case *big.Int:
		if y, ok := b.(*big.Int); ok && x.Cmp(y) == 0 {
			return ""
		}
	case bool:
		if y, ok := b.(bool); ok && x == y {
			return ""
		}
	case string:
		if y, ok := b.(string); ok && x == y {
			return ""
		}
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok {
			break
		}
		return p.ldiff(x, y, where)
	}
	return fmt.Sprintf("%s is %v instead of %v", where, a, b)
}

func (p *Point) String() string {
	var s []string
	for _, a := range p.order {
		v := p.leaf[a].String()
		if a.k == AType {
			if c := p.leaf[a].Int64(); c < int64(len(typeCodeNames)) {
				v = typeCodeNames[c]
			}
		}
		if a.name == "isnil" {
			continue
		}
		s = append(s, a.String()+"="+v)
		if len(s) > 60 {
			s = append(s, "...")
			break
		}
	}
	return strings.Join(s, " ")
}

// ---------------------------------------------------------------- search

var witTime = 4 * time.Second
var witTries = 400000

// search looks for a point at which test says so; goal steers it.
func search(goal *DD, test func(p *Point) string) string {
	t0 := time.Now()
	rng := rand.New(rand.NewSource(int64(goal.id)*7919 + 1))
	tries := 0
	clear(tryStat)
	for ; tries < witTries && time.Since(t0) < witTime; tries++ {
		if s := try(goal, test, rng); s != "" {
			return s
		}
	}
	if os.Getenv("VDEBUGWIT") != "" {
		fmt.Fprintf(os.Stderr, "search: %d tries in %v: %v\n", tries, time.Since(t0), tryStat)
	}
	return ""
}

var tryStat = map[string]int{}

func try(goal *DD, test func(p *Point) string, rng *rand.Rand) (res string) {
	p := newPoint(rng)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unkn); !ok {
				if _, ok := e.(Overflow); !ok {
					panic(e)
				}
			}
			tryStat[fmt.Sprint(e)]++
			res = ""
		}
	}()
	p.iter = true
	if !p.satisfy(goal, true) {
		tryStat["not steered: "+p.lost]++
		return ""
	}
	p.iter = false
	d := test(p)
	if d == "" {
		return ""
	}
	return d + " at " + p.String()
}

// witness: a point where g holds ("" if none is found); with iter, g may be
// about some iteration of a loop.
func witness(g *DD, iter bool) string {
	return search(g, func(p *Point) string {
		p.iter = iter
		if p.dd(g) {
			return "holds"
		}
		return ""
	})
}
