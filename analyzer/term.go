package main

// Terms of the abstract domain: access paths, atoms (unknown integers) and
// linear expressions over atoms. Everything is hash-consed.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- paths

type PathKind int

const (
	PRoot PathKind = iota
	PField
	PIndex
	PAssert
	PDeref
)

// Path names a piece of symbolic input, e.g. pdu.Ranges[$j0].StartOid.
type Path struct {
	id     int
	kind   PathKind
	parent *Path
	name   string
	idx    *Lin
	typ    types.Type
	fr     []*Atom
	lib    byte // see unknown
}

var pathTab = map[string]*Path{}

func internPath(p *Path, key string) *Path {
	if q, ok := pathTab[key]; ok {
		return q
	}
	p.id = len(pathTab) + 1
	pathTab[key] = p
	return p
}

func rootPath(name string, t types.Type) *Path {
	return internPath(&Path{kind: PRoot, name: name, typ: t}, "r:"+name+":"+typeKey(t))
}

func (p *Path) field(name string, t types.Type) *Path {
	return internPath(&Path{kind: PField, parent: p, name: name, typ: t, fr: p.fr}, fmt.Sprintf("f:%d.%s", p.id, name))
}

func (p *Path) index(i *Lin, t types.Type) *Path {
	return internPath(&Path{kind: PIndex, parent: p, idx: i, typ: t, fr: frUnion(p.fr, i.fr)}, fmt.Sprintf("i:%d.%d", p.id, i.id))
}

func (p *Path) assert(t types.Type) *Path {
	return internPath(&Path{kind: PAssert, parent: p, typ: t, fr: p.fr}, fmt.Sprintf("a:%d.%s", p.id, typeKey(t)))
}

func (p *Path) deref(t types.Type) *Path {
	return internPath(&Path{kind: PDeref, parent: p, typ: t, fr: p.fr}, fmt.Sprintf("d:%d", p.id))
}

func typeKey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), nil)
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") || strings.Contains(s, "any") {
		s = aliasNames.ReplaceAllStringFunc(s, func(m string) string {
			i := 0
			if m[0] != 'b' && m[0] != 'r' && m[0] != 'a' {
				i = 1
			}
			return m[:i] + map[string]string{"byte": "uint8", "rune": "int32", "any": "interface{}"}[m[i:]]
		})
	}
	return s
}

var aliasNames = regexp.MustCompile(`(^|[^.\w/])(byte|rune|any)\b`)

func (p *Path) String() string {
	switch p.kind {
	case PRoot:
		return p.name
	case PField:
		return p.parent.String() + "." + p.name
	case PIndex:
		return p.parent.String() + "[" + p.idx.String() + "]"
	case PAssert:
		return p.parent.String() + ".(" + types.TypeString(p.typ, func(*types.Package) string { return "" }) + ")"
	case PDeref:
		return "*" + p.parent.String()
	}
	return "?"
}

func (p *Path) subst(m Sub) *Path {
	if !m.hits(p.fr) {
		return p
	}
	switch p.kind {
	case PField:
		return p.parent.subst(m).field(p.name, p.typ)
	case PIndex:
		return p.parent.subst(m).index(p.idx.subst(m), p.typ)
	case PAssert:
		return p.parent.subst(m).assert(p.typ)
	case PDeref:
		return p.parent.subst(m).deref(p.typ)
	}
	return p
}

// ---------------------------------------------------------------- atoms

type AtomKind int

const (
	ASym    AtomKind = iota // scalar leaf of the symbolic input
	ALen                    // length of a symbolic slice or string
	ACap                    // capacity of a symbolic slice
	AType                   // dynamic type code of a symbolic interface
	AFF                     // finite function of a small-domain atom
	AG                      // [guard]*atom, or the indicator [guard]
	ABits                   // bits [n1, n1+n2) of a linear expression
	AShr                    // floor(l / 2^n1)
	ASum                    // sum of body over j in [0,n)
	AExists                 // 1 iff some j in [0,n) satisfies pred
	AFirst                  // least j in [0,n) that satisfies pred, else n
	AFresh                  // loop index, loop-carried symbol, unknown
	AClass                  // component of a summarised loop
	AOpq                    // uninterpreted function of linear arguments
)

type Atom struct {
	id      int
	k       AtomKind
	lo, hi  *big.Int // nil: unbounded
	path    *Path
	base    *Atom
	tab     []int64
	g       *DD
	inner   *Atom
	l       *Lin
	n1, n2  int
	num     *Lin // ASum, AExists: trip count
	j       *Atom
	body    *Lin
	pred    *DD
	dom     *DD // condition known to hold for every j in range (may be nil)
	name    string
	args    []*Lin
	cls     *Class
	starts  []*Lin
	facts   []*Lin // each >= 0
	axioms  []*DD
	mod4    int // -1 unknown
	lenish  bool
	loopSym bool // loop-carried value in some iteration
	height  int  // binder height
	fr      []*Atom
}

var atomTab = map[string]*Atom{}
var atomList []*Atom

func internAtom(key string, mk func() *Atom) *Atom {
	if a, ok := atomTab[key]; ok {
		return a
	}
	a := mk()
	a.id = len(atomList) + 1
	atomList = append(atomList, a)
	atomTab[key] = a
	return a
}

func frUnion(xs ...[]*Atom) []*Atom {
	var out []*Atom
	for _, x := range xs {
		if len(x) == 0 {
			continue
		}
		if out == nil {
			out = x
			continue
		}
		if len(x) == len(out) {
			same := true
			for i := range x {
				if x[i] != out[i] {
					same = false
					break
				}
			}
			if same {
				continue
			}
		}
		var m []*Atom
		i, j := 0, 0
		for i < len(out) || j < len(x) {
			switch {
			case j >= len(x) || i < len(out) && out[i].id < x[j].id:
				m = append(m, out[i])
				i++
			case i >= len(out) || x[j].id < out[i].id:
				m = append(m, x[j])
				j++
			default:
				m = append(m, out[i])
				i++
				j++
			}
		}
		out = m
	}
	return out
}

func frMinus(x []*Atom, rm ...*Atom) []*Atom {
	var out []*Atom
	for _, a := range x {
		del := false
		for _, r := range rm {
			if a == r {
				del = true
			}
		}
		if !del {
			out = append(out, a)
		}
	}
	return out
}

func frHas(x []*Atom, a *Atom) bool {
	for _, b := range x {
		if a == b {
			return true
		}
	}
	return false
}

var freshN int

// freshAtom makes a new symbol that is a candidate for substitution.
func freshAtom(name string, lo, hi *big.Int) *Atom {
	freshN++
	a := internAtom(fmt.Sprintf("fresh:%d", freshN), func() *Atom {
		return &Atom{k: AFresh, name: fmt.Sprintf("%s#%d", name, freshN), lo: lo, hi: hi, mod4: -1}
	})
	a.fr = []*Atom{a}
	return a
}

// binderAtom is the canonical bound variable of binders of height h.
func binderAtom(h int, kind string) *Atom {
	a := internAtom(fmt.Sprintf("binder:%s:%d", kind, h), func() *Atom {
		a := &Atom{k: AFresh, name: fmt.Sprintf("$%s%d", kind, h), mod4: -1, height: h}
		if kind == "j" {
			a.lo = big.NewInt(0)
		}
		return a
	})
	if a.fr == nil {
		a.fr = []*Atom{a}
	}
	return a
}

func bi(x int64) *big.Int { return big.NewInt(x) }

func typeRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	w, s := intWidth(b)
	if w == 0 {
		return nil, nil
	}
	return widthRange(w, s)
}

func widthRange(w int, signed bool) (lo, hi *big.Int) {
	one := bi(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(w-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	h := new(big.Int).Lsh(one, uint(w))
	return bi(0), new(big.Int).Sub(h, one)
}

func intWidth(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

// maxLen bounds the lengths of inputs (documented assumption: below 2 GiB).
var maxLen = bi(1<<31 - 1 - 4096)

func symAtom(p *Path) *Atom {
	return internAtom(fmt.Sprintf("sym:%d", p.id), func() *Atom {
		lo, hi := typeRange(p.typ)
		if b, ok := p.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			lo, hi = bi(0), bi(1)
		}
		return &Atom{k: ASym, path: p, lo: lo, hi: hi, mod4: -1, fr: p.fr}
	})
}

func lenAtom(p *Path) *Atom {
	return internAtom(fmt.Sprintf("len:%d", p.id), func() *Atom {
		return &Atom{k: ALen, path: p, lo: bi(0), hi: maxLen, mod4: -1, lenish: true, fr: p.fr}
	})
}

func capAtom(p *Path) *Atom {
	a := internAtom(fmt.Sprintf("cap:%d", p.id), func() *Atom {
		return &Atom{k: ACap, path: p, lo: bi(0), mod4: -1, lenish: true, fr: p.fr}
	})
	if a.facts == nil {
		a.facts = []*Lin{linAtom(a).sub(linAtom(lenAtom(p)))}
	}
	return a
}

func typeAtom(p *Path) *Atom {
	return internAtom(fmt.Sprintf("typ:%d", p.id), func() *Atom {
		return &Atom{k: AType, path: p, lo: bi(0), hi: bi(1 << 20), mod4: -1, fr: p.fr}
	})
}

var typeCodes = map[string]int64{"<nil>": 0}
var typeCodeNames = []string{"<nil>"}

func typeCode(t types.Type) int64 {
	k := typeKey(t)
	if c, ok := typeCodes[k]; ok {
		return c
	}
	c := int64(len(typeCodeNames))
	typeCodes[k] = c
	typeCodeNames = append(typeCodeNames, k)
	codeTypes[c] = t
	return c
}

func opqAtom(name string, args []*Lin, lo, hi *big.Int) *Atom {
	var sb strings.Builder
	sb.WriteString("opq:" + name)
	var frs [][]*Atom
	for _, l := range args {
		fmt.Fprintf(&sb, ":%d", l.id)
		frs = append(frs, l.fr)
	}
	return internAtom(sb.String(), func() *Atom {
		return &Atom{k: AOpq, name: name, args: args, lo: lo, hi: hi, mod4: -1, fr: frUnion(frs...)}
	})
}

func (a *Atom) String() string {
	switch a.k {
	case ASym:
		return a.path.String()
	case ALen:
		return "len(" + a.path.String() + ")"
	case ACap:
		return "cap(" + a.path.String() + ")"
	case AType:
		return "typeof(" + a.path.String() + ")"
	case AFF:
		n := len(a.tab)
		if n > 8 {
			n = 8
		}
		return fmt.Sprintf("tab(%s;%v..)", a.base, a.tab[:n])
	case AG:
		if a.inner == nil {
			return "[" + a.g.String() + "]"
		}
		return "[" + a.g.String() + "]*" + a.inner.String()
	case ABits:
		return fmt.Sprintf("bits(%s,%d,%d)", a.l, a.n1, a.n2)
	case AShr:
		return fmt.Sprintf("(%s>>%d)", a.l, a.n1)
	case ASum:
		return fmt.Sprintf("sum(%s<%s: %s)", a.j, a.num, a.body)
	case AExists:
		return fmt.Sprintf("exists(%s<%s: %s)", a.j, a.num, a.pred)
	case AFirst:
		return fmt.Sprintf("first(%s<%s: %s)", a.j, a.num, a.pred)
	case AFresh:
		return a.name
	case AClass:
		return fmt.Sprintf("loop%d.%s%v", a.cls.id, a.name, a.starts)
	case AOpq:
		return fmt.Sprintf("%s%v", a.name, a.args)
	}
	return "?"
}

func (a *Atom) small() bool {
	if a.lo == nil || a.hi == nil {
		return false
	}
	if a.k == AFF || a.k == AG {
		return false
	}
	d := new(big.Int).Sub(a.hi, a.lo)
	return d.IsInt64() && d.Int64() <= 255 && a.lo.IsInt64()
}

// ---------------------------------------------------------------- linear expressions

type Term struct {
	a *Atom
	k int64
}

type Lin struct {
	id int
	c  int64
	t  []Term
	fr []*Atom
}

var linTab = map[string]*Lin{}
var linN int

func rawLin(c int64, t []Term) *Lin {
	buf := make([]byte, 0, 16+len(t)*12)
	buf = strconv.AppendInt(buf, c, 36)
	for _, x := range t {
		buf = append(buf, ',')
		buf = strconv.AppendInt(buf, int64(x.a.id), 36)
		buf = append(buf, '*')
		buf = strconv.AppendInt(buf, x.k, 36)
	}
	if l, ok := linTab[string(buf)]; ok {
		return l
	}
	linN++
	var frs [][]*Atom
	for _, x := range t {
		frs = append(frs, x.a.fr)
	}
	l := &Lin{id: linN, c: c, t: t, fr: frUnion(frs...)}
	linTab[string(buf)] = l
	return l
}

func linC(c int64) *Lin { return rawLin(c, nil) }

func linAtom(a *Atom) *Lin { return rawLin(0, []Term{{a, 1}}) }

func linZero() *Lin { return linC(0) }

// Overflow is panicked when a coefficient leaves the 64-bit range.
type Overflow struct{}

func mulI(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	c := a * b
	if c/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		panic(Overflow{})
	}
	return c
}

func addI(a, b int64) int64 {
	c := a + b
	if (c > a) != (b > 0) && b != 0 {
		panic(Overflow{})
	}
	return c
}

// buildLin normalises a map of terms into a canonical Lin.
func buildLin(c int64, m map[*Atom]int64) *Lin {
	c = normG(c, m)
	// group by small base
	var groups map[*Atom][]Term
	for a, k := range m {
		if k == 0 {
			continue
		}
		if b := smallBase(a); b != nil {
			if groups == nil {
				groups = map[*Atom][]Term{}
			}
			groups[b] = append(groups[b], Term{a, k})
		}
	}
	if groups != nil {
		var bases []*Atom
		for b := range groups {
			bases = append(bases, b)
		}
		sort.Slice(bases, func(i, j int) bool { return bases[i].id < bases[j].id })
		for _, b := range bases {
			ts := groups[b]
			if len(ts) == 1 && (ts[0].a == b || ts[0].a.k == AFF) {
				continue
			}
			lo := b.lo.Int64()
			n := int(b.hi.Int64()-lo) + 1
			tab := make([]int64, n)
			for _, t := range ts {
				for i := 0; i < n; i++ {
					tab[i] = addI(tab[i], mulI(t.k, evalSmall(t.a, b, lo+int64(i))))
				}
				delete(m, t.a)
			}
			dc, da, dk := tabToTerm(b, tab)
			c = addI(c, dc)
			if da != nil {
				m[da] = m[da] + dk
			}
		}
	}
	ts := make([]Term, 0, len(m))
	for a, k := range m {
		if k != 0 {
			ts = append(ts, Term{a, k})
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].a.id < ts[j].a.id })
	return rawLin(c, ts)
}

// smallBase returns the small-domain atom that a is a function of, or nil.
func smallBase(a *Atom) *Atom {
	switch a.k {
	case AFF:
		return a.base
	case AG:
		b := a.g.onlySmall()
		if b == nil {
			return nil
		}
		if a.inner == nil {
			return b
		}
		if smallBase(a.inner) == b {
			return b
		}
		return nil
	}
	if a.small() {
		return a
	}
	return nil
}

// evalSmall evaluates a at base value v; a must be a function of b.
func evalSmall(a, b *Atom, v int64) int64 {
	switch {
	case a == b:
		return v
	case a.k == AFF:
		return a.tab[v-b.lo.Int64()]
	case a.k == AG:
		if !a.g.evalSmall(v) {
			return 0
		}
		if a.inner == nil {
			return 1
		}
		return evalSmall(a.inner, b, v)
	}
	panic("evalSmall")
}

// tabToTerm represents the table as c + k*atom.
func tabToTerm(b *Atom, tab []int64) (c int64, a *Atom, k int64) {
	c = tab[0]
	t := make([]int64, len(tab))
	var g int64
	for i := range tab {
		t[i] = tab[i] - c
		g = gcd(g, t[i])
	}
	if g == 0 {
		return c, nil, 0
	}
	for _, x := range t {
		if x != 0 {
			if x < 0 {
				g = -g
			}
			break
		}
	}
	ident := true
	for i := range t {
		t[i] /= g
		if t[i] != int64(i) {
			ident = false
		}
	}
	if ident {
		return c - g*b.lo.Int64(), b, g
	}
	key := make([]byte, 0, 16+2*len(t))
	key = append(key, "ff:"...)
	key = strconv.AppendInt(key, int64(b.id), 10)
	for _, x := range t {
		key = append(key, ':')
		key = strconv.AppendInt(key, x, 36)
	}
	a = internAtom(string(key), func() *Atom {
		lo, hi := t[0], t[0]
		for _, x := range t {
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
		return &Atom{k: AFF, base: b, tab: t, lo: bi(lo), hi: bi(hi), mod4: -1, fr: b.fr}
	})
	if a.facts == nil {
		// linear relations between the table and its base
		for _, s := range []int64{1, -1} {
			lo, hi := int64(0), int64(0)
			for i, x := range a.tab {
				d := x - s*(b.lo.Int64()+int64(i))
				if i == 0 || d < lo {
					lo = d
				}
				if i == 0 || d > hi {
					hi = d
				}
			}
			// lo <= a - s*b <= hi
			d := rawLin(0, sortTerms([]Term{{a, 1}, {b, -s}}))
			a.facts = append(a.facts, rawLin(-lo, d.t), rawLin(hi, negTerms(d.t)))
		}
	}
	return c, a, g
}

func sortTerms(t []Term) []Term {
	sort.Slice(t, func(i, j int) bool { return t[i].a.id < t[j].a.id })
	return t
}

func negTerms(t []Term) []Term {
	out := make([]Term, len(t))
	for i, x := range t {
		out[i] = Term{x.a, -x.k}
	}
	return out
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (l *Lin) isC() bool { return len(l.t) == 0 }

func (l *Lin) addk(o *Lin, k int64) *Lin {
	if len(o.t) == 0 {
		if o.c == 0 || k == 0 {
			return l
		}
		return rawLin(addI(l.c, mulI(o.c, k)), l.t)
	}
	if len(l.t) == 0 && k == 1 {
		return rawLin(addI(l.c, o.c), o.t)
	}
	m := make(map[*Atom]int64, len(l.t)+len(o.t))
	for _, x := range l.t {
		m[x.a] += x.k
	}
	for _, x := range o.t {
		m[x.a] = addI(m[x.a], mulI(x.k, k))
	}
	return buildLin(addI(l.c, mulI(o.c, k)), m)
}

func (l *Lin) add(o *Lin) *Lin   { return l.addk(o, 1) }
func (l *Lin) sub(o *Lin) *Lin   { return l.addk(o, -1) }
func (l *Lin) addC(c int64) *Lin { return rawLin(addI(l.c, c), l.t) }
func (l *Lin) neg() *Lin         { return linZero().addk(l, -1) }
func (l *Lin) scale(k int64) *Lin {
	return linZero().addk(l, k)
}

func (l *Lin) String() string {
	var sb strings.Builder
	for i, x := range l.t {
		switch {
		case x.k == 1:
			if i > 0 {
				sb.WriteByte('+')
			}
		case x.k == -1:
			sb.WriteByte('-')
		default:
			if i > 0 && x.k > 0 {
				sb.WriteByte('+')
			}
			fmt.Fprintf(&sb, "%d*", x.k)
		}
		sb.WriteString(x.a.String())
	}
	if l.c != 0 || len(l.t) == 0 {
		if l.c >= 0 && len(l.t) > 0 {
			sb.WriteByte('+')
		}
		fmt.Fprintf(&sb, "%d", l.c)
	}
	return sb.String()
}

func (l *Lin) lenish() bool {
	for _, x := range l.t {
		if x.a.lenish || (x.a.k == AG && x.a.inner != nil && x.a.inner.lenish) {
			return true
		}
	}
	return false
}

// rng is the interval of l from the domains of its atoms alone.
func (l *Lin) rng() (lo, hi *big.Int) {
	return l.rngUnder(nil)
}

func (l *Lin) rngUnder(f func(a *Atom) (lo, hi *big.Int)) (lo, hi *big.Int) {
	lo, hi = bi(l.c), bi(l.c)
	for _, x := range l.t {
		var al, ah *big.Int
		if f != nil {
			al, ah = f(x.a)
		} else {
			al, ah = x.a.lo, x.a.hi
		}
		k := bi(x.k)
		if x.k < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(al, k))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(ah, k))
			}
		}
	}
	return
}

// rngG is like rng but splits on the guards of guarded terms.
func (l *Lin) rngG() (lo, hi *big.Int) {
	return rngGRec(l, True, 0)
}

func rngGRec(l *Lin, ctx *DD, depth int) (lo, hi *big.Int) {
	for _, x := range l.t {
		if x.a.k == AG && depth < 4 {
			g := x.a.g
			a, b := ctx.and(g), ctx.and(g.not())
			var lo1, hi1, lo2, hi2 *big.Int
			f1, f2 := a != False, b != False
			if f1 {
				lo1, hi1 = rngGRec(assumeG(l, g, true), a, depth+1)
			}
			if f2 {
				lo2, hi2 = rngGRec(assumeG(l, g, false), b, depth+1)
			}
			if !f1 {
				return lo2, hi2
			}
			if !f2 {
				return lo1, hi1
			}
			if lo1 != nil && lo2 != nil {
				lo = lo1
				if lo2.Cmp(lo) < 0 {
					lo = lo2
				}
			}
			if hi1 != nil && hi2 != nil {
				hi = hi1
				if hi2.Cmp(hi) > 0 {
					hi = hi2
				}
			}
			return
		}
	}
	if ctx == True {
		return l.rng()
	}
	return l.rngUnder(func(a *Atom) (*big.Int, *big.Int) { return ctx.atomRange(a) })
}

// assumeG replaces the terms guarded by exactly g (or its complement) given
// the truth of g.
func assumeG(l *Lin, g *DD, val bool) *Lin {
	ng := g.not()
	m := map[*Atom]int64{}
	c := l.c
	for _, x := range l.t {
		if x.a.k == AG {
			h := x.a.g
			var ng2 *DD
			if h == g {
				ng2 = boolDD(val)
			} else if h == ng {
				ng2 = boolDD(!val)
			} else {
				// cofactor when g decides h
				if val {
					ng2 = h.constrainLit(g)
				} else {
					ng2 = h.constrainLit(ng)
				}
			}
			r := mkG(ng2, x.a.inner)
			c = addI(c, mulI(x.k, r.c))
			for _, y := range r.t {
				m[y.a] += mulI(x.k, y.k)
			}
			continue
		}
		m[x.a] += x.k
	}
	return buildLin(c, m)
}

// ---------------------------------------------------------------- constructors

// mkG is [g]*a, or the indicator [g] if a is nil.
func mkG(g *DD, a *Atom) *Lin { return mkG0(g, a, false) }

func mkG0(g *DD, a *Atom, raw bool) *Lin {
	if g == True {
		if a == nil {
			return linC(1)
		}
		return linAtom(a)
	}
	if g == False {
		return linZero()
	}
	if a != nil && a.k == AG {
		return mkG0(g.and(a.g), a.inner, raw)
	}
	if a != nil {
		if lo, hi := g.atomRange(a); lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.IsInt64() {
			return mkG0(g, nil, raw).scale(lo.Int64())
		}
		if lo, hi := g.not().atomRange(a); lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return linAtom(a)
		}
	}
	id := 0
	var frA []*Atom
	if a != nil {
		id = a.id
		frA = a.fr
	}
	x := internAtom(fmt.Sprintf("g:%d:%d", g.id, id), func() *Atom {
		lo, hi := bi(0), bi(1)
		if a != nil {
			lo, hi = g.atomRange(a)
			if lo != nil && lo.Sign() > 0 {
				lo = bi(0)
			}
			if hi != nil && hi.Sign() < 0 {
				hi = bi(0)
			}
		}
		n := &Atom{k: AG, g: g, inner: a, lo: lo, hi: hi, mod4: -1, fr: frUnion(g.fr(), frA)}
		if a != nil {
			n.lenish = a.lenish
			if a.mod4 == 0 {
				n.mod4 = 0
			}
		}
		return n
	})
	if raw {
		return rawLin(0, []Term{{x, 1}})
	}
	return buildLin(0, map[*Atom]int64{x: 1})
}

// normG brings the guarded terms of a sum into canonical form: terms with the
// same inner atom and related guards become a step function over disjoint
// guards.
func normG(c int64, m map[*Atom]int64) int64 {
	var gs []Term
	for a, k := range m {
		if a.k == AG && k != 0 && smallBase(a) == nil {
			gs = append(gs, Term{a, k})
		}
	}
	if len(gs) == 0 {
		return c
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].a.id < gs[j].a.id })
	put := func(l *Lin, k int64) {
		c = addI(c, mulI(k, l.c))
		for _, x := range l.t {
			m[x.a] = addI(m[x.a], mulI(k, x.k))
		}
	}
	done := make([]bool, len(gs))
	for i := range gs {
		if done[i] {
			continue
		}
		inner := gs[i].a.inner
		comp := []int{i}
		done[i] = true
		fr := map[*Atom]bool{}
		for _, a := range gs[i].a.g.atomSet() {
			fr[a] = true
		}
		for again := true; again; {
			again = false
			for j := range gs {
				if !done[j] && gs[j].a.inner == inner && setMeet(fr, gs[j].a.g.atomSet()) {
					done[j] = true
					comp = append(comp, j)
					for _, a := range gs[j].a.g.atomSet() {
						fr[a] = true
					}
					again = true
				}
			}
		}
		if len(comp) == 1 && (inner != nil || !leftmost(gs[i].a.g)) {
			continue
		}
		if len(comp) > 16 {
			continue
		}
		type pc struct {
			v int64
			g *DD
		}
		ps := []pc{{0, True}}
		ok := true
		for _, j := range comp {
			var ns []pc
			add := func(v int64, g *DD) {
				if g == False {
					return
				}
				for x := range ns {
					if ns[x].v == v {
						ns[x].g = ns[x].g.or(g)
						return
					}
				}
				ns = append(ns, pc{v, g})
			}
			g := gs[j].a.g
			for _, p := range ps {
				add(addI(p.v, gs[j].k), p.g.and(g))
				add(p.v, p.g.and(g.not()))
			}
			ps = ns
			if len(ps) > 6 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		for _, j := range comp {
			delete(m, gs[j].a)
		}
		base := int64(0)
		if inner == nil {
			for _, p := range ps {
				if leftmost(p.g) {
					base = p.v
				}
			}
			c = addI(c, base)
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].v < ps[j].v })
		for _, p := range ps {
			if p.v != base {
				put(mkG0(p.g, inner, true), p.v-base)
			}
		}
	}
	return c
}

// leftmost is the value of d at its least assignment.
func leftmost(d *DD) bool {
	for !d.term() {
		d = d.kids[0]
	}
	return d == True
}

func setMeet(a map[*Atom]bool, b []*Atom) bool {
	for _, x := range b {
		if a[x] {
			return true
		}
	}
	return false
}

var atomSets = map[*DD][]*Atom{}

func (d *DD) atomSet() []*Atom {
	if s, ok := atomSets[d]; ok {
		return s
	}
	var s []*Atom
	has := map[*Atom]bool{}
	atomsOfDD(d, map[*DD]bool{}, func(a *Atom) {
		if !has[a] {
			has[a] = true
			s = append(s, a)
		}
	})
	atomSets[d] = s
	return s
}

func gmul(g *DD, l *Lin) *Lin {
	if g == True {
		return l
	}
	if g == False {
		return linZero()
	}
	r := linZero()
	if l.c != 0 {
		r = mkG(g, nil).scale(l.c)
	}
	for _, x := range l.t {
		r = r.addk(mkG(g, x.a), x.k)
	}
	return r
}

// ite is "if g then a else b".
func ite(g *DD, a, b *Lin) *Lin {
	if a == b {
		return a
	}
	if g == True {
		return a
	}
	if g == False {
		return b
	}
	return b.add(gmul(g, a.sub(b)))
}

func inRange(l *Lin, lo, hi *big.Int) bool {
	a, b := l.rng()
	if a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return true
	}
	for _, x := range l.t {
		if x.a.k == AG {
			a, b = l.rngG()
			return a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0
		}
	}
	return false
}

// wrap converts l to a w-bit integer.
func wrap(l *Lin, w int, signed bool) *Lin {
	lo, hi := widthRange(w, signed)
	if inRange(l, lo, hi) {
		return l
	}
	if w >= 32 && l.lenish() {
		return l // documented assumption: lengths do not overflow
	}
	if !signed {
		return mkBits(l, 0, w)
	}
	u := mkBits(l, 0, w)
	if w == 64 {
		// 2^64 does not fit a coefficient; only values known to fit stay exact
		if a, b := u.rng(); a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
			return u
		}
		if a, b := l.rng(); a == nil || b == nil {
			return l // int arithmetic: no overflow assumed
		}
		return linAtom(opqAtom("int64", []*Lin{l}, lo, hi))
	}
	half := int64(1) << uint(w-1)
	return u.add(mkG(condGE(u.addC(-half)), nil).scale(-(half * 2)))
}

type seg struct {
	pos, w int
	a      *Atom
	cst    int64 // for constants: value of the w bits
}

// segsOf views l as a sum of disjoint bit fields.
func segsOf(l *Lin) ([]seg, bool) {
	var out []seg
	if l.c < 0 {
		return nil, false
	}
	for _, x := range l.t {
		if x.k <= 0 || x.k&(x.k-1) != 0 {
			return nil, false
		}
		if x.a.lo == nil || x.a.hi == nil || x.a.lo.Sign() < 0 {
			return nil, false
		}
		p := 0
		for k := x.k; k > 1; k >>= 1 {
			p++
		}
		w := x.a.hi.BitLen()
		if w == 0 {
			w = 1
		}
		out = append(out, seg{p, w, x.a, 0})
	}
	c := l.c
	for p := 0; c != 0; {
		if c&1 == 0 {
			c >>= 1
			p++
			continue
		}
		w := 0
		v := int64(0)
		for c&1 == 1 {
			v |= 1 << uint(w)
			w++
			c >>= 1
		}
		out = append(out, seg{p, w, nil, v})
		p += w
	}
	sort.Slice(out, func(i, j int) bool { return out[i].pos < out[j].pos })
	for i := 1; i < len(out); i++ {
		if out[i-1].pos+out[i-1].w > out[i].pos {
			return nil, false
		}
	}
	return out, true
}

// bitsOfAtom extracts bits [lo,lo+n) of an atom (two's complement).
func bitsOfAtom(a *Atom, lo, n int) *Lin {
	if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 {
		w := a.hi.BitLen()
		if lo >= w {
			return linZero()
		}
		if lo+n > w {
			n = w - lo
		}
		if lo == 0 && n >= w {
			return linAtom(a)
		}
	}
	if a.k == AShr {
		return mkBits(a.l, a.n1+lo, n)
	}
	if b := smallBase(a); b != nil {
		bl := b.lo.Int64()
		m := int(b.hi.Int64()-bl) + 1
		tab := make([]int64, m)
		for i := range tab {
			tab[i] = (evalSmall(a, b, bl+int64(i)) >> uint(lo)) & (1<<uint(n) - 1)
		}
		c, t, k := tabToTerm(b, tab)
		if t == nil {
			return linC(c)
		}
		return buildLin(c, map[*Atom]int64{t: k})
	}
	if a.k == ABits {
		if lo+n > a.n2 {
			n = a.n2 - lo
		}
		return mkBits(a.l, a.n1+lo, n)
	}
	if a.k == AShr {
		return mkBits(a.l, a.n1+lo, n)
	}
	return bitsAtom(linAtom(a), lo, n)
}

func bitsAtom(l *Lin, lo, n int) *Lin {
	a := internAtom(fmt.Sprintf("bits:%d:%d:%d", l.id, lo, n), func() *Atom {
		_, hi := widthRange(n, false)
		return &Atom{k: ABits, l: l, n1: lo, n2: n, lo: bi(0), hi: hi, mod4: -1, fr: l.fr}
	})
	return linAtom(a)
}

// mod4of reduces l modulo 4 to a simpler congruent expression.
func mod4of(l *Lin) *Lin {
	c := l.c
	m := map[*Atom]int64{}
	var gs map[*DD]*Lin
	for _, x := range l.t {
		k := ((x.k % 4) + 4) % 4
		if k == 0 {
			continue
		}
		a := x.a
		if a.mod4 >= 0 {
			c = c%4 + k*int64(a.mod4)
			continue
		}
		if a.k == AG && a.inner != nil {
			if gs == nil {
				gs = map[*DD]*Lin{}
			}
			if gs[a.g] == nil {
				gs[a.g] = linZero()
			}
			gs[a.g] = gs[a.g].add(linAtom(a.inner).scale(k))
			continue
		}
		if a.k == ABits && a.n1 == 0 && a.n2 >= 2 {
			r := mod4of(a.l)
			c = c%4 + k*r.c
			for _, y := range r.t {
				m[y.a] = (m[y.a] + k*y.k) % 4
			}
			continue
		}
		if a.k == AFF {
			// affine modulo 4?
			lo := a.base.lo.Int64()
			found := false
			for s := int64(0); s < 4 && !found; s++ {
				b := a.tab[0] - s*lo
				ok := true
				for i, v := range a.tab {
					if (v-s*(lo+int64(i))-b)%4 != 0 {
						ok = false
						break
					}
				}
				if ok {
					found = true
					r := mod4of(linAtom(a.base).scale(s).addC(b % 4))
					c = c%4 + k*r.c
					for _, y := range r.t {
						m[y.a] = (m[y.a] + k*y.k) % 4
					}
				}
			}
			if found {
				continue
			}
		}
		m[a] = (m[a] + k) % 4
	}
	for g, in := range gs {
		r := mod4of(in)
		for _, y := range r.t {
			for _, z := range mkG0(g, y.a, true).t {
				m[z.a] = (m[z.a] + z.k*y.k) % 4
			}
		}
		if r.c != 0 {
			q := mkG0(g, nil, true)
			c = c%4 + r.c*q.c
			for _, z := range q.t {
				m[z.a] = (m[z.a] + r.c*z.k) % 4
			}
		}
	}
	c = ((c % 4) + 4) % 4
	for a, k := range m {
		k = ((k % 4) + 4) % 4
		if k == 0 {
			delete(m, a)
		} else {
			m[a] = k
		}
	}
	return buildLin(c, m)
}

// mkBits is bits [lo,lo+n) of l in two's complement.
func mkBits(l *Lin, lo, n int) *Lin {
	if n <= 0 {
		return linZero()
	}
	if l.isC() {
		v := l.c >> uint(min(lo, 63))
		if n < 63 {
			v &= 1<<uint(n) - 1
		} else if v < 0 {
			return bitsAtom(l, lo, n)
		}
		return linC(v)
	}
	// drop multiples of 2^(lo+n)
	if lo+n < 63 {
		md := int64(1) << uint(lo+n)
		if lo+n <= 2 {
			r := mod4of(l)
			m := map[*Atom]int64{}
			for _, x := range r.t {
				m[x.a] = x.k
			}
			l = buildLin(r.c, m)
		}
		m := map[*Atom]int64{}
		for _, x := range l.t {
			k := x.k % md
			if k != 0 {
				m[x.a] = k
			}
		}
		c := l.c % md
		if c < 0 {
			c += md
		}
		r := buildLin(c, m)
		// coefficients that became representable as non-negative are kept as is
		if r.isC() {
			return mkBits(r, lo, n)
		}
		l = r
		if lo == 0 {
			a, b := widthRange(n, false)
			if inRange(l, a, b) {
				return l
			}
			// a negative constant shift may have moved the range: try l - md
			l2 := l.addC(-md)
			if inRange(l2, a, b) {
				return l2
			}
		}
	} else if lo == 0 {
		a, b := widthRange(n, false)
		if inRange(l, a, b) {
			return l
		}
	}
	if lo == 0 && n == 2 && (l.c != 0 || l.t[0].k == 3) && l.onlySmallBase() == nil {
		m := linC(0)
		neg := l.t[0].k == 3
		c := l.c
		if neg {
			m = mkBits(mod4of(l.addC(-c).neg()), 0, 2)
		} else {
			m = mkBits(l.addC(-c), 0, 2)
		}
		if b := m.onlySmallBase(); b != nil {
			return tabulate(b, func(v int64) int64 {
				x := m.evalSmall(b, v)
				if neg {
					x = -x
				}
				return (x + c) & 3
			})
		}
	}
	// guarded terms: distribute
	for _, x := range l.t {
		if x.a.k == AG && smallBase(x.a) == nil {
			g := x.a.g
			return ite(g, mkBits(assumeG(l, g, true), lo, n), mkBits(assumeG(l, g, false), lo, n))
		}
	}
	if len(l.t) == 1 && l.t[0].k == 1 && l.c == 0 {
		return bitsOfAtom(l.t[0].a, lo, n)
	}
	// function of one small atom
	if b := l.onlySmallBase(); b != nil && lo+n < 62 {
		return tabulate(b, func(v int64) int64 {
			return (l.evalSmall(b, v) >> uint(lo)) & (1<<uint(n) - 1)
		})
	}
	if segs, ok := segsOf(l); ok {
		r := linZero()
		for _, s := range segs {
			// overlap of [pos,pos+w) with [lo,lo+n)
			a, b := s.pos, s.pos+s.w
			if a < lo {
				a = lo
			}
			if b > lo+n {
				b = lo + n
			}
			if a >= b {
				continue
			}
			var p *Lin
			if s.a == nil {
				p = linC((s.cst >> uint(a-s.pos)) & (1<<uint(b-a) - 1))
			} else {
				p = bitsOfAtom(s.a, a-s.pos, b-a)
			}
			r = r.add(p.scale(int64(1) << uint(a-lo)))
		}
		return r
	}
	return bitsAtom(l, lo, n)
}

func (l *Lin) onlySmallBase() *Atom {
	var b *Atom
	for _, x := range l.t {
		s := smallBase(x.a)
		if s == nil || b != nil && b != s {
			return nil
		}
		b = s
	}
	return b
}

func (l *Lin) evalSmall(b *Atom, v int64) int64 {
	r := l.c
	for _, x := range l.t {
		r += x.k * evalSmall(x.a, b, v)
	}
	return r
}

func tabulate(b *Atom, f func(v int64) int64) *Lin {
	lo := b.lo.Int64()
	n := int(b.hi.Int64()-lo) + 1
	tab := make([]int64, n)
	for i := range tab {
		tab[i] = f(lo + int64(i))
	}
	c, a, k := tabToTerm(b, tab)
	if a == nil {
		return linC(c)
	}
	return buildLin(c, map[*Atom]int64{a: k})
}

// mkShr is floor(l / 2^k).
func mkShr(l *Lin, k int) *Lin {
	if k == 0 {
		return l
	}
	if l.isC() {
		if k > 63 {
			k = 63
		}
		return linC(l.c >> uint(k))
	}
	lo, hi := l.rng()
	if lo == nil || hi == nil || lo.Sign() < 0 {
		lo, hi = l.rngG()
	}
	if lo != nil && hi != nil && lo.Sign() >= 0 {
		w := hi.BitLen()
		if k >= w {
			return linZero()
		}
		return mkBits(l, k, w-k)
	}
	if b := l.onlySmallBase(); b != nil {
		return tabulate(b, func(v int64) int64 { return l.evalSmall(b, v) >> uint(k) })
	}
	// exact division of all terms
	if k < 62 {
		d := int64(1) << uint(k)
		all := true
		for _, x := range l.t {
			if x.k%d != 0 {
				all = false
			}
		}
		if all {
			m := map[*Atom]int64{}
			for _, x := range l.t {
				m[x.a] = x.k / d
			}
			return buildLin(l.c>>uint(k), m)
		}
	}
	if len(l.t) == 1 && l.t[0].k == 1 && l.c == 0 && l.t[0].a.k == AShr {
		a := l.t[0].a
		return mkShr(a.l, a.n1+k)
	}
	a := internAtom(fmt.Sprintf("shr:%d:%d", l.id, k), func() *Atom {
		var lo2, hi2 *big.Int
		if lo != nil {
			lo2 = new(big.Int).Rsh(lo, uint(k))
		}
		if hi != nil {
			hi2 = new(big.Int).Rsh(hi, uint(k))
		}
		return &Atom{k: AShr, l: l, n1: k, lo: lo2, hi: hi2, mod4: -1, lenish: l.lenish(), fr: l.fr}
	})
	if a.facts == nil && k < 40 {
		// 0 <= l - 2^k*a <= 2^k-1
		d := int64(1) << uint(k)
		r := l.sub(linAtom(a).scale(d))
		a.facts = []*Lin{r, r.neg().addC(d - 1)}
	}
	return linAtom(a)
}

// mulLin multiplies two expressions.
func mulLin(a, b *Lin) *Lin {
	if a.isC() {
		return b.scale(a.c)
	}
	if b.isC() {
		return a.scale(b.c)
	}
	if x, y := a.onlySmallBase(), b.onlySmallBase(); x != nil && x == y {
		return tabulate(x, func(v int64) int64 { return a.evalSmall(x, v) * b.evalSmall(x, v) })
	}
	if a.id > b.id {
		a, b = b, a
	}
	lo1, hi1 := a.rng()
	lo2, hi2 := b.rng()
	var lo, hi *big.Int
	if lo1 != nil && lo2 != nil && lo1.Sign() >= 0 && lo2.Sign() >= 0 {
		lo = new(big.Int).Mul(lo1, lo2)
		if hi1 != nil && hi2 != nil {
			hi = new(big.Int).Mul(hi1, hi2)
		}
	}
	at := opqAtom("mul", []*Lin{a, b}, lo, hi)
	at.lenish = a.lenish() || b.lenish()
	return linAtom(at)
}

// mulNN is max(a,0)*max(b,0).
func mulNN(a, b *Lin) *Lin {
	lo1, _ := a.rng()
	lo2, _ := b.rng()
	if lo1 != nil && lo2 != nil && lo1.Sign() >= 0 && lo2.Sign() >= 0 {
		return mulLin(a, b)
	}
	if a.isC() || b.isC() {
		a = ite(condGE(a), a, linZero())
		b = ite(condGE(b), b, linZero())
		return mulLin(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	at := opqAtom("mulnn", []*Lin{a, b}, bi(0), nil)
	at.lenish = a.lenish() || b.lenish()
	return linAtom(at)
}

// ---------------------------------------------------------------- sums

func heightOfAtoms(fr []*Atom) int { return 0 }

// linHeight is the largest binder height occurring in l.
func linHeight(l *Lin) int {
	h := 0
	for _, x := range l.t {
		if v := atomHeight(x.a); v > h {
			h = v
		}
	}
	return h
}

var atomHeightMemo = map[*Atom]int{}

func atomHeight(a *Atom) int {
	if h, ok := atomHeightMemo[a]; ok {
		return h
	}
	h := 0
	up := func(v int) {
		if v > h {
			h = v
		}
	}
	switch a.k {
	case ASym, ALen, ACap, AType:
		up(pathHeight(a.path))
	case AFF:
		up(atomHeight(a.base))
	case AG:
		up(a.g.height())
		if a.inner != nil {
			up(atomHeight(a.inner))
		}
	case ABits, AShr:
		up(linHeight(a.l))
	case ASum:
		up(a.j.height)
		up(linHeight(a.num))
		up(linHeight(a.body))
	case AExists, AFirst:
		up(a.j.height)
		up(linHeight(a.num))
		up(a.pred.height())
	case AFresh:
		up(a.height)
	case AClass:
		up(a.cls.height)
		for _, s := range a.starts {
			up(linHeight(s))
		}
	case AOpq:
		for _, s := range a.args {
			up(linHeight(s))
		}
	}
	atomHeightMemo[a] = h
	return h
}

func pathHeight(p *Path) int {
	h := 0
	for ; p != nil; p = p.parent {
		if p.idx != nil {
			if v := linHeight(p.idx); v > h {
				h = v
			}
		}
	}
	return h
}

var sumAtoms []*Atom

// mkSum is the sum of body over j in [0,n). dom is known to hold for all j.
func mkSum(n *Lin, j *Atom, body *Lin, dom *DD) *Lin {
	r := mulLin(n, linC(body.c))
	var g []Term // guarded, j-dependent
	for _, x := range body.t {
		if !frHas(x.a.fr, j) {
			r = r.add(mulLin(n, linAtom(x.a)).scale(x.k))
			continue
		}
		if x.a.k == AG {
			g = append(g, x)
			continue
		}
		r = r.add(sumAtom(n, j, linAtom(x.a), dom).scale(x.k))
	}
	if len(g) > 0 {
		m := map[*Atom]int64{}
		for _, x := range g {
			m[x.a] = x.k
		}
		r = r.add(sumAtom(n, j, buildLin(0, m), dom))
	}
	return r
}

func sumAtom(n *Lin, j *Atom, body *Lin, dom *DD) *Lin {
	if n.isC() && n.c <= 0 {
		return linZero()
	}
	if n.isC() && n.c <= 8 {
		r := linZero()
		for i := int64(0); i < n.c; i++ {
			r = r.add(body.subst(Sub{j: linC(i)}))
		}
		return r
	}
	if body.isC() || !frHas(body.fr, j) {
		return mulLin(n, body)
	}
	h := linHeight(body)
	if dom != nil {
		if v := dom.height(); v > h {
			h = v
		}
	}
	b := binderAtom(h+1, "j")
	if b != j {
		s := Sub{j: linAtom(b)}
		body = body.subst(s)
		if dom != nil {
			dom = dom.subst(s)
		}
	}
	key := fmt.Sprintf("sum:%d:%d:%d", n.id, b.id, body.id)
	if a, ok := atomTab[key]; ok {
		return linAtom(a)
	}
	// semantic look-up
	for _, a := range sumAtoms {
		if a.num == n && a.j == b {
			ctx := True
			if dom != nil {
				ctx = ctx.and(dom)
			}
			if a.dom != nil {
				ctx = ctx.and(a.dom)
			}
			ctx = ctx.and(condGE(linAtom(b))).and(condGT(n.sub(linAtom(b))))
			if eqLin(a.body, body, ctx) {
				return linAtom(a)
			}
		}
	}
	a := internAtom(key, func() *Atom {
		x := &Atom{k: ASum, num: n, j: b, body: body, dom: dom, mod4: -1, lenish: true,
			fr: frMinus(frUnion(n.fr, body.fr), b)}
		lo, _ := body.rng()
		if lo != nil && lo.Sign() >= 0 {
			x.lo = bi(0)
		} else {
			ctx := condGE(linAtom(b)).and(condGT(n.sub(linAtom(b))))
			if dom != nil {
				ctx = ctx.and(dom)
			}
			if entails(ctx, condGE(body)) {
				x.lo = bi(0)
			}
		}
		if r := mod4of(body); r.isC() && r.c == 0 {
			x.mod4 = 0
		}
		return x
	})
	sumAtoms = append(sumAtoms, a)
	return linAtom(a)
}

// ---------------------------------------------------------------- substitution

type Sub map[*Atom]*Lin

func (m Sub) hits(fr []*Atom) bool {
	for _, a := range fr {
		if _, ok := m[a]; ok {
			return true
		}
	}
	return false
}

func (m Sub) without(a *Atom) Sub {
	if _, ok := m[a]; !ok {
		return m
	}
	n := Sub{}
	for k, v := range m {
		if k != a {
			n[k] = v
		}
	}
	return n
}

func (l *Lin) subst(m Sub) *Lin {
	if !m.hits(l.fr) {
		return l
	}
	r := linC(l.c)
	for _, x := range l.t {
		r = r.addk(x.a.subst(m), x.k)
	}
	return r
}

func (a *Atom) subst(m Sub) *Lin {
	if !m.hits(a.fr) {
		return linAtom(a)
	}
	if v, ok := m[a]; ok {
		return v
	}
	switch a.k {
	case ASym:
		if a.name == "isnil" {
			return linAtom(nilAtom(a.path.subst(m)))
		}
		if l, ok := materialise(a.path.subst(m)).(*Lin); ok {
			return l
		}
		return linAtom(symAtom(a.path.subst(m)))
	case ALen:
		return linAtom(lenAtom(a.path.subst(m)))
	case ACap:
		return linAtom(capAtom(a.path.subst(m)))
	case AType:
		return linAtom(typeAtom(a.path.subst(m)))
	case AFF:
		b := a.base.subst(m)
		if b.isC() {
			i := b.c - a.base.lo.Int64()
			if i >= 0 && i < int64(len(a.tab)) {
				return linC(a.tab[i])
			}
			return linC(0)
		}
		if len(b.t) == 1 && b.c == 0 && b.t[0].k == 1 && b.t[0].a.small() {
			nb := b.t[0].a
			lo := a.base.lo.Int64()
			return tabulate(nb, func(v int64) int64 {
				if v-lo >= 0 && v-lo < int64(len(a.tab)) {
					return a.tab[v-lo]
				}
				return 0
			})
		}
		if sb := b.onlySmallBase(); sb != nil {
			lo := a.base.lo.Int64()
			return tabulate(sb, func(v int64) int64 {
				i := b.evalSmall(sb, v) - lo
				if i >= 0 && i < int64(len(a.tab)) {
					return a.tab[i]
				}
				return 0
			})
		}
		return linAtom(opqAtom("fftab", []*Lin{b}, a.lo, a.hi))
	case AG:
		g := a.g.subst(m)
		if a.inner == nil {
			return mkG(g, nil)
		}
		return gmul(g, a.inner.subst(m))
	case ABits:
		return mkBits(a.l.subst(m), a.n1, a.n2)
	case AShr:
		return mkShr(a.l.subst(m), a.n1)
	case ASum:
		mm := m.without(a.j)
		var dom *DD
		if a.dom != nil {
			dom = a.dom.subst(mm)
		}
		return sumAtom(a.num.subst(m), a.j, a.body.subst(mm), dom)
	case AFirst:
		mm := m.without(a.j)
		return firstAtom(a.num.subst(m), a.j, a.pred.subst(mm))
	case AExists:
		mm := m.without(a.j)
		return mkG(mkExists(a.num.subst(m), a.j, a.pred.subst(mm)), nil)
	case AClass:
		c := a.cls.subst(m)
		var st []*Lin
		for _, s := range a.starts {
			st = append(st, s.subst(m))
		}
		return c.component(a.name, a.n1, st)
	case AOpq:
		var as []*Lin
		for _, x := range a.args {
			as = append(as, x.subst(m))
		}
		if a.name == "mul" {
			return mulLin(as[0], as[1])
		}
		if a.name == "mulnn" {
			return mulNN(as[0], as[1])
		}
		n := opqAtom(a.name, as, a.lo, a.hi)
		n.lenish = a.lenish
		return linAtom(n)
	}
	return linAtom(a)
}
