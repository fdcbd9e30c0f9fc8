package main

// Texts of dot-separated segments: string functions that look for dots,
// conversion of segments to numbers, and the question about oid.Parse.

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// segPath is the i-th segment: an arbitrary string without dots.
func segPath(i int) *Path { return rootPath(fmt.Sprintf("seg%d", i), types.Typ[types.String]) }

func isSeg(p *Path) bool {
	return p.kind == PRoot && strings.HasPrefix(p.name, "seg") && isString(p.typ)
}

func segAtom(what string, p *Path, hi *big.Int) *Atom {
	t := types.Typ[types.Int64]
	if hi.Cmp(bi(1)) == 0 {
		t = types.Typ[types.Bool]
	} else if hi.BitLen() <= 33 {
		t = types.Typ[types.Uint32]
	}
	return symAtom(rootPath(what+"("+p.name+")", t))
}

// segNum describes what a segment spells.
type segNum struct {
	isNum *DD  // decimal digits
	huge  *DD  // too large for anything considered
	v     *Lin // the number
	neg   *DD  // a minus sign and digits that are not all zero
	w     *Lin // the absolute value then
}

func segOf(p *Path) segNum {
	cap40 := new(big.Int).Lsh(bi(1), 40)
	s := segNum{
		isNum: boolAtom(segAtom("isNumber", p, bi(1))),
		huge:  boolAtom(segAtom("isHuge", p, bi(1))),
		v:     linAtom(segAtom("number", p, cap40)),
		neg:   boolAtom(segAtom("isNegative", p, bi(1))),
		w:     linAtom(segAtom("negated", p, cap40)).addC(1),
	}
	return s
}

// facts hold for every segment.
func (s segNum) facts(n *Lin) *DD {
	g := s.isNum.not().or(condGE(n.addC(-1)))
	g = g.and(s.neg.not().or(condGE(n.addC(-2))))
	g = g.and(s.isNum.and(s.neg).not())
	for _, x := range []*Lin{s.v, s.w.addC(-1)} {
		g = g.and(condGE(x)).and(condGE(linC(1 << 40).sub(x)))
	}
	return g
}

// noDot: the item contains no dot.
func noDot(it Item) bool {
	switch x := it.(type) {
	case ISub:
		return isSeg(x.p)
	case IOpq:
		return x.key == "decimal"
	case IElem:
		l, ok := x.v.(*Lin)
		return ok && l.isC() && l.c != '.'
	}
	return false
}

func isDot(it Item) bool {
	x, ok := it.(IElem)
	if !ok {
		return false
	}
	l, ok := x.v.(*Lin)
	return ok && l.isC() && l.c == '.'
}

// splitDots gives the parts between the dots.
func splitDots(q Seq) ([]Seq, bool) {
	r := []Seq{nil}
	for _, it := range q {
		switch {
		case isDot(it):
			r = append(r, nil)
		case noDot(it):
			r[len(r)-1] = append(r[len(r)-1], it)
		default:
			return nil, false
		}
	}
	return r, true
}

// segValue recognises a whole segment.
func segValue(q Seq) (segNum, bool) {
	if c, ok := constStr(q); ok {
		s := segNum{isNum: False, huge: False, v: linZero(), neg: False, w: linZero()}
		if v, err := strconv.ParseUint(c, 10, 40); err == nil {
			s.isNum, s.v = True, linC(int64(v))
		} else if c != "" {
			return s, false
		}
		return s, true
	}
	if len(q) != 1 {
		return segNum{}, false
	}
	switch x := q[0].(type) {
	case ISub:
		if isSeg(x.p) && isZeroLin(x.off) && isZeroLin(x.n.sub(linAtom(lenAtom(x.p)))) {
			return segOf(x.p), true
		}
	case IOpq:
		if x.key == "decimal" && len(x.args) == 1 {
			if l, ok := x.args[0].(*Lin); ok {
				return segNum{isNum: condGE(l), huge: False, v: l, neg: condGE(l).not(), w: l.neg()}, true
			}
		}
	}
	return segNum{}, false
}

func init() {
	for _, n := range []string{"IndexByte", "Index", "IndexRune", "Count", "Contains", "ContainsRune", "Split", "Cut"} {
		models["strings."+n] = mDots
	}
	for _, n := range []string{"TrimLeft", "TrimRight", "Trim"} {
		models["strings."+n] = mTrimSet
	}
	for _, n := range []string{"ParseUint", "ParseInt", "Atoi"} {
		models["strconv."+n] = mNumber
	}
}

// dotArg: the argument is the dot.
func dotArg(v Value) bool {
	switch x := v.(type) {
	case *Lin:
		return x.isC() && x.c == '.'
	case VStr:
		c, ok := constStr(x.s)
		return ok && c == "."
	}
	return false
}

func mDots(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	if !dotArg(args[1]) {
		if fn.Name() == "Contains" {
			return mOpqBool(E, fr, st, fn, args, in)
		}
		return E.external(fr, st, fn, args, in)
	}
	return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
		x, ok := a.(VStr)
		var ps []Seq
		if ok {
			ps, ok = splitDots(x.s)
		}
		if !ok {
			if fn.Name() == "Contains" {
				return mOpqBool(E, fr, s, fn, args, in)
			}
			return E.external(fr, s, fn, args, in)
		}
		switch fn.Name() {
		case "Count":
			return linC(int64(len(ps) - 1)), s
		case "Contains", "ContainsRune":
			return boolDD(len(ps) > 1), s
		case "Index", "IndexByte", "IndexRune":
			if len(ps) == 1 {
				return linC(-1), s
			}
			return ps[0].size(), s
		case "Cut":
			if len(ps) == 1 {
				return VTuple{x, VStr{}, False}, s
			}
			i := len(ps[0]) + 1
			return VTuple{VStr{append(Seq{}, ps[0]...)}, VStr{append(Seq{}, x.s[i:]...)}, True}, s
		}
		var q Seq
		for _, p := range ps {
			q = append(q, IElem{VStr{p}})
		}
		return E.newSlice(s, q, linC(int64(len(q))), types.Typ[types.String]), s
	})
}

func mNumber(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	bits := int64(64)
	if fn.Name() != "Atoi" {
		b, ok1 := args[1].(*Lin)
		n, ok2 := args[2].(*Lin)
		if !ok1 || !ok2 || !b.isC() || !n.isC() || b.c < 0 || b.c == 1 || b.c > 36 || n.c < 0 || n.c > 64 {
			return E.external(fr, st, fn, args, in)
		}
		if b.c != 10 {
			// what is spelled in another base is unrelated
			return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
				if x, ok := a.(VStr); ok && len(x.s) == 1 {
					if u, ok := x.s[0].(ISub); ok && isSeg(u.p) && isZeroLin(u.off) && isZeroLin(u.n.sub(linAtom(lenAtom(u.p)))) {
						k := fmt.Sprintf("base%d", b.c)
						g := boolAtom(segAtom("isNumber-"+k, u.p, bi(1))).and(condGE(u.n.addC(-1)))
						v := linAtom(segAtom("number-"+k, u.p, new(big.Int).Lsh(bi(1), 32)))
						return VTuple{ite(g, v, linZero()), errIf(g)}, s
					}
				}
				return E.external(fr, s, fn, args, in)
			})
		}
		if bits = n.c; bits == 0 {
			bits = 64
		}
	}
	return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
		x, ok := a.(VStr)
		var n segNum
		if ok {
			n, ok = segValue(x.s)
		}
		if !ok {
			return E.external(fr, s, fn, args, in)
		}
		g := n.isNum.and(n.huge.not())
		if fn.Name() == "ParseUint" {
			if bits < 40 {
				g = g.and(condGT(linC(1 << bits).sub(n.v)))
				return VTuple{ite(g, n.v, ite(n.isNum, linC(1<<bits-1), linZero())), errIf(g)}, s
			}
			v := linAtom(freshAtom("max", bi(0), nil))
			return VTuple{ite(g, n.v, ite(n.isNum, v, linZero())), errIf(g)}, s
		}
		v := n.v
		if n.neg != False {
			v = ite(n.neg, n.w.neg(), n.v)
			g = g.or(n.neg)
		}
		if bits < 40 {
			m := linC(1 << (bits - 1))
			g = g.and(condGT(m.sub(v))).and(condGE(v.add(m)))
		}
		other := linAtom(freshAtom("clamped", nil, nil))
		return VTuple{ite(g, v, other), errIf(g)}, s
	})
}

// errIf is the error that is nil under g.
func errIf(g *DD) Value {
	e := VIface{typ: runtimePanicType, v: VOpq{key: "error", typ: runtimePanicType}}
	switch g {
	case True:
		return VIface{}
	case False:
		return e
	}
	return VAlt{gs: []*DD{g, g.not()}, vs: []Value{VIface{}, e}}
}

// parseCells: numbers of segments, without and with a leading dot.
var parseCells = []int{1, 2, 3, 4, 5, 9, 17, 40, 128, 129, 130}

// evalParse: Part.Tag indexes parseCells, Ord is the leading dot; Ctx 1 asks
// for the round trip through String instead.
func (E *Engine) evalParse(res *PartRes, p Part) {
	E.fixed, E.noOpaq, keepStr = true, true, true
	defer func() { E.fixed, E.noOpaq, keepStr = false, false, false }()
	f := E.findFn("oid.Parse")
	if f == nil {
		res.Und = append(res.Und, "oid.Parse not found")
		return
	}
	k := parseCells[p.Tag]
	var q, w Seq
	ctx, ok := True, True
	if p.Ord == 1 {
		q = append(q, IElem{linC('.')})
	}
	for i := 0; i < k; i++ {
		if i > 0 {
			q = append(q, IElem{linC('.')})
		}
		if p.Ctx == 1 {
			continue
		}
		sp := segPath(i)
		n := linAtom(lenAtom(sp))
		q = append(q, ISub{sp, linZero(), n, types.Typ[types.Uint8]})
		s := segOf(sp)
		ctx = ctx.and(s.facts(n))
		ok = ok.and(s.isNum).and(s.huge.not()).and(condGT(linC(1 << 32).sub(s.v)))
		w = append(w, IElem{s.v})
	}
	if p.Ctx == 1 {
		g := E.findFn(specPkg + ".ParseString")
		a := argsNamed(g, []string{"id"})
		var c *DD
		a[0], c = setLen(a[0], int64(k))
		have := result(E.totalityOn(g, a, c), c, false)
		res.take(E, have.rep.events)
		if k > 128 {
			return
		}
		want := Result{ok: True, val: freeze(a[0], E.mem0, c)}
		res.Cmp = compare(have, want, c)
		return
	}
	n0 := linAtom(lenAtom(segPath(0)))
	if p.Ord == 0 && k > 1 {
		ctx = ctx.and(condGE(n0.addC(-1))) // else it is a text with a leading dot
	}
	empty := False
	if k == 1 {
		empty = condGE(n0.neg())
		ok = ok.or(empty)
	}
	if k > 128 {
		ok = False
	}
	have := result(E.totalityOn(f, []Value{VStr{q}}, ctx), ctx, false)
	res.take(E, have.rep.events)
	var val Value = VSlice{inl: &w, off: linZero(), len: linC(int64(k)), nilg: False, et: types.Typ[types.Uint32]}
	if k == 1 {
		none := Seq{}
		val = VAlt{gs: []*DD{empty, empty.not()}, vs: []Value{VSlice{inl: &none, off: linZero(), len: linZero(), nilg: True, et: types.Typ[types.Uint32]}, val}}
	}
	res.Cmp = compare(have, Result{ok: ok, val: val}, ctx)
}

// mTrimSet: all dots removed from one or both ends.
func mTrimSet(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	if x, ok := args[0].(VStr); ok {
		if c, ok := args[1].(VStr); ok {
			if set, ok := constStr(c.s); ok {
				if q, ok := trimSeq(x.s, set, fn.Name() != "TrimRight", fn.Name() != "TrimLeft"); ok {
					return VStr{q}, st
				}
			}
		}
	}
	if !dotArg(args[1]) {
		return E.external(fr, st, fn, args, in)
	}
	return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
		x, ok := a.(VStr)
		if !ok {
			return E.external(fr, s, fn, args, in)
		}
		if _, ok := splitDots(x.s); !ok {
			return E.external(fr, s, fn, args, in)
		}
		trim := func(q Seq, left bool, s *State) (gs []*DD, qs []Seq) {
			g := True
			for len(q) > 0 && feasible(s.full().and(g)) {
				it, more := q[0], q[1:]
				if !left {
					it, more = q[len(q)-1], q[:len(q)-1]
				}
				if !isDot(it) {
					z := condGE(it.size().neg())
					gs, qs = append(gs, g.and(z.not())), append(qs, q)
					g = g.and(z)
				}
				q = more
			}
			return append(gs, g), append(qs, nil)
		}
		gs, qs := trim(x.s, fn.Name() != "TrimRight", s)
		if fn.Name() == "Trim" {
			var gs2 []*DD
			var qs2 []Seq
			for i := range gs {
				s1 := s.fork()
				s1.reach = s1.reach.and(gs[i])
				g3, q3 := trim(qs[i], false, s1)
				for k := range g3 {
					gs2, qs2 = append(gs2, gs[i].and(g3[k])), append(qs2, q3[k])
				}
			}
			gs, qs = gs2, qs2
		}
		r := VAlt{}
		for i := range gs {
			if feasible(s.full().and(gs[i])) {
				r.gs, r.vs = append(r.gs, gs[i]), append(r.vs, VStr{append(Seq{}, qs[i]...)})
			}
		}
		if len(r.vs) == 1 {
			return r.vs[0], s
		}
		return r, s
	})
}
