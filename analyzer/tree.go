package main

// Questions about OID trees: histories of operations on trees whose OIDs are
// sequences of symbolic labels in ascending order.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { models["sort.Search"] = mSearch }

// mSearch follows the binary search of package sort for a known length.
func mSearch(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	n := norm(E.asLin(args[0], types.Typ[types.Int]), st)
	if !n.isC() || n.c > 64 {
		return E.external(fr, st, fn, args, in)
	}
	bad := false
	var rec func(s *State, i, j int64) (Value, *State)
	rec = func(s *State, i, j int64) (Value, *State) {
		if i >= j {
			return linC(i), s
		}
		h := (i + j) / 2
		v, s2 := E.callValue(fr, s, args[1], []Value{linC(h)}, nil, in, nil)
		if s2 == nil {
			return nil, nil
		}
		g, ok := v.(*DD)
		if !ok {
			bad = true
			return linZero(), s2
		}
		if !feasible(s2.full().and(g.not())) {
			return rec(s2, i, h)
		}
		if !feasible(s2.full().and(g)) {
			return rec(s2, h+1, j)
		}
		a, b := s2.fork(), s2.fork()
		a.reach, b.reach = a.reach.and(g), b.reach.and(g.not())
		va, sa := rec(a, i, h)
		vb, sb := rec(b, h+1, j)
		if sa == nil {
			return vb, sb
		}
		if sb == nil {
			return va, sa
		}
		sj, vj := joinN([]*DD{g, g.not()}, []*State{sa, sb}, []Value{va, vb})
		return vj, sj
	}
	v, s := rec(st, 0, n.c)
	if bad {
		return E.external(fr, s, fn, args, in)
	}
	return v, s
}

// label is the i-th symbolic subidentifier.
func label(i int) *Lin {
	return linAtom(symAtom(rootPath("labels", types.NewSlice(types.Typ[types.Uint32])).index(linC(int64(i)), types.Typ[types.Uint32])))
}

const nLabels = 7

func labelCtx() *DD {
	g := True
	for i := 1; i < nLabels; i++ {
		g = g.and(condGT(label(i).sub(label(i - 1))))
	}
	return g
}

func inlSlice(q Seq, et types.Type) VSlice {
	return VSlice{inl: &q, off: linZero(), len: linC(int64(len(q))), nilg: boolDD(len(q) == 0), et: et}
}

// labelled is the OID written as digits, each the number of a label.
func labelled(s string) VSlice {
	var q Seq
	for _, c := range s {
		q = append(q, IElem{label(int(c - '0'))})
	}
	return inlSlice(q, types.Typ[types.Uint32])
}

func labelledAll(ss []string) VSlice {
	t := types.NewSlice(types.Typ[types.Uint32])
	var q Seq
	for _, s := range ss {
		q = append(q, IElem{labelled(s)})
	}
	return inlSlice(q, t)
}

// bases are trees: the OIDs added, in this order.
var bases = [][]string{
	{}, {"1"}, {"1", "3"}, {"3", "1"}, {"1", "3", "5"}, {"5", "3", "1"}, {"3", "5", "1"},
	{"11", "13"}, {"13", "11", "3"}, {"11", "33"}, {"33", "11", "35"}, {"111", "13"}, {"3", "31", "35", "33"},
	{"135", "3", "133", "5", "131"}, {"1111", "13", "1133"}, {"11113", "11111", "5"},
}

// targets are the OIDs an operation is asked for.
func targets() []string {
	r := []string{""}
	for i := 0; i < nLabels; i++ {
		r = append(r, fmt.Sprint(i))
		for j := 0; j < nLabels; j++ {
			r = append(r, fmt.Sprintf("%d%d", i, j))
		}
	}
	for _, x := range []string{"000", "111", "110", "112", "131", "133", "130", "135", "136", "134", "333", "1111", "1351", "5555", "24624"} {
		r = append(r, x)
	}
	return r
}

type history struct {
	ops []int
	ids []string
}

func (h history) String() string {
	s := ""
	for i, o := range h.ops {
		s += " " + []string{"add ", "remove ", "clear"}[o]
		if o < 2 {
			if h.ids[i] == "" {
				s += "nil"
			}
			for k, c := range h.ids[i] {
				if k > 0 {
					s += "."
				}
				s += "s" + string(c)
			}
		}
	}
	return strings.TrimSpace(s)
}

// histories of case n: a base and one of four continuations.
func histories(n int64) []history {
	base := bases[n/4]
	var r []history
	mk := func(more ...interface{}) {
		var h history
		for _, b := range base {
			h.ops, h.ids = append(h.ops, 0), append(h.ids, b)
		}
		for i := 0; i < len(more); i += 2 {
			h.ops, h.ids = append(h.ops, more[i].(int)), append(h.ids, more[i+1].(string))
		}
		r = append(r, h)
	}
	for _, x := range targets() {
		switch n % 4 {
		case 0:
			mk(0, x)
		case 1:
			mk(1, x)
		case 2:
			mk(0, x, 1, x, 0, "2", 0, x+"3")
		case 3:
			mk(1, x, 0, x, 0, x)
		}
	}
	if n%4 == 0 {
		mk(2, "", 0, "4", 0, "22")
	}
	return r
}

func (E *Engine) treeQ(res *PartRes, have, want string, args func() []Value, ctx *DD, what string) {
	f, s := E.findFn(specPkg+"."+have), E.findFn(specPkg+"."+want)
	h := result(E.totalityOn(f, args(), ctx), ctx, false)
	res.take(E, h.rep.events)
	w := result(E.totalityOn(s, args(), ctx), ctx, false)
	res.N["histories"]++
	for _, pn := range h.rep.panics {
		res.confirm(pn.g, Viol{"panic", what, pn.what + " at " + pn.site})
	}
	c := compare(h, w, ctx)
	if c.Und != "" && c.Refuse+c.Value == "" {
		// undecided for all ways capacities may grow: look at the actual one
		E.grow = true
		h = result(E.totalityOn(f, args(), ctx), ctx, false)
		E.grow = false
		if c2 := compare(h, w, ctx); c2.Refuse+c2.Value != "" {
			c2.Und = ""
			c = c2
		}
	}
	if c.Und != "" {
		res.Und = append(res.Und, what+": "+c.Und)
	}
	for _, d := range []string{c.Refuse, c.Value} {
		if d != "" {
			res.Bad = append(res.Bad, Viol{"tree", what, d})
		}
	}
}

func (E *Engine) evalTree(res *PartRes, name string, p Part) {
	E.fixed, E.noOpaq = true, true
	defer func() { E.fixed, E.noOpaq = false, false }()
	ctx := labelCtx()
	if p.Ord == 1 {
		// the labels on both sides of the middle of their range
		ctx = ctx.and(condGE(linC(1<<31 - 1).sub(label(2)))).and(condGE(label(3).addC(-(1 << 31))))
	}
	switch name {
	case "tree":
		for _, h := range histories(p.Tag) {
			args := func() []Value {
				var q Seq
				for _, o := range h.ops {
					q = append(q, IElem{linC(int64(o))})
				}
				return []Value{inlSlice(q, types.Typ[types.Int]), labelledAll(h.ids)}
			}
			E.treeQ(res, "TreeRun", "TreeRef", args, ctx, h.String())
			if len(res.Bad) > 3 {
				return
			}
		}
	case "walk":
		b := bases[p.Tag]
		E.treeQ(res, "TreeWalk", "TreeWalkRef", func() []Value { return []Value{labelledAll(b)} }, ctx, "leaves of "+treeText(b))
	case "next":
		b := bases[p.Tag]
		u32 := types.NewSlice(types.Typ[types.Uint32])
		for l1 := int64(0); l1 < 4; l1++ {
			for l2 := int64(0); l2 < 4; l2++ {
				a1, g1 := setLen(materialise(rootPath("oid1", u32)), l1)
				a2, g2 := setLen(materialise(rootPath("oid2", u32)), l2)
				args := func() []Value {
					return []Value{labelledAll(b), a1, a2, materialise(rootPath("include", types.Typ[types.Bool]))}
				}
				E.treeQ(res, "TreeNext", "TreeNextRef", args, ctx.and(g1).and(g2), fmt.Sprintf("next in %s, bounds of %d and %d subidentifiers", treeText(b), l1, l2))
			}
		}
	}
}

func treeText(b []string) string {
	var h history
	for _, x := range b {
		h.ops, h.ids = append(h.ops, 0), append(h.ids, x)
	}
	return "the tree of: " + h.String()
}

func init() {
	const text = "by abstract interpretation of the SSA form with a symbolic heap (subidentifiers are ascending symbolic labels, loops and recursion unrolled at the given shapes)"
	run := func(r *Rep, what string, n int, rule string) {
		var ps []Part
		for o := int64(1); o >= 0; o-- {
			for i := 0; i < n; i++ {
				ps = append(ps, Part{Tag: int64(i), Ord: o})
			}
		}
		for _, x := range r.cells([]string{"fn:" + what}, ps) {
			k := int(x.Part.Tag)
			t := "oid.Tree"
			if what == "tree" {
				t += fmt.Sprintf(", %s, continuation %d", treeText(bases[k/4]), k%4)
			} else {
				t += ", " + treeText(bases[k])
			}
			for _, v := range x.Bad {
				r.ob(v.Rule, v.Construct, v.Detail)
			}
			if len(x.Bad) == 0 {
				r.ob(rule, t, "")
			}
		}
	}
	register("C18", "What is left of a tree after a history of operations "+text+": every base tree, followed by adding, removing, adding and removing, removing and adding every OID of up to two labels and some longer ones; nodes, order, parent links, lookups and results are compared with a sorted list of OIDs. Nothing is claimed for other histories.", func(r *Rep) {
		run(r, "tree", 4*len(bases), "nodes, order, links, lookups, results")
	})
	register("C19", "Result of GetNextNode "+text+" for every base tree, with start and end OIDs of up to three arbitrary subidentifiers and either inclusion, compared with a search of the sorted leaves; and the leaves and OIDs ForRangeLeaves reports. Nothing is claimed for other shapes.", func(r *Rep) {
		run(r, "next", len(bases), "next leaf")
		run(r, "walk", len(bases), "leaves in order")
	})
}
