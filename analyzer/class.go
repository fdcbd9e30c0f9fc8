package main

// Scanning loops: loops driven by a cursor whose step depends on the data.

import (
	"fmt"
)

// Class is the behaviour of a scanning loop: it continues while cont holds
// at the cursors and then moves them to next.
type Class struct {
	id     int
	cur    []*Atom
	cont   *DD
	panicG *DD
	next   []*Lin
	inv    []*DD
	height int
	vars   []classVar
	comps  map[string]*Atom
	fr     []*Atom
}

type classVar struct {
	cont *DD
	next []*Lin
	ctx  *DD
}

var classes []*Class

// ScanRec records a scanning loop for the progress rule.
type ScanRec struct {
	site string
	ok   bool
	why  string
}

// StuckRec is a loop not shown to advance; g: an iteration that changes nothing.
type StuckRec struct {
	site string
	g    *DD
}

func curAtom(h, k int) *Atom {
	a := binderAtom(h, fmt.Sprintf("c%d_", k))
	a.lenish = true
	return a
}

func internClass(cont *DD, next []*Lin, inv []*DD, ctx *DD, from []*Atom) *Class {
	h := cont.height()
	for _, n := range next {
		if v := linHeight(n); v > h {
			h = v
		}
	}
	h++
	sub := Sub{}
	c := &Class{height: h, comps: map[string]*Atom{}, panicG: False}
	for k, a := range from {
		x := curAtom(h, k)
		c.cur = append(c.cur, x)
		sub[a] = linAtom(x)
	}
	full := ctx
	for _, g := range inv {
		full = full.and(g)
	}
	c.cont = cont.subst(sub)
	for _, n := range next {
		c.next = append(c.next, n.subst(sub))
	}
	for _, g := range inv {
		c.inv = append(c.inv, g.subst(sub))
	}
	v := classVar{c.cont, c.next, full.subst(sub)}
	for _, d := range classes {
		if len(d.cur) != len(c.cur) || d.height != c.height {
			continue
		}
		all := true
		for _, w := range d.vars {
			if !sameVar(v, w) {
				all = false
				break
			}
		}
		if all {
			have := false
			for _, w := range d.vars {
				if w.cont == v.cont && w.ctx == v.ctx {
					have = true
				}
			}
			if !have {
				d.vars = append(d.vars, v)
				for _, g := range c.inv {
					d.addInv(g)
				}
			}
			return d
		}
	}
	c.id = len(classes) + 1
	c.vars = []classVar{v}
	c.fr = c.cont.fr()
	for _, n := range c.next {
		c.fr = frUnion(c.fr, n.fr)
	}
	for _, g := range c.inv {
		c.fr = frUnion(c.fr, g.fr())
	}
	c.fr = frMinus(c.fr, c.cur...)
	classes = append(classes, c)
	return c
}

func (c *Class) addInv(g *DD) {
	for _, x := range c.inv {
		if x == g {
			return
		}
	}
	c.inv = append(c.inv, g)
	for _, a := range c.comps {
		if a.name == "end" {
			a.axioms = append(a.axioms, c.atEnd(g, a.starts))
		}
	}
	axiomMemo = map[*DD]*DD{}
}

func sameVar(v, w classVar) bool { return varDiff(v, w) == "" }

func varDiff(v, w classVar) string {
	ctx := v.ctx.and(w.ctx)
	if !eqDD(v.cont, w.cont, ctx) {
		if feasible(ctx.and(v.cont).and(w.cont.not())) {
			return fmt.Sprintf("one continues where the other stops: %s", short(ctx.and(v.cont).and(w.cont.not()).String()))
		}
		return fmt.Sprintf("one stops where the other continues: %s", short(ctx.and(w.cont).and(v.cont.not()).String()))
	}
	c := ctx.and(v.cont)
	for i := range v.next {
		if !eqL(v.next[i], w.next[i], c, 1) {
			return fmt.Sprintf("step to %s, want %s", short(v.next[i].String()), short(w.next[i].String()))
		}
	}
	return ""
}

func classDiff(a, b *Class) string {
	if len(a.cur) != len(b.cur) {
		return "different numbers of cursors"
	}
	if a.height != b.height {
		return "different nesting"
	}
	for _, v := range a.vars {
		for _, w := range b.vars {
			if d := varDiff(v, w); d != "" {
				return d
			}
		}
	}
	return "?"
}

func (c *Class) frees() []*Atom { return c.fr }

func (c *Class) subst(m Sub) *Class {
	if !m.hits(c.fr) {
		return c
	}
	for _, a := range c.cur {
		m = m.without(a)
	}
	var next []*Lin
	for _, n := range c.next {
		next = append(next, n.subst(m))
	}
	var inv []*DD
	for _, g := range c.inv {
		inv = append(inv, g.subst(m))
	}
	return internClass(c.cont.subst(m), next, inv, c.vars[0].ctx.subst(m), c.cur)
}

func (c *Class) atEnd(g *DD, starts []*Lin) *DD {
	s := Sub{}
	for k, x := range c.cur {
		s[x] = linAtom(c.comp("end", k, starts))
	}
	return g.subst(s)
}

func (c *Class) comp(name string, k int, starts []*Lin) *Atom {
	key := fmt.Sprintf("%s:%d", name, k)
	fr := c.fr
	for _, s := range starts {
		key += fmt.Sprintf(":%d", s.id)
		fr = frUnion(fr, s.fr)
	}
	if a, ok := c.comps[key]; ok {
		return a
	}
	a := internAtom(fmt.Sprintf("class:%d:%s", c.id, key), func() *Atom {
		return &Atom{k: AClass, name: name, n1: k, cls: c, starts: starts, lo: bi(0), mod4: -1, lenish: true, fr: fr}
	})
	if name == "end" {
		a.lo = nil
	}
	c.comps[key] = a
	return a
}

func (c *Class) component(name string, k int, starts []*Lin) *Lin {
	a := c.comp(name, k, starts)
	if name == "end" && a.axioms == nil {
		for i := range c.cur {
			c.comp("end", i, starts)
		}
		ax := []*DD{c.atEnd(c.cont, starts).not()}
		for _, g := range c.inv {
			ax = append(ax, c.atEnd(g, starts))
		}
		for i := range c.cur {
			c.comp("end", i, starts).axioms = ax
		}
		axiomMemo = map[*DD]*DD{}
	}
	return linAtom(a)
}

func (lc *loopCtx) finishScan(po passOut, ctl *DD, curs []*leaf) ([]edge, string) {
	alive := po.back.reach
	j := lc.j
	byAtom := map[*Atom]*leaf{}
	for _, l := range curs {
		byAtom[l.sym] = l
	}
	need := map[*Atom]bool{}
	var add func(fr []*Atom)
	add = func(fr []*Atom) {
		for _, a := range fr {
			if need[a] {
				continue
			}
			if l := byAtom[a]; l != nil {
				need[a] = true
				add(l.next.fr)
			} else if a == j {
				need[a] = true
			}
		}
	}
	add(alive.fr())
	var from []*Atom
	var next []*Lin
	starts := []*Lin{}
	for _, l := range curs {
		if need[l.sym] {
			from = append(from, l.sym)
			next = append(next, l.next)
			starts = append(starts, l.x0.(*Lin))
		}
	}
	if len(from) == 0 {
		return nil, "loop without a cursor"
	}
	if need[j] {
		from = append(from, j)
		next = append(next, linAtom(j).addC(1))
		starts = append(starts, linZero())
	}
	ctx := lc.S0.full()
	if need[j] {
		ctx = ctx.and(condGE(linAtom(j)))
	}
	for i := range next {
		next[i] = newSimp(po.back.full()).lin(next[i])
	}
	// progress
	prog := need[j]
	for i, a := range from {
		if a == j {
			continue
		}
		d := next[i].sub(linAtom(a))
		up := entails(po.back.full(), condGT(d))
		dn := entails(po.back.full(), condGT(d.neg()))
		// bounded by an invariant in that direction
		for _, g := range lc.inv {
			if up && !feasible(ctx.and(g).and(condGE(linAtom(a).addC(-1<<40)))) {
				prog = true
			}
			if dn && !feasible(ctx.and(g).and(condGE(linAtom(a).neg().addC(-1<<40)))) {
				prog = true
			}
		}
		if dn && a.lo != nil {
			prog = true
		}
	}
	lc.E.scans = append(lc.E.scans, ScanRec{site: lc.E.blockPos(lc.lp.head), ok: prog})
	if !prog {
		stuck := po.back.full()
		for i, a := range from {
			stuck = stuck.and(condEQ(next[i].sub(linAtom(a))))
		}
		lc.E.stuck = append(lc.E.stuck, StuckRec{lc.E.blockPos(lc.lp.head), stuck})
	}
	inv := append([]*DD{}, lc.inv...)
	for _, a := range from {
		if a != j && a.lo != nil && a.lo.Sign() == 0 {
			inv = append(inv, condGE(linAtom(a)))
		}
	}
	for _, g := range lc.inv {
		_ = g
	}
	cls := internClass(alive, next, inv, ctx, from)
	lc.cls, lc.starts, lc.clsFrom = cls, starts, from
	sub := VSub{m: Sub{}, acc: map[int]Seq{}}
	for i, a := range from {
		sub.m[a] = cls.component("end", i, starts)
	}
	cnt := cls.component("cnt", 0, starts)
	if need[j] {
		cnt = sub.m[j]
	}
	sub.m[j] = cnt
	for _, l := range curs {
		if !need[l.sym] {
			sub.m[l.sym] = linAtom(newSym("havoc:"+l.name, l))
		}
	}
	for id, l := range lc.accN {
		sub.acc[id] = lc.accAt(l, cnt, cls)
	}
	for _, p := range po.panics {
		lc.addPanic(p, p.g.subst(sub.m))
	}
	var edges []edge
	own := len(po.exits) > 1 || len(po.panics) > 0
	for _, e := range po.exits {
		edges = append(edges, lc.exit(e, cnt, True, ctl, own, &sub)...)
	}
	return edges, ""
}

// havocLoop gives up on a loop: everything it changes becomes unknown.
func (E *Engine) havocLoop(fr *frame, lp *loop, st *State, ctl *DD, phis []Value, why string) []edge {
	lc := &loopCtx{E: E, fr: fr, lp: lp, S0: st, objs0: objN, mem: map[*Obj]*leaf{}, fams: map[*Fam]bool{},
		accN: map[int]*leaf{}, np: len(fr.panics), ne: len(E.events), na: len(E.allocs)}
	st.mem.shared = true
	site := E.blockPos(lp.head)
	E.event("undecided", site, "loop not summarised: "+why)
	lc.j = freshAtom("j", bi(0), nil)
	lc.j.lenish = true
	for range phis {
		lc.phi = append(lc.phi, &leaf{kind: kTop, name: "loop variable"})
	}
	var po passOut
	for pass := 0; pass < 6; pass++ {
		hs, hp := lc.hypState()
		po = lc.run(hs, hp)
		if po.back == nil || !lc.addMem(po.back, false) {
			break
		}
		for _, o := range lc.order {
			lc.mem[o].kind = kTop
			lc.mem[o].kids = nil
		}
	}
	for _, p := range po.panics {
		lc.addPanic(p, boolAtom(freshAtom("loop panics", bi(0), bi(1))))
	}
	var edges []edge
	for _, e := range po.exits {
		n := linAtom(freshAtom("trips", bi(0), nil))
		edges = append(edges, lc.exit(e, n, boolAtom(freshAtom("loop exits", bi(0), bi(1))), ctl, true, nil)...)
	}
	return edges
}
