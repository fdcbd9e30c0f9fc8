package main

// Comparison of the codec with its reference meaning, partition by partition.

import (
	_ "embed"
	"fmt"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec/spec.go.txt
var specSrc []byte

const specPkg = "zzvspec"

func specOverlay() map[string][]byte {
	return map[string][]byte{repoDir + "/" + specPkg + "/spec.go": specSrc}
}

// Part is one cell of the partition of the codec's inputs.
type Part struct {
	Tag      int64 // 0: not a known type
	Ord, Ctx int64
}

func (p Part) String() string {
	t := fmt.Sprint("type ", p.Tag)
	if p.Tag == 0 {
		t = "unknown types"
	}
	o := "little-endian"
	if p.Ord == 1 {
		o = "big-endian"
	}
	c := "no context"
	if p.Ctx == 1 {
		c = "context"
	}
	return t + ", " + o + ", " + c
}

func parts() []Part {
	var r []Part
	for t := int64(0); t <= 18; t++ {
		for o := int64(0); o < 2; o++ {
			for c := int64(0); c < 2; c++ {
				r = append(r, Part{t, o, c})
			}
		}
	}
	return r
}

func tagLin(p *Path, part Part) (*Lin, *DD) {
	if part.Tag > 0 {
		return linC(part.Tag), True
	}
	x := linAtom(symAtom(p))
	return x, condGE(x.addC(-1)).and(condGE(linC(18).sub(x))).not()
}

func flagsLin(p *Path, part Part) *Lin {
	x := linAtom(symAtom(p))
	l := mkBits(x, 0, 3).add(mkBits(x, 5, 3).scale(32))
	for k, b := range []int64{part.Ctx, part.Ord} {
		if b >= 0 {
			l = l.addC(b << (3 + k))
		} else {
			l = l.add(mkBits(x, 3+k, 1).scale(8 << k))
		}
	}
	return l
}

// pinPart fixes tag and flags of a Pdu parameter called pdu.
func (E *Engine) pinPart(part Part) *DD {
	clear(pinned)
	pt := E.pkgs[modPath+"/agentx"].Type("Pdu").Type()
	root := rootPath("pdu", pt)
	st := pt.Underlying().(*types.Struct)
	ctx := True
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		p := root.field(f.Name(), f.Type())
		switch f.Name() {
		case "Tag":
			l, c := tagLin(p, part)
			if part.Tag > 0 {
				pinned[p] = l
			}
			ctx = ctx.and(c)
		case "Flags":
			pinned[p] = flagsLin(p, part)
		}
	}
	return ctx
}

// rename gives the parameters of fn canonical names, so that two functions
// compared with each other get the same inputs.
func argsNamed(fn *ssa.Function, names []string) []Value {
	var args []Value
	for i, p := range fn.Params {
		n := "log"
		if i < len(names) {
			n = names[i]
		}
		args = append(args, materialise(rootPath(n, p.Type())))
	}
	return args
}

// Outcome of an abstract evaluation with success split off.
type Result struct {
	rep TotalRep
	ok  *DD // success
	val Value
}

// result extracts success and frozen value; hasOk: the last result is ok.
func result(r TotalRep, ctx *DD, hasOk bool) Result {
	res := Result{rep: r, ok: False}
	if r.st == nil {
		return res
	}
	v := freeze(r.val, r.st.mem, r.st.full())
	if !hasOk {
		res.ok, res.val = r.st.reach, v
		return res
	}
	t, isT := v.(VTuple)
	var okv Value
	if isT {
		okv = t[len(t)-1]
		if len(t) == 2 {
			res.val = t[0]
		} else {
			res.val = t[:len(t)-1]
		}
	} else {
		okv = v
	}
	if g, ok := okv.(*DD); ok {
		res.ok = r.st.reach.and(g)
	} else if a, ok := okv.(VAlt); ok {
		_ = a
		res.ok = nil
	} else {
		res.ok = nil
	}
	return res
}

// Cmp is the comparison of two meanings; empty strings mean agreement.
type Cmp struct {
	Accept, Refuse, Value, Und string
}

func (c Cmp) String() string {
	r := ""
	for _, x := range []string{c.Und, c.Accept, c.Refuse, c.Value} {
		if x != "" {
			r += x + "; "
		}
	}
	return r
}

// compare decides that have and want succeed on the same inputs and give the
// same values where both succeed.
func compare(have, want Result, ctx *DD) (c Cmp) {
	if have.ok == nil {
		c.Und = "the success result is not resolved: " + short(valString(have.rep.val))
		return
	}
	if want.ok == nil {
		c.Und = "reference"
		return
	}
	if g := ctx.and(have.ok).and(want.ok.not()); feasible(g) {
		if w := witness(g, false); w != "" {
			c.Accept = "accepts although it must refuse: " + w
		} else {
			c.Und += "not shown to refuse: " + short2(simp(g, True).String()) + "; "
		}
	}
	if g := ctx.and(want.ok).and(have.ok.not()); feasible(g) {
		if w := witness(g, false); w != "" {
			c.Refuse = "refuses although it must accept: " + w
		} else {
			c.Und += "not shown to accept: " + short2(simp(g, True).String()) + "; "
		}
	}
	g := ctx.and(have.ok).and(want.ok)
	if feasible(g) {
		if d := equalVal(have.val, want.val, g, "result"); d != nil {
			if w := diffWitness(have.val, want.val, g, d.ctx); w != "" {
				c.Value = w
			} else {
				c.Und += "not shown equal " + d.String()
			}
		}
	}
	return
}

// diffWitness looks for a point under g where a and b differ.
func diffWitness(a, b Value, g, hint *DD) string {
	test := func(p *Point) string {
		if !p.dd(g) {
			return ""
		}
		return p.cdiff(p.val(a), p.val(b), "result")
	}
	if w := search(hint, test); w != "" || hint == g {
		return w
	}
	return search(g, test)
}

func short2(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func debugCmp(args []string) {
	E, _, err := load(specOverlay())
	if err != nil {
		fmt.Println(err)
		return
	}
	if err := E.initPackages(); err != nil {
		fmt.Println(err)
	}
	ps := parts()
	if len(args) > 1 {
		var p Part
		fmt.Sscanf(args[1], "%d,%d,%d", &p.Tag, &p.Ord, &p.Ctx)
		ps = []Part{p}
	}
	if len(args) > 2 && args[2] == "-d" {
		E.debug = true
	}
	for _, p := range ps {
		t0 := time.Now()
		msg := E.cmpPart(args[0], p)
		fmt.Println(args[0], p, time.Since(t0).Round(time.Millisecond), msg)
	}
}

func (E *Engine) cmpPart(what string, p Part) string {
	r := E.evalPart(what, p)
	m := r.Cmp.String()
	for _, x := range r.Bad {
		m += " [" + x.Rule + "] " + x.Construct + ": " + x.Detail
	}
	for _, x := range r.Und {
		m += " UND " + x
	}
	return m
}
