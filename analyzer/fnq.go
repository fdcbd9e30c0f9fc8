package main

// Questions about single functions: their meaning against a reference, the
// storage their results share with their inputs, and what they modify.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// fnQ is one question: have against want.
type fnQ struct {
	have, want string // pkg.Func
	ok         bool   // the last result is success
	names      []string
	ctx        func(E *Engine, fn *ssa.Function, args []Value) *DD
	cells      int  // cases
	fresh      bool // the result shares no storage with the arguments
	// prep narrows the arguments to a case
	prep func(args []Value, cell int64) *DD
	full bool // sizes are fixed and strings matter
	strs bool // different strings stay apart at joins
}

var fnQs = map[string]fnQ{}

func init() {
	ids := []string{"id1", "id2"}
	for _, f := range []string{"Compare", "Lt", "Le", "Eq", "Ne", "Ge", "Gt"} {
		fnQs["oid."+f] = fnQ{have: "oid." + f, want: specPkg + "." + f, names: ids, cells: 3, prep: lenCell}
	}
	cat := []string{"id", "subids"}
	fnQs["oid.Clone"] = fnQ{have: "oid.Clone", want: specPkg + ".Clone", names: cat, fresh: true}
	fnQs["oid.Cat"] = fnQ{have: "oid.Cat", want: specPkg + ".Cat", names: cat, fresh: true}
	for _, f := range rendering {
		fnQs[f] = fnQ{have: f, names: []string{"p0", "p1", "p2", "p3"}}
	}
	fnQs["oid.HasPrefix"] = fnQ{have: "oid.HasPrefix", want: specPkg + ".HasPrefix", names: cat}
}

// sizeCells are the sizes of dumps compared with their reference.
const sizeCells, diffCells = 37, 14

// dumpSize is the size of case n.
func dumpSize(n int64) int64 {
	if n > 33 {
		return []int64{64, 100, 130}[n-34]
	}
	return n
}

func setLen(v Value, n int64) (Value, *DD) {
	x := v.(VSlice)
	g := condEQ(x.len.addC(-n))
	x.len = linC(n)
	return x, g
}

func init() {
	fnQs["hex:DumpSub"] = fnQ{have: "hex.DumpSub", want: specPkg + ".DumpSub", names: []string{"prefix", "data", "i1", "i2"}, cells: sizeCells, full: true,
		prep: func(args []Value, n int64) *DD {
			n = dumpSize(n)
			i1 := args[2].(*Lin)
			args[3] = i1.addC(n)
			return condGE(i1).and(condGE(args[1].(VSlice).len.sub(i1).addC(-n)))
		}}
	fnQs["hex:Dump"] = fnQ{have: "hex.Dump", want: specPkg + ".Dump", names: []string{"prefix", "data"}, cells: sizeCells, full: true,
		prep: func(args []Value, n int64) (g *DD) {
			args[1], g = setLen(args[1], dumpSize(n))
			return
		}}
	fnQs["hex:DumpTail"] = fnQ{have: "hex.DumpTail", want: specPkg + ".DumpTail", names: []string{"prefix", "data", "size"}, cells: sizeCells, full: true,
		prep: func(args []Value, n int64) *DD {
			n = dumpSize(n)
			args[2] = linC(n)
			return condGE(args[1].(VSlice).len.addC(-n))
		}}
	fnQs["hex:DumpDiff"] = fnQ{have: "hex.DumpDiff", want: specPkg + ".DumpDiff", names: []string{"data1", "data2"}, cells: diffCells * diffCells, full: true,
		prep: func(args []Value, n int64) *DD {
			var g, h *DD
			args[0], g = setLen(args[0], n/diffCells)
			args[1], h = setLen(args[1], n%diffCells)
			return g.and(h)
		}}
}

// rendering functions.
var rendering = []string{
	"agentx.PduTag.String", "agentx.Flags.String", "agentx.CloseReason.String", "pduerror.Error.String",
	"asn.Tag.String", "oid.String", "ipa.String", "asn.Varbind.String", "agentx.SearchRange.String",
	"hex.Dump", "hex.DumpSub", "hex.DumpTail", "hex.DumpDiff", "internal.Prefix",
	specPkg + ".TagFprint", specPkg + ".VarbindFprint", specPkg + ".FlagsFprint", specPkg + ".RangeFprint",
	specPkg + ".OidFprint", specPkg + ".IpaFprint",
}

// evalFn answers a question of the form fn:NAME.
func (E *Engine) evalFn(what string, p Part) (res PartRes) {
	res = PartRes{What: what, Part: p, N: map[string]int{}}
	name := strings.TrimPrefix(what, "fn:")
	if name == "values" {
		E.evalValues(&res, p)
		return
	}
	if name == "tree" || name == "walk" || name == "next" {
		E.evalTree(&res, name, p)
		return
	}
	if name == "parse" {
		E.evalParse(&res, p)
		return
	}
	q, ok := fnQs[name]
	if !ok {
		res.Und = append(res.Und, "no question "+name)
		return
	}
	f := E.findFn(q.have)
	if f == nil {
		res.Und = append(res.Und, q.have+" not found")
		return
	}
	E.fixed, E.noOpaq, keepStr = q.full, q.full, q.strs
	defer func() { E.fixed, E.noOpaq, keepStr = false, false, false }()
	args := argsNamed(f, q.names)
	ctx := True
	if q.ctx != nil {
		ctx = q.ctx(E, f, args)
	}
	if q.prep != nil {
		ctx = ctx.and(q.prep(args, p.Tag))
	}
	have := result(E.totalityOn(f, args, ctx), ctx, q.ok)
	res.take(E, have.rep.events)
	for _, pn := range have.rep.panics {
		res.confirm(pn.g, Viol{"panic", pn.site, pn.what})
	}
	if q.full || q.want != "" {
		res.ends(have.rep, ctx)
	}
	res.effects(have.rep.events)
	if q.fresh {
		res.fresh(have.val, ctx.and(orFalse(have.ok)), q.have)
	}
	if q.want != "" {
		s := E.findFn(q.want)
		if s == nil {
			res.Und = append(res.Und, q.want+" not found")
			return
		}
		wargs := argsNamed(s, q.names)
		if q.prep != nil {
			q.prep(wargs, p.Tag)
		}
		want := result(E.totalityOn(s, wargs, ctx), ctx, q.ok)
		if !q.ok {
			// panics are reported above
			want.ok = want.ok.and(have.ok)
		}
		res.Cmp = compare(have, want, ctx)
	}
	return
}

func orFalse(g *DD) *DD {
	if g == nil {
		return False
	}
	return g
}

// lenCell is the case n of the comparison of the first two arguments' lengths:
// less, equal, greater.
func lenCell(args []Value, n int64) *DD {
	d := args[0].(VSlice).len.sub(args[1].(VSlice).len)
	switch n {
	case 0:
		return condGT(d.neg())
	case 1:
		// the second length is written as the first
		x := args[1].(VSlice)
		x.len = args[0].(VSlice).len
		args[1] = x
		return condEQ(d)
	}
	return condGT(d)
}

// take books functions and undecided events.
func (res *PartRes) take(E *Engine, ev []Event) {
	fns := map[string]bool{}
	for fn := range E.fnSeen {
		if pk := fnPkg(fn); pk != nil && E.repo[pk] && pk.Pkg.Path() != modPath+"/"+specPkg {
			fns[fn.String()] = true
		}
	}
	res.Fns = nil
	for fn := range fns {
		res.Fns = append(res.Fns, fn)
	}
	sort.Strings(res.Fns)
	for _, e := range ev {
		if e.kind == "undecided" {
			res.Und = append(res.Und, e.msg+" at "+e.site)
		}
	}
}

func (res *PartRes) effects(ev []Event) {
	for _, e := range ev {
		switch e.kind {
		case "input-write", "append-input", "global-write", "go", "unsafe":
			res.Bad = append(res.Bad, Viol{e.kind, e.site, e.msg})
		}
	}
}

// fresh: no slice in v shares storage with an input.
func (res *PartRes) fresh(v Value, g *DD, who string) {
	res.N["slices traced"] += 0
	var rec func(v Value, g *DD, where string)
	var recS func(s Seq, g *DD, where string, sure bool)
	sure := true
	rec = func(v Value, g *DD, where string) {
		if !feasible(g) {
			return
		}
		switch x := v.(type) {
		case VSlice:
			res.N["slices traced"]++
			for _, a := range x.prov() {
				c := g.and(a.g).and(condGE(x.len.addC(-1)))
				if !feasible(c) {
					continue
				}
				v := Viol{"alias", who, where + " shares the storage of " + a.o.name}
				if sure {
					res.confirm(c, v)
				} else {
					res.Und = append(res.Und, "["+v.Rule+"] "+v.Construct+": "+v.Detail)
				}
			}
			if x.inl != nil {
				recS(*x.inl, g, where, sure)
			}
		case VStruct:
			for i, y := range x.f {
				rec(y, g, where+"."+structField(x, i))
			}
		case VArr:
			for _, y := range x.e {
				rec(y, g, where)
			}
		case VTuple:
			for _, y := range x {
				rec(y, g, where)
			}
		case VIface:
			if x.typ != nil {
				rec(x.v, g, where)
			}
		case VAlt:
			rest := g
			for i := range x.vs {
				rec(x.vs[i], rest.and(x.gs[i]), where)
				rest = rest.and(x.gs[i].not())
			}
		case VSeq:
			recS(x.s, g, where, sure)
		case VPtr:
			if x.obj != nil && x.obj.sym != nil {
				res.confirm(g, Viol{"alias", who, where + " points to " + x.obj.name})
			}
		case VTop:
			res.Und = append(res.Und, "storage of "+where+" is not resolved: "+short(valString(v)))
		}
	}
	recS = func(s Seq, g *DD, where string, sr bool) {
		old := sure
		defer func() { sure = old }()
		for i, it := range s {
			switch x := it.(type) {
			case IElem:
				sure = sr
				rec(x.v, g, fmt.Sprintf("%s[%d]", where, i))
			case IAlt:
				for k := range x.ss {
					recS(x.ss[k], g.and(x.gs[k]), where, sr)
				}
			case IRep:
				recS(x.body, g, where+"[*]", false)
			case IScan:
				recS(x.body, g, where+"[*]", false)
			}
		}
	}
	rec(v, g, "result")
}

// evalValues: agreement of asn's value functions with the codec for one tag.
// Part: Tag is the value tag, Ord the byte order.
func (E *Engine) evalValues(res *PartRes, p Part) {
	t0 := time.Now()
	defer func() { res.Secs = time.Since(t0).Seconds() }()
	one := func(name string, names []string) (Result, []Event) {
		f := E.findFn(specPkg + "." + name)
		a := argsNamed(f, names)
		a[0] = linC(p.Tag)
		if len(a) == 3 {
			a[1] = boolDD(p.Ord == 1)
		}
		r := E.totalityOn(f, a, True)
		return result(r, True, true), r.events
	}
	who := fmt.Sprintf("tag %d", p.Tag)
	names := []string{"tag", "value"}
	vt, ev := one("ValueTag", names)
	res.take(E, ev)
	vv, ev := one("ValidValue", names)
	res.take(E, ev)
	enc, ev := one("EncodeOne", names)
	res.take(E, ev)
	E.peel = true
	dec, ev := one("DecodeOne", []string{"tag", "big", "data"})
	E.peel = false
	res.take(E, ev)
	for _, r := range []Result{vt, vv, enc, dec} {
		for _, pn := range r.rep.panics {
			res.confirm(pn.g, Viol{"panic", pn.site, pn.what})
		}
		if r.ok == nil || r.rep.st == nil {
			res.Und = append(res.Und, "a result for "+who+" is not resolved")
			return
		}
	}
	// valid iff encodable
	if g := vv.ok.and(enc.ok.not()); feasible(g) {
		res.confirm(g, Viol{"valid values encode", who, "a value is reported valid but cannot be encoded"})
	}
	if g := enc.ok.and(vv.ok.not()); feasible(g) {
		res.confirm(g, Viol{"encodable values are valid", who, "a value can be encoded but is reported invalid"})
	}
	// value tag iff encodable and decodable
	can := func(rule string, g *DD) {
		if vt.ok == True {
			if !feasible(g) {
				res.Bad = append(res.Bad, Viol{rule, who, "reported as a value tag, but no such varbind can be " + rule})
			} else if witness(g, false) == "" {
				res.Und = append(res.Und, who+": not shown that it can be "+rule)
			}
		} else if h := vt.ok.not().and(g); feasible(h) {
			res.confirm(h, Viol{rule, who, "not reported as a value tag, but such a varbind can be " + rule})
		}
	}
	can("encoded", enc.ok)
	can("decoded", dec.ok)
	// decoded values are valid
	if v, ok := dec.val.(*DD); !ok {
		res.Und = append(res.Und, who+": validity of the decoded value is not resolved")
	} else if g := dec.ok.and(v.not()); feasible(g) {
		res.confirm(g, Viol{"decoded values are valid", who, "a decoded value is reported invalid"})
	}
}

func init() {
	const text = "by abstract interpretation of the SSA form on all arguments at once (symbolic slices, summarised loops)"
	register("C14", "Meaning of IsValueTag and IsValidValue, and success of encoding and decoding a PDU with a varbind of the tag, "+text+", for each of the 256 tags and both byte orders: the conditions are compared with each other.", func(r *Rep) {
		var ps []Part
		for t := int64(0); t < 256; t++ {
			for o := int64(0); o < 2; o++ {
				ps = append(ps, Part{Tag: t, Ord: o})
			}
		}
		for _, x := range r.cells([]string{"fn:values"}, ps) {
			r.bads("validity agrees with the codec", x, fmt.Sprintf("asn.Tag(%d)", x.Part.Tag), func(string) bool { return true })
		}
	})
	register("C15", "Meaning of Compare and the six predicates "+text+", against the lexicographic order.", func(r *Rep) {
		r.fns([]string{"oid.Compare", "oid.Lt", "oid.Le", "oid.Eq", "oid.Ne", "oid.Ge", "oid.Gt"})
	})
	register("C16", "Meaning of Clone, Cat and HasPrefix "+text+", against their definitions; provenance of the storage of each result; writes to the arguments' storage (an append to an argument may write to it).", func(r *Rep) {
		r.fns([]string{"oid.Clone", "oid.Cat", "oid.HasPrefix"})
	})
	register("C22", "Meaning of oid.Parse "+text+", on texts given as dot-separated arbitrary dot-free segments, without and with a leading dot, for "+fmt.Sprint(parseCells)+" segments (loops unrolled at these sizes), and on the text that oid.String renders for OIDs of these lengths; segments are numbers, negative numbers, too large numbers or neither; nothing is claimed for other numbers of segments.", func(r *Rep) {
		var ps []Part
		for i := range parseCells {
			for o := int64(0); o < 2; o++ {
				ps = append(ps, Part{Tag: int64(i), Ord: o})
			}
			ps = append(ps, Part{Tag: int64(i), Ctx: 1})
		}
		for _, x := range r.cells([]string{"fn:parse"}, ps) {
			t := fmt.Sprintf("oid.Parse on %d segments", parseCells[x.Part.Tag])
			if x.Part.Ord == 1 {
				t += " after a dot"
			}
			if x.Part.Ctx == 1 {
				t = fmt.Sprintf("oid.Parse of oid.String of %d subidentifiers", parseCells[x.Part.Tag])
			}
			r.ob("value", t, strings.TrimSuffix(Cmp{Accept: x.Cmp.Accept, Refuse: x.Cmp.Refuse, Value: x.Cmp.Value}.String(), "; "))
		}
	})
	register("C24", "Text of Dump, DumpSub, DumpTail and DumpDiff "+text+" for every dump of 0..33, 64, 100 and 130 bytes at any offset of data of any length, and every pair of slices of up to 13 bytes each, contents and prefix arbitrary (loops unrolled at these sizes), against the reference dump; nothing is claimed for other sizes.", func(r *Rep) {
		r.fns([]string{"hex:DumpSub", "hex:Dump", "hex:DumpTail"})
		r.fns([]string{"hex:DumpDiff"})
	})
	register("C20", "Panic edges of every rendering function "+text+": every index, slice bound, nil dereference, type assertion, conversion, division, negative allocation or repeat count and explicit panic is a guarded edge; none may be feasible. Rendering through reflection (whole PDUs) is not covered.", func(r *Rep) {
		r.fns(rendering)
	})
}

func (r *Rep) fns(names []string) {
	var qs []string
	for _, n := range names {
		qs = append(qs, "fn:"+n)
	}
	ps := []Part{{}}
	for i := 1; i < fnQs[names[0]].cells; i++ {
		ps = append(ps, Part{Tag: int64(i)})
	}
	for _, x := range r.cells(qs, ps) {
		n := strings.TrimPrefix(x.What, "fn:")
		r.ob("value", n, strings.TrimSuffix(Cmp{Accept: x.Cmp.Accept, Refuse: x.Cmp.Refuse, Value: x.Cmp.Value}.String(), "; "))
		for _, v := range x.Bad {
			r.ob(v.Rule, n+": "+v.Construct, v.Detail)
		}
		if len(x.Bad) == 0 {
			r.ob("storage and panics", n, "")
		}
	}
}

func structField(x VStruct, i int) string {
	if st, ok := x.typ.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return fmt.Sprint(i)
}
