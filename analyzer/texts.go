package main

// Questions about texts: renderings against reference texts.

import (
	"fmt"
	"go/types"
)

var textLens = []int64{0, 1, 2, 3, 4, 5, 9, 17, 128}

// textTags are the known tags, and one that is not.
var textTags = []int64{2, 4, 5, 6, 0x30, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x80, 0x81, 0x82, 0x45}

// valueCase fixes tag and value: the tag is the n-th and the value has any
// type, or is an OID or octets of a fixed length.
type valueCase struct {
	tag, n int64 // tag -1: any unknown one
	kind   string
}

var properType = map[int64]types.Type{
	2: types.Typ[types.Int32], 4: types.Typ[types.String], 6: types.NewSlice(types.Typ[types.Uint32]),
	0x40: types.NewArray(types.Typ[types.Uint8], 4), 0x41: types.Typ[types.Uint32], 0x42: types.Typ[types.Uint32],
	0x43: types.Typ[types.Uint32], 0x44: types.NewSlice(types.Typ[types.Uint8]), 0x46: types.Typ[types.Uint64],
}

func valueCases() []valueCase {
	var r []valueCase
	for _, t := range textTags {
		switch {
		case t == 6 || t == 0x44:
			for _, n := range textLens {
				r = append(r, valueCase{t, n, "proper"})
			}
			r = append(r, valueCase{t, 0, "other"})
		case properType[t] != nil:
			r = append(r, valueCase{t, 0, "proper"}, valueCase{t, 0, "other"})
		default:
			r = append(r, valueCase{t, 0, "any"})
		}
	}
	return append(r, valueCase{-1, 0, "any"})
}

func (c valueCase) fix(tag, v Value) (Value, Value, *DD) {
	g := True
	t := tag.(*Lin)
	if c.tag >= 0 {
		t = linC(c.tag)
	} else {
		for _, k := range textTags {
			g = g.and(condEQ(t.addC(-k)).not())
		}
	}
	pt := properType[c.tag]
	switch c.kind {
	case "proper":
		x, h := materialise(rootPath("x", pt)), True
		if _, ok := x.(VSlice); ok {
			x, h = setLen(x, c.n)
		}
		return t, VIface{typ: pt, v: x}, g.and(h)
	case "other":
		return t, v, g.and(condEQ(linAtom(typeAtom(v.(VSym).p)).addC(-typeCode(pt))).not())
	}
	return t, v, g
}

func init() {
	spec := func(f string) string { return specPkg + "." + f }
	fnQs["text:oid"] = fnQ{have: "oid.String", want: spec("OidText"), names: []string{"id"}, cells: len(textLens), full: true,
		prep: func(a []Value, n int64) (g *DD) {
			a[0], g = setLen(a[0], textLens[n])
			return
		}}
	fnQs["text:ip"] = fnQ{have: "ipa.String", want: spec("IpText"), names: []string{"a"}, cells: 1, full: true}
	fnQs["text:prefix"] = fnQ{have: "internal.Prefix", want: spec("PrefixText"), names: []string{"depth"}, cells: 12, full: true,
		prep: func(a []Value, n int64) *DD {
			d := a[0].(*Lin)
			switch n {
			case 10:
				return condGT(d.neg())
			case 11:
				return condGE(d.addC(-10))
			}
			a[0] = linC(n)
			return True
		}}
	vs := valueCases()
	fnQs["text:value"] = fnQ{have: spec("TagFprint"), want: spec("ValueText"), names: []string{"tag", "v"}, cells: len(vs), full: true,
		prep: func(a []Value, n int64) (g *DD) {
			a[0], a[1], g = vs[n].fix(a[0], a[1])
			return
		}}
	fnQs["text:varbind"] = fnQ{have: spec("VarbindOf"), want: spec("VarbindOfText"), names: []string{"id", "tag", "v"}, cells: 3 * len(vs), full: true,
		prep: func(a []Value, n int64) *DD {
			var g, h *DD
			a[0], g = setLen(a[0], n%3)
			a[1], a[2], h = vs[n/3].fix(a[1], a[2])
			return g.and(h)
		}}
	fnQs["text:range"] = fnQ{have: spec("RangeOf"), want: spec("RangeOfText"), names: []string{"a", "b", "inc"}, cells: 16, full: true,
		prep: func(a []Value, n int64) *DD {
			var g, h *DD
			a[0], g = setLen(a[0], n/4)
			a[1], h = setLen(a[1], n%4)
			return g.and(h)
		}}
	fnQs["text:pdu"] = fnQ{have: spec("PduOf"), want: spec("PduOfText"), names: []string{"pdu", "depth", "n", "a", "b", "c", "inc", "tag", "v"}, cells: pduCells, full: true, prep: pduCase}
	register("C26", "Text of Pdu.String by abstract interpretation of the SSA form, with package reflect modelled on the statically known types, against the reference text: every params type and none, OIDs of 0..2 subidentifiers, 0..2 search ranges and varbinds, every indentation; numbers, strings, octets and the context are symbolic of any length, tag, flags, close reason and error code are fixed to a few values (their names are C13). Nothing is claimed for other lengths.", func(r *Rep) {
		r.fns([]string{"text:pdu"})
	})
	register("C25", "Text of oid.String, ipa.String, internal.Prefix, Tag.Fprint (every tag, values of any dynamic type), Varbind.String and SearchRange.String by abstract interpretation of the SSA form (symbolic contents; OIDs and octets of the lengths "+fmt.Sprint(textLens)+", in varbinds 0..2 and ranges 0..3 subidentifiers, loops unrolled at these lengths), against the reference texts; nothing is claimed for other lengths.", func(r *Rep) {
		for _, q := range []string{"text:oid", "text:ip", "text:prefix", "text:value", "text:varbind", "text:range"} {
			r.fns([]string{q})
		}
	})
}

var paramNames = []string{"", "NoParams", "OpenParams", "CloseParams", "RegisterParams", "UnregisterParams", "GetBulkParams", "AddAgentCapsParams", "RemoveAgentCapsParams", "ResponseParams"}

// pduKinds is the number of params types times lengths of their OID.
var pduCells = len(paramNames) * 3 * 6

// pduCase fixes the params type, the length of its OID, the lists and the depth.
func pduCase(a []Value, n int64) *DD {
	pi, ol, li := n/18, n/6%3, n%6
	p := a[0].(VStruct)
	f := append([]Value{}, p.f...)
	u := p.typ.Underlying().(*types.Struct)
	g := True
	for i := range f {
		switch u.Field(i).Name() {
		case "Tag":
			f[i] = linC([]int64{1, 3, 18, 0, 200, 5}[li])
		case "Flags":
			f[i] = linC([]int64{0, 0x10, 0x18, 0xff, 0x21, 1}[li])
		case "Params":
			if pi == 0 {
				f[i] = VIface{}
				continue
			}
			pkg := u.Field(i).Type().(*types.Named).Obj().Pkg()
			o := pkg.Scope().Lookup(paramNames[pi])
			if o == nil {
				return False
			}
			T := o.Type()
			v := materialise(rootPath("params", T)).(VStruct)
			pf := append([]Value{}, v.f...)
			pu := T.Underlying().(*types.Struct)
			for k := range pf {
				if _, ok := pf[k].(VSlice); ok {
					var h *DD
					pf[k], h = setLen(pf[k], ol)
					g = g.and(h)
				}
				switch pu.Field(k).Name() {
				case "Reason":
					pf[k] = linC([]int64{1, 6, 99}[ol])
				case "Error":
					pf[k] = linC([]int64{0, 263, 999}[ol])
				}
			}
			f[i] = VIface{typ: T, v: VStruct{typ: T, f: pf}}
		}
	}
	a[0] = VStruct{typ: p.typ, f: f}
	a[1] = linC([]int64{0, 1, 2, 7, 8, -3}[(n/6+li)%6])
	a[2] = linC(li)
	for i, l := range []int64{(li + ol) % 3, ol, (ol + 1) % 3} {
		var h *DD
		a[3+i], h = setLen(a[3+i], l)
		g = g.and(h)
	}
	var h *DD
	vs := valueCases()
	a[7], a[8], h = vs[(n*7)%int64(len(vs))].fix(a[7], a[8])
	return g.and(h)
}
