package main

// Abstract values, sequences and objects.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Lin (integers), *DD (booleans), VStr, VSlice, VStruct,
// VArr, VPtr, VFunc, VIface, VSym, VMap, VTuple, VAlt, VOpq, VTop.
type Value interface{}

type VStr struct{ s Seq }

type VSlice struct {
	obj  *Obj   // backing store; nil with inl==nil means no elements
	path []Step // position of the backing array inside obj
	inl  *Seq   // frozen content (read-only), off is relative to it
	off  *Lin
	len  *Lin
	cap  *Lin // nil: unknown, at least len
	nilg *DD  // condition under which the slice is nil
	et   types.Type
	al   []aliasT // input storage the slice may share, when frozen
}

// aliasT: under g the storage is that of the input object o.
type aliasT struct {
	g *DD
	o *Obj
}

// prov lists the input storage x may share.
func (x VSlice) prov() []aliasT {
	r := x.al
	if x.obj != nil {
		if x.obj.sym != nil {
			r = append(append([]aliasT{}, r...), aliasT{True, x.obj})
		}
		if len(x.obj.al) > 0 {
			r = append(append([]aliasT{}, r...), x.obj.al...)
		}
	}
	return r
}

func guardAl(g *DD, al []aliasT) []aliasT {
	var r []aliasT
	for _, a := range al {
		if h := g.and(a.g); h != False {
			r = append(r, aliasT{h, a.o})
		}
	}
	return r
}

// joinAl: al under g, bl otherwise.
func joinAl(g *DD, al, bl []aliasT) []aliasT {
	r := guardAl(g, al)
next:
	for _, b := range guardAl(g.not(), bl) {
		for i := range r {
			if r[i].o == b.o {
				r[i].g = r[i].g.or(b.g)
				continue next
			}
		}
		r = append(r, b)
	}
	return r
}

func sameAl(a, b []aliasT) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type VStruct struct {
	typ types.Type
	f   []Value
}

type VArr struct {
	typ types.Type
	e   []Value
}

type Step struct {
	field int
	idx   *Lin // nil: field step
}

type VPtr struct {
	obj *Obj // nil: nil pointer
	st  []Step
}

type VFunc struct {
	fn    *ssa.Function // nil: nil func
	free  []Value
	recv  Value // bound receiver (interface method value)
	meth  *types.Func
	blt   string
	sigID string
}

type VIface struct {
	typ types.Type // nil: nil interface
	v   Value
}

// VSym is a symbolic interface, map, pointer, func... named by its path.
type VSym struct {
	p   *Path
	typ types.Type
}

type VMapE struct {
	k, v Value
}

type VMap struct {
	obj *Obj
}

// VMapC is the content of a map object.
type VMapC struct {
	typ *types.Map
	e   []VMapE
}

type VTuple []Value

type VAlt struct {
	gs []*DD
	vs []Value
}

type VOpq struct {
	key  string
	args []Value
	typ  types.Type
}

type VTop struct{ why string }

func top(f string, a ...interface{}) VTop { return VTop{fmt.Sprintf(f, a...)} }

// Obj is a memory object. Its content is in Mem, or init if not overridden.
type Obj struct {
	id     int
	init   Value
	name   string
	typ    types.Type
	ro     bool // merged view: must not be written
	sym    *Path
	fam    *Fam
	famOff *Lin // offset of this object's element 0 in the family
	epoch  int
	global bool
	input  bool
	al     []aliasT
	born   bool // not in a memory: not yet allocated there
}

type Fam struct{ id int }

var objN int

func newObj(name string, t types.Type, init Value) *Obj {
	objN++
	return &Obj{id: objN, name: name, typ: t, init: init}
}

var famN int

func newFam() *Fam { famN++; return &Fam{famN} }

// VSeq is the content of a slice backing object.
type VSeq struct{ s Seq }

// ---------------------------------------------------------------- sequences

type Seq []Item

type Item interface {
	size() *Lin
}

type IElem struct{ v Value }
type ISub struct {
	p      *Path
	off, n *Lin
	et     types.Type
}
type IZero struct {
	n  *Lin
	et types.Type
}
type IRep struct {
	n    *Lin
	j    *Atom
	body Seq
	dom  *DD
}
type IScan struct {
	cls    *Class
	starts []*Lin
	body   Seq
	n      *Lin
}
type IAlt struct {
	gs []*DD
	ss []Seq
}
type IOpq struct {
	key  string
	args []Value
	n    *Lin
}
type IAcc struct {
	id int
	n  *Lin
}

func (IElem) size() *Lin   { return linC(1) }
func (x ISub) size() *Lin  { return x.n }
func (x IZero) size() *Lin { return x.n }
func (x IRep) size() *Lin {
	b := x.body.size()
	return mkSum(x.n, x.j, b, x.dom)
}
func (x IScan) size() *Lin { return x.n }
func (x IAlt) size() *Lin {
	var r *Lin
	for i := len(x.gs) - 1; i >= 0; i-- {
		s := x.ss[i].size()
		if r == nil {
			r = s
		} else {
			r = ite(x.gs[i], s, r)
		}
	}
	return r
}
func (x IOpq) size() *Lin { return x.n }
func (x IAcc) size() *Lin { return x.n }

func (s Seq) size() *Lin {
	r := linZero()
	for _, x := range s {
		r = r.add(x.size())
	}
	return r
}

func strSeq(s string) Seq {
	out := make(Seq, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = IElem{linC(int64(s[i]))}
	}
	return out
}

// constStr returns the Go string if all elements are constants.
func constStr(s Seq) (string, bool) {
	var sb strings.Builder
	for _, x := range s {
		switch e := x.(type) {
		case IElem:
			l, ok := e.v.(*Lin)
			if !ok || !l.isC() {
				return "", false
			}
			sb.WriteByte(byte(l.c))
		case IZero:
			if !e.n.isC() {
				return "", false
			}
			for i := int64(0); i < e.n.c; i++ {
				sb.WriteByte(0)
			}
		default:
			return "", false
		}
	}
	return sb.String(), true
}

func isZeroLin(l *Lin) bool { return l.isC() && l.c == 0 }

// cat appends with local normalisation.
func (s Seq) cat(items ...Item) Seq {
	out := s[:len(s):len(s)]
	for _, x := range items {
		switch y := x.(type) {
		case IAlt:
			if len(y.gs) == 1 {
				out = out.cat(y.ss[0]...)
				continue
			}
		case IRep:
			if z := normRep(y); len(z) != 1 || !isRep(z[0]) {
				out = out.cat(z...)
				continue
			} else {
				x = z[0]
			}
		}
		if n := x.size(); isZeroLin(n) {
			continue
		}
		if len(out) > 0 {
			last := out[len(out)-1]
			switch y := x.(type) {
			case ISub:
				if z, ok := last.(ISub); ok && z.p == y.p && z.off.add(z.n) == y.off {
					out = append(out[:len(out)-1:len(out)-1], ISub{z.p, z.off, z.n.add(y.n), z.et})
					continue
				}
			case IZero:
				if z, ok := last.(IZero); ok {
					out = append(out[:len(out)-1:len(out)-1], IZero{z.n.add(y.n), z.et})
					continue
				}
			}
		}
		out = append(out, x)
	}
	return out
}

func isRep(x Item) bool { _, ok := x.(IRep); return ok }

// normRep simplifies a repetition.
func normRep(r IRep) Seq {
	if r.n.isC() && r.n.c <= 0 || len(r.body) == 0 {
		return nil
	}
	if r.n.isC() && r.n.c <= 8 {
		var out Seq
		for i := int64(0); i < r.n.c; i++ {
			out = out.cat(substSeq(r.body, VSub{m: Sub{r.j: linC(i)}})...)
		}
		return out
	}
	if len(r.body) == 1 {
		switch e := r.body[0].(type) {
		case IElem:
			if p := pathOfValue(e.v); p != nil && p.kind == PIndex {
				o := p.idx.sub(linAtom(r.j))
				if !frHas(o.fr, r.j) && !frHas(p.parent.fr, r.j) {
					return Seq{ISub{p.parent, o, r.n, p.typ}}
				}
			}
			if l, ok := e.v.(*Lin); ok && l.isC() && l.c == 0 {
				return Seq{IZero{r.n, types.Typ[types.Uint8]}}
			}
		case IZero:
			if !frHas(e.n.fr, r.j) {
				return Seq{IZero{mulLin(e.n, r.n), e.et}}
			}
		case ISub:
			if !frHas(e.n.fr, r.j) && !frHas(e.p.fr, r.j) && e.n.isC() {
				o := e.off.sub(linAtom(r.j).scale(e.n.c))
				if !frHas(o.fr, r.j) {
					return Seq{ISub{e.p, o, r.n.scale(e.n.c), e.et}}
				}
			}
		}
	}
	return Seq{r}
}

// pathOfValue returns the path whose materialisation is v.
func pathOfValue(v Value) *Path {
	switch x := v.(type) {
	case *Lin:
		if len(x.t) == 1 && x.c == 0 && x.t[0].k == 1 && x.t[0].a.k == ASym {
			return x.t[0].a.path
		}
	case VSym:
		return x.p
	case VStruct:
		if len(x.f) == 0 {
			return nil
		}
		var par *Path
		st := x.typ.Underlying().(*types.Struct)
		for i, f := range x.f {
			p := pathOfValue(f)
			if p == nil || p.kind != PField || p.name != st.Field(i).Name() {
				return nil
			}
			if par == nil {
				par = p.parent
			} else if par != p.parent {
				return nil
			}
		}
		if types.Identical(par.typ, x.typ) {
			return par
		}
	case VSlice:
		if x.obj != nil && x.obj.sym != nil && len(x.path) == 0 && isZeroLin(x.off) {
			if x.len == linAtom(lenAtom(x.obj.sym)) {
				return x.obj.sym
			}
		}
		if x.inl != nil && len(*x.inl) == 1 && isZeroLin(x.off) {
			if s, ok := (*x.inl)[0].(ISub); ok && isZeroLin(s.off) && s.n == linAtom(lenAtom(s.p)) && x.len == s.n {
				return s.p
			}
		}
	case VStr:
		if len(x.s) == 1 {
			if s, ok := x.s[0].(ISub); ok && isZeroLin(s.off) && s.n == linAtom(lenAtom(s.p)) {
				return s.p
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- symbolic input

var symObjs = map[*Path]*Obj{}

func symObj(p *Path, et types.Type) *Obj {
	if o, ok := symObjs[p]; ok {
		return o
	}
	o := newObj(p.String(), nil, VSeq{Seq{ISub{p, linZero(), linAtom(capAtom(p)), et}}})
	o.sym = p
	o.input = true
	symObjs[p] = o
	return o
}

// pinned replaces scalar inputs by constants in one partition of the input.
var pinned = map[*Path]*Lin{}

// materialise is the symbolic value at path p.
func materialise(p *Path) Value {
	t := p.typ
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if l, ok := pinned[p]; ok {
			return l
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolAtom(symAtom(p))
		case u.Info()&types.IsInteger != 0:
			return linAtom(symAtom(p))
		case u.Info()&types.IsString != 0:
			return VStr{Seq(nil).cat(ISub{p, linZero(), linAtom(lenAtom(p)), types.Typ[types.Uint8]})}
		}
		return VSym{p, t}
	case *types.Slice:
		n := linAtom(lenAtom(p))
		return VSlice{obj: symObj(p, u.Elem()), off: linZero(), len: n, cap: linAtom(capAtom(p)),
			nilg: boolAtom(nilAtom(p)).and(condGE(n.neg())), et: u.Elem()}
	case *types.Struct:
		s := VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, materialise(p.field(u.Field(i).Name(), u.Field(i).Type())))
		}
		return s
	case *types.Array:
		a := VArr{typ: t}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, materialise(p.index(linC(i), u.Elem())))
		}
		return a
	}
	return VSym{p, t}
}

func nilAtom(p *Path) *Atom {
	return internAtom(fmt.Sprintf("nil:%d", p.id), func() *Atom {
		return &Atom{k: ASym, path: p, name: "isnil", lo: bi(0), hi: bi(1), mod4: -1, fr: p.fr}
	})
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return linZero()
		case u.Info()&types.IsString != 0:
			return VStr{}
		case u.Kind() == types.UntypedNil:
			return VIface{}
		case u.Kind() == types.UnsafePointer:
			return VPtr{}
		}
		return VOpq{key: "zero:" + u.String(), typ: t}
	case *types.Slice:
		return VSlice{off: linZero(), len: linZero(), cap: linZero(), nilg: True, et: u.Elem()}
	case *types.Struct:
		if isBuilder(t) {
			return VStr{}
		}
		s := VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroValue(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := VArr{typ: t}
		for i := int64(0); i < u.Len() && i < 70000; i++ {
			a.e = append(a.e, zeroValue(u.Elem()))
		}
		return a
	case *types.Pointer:
		return VPtr{}
	case *types.Signature:
		return VFunc{}
	case *types.Interface:
		return VIface{}
	case *types.Map:
		return VMap{}
	case *types.Tuple:
		var tp VTuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, zeroValue(u.At(i).Type()))
		}
		return tp
	}
	return VOpq{key: "zero:" + t.String(), typ: t}
}

func isBuilder(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p, m := n.Obj().Pkg().Path(), n.Obj().Name()
	return p == "strings" && m == "Builder"
}

// ---------------------------------------------------------------- substitution on values

type VSub struct {
	m   Sub
	acc map[int]Seq
}

func (s VSub) empty() bool { return len(s.m) == 0 && len(s.acc) == 0 }

func substSeq(s Seq, m VSub) Seq {
	var out Seq
	for _, x := range s {
		switch y := x.(type) {
		case IElem:
			out = out.cat(IElem{substVal(y.v, m)})
		case ISub:
			out = out.cat(ISub{y.p.subst(m.m), y.off.subst(m.m), y.n.subst(m.m), y.et})
		case IZero:
			out = out.cat(IZero{y.n.subst(m.m), y.et})
		case IRep:
			var dom *DD
			mm := VSub{m.m.without(y.j), m.acc}
			if y.dom != nil {
				dom = y.dom.subst(mm.m)
			}
			out = out.cat(IRep{y.n.subst(m.m), y.j, substSeq(y.body, mm), dom})
		case IScan:
			var st []*Lin
			for _, l := range y.starts {
				st = append(st, l.subst(m.m))
			}
			mm := m.m
			for _, c := range y.cls.cur {
				mm = mm.without(c)
			}
			out = out.cat(IScan{y.cls.subst(m.m), st, substSeq(y.body, VSub{mm, m.acc}), y.n.subst(m.m)})
		case IAlt:
			a := IAlt{}
			for i := range y.gs {
				g := y.gs[i].subst(m.m)
				if g == False {
					continue
				}
				a.gs = append(a.gs, g)
				a.ss = append(a.ss, substSeq(y.ss[i], m))
			}
			out = out.cat(a)
		case IOpq:
			var as []Value
			for _, v := range y.args {
				as = append(as, substVal(v, m))
			}
			out = out.cat(IOpq{y.key, as, y.n.subst(m.m)})
		case IAcc:
			if t, ok := m.acc[y.id]; ok {
				out = out.cat(t...)
			} else {
				out = out.cat(IAcc{y.id, y.n.subst(m.m)})
			}
		}
	}
	return out
}

func substVal(v Value, m VSub) Value {
	if m.empty() {
		return v
	}
	switch x := v.(type) {
	case nil:
		return nil
	case *Lin:
		return x.subst(m.m)
	case *DD:
		return x.subst(m.m)
	case VStr:
		return VStr{substSeq(x.s, m)}
	case VSeq:
		return VSeq{substSeq(x.s, m)}
	case VSlice:
		y := x
		y.off, y.len = x.off.subst(m.m), x.len.subst(m.m)
		if x.cap != nil {
			y.cap = x.cap.subst(m.m)
		}
		if x.nilg != nil {
			y.nilg = x.nilg.subst(m.m)
		}
		if x.inl != nil {
			s := substSeq(*x.inl, m)
			y.inl = &s
		}
		if len(x.al) > 0 {
			y.al = make([]aliasT, len(x.al))
			for i, a := range x.al {
				y.al[i] = aliasT{a.g.subst(m.m), a.o}
			}
		}
		if x.obj != nil && x.obj.sym != nil {
			y.obj = symObj(x.obj.sym.subst(m.m), x.et)
		}
		return y
	case VStruct:
		y := VStruct{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			y.f[i] = substVal(x.f[i], m)
		}
		return y
	case VArr:
		y := VArr{typ: x.typ, e: make([]Value, len(x.e))}
		for i := range x.e {
			y.e[i] = substVal(x.e[i], m)
		}
		return y
	case VPtr:
		ch := false
		st := make([]Step, len(x.st))
		for i, s := range x.st {
			st[i] = s
			if s.idx != nil {
				st[i].idx = s.idx.subst(m.m)
				ch = ch || st[i].idx != s.idx
			}
		}
		if x.obj != nil && x.obj.sym != nil && m.m.hits(x.obj.sym.fr) {
			// symbolic slice element pointer
			if q, ok := x.obj.init.(VSeq); ok && len(q.s) == 1 {
				if sb, ok := q.s[0].(ISub); ok {
					return VPtr{symObj(x.obj.sym.subst(m.m), sb.et), st}
				}
			}
		}
		if !ch {
			return x
		}
		return VPtr{x.obj, st}
	case VIface:
		if x.typ == nil {
			return x
		}
		return VIface{x.typ, substVal(x.v, m)}
	case VSym:
		return VSym{x.p.subst(m.m), x.typ}
	case VFunc:
		if len(x.free) == 0 && x.recv == nil {
			return x
		}
		y := x
		y.free = make([]Value, len(x.free))
		for i := range x.free {
			y.free[i] = substVal(x.free[i], m)
		}
		if x.recv != nil {
			y.recv = substVal(x.recv, m)
		}
		return y
	case VTuple:
		y := make(VTuple, len(x))
		for i := range x {
			y[i] = substVal(x[i], m)
		}
		return y
	case VAlt:
		y := VAlt{}
		for i := range x.gs {
			g := x.gs[i].subst(m.m)
			if g == False {
				continue
			}
			y.gs = append(y.gs, g)
			y.vs = append(y.vs, substVal(x.vs[i], m))
		}
		if len(y.vs) == 0 {
			return top("dead alternative")
		}
		if len(y.vs) == 1 {
			return y.vs[0]
		}
		return y
	case VOpq:
		y := VOpq{key: x.key, typ: x.typ}
		for _, a := range x.args {
			y.args = append(y.args, substVal(a, m))
		}
		return y
	}
	return v
}

// ---------------------------------------------------------------- free atoms

func frOfSeq(s Seq) []*Atom {
	var out []*Atom
	for _, x := range s {
		switch y := x.(type) {
		case IElem:
			out = frUnion(out, frOfVal(y.v))
		case ISub:
			out = frUnion(out, y.p.fr, y.off.fr, y.n.fr)
		case IZero:
			out = frUnion(out, y.n.fr)
		case IRep:
			out = frUnion(out, y.n.fr, frMinus(frOfSeq(y.body), y.j))
		case IScan:
			out = frUnion(out, y.n.fr, y.cls.frees(), frMinus(frOfSeq(y.body), y.cls.cur...))
			for _, l := range y.starts {
				out = frUnion(out, l.fr)
			}
		case IAlt:
			for i := range y.gs {
				out = frUnion(out, y.gs[i].fr(), frOfSeq(y.ss[i]))
			}
		case IOpq:
			out = frUnion(out, y.n.fr)
			for _, v := range y.args {
				out = frUnion(out, frOfVal(v))
			}
		case IAcc:
			out = frUnion(out, y.n.fr)
		}
	}
	return out
}

func frOfVal(v Value) []*Atom {
	switch x := v.(type) {
	case *Lin:
		return x.fr
	case *DD:
		return x.fr()
	case VStr:
		return frOfSeq(x.s)
	case VSeq:
		return frOfSeq(x.s)
	case VSlice:
		f := frUnion(x.off.fr, x.len.fr)
		if x.inl != nil {
			f = frUnion(f, frOfSeq(*x.inl))
		}
		if x.obj != nil && x.obj.sym != nil {
			f = frUnion(f, x.obj.sym.fr)
		}
		return f
	case VStruct:
		var f []*Atom
		for _, y := range x.f {
			f = frUnion(f, frOfVal(y))
		}
		return f
	case VArr:
		var f []*Atom
		for _, y := range x.e {
			f = frUnion(f, frOfVal(y))
		}
		return f
	case VTuple:
		var f []*Atom
		for _, y := range x {
			f = frUnion(f, frOfVal(y))
		}
		return f
	case VPtr:
		var f []*Atom
		for _, s := range x.st {
			if s.idx != nil {
				f = frUnion(f, s.idx.fr)
			}
		}
		if x.obj != nil && x.obj.sym != nil {
			f = frUnion(f, x.obj.sym.fr)
		}
		return f
	case VIface:
		if x.typ == nil {
			return nil
		}
		return frOfVal(x.v)
	case VSym:
		return x.p.fr
	case VFunc:
		var f []*Atom
		for _, y := range x.free {
			f = frUnion(f, frOfVal(y))
		}
		return f
	case VAlt:
		var f []*Atom
		for i := range x.gs {
			f = frUnion(f, x.gs[i].fr(), frOfVal(x.vs[i]))
		}
		return f
	case VOpq:
		var f []*Atom
		for _, y := range x.args {
			f = frUnion(f, frOfVal(y))
		}
		return f
	}
	return nil
}

func accsOfSeq(s Seq, f func(id int)) {
	for _, x := range s {
		switch y := x.(type) {
		case IElem:
			accsOfVal(y.v, f)
		case IRep:
			accsOfSeq(y.body, f)
		case IScan:
			accsOfSeq(y.body, f)
		case IAlt:
			for _, t := range y.ss {
				accsOfSeq(t, f)
			}
		case IOpq:
			for _, v := range y.args {
				accsOfVal(v, f)
			}
		case IAcc:
			f(y.id)
		}
	}
}

func accsOfVal(v Value, f func(id int)) {
	switch x := v.(type) {
	case VStr:
		accsOfSeq(x.s, f)
	case VSeq:
		accsOfSeq(x.s, f)
	case VSlice:
		if x.inl != nil {
			accsOfSeq(*x.inl, f)
		}
	case VStruct:
		for _, y := range x.f {
			accsOfVal(y, f)
		}
	case VArr:
		for _, y := range x.e {
			accsOfVal(y, f)
		}
	case VTuple:
		for _, y := range x {
			accsOfVal(y, f)
		}
	case VIface:
		if x.typ != nil {
			accsOfVal(x.v, f)
		}
	case VAlt:
		for _, y := range x.vs {
			accsOfVal(y, f)
		}
	}
}

// ---------------------------------------------------------------- printing

func seqString(s Seq) string {
	if c, ok := constStr(s); ok && len(c) > 0 {
		pr := true
		for i := 0; i < len(c); i++ {
			if c[i] < 32 || c[i] > 126 {
				pr = false
			}
		}
		if pr {
			return fmt.Sprintf("%q", c)
		}
	}
	var p []string
	for _, x := range s {
		p = append(p, itemString(x))
	}
	return "[" + strings.Join(p, ", ") + "]"
}

func itemString(x Item) string {
	switch y := x.(type) {
	case IElem:
		return valString(y.v)
	case ISub:
		return fmt.Sprintf("%s[%s:+%s]", y.p, y.off, y.n)
	case IZero:
		return fmt.Sprintf("zero(%s)", y.n)
	case IRep:
		return fmt.Sprintf("rep(%s<%s: %s)", y.j, y.n, seqString(y.body))
	case IScan:
		return fmt.Sprintf("scan(loop%d from %v: %s)", y.cls.id, y.starts, seqString(y.body))
	case IAlt:
		var p []string
		for i := range y.gs {
			p = append(p, fmt.Sprintf("%s ? %s", y.gs[i], seqString(y.ss[i])))
		}
		return "{" + strings.Join(p, " | ") + "}"
	case IOpq:
		var p []string
		for _, v := range y.args {
			p = append(p, valString(v))
		}
		return fmt.Sprintf("%s(%s)", y.key, strings.Join(p, ","))
	case IAcc:
		return fmt.Sprintf("acc%d", y.id)
	}
	return "?"
}

func valString(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Lin:
		return x.String()
	case *DD:
		return x.String()
	case VStr:
		return seqString(x.s)
	case VSeq:
		return seqString(x.s)
	case VSlice:
		if x.inl != nil {
			return fmt.Sprintf("slice(%s @%s+%s)", seqString(*x.inl), x.off, x.len)
		}
		if x.obj == nil {
			return "nil[]"
		}
		return fmt.Sprintf("slice(%s#%d%v @%s+%s)", x.obj.name, x.obj.id, x.path, x.off, x.len)
	case VStruct:
		var p []string
		st := x.typ.Underlying().(*types.Struct)
		for i, f := range x.f {
			p = append(p, st.Field(i).Name()+":"+valString(f))
		}
		return "{" + strings.Join(p, " ") + "}"
	case VArr:
		var p []string
		for i, f := range x.e {
			if i > 16 {
				p = append(p, "...")
				break
			}
			p = append(p, valString(f))
		}
		return "[" + strings.Join(p, " ") + "]"
	case VPtr:
		if x.obj == nil {
			return "nilptr"
		}
		return fmt.Sprintf("&%s#%d%v", x.obj.name, x.obj.id, x.st)
	case VFunc:
		if x.fn != nil {
			return x.fn.String()
		}
		return "nilfunc"
	case VIface:
		if x.typ == nil {
			return "nil"
		}
		return "(" + types.TypeString(x.typ, func(p *types.Package) string { return p.Name() }) + ")" + valString(x.v)
	case VSym:
		return x.p.String()
	case VTuple:
		var p []string
		for _, f := range x {
			p = append(p, valString(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case VAlt:
		var p []string
		for i := range x.gs {
			p = append(p, fmt.Sprintf("%s ? %s", x.gs[i], valString(x.vs[i])))
		}
		return "{" + strings.Join(p, " | ") + "}"
	case VOpq:
		var p []string
		for _, f := range x.args {
			p = append(p, valString(f))
		}
		return x.key + "(" + strings.Join(p, ",") + ")"
	case VTop:
		return "TOP<" + x.why + ">"
	case VMap:
		return "map"
	}
	return fmt.Sprintf("%T", v)
}

func (s Step) String() string {
	if s.idx != nil {
		return "[" + s.idx.String() + "]"
	}
	return fmt.Sprintf(".%d", s.field)
}

func sortedKeys[K comparable, V any](m map[K]V, less func(a, b K) bool) []K {
	var ks []K
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	return ks
}
