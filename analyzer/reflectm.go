package main

// Model of package reflect on values of statically known type.
//
// A reflect.Value is VOpq{"rv", [VIface{T, v}, ro]}: a value v of type T (T may be
// an interface type), ro: reached through an unexported field. The zero Value has
// T == nil. A bound method is VOpq{"rvm", [VIface{T, v}, name]}. A reflect.Type is
// an interface holding VOpq{"rt", [VIface{T, 0}]}.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var rtType = types.NewNamed(types.NewTypeName(0, nil, "reflect.rtype", nil), types.NewStruct(nil, nil), nil)

func mkRV(T types.Type, v Value, ro bool) Value {
	n := int64(0)
	if ro {
		n = 1
	}
	return VOpq{key: "rv", args: []Value{VIface{typ: T, v: v}, linC(n)}}
}

func mkRT(T types.Type) Value {
	return VIface{typ: rtType, v: VOpq{key: "rt", args: []Value{VIface{typ: T, v: linC(0)}}}}
}

func kindOf(T types.Type) reflect.Kind {
	if T == nil {
		return reflect.Invalid
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		}
		return reflect.UnsafePointer
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func reflTypeString(T types.Type) string {
	return types.TypeString(T, func(p *types.Package) string { return p.Name() })
}

type rvT struct {
	T  types.Type
	v  Value
	ro bool
}

// rvAlts applies f to every alternative of a reflect.Value.
func (E *Engine) rvAlts(fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction, f func(s *State, r rvT) (Value, *State, bool)) (Value, *State) {
	return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
		if o, ok := a.(VOpq); ok {
			if strings.HasPrefix(o.key, "zero:") {
				o = mkRV(nil, nil, false).(VOpq)
			}
			if o.key == "rv" {
				i := o.args[0].(VIface)
				if v, s2, ok := f(s, rvT{i.typ, i.v, o.args[1].(*Lin).c == 1}); ok {
					return v, s2
				}
			}
		}
		return E.external(fr, s, fn, append([]Value{a}, args[1:]...), in)
	})
}

func init() {
	type rf = func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool)
	reg := func(name string, f rf) {
		models["(reflect.Value)."+name] = func(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
			return E.rvAlts(fr, st, fn, args, in, func(s *State, r rvT) (Value, *State, bool) { return f(E, fr, s, r, args, fn, in) })
		}
	}
	bad := func(E *Engine, fr *frame, s *State, in ssa.Instruction, what string) (Value, *State, bool) {
		E.require(fr, s, False, in, what)
		return nil, nil, true
	}
	models["reflect.ValueOf"] = func(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
		return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
			if i, ok := a.(VIface); ok {
				return mkRV(i.typ, i.v, false), s
			}
			return E.external(fr, s, fn, args, in)
		})
	}
	models["reflect.TypeOf"] = func(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
		return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
			if i, ok := a.(VIface); ok && i.typ != nil {
				return mkRT(i.typ), s
			} else if ok {
				return VIface{}, s
			}
			return E.external(fr, s, fn, args, in)
		})
	}
	reg("Kind", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		return linC(int64(kindOf(r.T))), s, true
	})
	reg("IsValid", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		if r.T == nil {
			return False, s, true
		}
		return True, s, true
	})
	reg("Type", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		if r.T == nil {
			return bad(E, fr, s, in, "Type of the zero reflect.Value")
		}
		return mkRT(r.T), s, true
	})
	reg("NumField", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		if kindOf(r.T) != reflect.Struct {
			return bad(E, fr, s, in, "NumField of a value that is no struct")
		}
		return linC(int64(r.T.Underlying().(*types.Struct).NumFields())), s, true
	})
	field := func(E *Engine, fr *frame, s *State, r rvT, i int, in ssa.Instruction) (Value, *State, bool) {
		u := r.T.Underlying().(*types.Struct)
		x, ok := r.v.(VStruct)
		if !ok || len(x.f) != u.NumFields() {
			return nil, nil, false
		}
		return mkRV(u.Field(i).Type(), x.f[i], r.ro || !u.Field(i).Exported()), s, true
	}
	reg("Field", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		if kindOf(r.T) != reflect.Struct {
			return bad(E, fr, s, in, "Field of a value that is no struct")
		}
		i, ok := args[1].(*Lin)
		if !ok || !i.isC() {
			return nil, nil, false
		}
		if i.c < 0 || i.c >= int64(r.T.Underlying().(*types.Struct).NumFields()) {
			return bad(E, fr, s, in, "Field index out of range")
		}
		return field(E, fr, s, r, int(i.c), in)
	})
	reg("FieldByName", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		if kindOf(r.T) != reflect.Struct {
			return bad(E, fr, s, in, "FieldByName of a value that is no struct")
		}
		n, ok := args[1].(VStr)
		if !ok {
			return nil, nil, false
		}
		name, ok := constStr(n.s)
		u := r.T.Underlying().(*types.Struct)
		for i := 0; ok && i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return field(E, fr, s, r, i, in)
			}
		}
		return nil, nil, false
	})
	num := func(name, kinds string, ks ...reflect.Kind) {
		reg(name, func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
			k := kindOf(r.T)
			for _, x := range ks {
				if x == k {
					switch y := r.v.(type) {
					case *Lin, *DD, VAlt:
						return y, s, true
					}
					return nil, nil, false
				}
			}
			return bad(E, fr, s, in, name+" of a value of kind "+k.String())
		})
	}
	num("Int", "", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	num("Uint", "", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	num("Bool", "", reflect.Bool)
	reg("String", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		switch kindOf(r.T) {
		case reflect.Invalid:
			return VStr{strSeq("<invalid Value>")}, s, true
		case reflect.String:
			return r.v, s, true
		}
		return VStr{strSeq("<" + reflTypeString(r.T) + " Value>")}, s, true
	})
	reg("IsNil", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		switch kindOf(r.T) {
		case reflect.Interface:
			switch x := r.v.(type) {
			case VIface:
				if x.typ == nil {
					return True, s, true
				}
				return False, s, true
			case VSym:
				return condEQ(linAtom(typeAtom(x.p))), s, true
			}
			return nil, nil, false
		case reflect.Slice:
			if x, ok := r.v.(VSlice); ok {
				return x.nilg, s, true
			}
			return nil, nil, false
		case reflect.Pointer:
			if x, ok := r.v.(VPtr); ok {
				if x.obj == nil {
					return True, s, true
				}
				return False, s, true
			}
			return nil, nil, false
		case reflect.Chan, reflect.Func, reflect.Map, reflect.UnsafePointer:
			return nil, nil, false
		}
		return bad(E, fr, s, in, "IsNil of a value of kind "+kindOf(r.T).String())
	})
	reg("Elem", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		switch kindOf(r.T) {
		case reflect.Interface:
			v, s2 := E.forAlt(s, r.v, func(s *State, v Value) (Value, *State) {
				if x, ok := v.(VIface); ok {
					return mkRV(x.typ, x.v, r.ro && x.typ != nil), s
				}
				return E.external(fr, s, fn, args, in)
			})
			return v, s2, true
		case reflect.Pointer:
			x, ok := r.v.(VPtr)
			if !ok {
				return nil, nil, false
			}
			if x.obj == nil {
				return mkRV(nil, nil, false), s, true
			}
			T := r.T.Underlying().(*types.Pointer).Elem()
			v, s2 := E.load(fr, s, x, in, T)
			if s2 == nil {
				return nil, nil, true
			}
			return mkRV(T, v, r.ro), s2, true
		}
		return bad(E, fr, s, in, "Elem of a value of kind "+kindOf(r.T).String())
	})
	reg("Len", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		switch kindOf(r.T) {
		case reflect.Slice:
			if x, ok := r.v.(VSlice); ok {
				return norm(x.len, s), s, true
			}
			return nil, nil, false
		case reflect.String:
			if x, ok := r.v.(VStr); ok {
				return norm(x.s.size(), s), s, true
			}
			return nil, nil, false
		case reflect.Array:
			return linC(r.T.Underlying().(*types.Array).Len()), s, true
		case reflect.Map, reflect.Chan, reflect.Pointer:
			return nil, nil, false
		}
		return bad(E, fr, s, in, "Len of a value of kind "+kindOf(r.T).String())
	})
	reg("Index", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		i, ok := args[1].(*Lin)
		if !ok {
			return nil, nil, false
		}
		i = norm(i, s)
		switch kindOf(r.T) {
		case reflect.Slice:
			x, ok := r.v.(VSlice)
			if !ok {
				return nil, nil, false
			}
			if !E.require(fr, s, inBounds(i, norm(x.len, s)), in, "index out of range") {
				return nil, nil, true
			}
			q, ok := viewSeq(s.mem, x, s.full())
			if !ok {
				return nil, nil, false
			}
			return mkRV(r.T.Underlying().(*types.Slice).Elem(), readSeq(q, i, s.full()), r.ro), s, true
		case reflect.Array:
			x, ok := r.v.(VArr)
			if !ok {
				return nil, nil, false
			}
			if !E.require(fr, s, inBounds(i, linC(int64(len(x.e)))), in, "index out of range") {
				return nil, nil, true
			}
			v, ok := stepInto(x, []Step{{idx: i}}, s.full())
			if !ok {
				return nil, nil, false
			}
			return mkRV(r.T.Underlying().(*types.Array).Elem(), v, r.ro), s, true
		case reflect.String:
			x, ok := r.v.(VStr)
			if !ok {
				return nil, nil, false
			}
			if !E.require(fr, s, inBounds(i, norm(x.s.size(), s)), in, "index out of range") {
				return nil, nil, true
			}
			return mkRV(types.Typ[types.Uint8], readSeq(x.s, i, s.full()), r.ro), s, true
		}
		return bad(E, fr, s, in, "Index of a value of kind "+kindOf(r.T).String())
	})
	reg("CanInterface", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		if r.T == nil {
			return bad(E, fr, s, in, "CanInterface of the zero reflect.Value")
		}
		if r.ro {
			return False, s, true
		}
		return True, s, true
	})
	reg("Interface", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		if r.T == nil || r.ro {
			return bad(E, fr, s, in, "Interface of an unusable reflect.Value")
		}
		if kindOf(r.T) == reflect.Interface {
			return r.v, s, true
		}
		return VIface{typ: r.T, v: r.v}, s, true
	})
	reg("MethodByName", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		if r.T == nil {
			return bad(E, fr, s, in, "MethodByName of the zero reflect.Value")
		}
		n, ok := args[1].(VStr)
		if !ok {
			return nil, nil, false
		}
		name, ok := constStr(n.s)
		if !ok {
			return nil, nil, false
		}
		sel := types.NewMethodSet(r.T).Lookup(nil, name)
		if sel == nil || !sel.Obj().Exported() {
			return mkRV(nil, nil, false), s, true
		}
		if kindOf(r.T) == reflect.Interface {
			return nil, nil, false
		}
		sig := sel.Type().(*types.Signature)
		ft := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		return mkRV(ft, VOpq{key: "rvm", args: []Value{VIface{typ: r.T, v: r.v}, n}}, r.ro), s, true
	})
	reg("Call", func(E *Engine, fr *frame, s *State, r rvT, args []Value, fn *ssa.Function, in ssa.Instruction) (Value, *State, bool) {
		if kindOf(r.T) != reflect.Func || r.ro {
			return bad(E, fr, s, in, "Call of an unusable reflect.Value")
		}
		m, ok := r.v.(VOpq)
		sig := r.T.Underlying().(*types.Signature)
		if !ok || m.key != "rvm" || sig.Variadic() {
			return nil, nil, false
		}
		as, ok := args[1].(VSlice)
		if !ok {
			return nil, nil, false
		}
		n := norm(as.len, s)
		if !n.isC() {
			return nil, nil, false
		}
		if int(n.c) != sig.Params().Len() {
			return bad(E, fr, s, in, "Call with a wrong number of arguments")
		}
		recv := m.args[0].(VIface)
		name, _ := constStr(m.args[1].(VStr).s)
		call := []Value{recv.v}
		q, ok := viewSeq(s.mem, as, s.full())
		if !ok && n.c > 0 {
			return nil, nil, false
		}
		for i := int64(0); i < n.c; i++ {
			o, ok := readSeq(q, linC(i), s.full()).(VOpq)
			if !ok || o.key != "rv" {
				return nil, nil, false
			}
			x := o.args[0].(VIface)
			pt := sig.Params().At(int(i)).Type()
			switch {
			case x.typ == nil || o.args[1].(*Lin).c == 1:
				return bad(E, fr, s, in, "Call with an unusable argument")
			case !types.AssignableTo(x.typ, pt):
				return bad(E, fr, s, in, "Call with an argument of the wrong type")
			case kindOf(pt) == reflect.Interface && kindOf(x.typ) != reflect.Interface:
				call = append(call, VIface{typ: x.typ, v: x.v})
			default:
				call = append(call, x.v)
			}
		}
		sel := types.NewMethodSet(recv.typ).Lookup(nil, name)
		f := E.prog.MethodValue(sel)
		if f == nil {
			return nil, nil, false
		}
		v, s2 := E.callFn(fr, s, f, call, nil, in, nil)
		if s2 == nil {
			return nil, nil, true
		}
		var res Seq
		switch k := sig.Results().Len(); {
		case k == 1:
			res = Seq{IElem{mkRV(sig.Results().At(0).Type(), v, false)}}
		case k > 1:
			t, ok := v.(VTuple)
			if !ok {
				return nil, nil, false
			}
			for i := range t {
				res = append(res, IElem{mkRV(sig.Results().At(i).Type(), t[i], false)})
			}
		}
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		return E.newSlice(s2, res, linC(int64(len(res))), et), s2, true
	})
	models["(reflect.Kind).String"] = func(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
		if l, ok := args[0].(*Lin); ok && l.isC() {
			return VStr{strSeq(reflect.Kind(l.c).String())}, st
		}
		return E.external(fr, st, fn, args, in)
	}
}

// rtMethod is a method of a reflect.Type.
func (E *Engine) rtMethod(fr *frame, s *State, T types.Type, m *types.Func, args []Value, in ssa.Instruction) (Value, *State, bool) {
	idx := func(n int) (int, bool) {
		l, ok := args[0].(*Lin)
		if !ok || !l.isC() || l.c < 0 || l.c >= int64(n) {
			return 0, false
		}
		return int(l.c), true
	}
	str := func(x string) (Value, *State, bool) { return VStr{strSeq(x)}, s, true }
	num := func(n int) (Value, *State, bool) { return linC(int64(n)), s, true }
	switch m.Name() {
	case "Kind":
		return num(int(kindOf(T)))
	case "String":
		return str(reflTypeString(T))
	case "Name":
		if n, ok := types.Unalias(T).(*types.Named); ok {
			return str(n.Obj().Name())
		}
		if b, ok := T.(*types.Basic); ok {
			return str(b.Name())
		}
		return str("")
	case "Elem":
		switch u := T.Underlying().(type) {
		case *types.Slice:
			return mkRT(u.Elem()), s, true
		case *types.Array:
			return mkRT(u.Elem()), s, true
		case *types.Pointer:
			return mkRT(u.Elem()), s, true
		}
		return nil, nil, false
	case "NumIn", "NumOut", "In", "Out", "IsVariadic":
		u, ok := T.Underlying().(*types.Signature)
		if !ok {
			return nil, nil, false
		}
		switch m.Name() {
		case "NumIn":
			return num(u.Params().Len())
		case "NumOut":
			return num(u.Results().Len())
		case "In":
			if i, ok := idx(u.Params().Len()); ok {
				return mkRT(u.Params().At(i).Type()), s, true
			}
		case "Out":
			if i, ok := idx(u.Results().Len()); ok {
				return mkRT(u.Results().At(i).Type()), s, true
			}
		}
	case "NumField":
		if u, ok := T.Underlying().(*types.Struct); ok {
			return num(u.NumFields())
		}
	case "Field":
		u, ok := T.Underlying().(*types.Struct)
		if !ok {
			return nil, nil, false
		}
		i, ok := idx(u.NumFields())
		if !ok {
			return nil, nil, false
		}
		ft := m.Type().(*types.Signature).Results().At(0).Type()
		z, ok := zeroValue(ft).(VStruct)
		if !ok {
			return nil, nil, false
		}
		st := ft.Underlying().(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			switch st.Field(k).Name() {
			case "Name":
				z.f[k] = VStr{strSeq(u.Field(i).Name())}
			case "Type":
				z.f[k] = mkRT(u.Field(i).Type())
			case "Anonymous":
				z.f[k] = False
				if u.Field(i).Embedded() {
					z.f[k] = True
				}
			case "PkgPath":
				if !u.Field(i).Exported() && u.Field(i).Pkg() != nil {
					z.f[k] = VStr{strSeq(u.Field(i).Pkg().Path())}
				}
			case "Tag":
				z.f[k] = VStr{strSeq(u.Tag(i))}
			default:
				z.f[k] = E.unknown(in, "reflect.StructField.%s", st.Field(k).Name())
			}
		}
		return z, s, true
	}
	return nil, nil, false
}

// trimSeq removes leading and trailing constants of an ASCII set.
func trimSeq(s Seq, set string, left, right bool) (Seq, bool) {
	for i := 0; i < len(set); i++ {
		if set[i] >= 0x80 {
			return nil, false
		}
	}
	// in: whether the item is a constant of the set
	in := func(x Item) (bool, bool) {
		e, ok := x.(IElem)
		if !ok {
			if o, ok := x.(IOpq); ok && o.key == "decimal" {
				return false, !strings.ContainsAny(set, "-0123456789")
			}
			return false, false
		}
		l, ok := e.v.(*Lin)
		if !ok || !l.isC() {
			return false, false
		}
		return strings.IndexByte(set, byte(l.c)) >= 0, true
	}
	for left && len(s) > 0 {
		y, ok := in(s[0])
		if !ok {
			return nil, false
		}
		if !y {
			break
		}
		s = s[1:]
	}
	for right && len(s) > 0 {
		y, ok := in(s[len(s)-1])
		if !ok {
			return nil, false
		}
		if !y {
			break
		}
		s = s[:len(s)-1]
	}
	return s, true
}
