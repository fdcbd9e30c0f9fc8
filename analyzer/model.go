package main

// Models of library functions.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State)

var models map[string]modelFn

func init() {
	models = map[string]modelFn{
		"(*strings.Builder).WriteString": bWrite,
		"(*strings.Builder).Write":       bWrite,
		"(*strings.Builder).WriteByte":   bWrite,
		"(*strings.Builder).WriteRune":   bWrite,
		"(*strings.Builder).String":      bString,
		"(*strings.Builder).Len":         bLen,
		"(*strings.Builder).Cap":         bCap,
		"(*strings.Builder).Reset":       bReset,
		"(*strings.Builder).Grow":        bGrow,
		"(*bytes.Buffer).WriteString":    bWrite,
		"(*bytes.Buffer).Write":          bWrite,
		"(*bytes.Buffer).WriteByte":      bWrite,
		"(*bytes.Buffer).WriteRune":      bWrite,
		"(*bytes.Buffer).String":         bString,
		"(*bytes.Buffer).Bytes":          bBytes,
		"(*bytes.Buffer).Len":            bLen,
		"(*bytes.Buffer).Reset":          bReset,
		"(*bytes.Buffer).Grow":           bGrow,
		"strings.Repeat":                 mRepeat,
		"bytes.Repeat":                   mRepeat,
		"bytes.Equal":                    mBytesEqual,
		"bytes.Clone":                    mClone,
		"strings.Clone":                  mIdent,
		"slices.Grow":                    mGrowSlice,
		"errors.New":                     mError,
		"fmt.Errorf":                     mError,
		"fmt.Fprintf":                    mFprint,
		"fmt.Fprint":                     mFprint,
		"fmt.Fprintln":                   mFprint,
		"fmt.Sprintf":                    mSprintf,
		"strconv.Itoa":                   mItoa,
		"strconv.FormatInt":              mItoa,
		"strconv.FormatUint":             mItoa,
		"strconv.AppendInt":              mAppendInt,
		"strconv.AppendUint":             mAppendInt,
		"strings.TrimSuffix":             mTrim,
		"strings.TrimPrefix":             mTrim,
		"strings.HasPrefix":              mTrim,
		"strings.HasSuffix":              mTrim,
		"strings.CutPrefix":              mTrim,
		"strings.CutSuffix":              mTrim,
		"(*sync.RWMutex).Lock":           mNop,
		"(*sync.RWMutex).Unlock":         mNop,
		"(*sync.RWMutex).RLock":          mNop,
		"(*sync.RWMutex).RUnlock":        mNop,
		"(*sync.Mutex).Lock":             mNop,
		"(*sync.Mutex).Unlock":           mNop,
	}
}

func mNop(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return VTuple{}, st
}

func mIdent(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return args[0], st
}

func mOpqBool(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return boolAtom(freshAtom(fn.Name(), bi(0), bi(1))), st
}

var errN int64

func mError(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	if p := in.Parent(); p != nil && p.Name() == "init" && p.Synthetic != "" {
		// a package-level error: one object for the whole program
		errN++
		return VIface{typ: runtimePanicType, v: VOpq{key: "error", args: []Value{linC(errN)}, typ: runtimePanicType}}, st
	}
	return VIface{typ: runtimePanicType, v: VOpq{key: "error", typ: runtimePanicType}}, st
}

// builder gives the content of a strings.Builder behind p.
func builderOf(st *State, p Value) (VPtr, VStr, bool) {
	x, ok := p.(VPtr)
	if !ok || x.obj == nil {
		return VPtr{}, VStr{}, false
	}
	v, ok := stepInto(st.mem.get(x.obj), x.st, st.full())
	if !ok {
		return x, VStr{}, false
	}
	s, ok := v.(VStr)
	return x, s, ok
}

func setBuilder(E *Engine, st *State, p VPtr, v Value, in ssa.Instruction) {
	E.writeObj(st, p.obj, p.st, v, in)
}

func bWrite(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return E.forAlt(st, args[0], func(s *State, pv Value) (Value, *State) {
		return E.forAlt(s, args[1], func(s *State, a Value) (Value, *State) {
			if y, ok := pv.(VSym); ok {
				p2, s2 := E.symPtr(fr, s, y, in)
				if s2 == nil {
					return nil, nil
				}
				pv, s = p2, s2
			}
			p, b, ok := builderOf(s, pv)
			var q Seq
			var n *Lin
			switch x := a.(type) {
			case VStr:
				q = x.s
			case VSlice:
				var ok2 bool
				q, ok2 = viewSeq(s.mem, x, s.full())
				if !ok2 {
					q = Seq{IOpq{"unknown", nil, x.len}}
				}
			case *Lin:
				if fn.Name() == "WriteByte" {
					q = Seq{IElem{x}}
				} else if x.isC() {
					q = strSeq(string(rune(x.c)))
				} else {
					q = Seq{IOpq{"runestr", []Value{x}, linAtom(opqAtom("runelen", []*Lin{x}, bi(1), bi(4)))}}
				}
			default:
				q = E.opqStr("unknown").(VStr).s
			}
			n = q.size()
			res := func() Value {
				switch fn.Name() {
				case "WriteByte":
					return VIface{}
				}
				return VTuple{n, VIface{}}
			}
			if p.obj == nil {
				if _, isP := pv.(VPtr); isP {
					E.require(fr, s, False, in, "nil pointer dereference")
					return nil, nil
				}
				E.mayPanic(fr, s, in, "builder "+short(valString(pv)))
				E.event("undecided", E.site(in), "write to unknown builder")
				return res(), s
			}
			if !ok {
				if b0, isTop := s.mem.get(p.obj).(VTop); isTop {
					_ = b0
					setBuilder(E, s, p, E.opqStr("unknown"), in)
					return res(), s
				}
				setBuilder(E, s, p, E.opqStr("unknown"), in)
				return res(), s
			}
			setBuilder(E, s, p, VStr{b.s.cat(q...)}, in)
			return res(), s
		})
	})
}

func bGet(E *Engine, st *State, p Value) VStr {
	_, b, ok := builderOf(st, p)
	if !ok {
		return E.opqStr("builder").(VStr)
	}
	return b
}

func bString(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return E.forAlt(st, args[0], func(s *State, p Value) (Value, *State) { return bGet(E, s, p), s })
}

func bBytes(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return E.forAlt(st, args[0], func(s *State, p Value) (Value, *State) {
		b := bGet(E, s, p)
		return E.newSlice(s, b.s, b.s.size(), types.Typ[types.Uint8]), s
	})
}

func bLen(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return E.forAlt(st, args[0], func(s *State, p Value) (Value, *State) { return norm(bGet(E, s, p).s.size(), s), s })
}

func bCap(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return linAtom(freshAtom("cap", bi(0), maxLen)), st
}

func bReset(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return E.forAlt(st, args[0], func(s *State, pv Value) (Value, *State) {
		if p, _, _ := builderOf(s, pv); p.obj != nil {
			setBuilder(E, s, p, VStr{}, in)
		}
		return VTuple{}, s
	})
}

func bGrow(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	n := norm(E.asLin(args[1], types.Typ[types.Int]), st)
	if !E.require(fr, st, condGE(n), in, "negative count in Grow") {
		return nil, nil
	}
	E.allocs = append(E.allocs, AllocRec{st.full(), n, E.site(in), E.path(), "Grow"})
	return VTuple{}, st
}

func mRepeat(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	n := norm(E.asLin(args[1], types.Typ[types.Int]), st)
	if !E.require(fr, st, condGE(n), in, "negative Repeat count") {
		return nil, nil
	}
	return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
		if x, ok := a.(VStr); ok {
			if n.isC() && n.c <= 256 {
				var q Seq
				for i := int64(0); i < n.c; i++ {
					q = q.cat(x.s...)
				}
				return VStr{q}, s
			}
			j := freshAtom("j", bi(0), nil)
			return VStr{Seq(nil).cat(normRep(IRep{n, j, x.s, nil})...)}, s
		}
		if x, ok := a.(VSlice); ok {
			v, ok := viewSeq(s.mem, x, s.full())
			if ok {
				j := freshAtom("j", bi(0), nil)
				q := Seq(nil).cat(normRep(IRep{n, j, v, nil})...)
				return E.newSlice(s, q, q.size(), x.et), s
			}
		}
		return E.unknown(in, "Repeat"), s
	})
}

func mBytesEqual(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
		return E.forAlt(s, args[1], func(s *State, b Value) (Value, *State) {
			x, ok1 := a.(VSlice)
			y, ok2 := b.(VSlice)
			if ok1 && ok2 {
				p, ok1 := viewSeq(s.mem, x, s.full())
				q, ok2 := viewSeq(s.mem, y, s.full())
				if ok1 && ok2 {
					return E.seqEqual(s, p, q), s
				}
			}
			return boolAtom(freshAtom("bytes.Equal", bi(0), bi(1))), s
		})
	})
}

func mClone(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
		if x, ok := a.(VSlice); ok {
			if v, ok := viewSeq(s.mem, x, s.full()); ok {
				r := E.newSlice(s, v, norm(x.len, s), x.et)
				r.nilg = x.nilg
				return r, s
			}
		}
		return E.unknown(in, "Clone"), s
	})
}

func mGrowSlice(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	n := norm(E.asLin(args[1], types.Typ[types.Int]), st)
	if !E.require(fr, st, condGE(n), in, "negative Grow count") {
		return nil, nil
	}
	E.allocs = append(E.allocs, AllocRec{st.full(), n, E.site(in), E.path(), "Grow"})
	return args[0], st
}

// mFprint writes an unknown string to a builder.
func mFprint(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return E.forAlt(st, args[0], func(s *State, w Value) (Value, *State) {
		if i, ok := w.(VIface); ok && i.typ != nil {
			if p, b, ok := builderOf(s, i.v); ok {
				q := E.opqStr(fn.Name()).(VStr)
				if fn.Name() == "Fprintf" {
					if z, ok := E.formatSeq(s, args[1], args[2]); ok {
						q = VStr{z}
					}
				}
				setBuilder(E, s, p, VStr{b.s.cat(q.s...)}, in)
			} else {
				E.havocVal(s, i.v, in, 0)
			}
		}
		return VTuple{linAtom(freshAtom("n", bi(0), maxLen)), E.opqOf(types.Universe.Lookup("error").Type(), "err", in)}, s
	})
}

func mSprintf(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	if q, ok := E.formatSeq(st, args[0], args[1]); ok {
		return VStr{q}, st
	}
	// a deterministic name when everything is known
	if f, ok := args[0].(VStr); ok {
		if c, ok := constStr(f.s); ok {
			if sl, ok := args[1].(VSlice); ok {
				if q, ok := viewSeq(st.mem, sl, st.full()); ok {
					v := freezeSeq(q, st.mem, st.full())
					if len(frOfSeq(v)) == 0 && !seqHasTop(v) {
						key := "Sprintf:" + c + ":" + seqString(v)
						if len(key) < 400 {
							n := internAtom("strlen:"+key, func() *Atom {
								return &Atom{k: AOpq, name: "strlen:" + key, lo: bi(0), hi: maxLen, lenish: true, mod4: -1}
							})
							return VStr{Seq{IOpq{key, nil, linAtom(n)}}}, st
						}
					}
				}
			}
		}
	}
	return E.opqStr("Sprintf"), st
}

// formatSeq expands a constant format of plain verbs.
func (E *Engine) formatSeq(st *State, fv, av Value) (Seq, bool) {
	f, ok := fv.(VStr)
	if !ok {
		return nil, false
	}
	c, ok := constStr(f.s)
	if !ok {
		return nil, false
	}
	sl, ok := av.(VSlice)
	if !ok {
		return nil, false
	}
	n := norm(sl.len, st)
	if !n.isC() {
		return nil, false
	}
	var q Seq
	if n.c > 0 {
		if q, ok = viewSeq(st.mem, sl, st.full()); !ok {
			return nil, false
		}
	}
	var out Seq
	k := int64(0)
	for i := 0; i < len(c); i++ {
		if c[i] != '%' {
			out = out.cat(IElem{linC(int64(c[i]))})
			continue
		}
		i++
		if i == len(c) {
			return nil, false
		}
		if c[i] == '%' {
			out = out.cat(IElem{linC('%')})
			continue
		}
		if k >= n.c {
			return nil, false
		}
		x, ok := readSeq(q, linC(k), st.full()).(VIface)
		if !ok || x.typ == nil {
			return nil, false
		}
		k++
		b, ok := x.typ.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		plain := types.NewMethodSet(x.typ).Len() == 0
		switch verb := c[i]; {
		case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'x' && plain || verb == 'o' || verb == 'b' || verb == 'v' && plain):
			l, ok := x.v.(*Lin)
			if !ok {
				return nil, false
			}
			base := map[byte]int64{'d': 10, 'v': 10, 'x': 16, 'o': 8, 'b': 2}[verb]
			out = out.cat(numeral(norm(l, st), base)...)
		case b.Info()&types.IsString != 0 && plain && (verb == 's' || verb == 'v'):
			s, ok := x.v.(VStr)
			if !ok {
				return nil, false
			}
			out = out.cat(s.s...)
		default:
			return nil, false
		}
	}
	return out, k == n.c
}

// numeral is the text of l in a base.
func numeral(l *Lin, base int64) Seq {
	if l.isC() {
		return strSeq(strconv.FormatInt(l.c, int(base)))
	}
	key, hi := "decimal", int64(20)
	if base != 10 {
		key, hi = "numeral:"+strconv.Itoa(int(base)), 65
	}
	n := opqAtom(map[bool]string{true: "declen", false: "len:" + key}[base == 10], []*Lin{l}, bi(1), bi(hi))
	return Seq{IOpq{key, []Value{l}, linAtom(n)}}
}

// numeralBase is the base of the text item x, 0 if it is none.
func numeralBase(x IOpq) int {
	if len(x.args) != 1 {
		return 0
	}
	if x.key == "decimal" {
		return 10
	}
	if s, ok := strings.CutPrefix(x.key, "numeral:"); ok {
		b, _ := strconv.Atoi(s)
		return b
	}
	return 0
}

func mItoa(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	l := norm(E.asLin(args[0], fn.Signature.Params().At(0).Type()), st)
	base := int64(10)
	if fn.Name() != "Itoa" && len(args) > 1 {
		b, ok := args[1].(*Lin)
		if !ok || !b.isC() || b.c < 2 || b.c > 36 {
			E.mayPanic(fr, st, in, "base of "+fn.Name())
			return E.opqStr(fn.Name()), st
		}
		base = b.c
	}
	return VStr{numeral(l, base)}, st
}

// mAppendInt: strconv.AppendInt and AppendUint.
func mAppendInt(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
		x, ok := a.(VSlice)
		b, ok2 := args[2].(*Lin)
		if !ok || !ok2 || !b.isC() || b.c < 2 || b.c > 36 {
			return E.external(fr, s, fn, args, in)
		}
		q := numeral(norm(E.asLin(args[1], fn.Signature.Params().At(1).Type()), s), b.c)
		return E.appendTo(s, x, q, q.size(), in), s
	})
}

// mTrim: prefixes and suffixes of strings, for constant ones that meet
// known single elements only.
func mTrim(E *Engine, fr *frame, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) (Value, *State) {
	suf := strings.HasSuffix(fn.Name(), "Suffix")
	return E.forAlt(st, args[0], func(s *State, a Value) (Value, *State) {
		x, ok1 := a.(VStr)
		y, ok2 := args[1].(VStr)
		if !ok1 || !ok2 {
			return E.external(fr, s, fn, args, in)
		}
		c, ok := constStr(y.s)
		if !ok {
			return E.external(fr, s, fn, args, in)
		}
		var rec func(q Seq, s *State) (*DD, Seq, bool)
		rec = func(q Seq, s *State) (*DD, Seq, bool) {
			if c == "." && len(q) > 0 {
				it, more := q[0], q[1:]
				if suf {
					it, more = q[len(q)-1], q[:len(q)-1]
				}
				if _, elem := it.(IElem); !elem {
					if !noDot(it) {
						return nil, nil, false
					}
					z := condGE(it.size().neg())
					if !feasible(s.full().and(z)) {
						return False, nil, true
					}
					g, rest, ok := rec(more, s)
					if !ok {
						return nil, nil, false
					}
					return g.and(z), rest, true
				}
			}
			if len(q) < len(c) {
				for _, it := range q {
					if _, ok := it.(IElem); !ok {
						return nil, nil, false
					}
				}
				return False, nil, true
			}
			w, rest := q[:len(c)], q[len(c):]
			if suf {
				w, rest = q[len(q)-len(c):], q[:len(q)-len(c)]
			}
			g := True
			for i := range w {
				e, ok := w[i].(IElem)
				if !ok {
					return nil, nil, false
				}
				l, ok := e.v.(*Lin)
				if !ok {
					return nil, nil, false
				}
				g = g.and(condEQ(l.addC(-int64(c[i]))))
			}
			return g, append(Seq{}, rest...), true
		}
		g, rest, ok := rec(x.s, s)
		if !ok {
			return E.external(fr, s, fn, args, in)
		}
		if strings.HasPrefix(fn.Name(), "Has") {
			return g, s
		}
		cut := func(v Seq, f *DD) Value {
			if strings.HasPrefix(fn.Name(), "Cut") {
				return VTuple{VStr{v}, f}
			}
			return VStr{v}
		}
		if !feasible(s.full().and(g)) {
			return cut(x.s, False), s
		}
		if !feasible(s.full().and(g.not())) {
			return cut(rest, True), s
		}
		s1, s2 := s.fork(), s.fork()
		s1.reach, s2.reach = s1.reach.and(g), s2.reach.and(g.not())
		sj, v := joinN([]*DD{g, g.not()}, []*State{s1, s2}, []Value{cut(rest, True), cut(x.s, False)})
		return v, sj
	})
}
