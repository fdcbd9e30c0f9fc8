package main

// C21: formatted messages. Every call of a formatting function is resolved on
// SSA; its format is folded to a constant and matched against its arguments.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	register("C21", "Format-string analysis on SSA: every call of a formatting function (fmt's own, the Writef of any logger, and wrappers that forward a format parameter with its arguments, found by fixpoint) is resolved; the format is folded to its possible constants, parsed, and each directive is matched with the static type of the argument it consumes; too few, too many or unprintable arguments, forwarded argument lists that are not spread, and directives in unformatted messages are violations.", runC21)
}

type fmtAn struct {
	E    *Engine
	r    *Rep
	wrap map[*ssa.Function]int // index of the format parameter
}

var fmtFuncs = map[string]int{"fmt.Printf": 0, "fmt.Sprintf": 0, "fmt.Errorf": 0, "fmt.Fprintf": 1, "fmt.Appendf": 1, "log.Printf": 0, "log.Fatalf": 0, "log.Panicf": 0}

// fmtParam returns the index (in the call's arguments) of the format, -1 if
// the call is not a formatting one.
func (a *fmtAn) fmtParam(c *ssa.CallCommon) int {
	if c.IsInvoke() {
		if isFormatSig(c.Method.Type().(*types.Signature)) && strings.HasSuffix(c.Method.Name(), "f") {
			return c.Method.Type().(*types.Signature).Params().Len() - 2
		}
		return -1
	}
	fn := c.StaticCallee()
	if fn == nil {
		return -1
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		if i, ok := fmtFuncs[o.Pkg().Path()+"."+o.Name()]; ok && fn.Signature.Recv() == nil {
			return i
		}
	}
	if i, ok := a.wrap[fn]; ok {
		return i
	}
	return -1
}

func isFormatSig(s *types.Signature) bool {
	n := s.Params().Len()
	if !s.Variadic() || n < 2 {
		return false
	}
	b, ok := s.Params().At(n - 2).Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0 && isEmptyIfaceSlice(s.Params().At(n-1).Type())
}

func isEmptyIfaceSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	i, ok := s.Elem().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// piece is a part of a format: constant text, the format parameter, or other.
type piece struct {
	text  string
	param *ssa.Parameter
	dyn   bool
}

func (a *fmtAn) formats(v ssa.Value, d int) [][]piece {
	if d > 10 {
		return [][]piece{{{dyn: true}}}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return [][]piece{{{text: constant.StringVal(x.Value)}}}
		}
	case *ssa.Parameter:
		return [][]piece{{{param: x}}}
	case *ssa.ChangeType:
		return a.formats(x.X, d+1)
	case *ssa.Convert:
		return a.formats(x.X, d+1)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			var out [][]piece
			for _, l := range a.formats(x.X, d+1) {
				for _, r := range a.formats(x.Y, d+1) {
					out = append(out, append(append([]piece{}, l...), r...))
				}
			}
			return out
		}
	case *ssa.Phi:
		var out [][]piece
		for _, e := range x.Edges {
			if e != v {
				out = append(out, a.formats(e, d+1)...)
			}
		}
		return out
	}
	return [][]piece{{{dyn: true}}}
}

// arguments resolves the variadic slice: the arguments, or the parameter that
// is forwarded as a whole.
func (a *fmtAn) arguments(v ssa.Value) (args []ssa.Value, fwd *ssa.Parameter, ok bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return nil, nil, true
		}
	case *ssa.Parameter:
		return nil, x, true
	case *ssa.Slice:
		al, isA := x.X.(*ssa.Alloc)
		if !isA || x.Low != nil || x.High != nil {
			return nil, nil, false
		}
		at, isArr := deref(al.Type()).Underlying().(*types.Array)
		if !isArr {
			return nil, nil, false
		}
		args = make([]ssa.Value, at.Len())
		for _, ref := range *al.Referrers() {
			ia, isI := ref.(*ssa.IndexAddr)
			if !isI {
				continue
			}
			k, isC := ia.Index.(*ssa.Const)
			if !isC {
				return nil, nil, false
			}
			for _, r2 := range *ia.Referrers() {
				if s, isS := r2.(*ssa.Store); isS {
					args[k.Int64()] = s.Val
				}
			}
		}
		for _, z := range args {
			if z == nil {
				return nil, nil, false
			}
		}
		return args, nil, true
	}
	return nil, nil, false
}

func (a *fmtAn) argType(v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return x.X.Type()
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		return v.Type()
	}
}

type directive struct {
	verb  rune
	text  string
	arg   int
	stars []int
	sharp bool
}

// parseFormat returns the directives and the number of arguments consumed.
func parseFormat(f string) (ds []directive, used int, bad string) {
	next, maxArg := 0, 0
	indexed := false
	rs := []rune(f)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '%' {
			continue
		}
		st := i
		i++
		d := directive{}
		num := func() {
			if i < len(rs) && rs[i] == '[' {
				j := i + 1
				n := 0
				for j < len(rs) && rs[j] >= '0' && rs[j] <= '9' {
					n = n*10 + int(rs[j]-'0')
					j++
				}
				if j < len(rs) && rs[j] == ']' && n > 0 {
					next = n - 1
					indexed = true
					i = j + 1
				}
			}
		}
		for i < len(rs) && strings.ContainsRune("+-# 0", rs[i]) {
			d.sharp = d.sharp || rs[i] == '#'
			i++
		}
		width := func() {
			num()
			if i < len(rs) && rs[i] == '*' {
				d.stars = append(d.stars, next)
				next++
				i++
			}
			for i < len(rs) && rs[i] >= '0' && rs[i] <= '9' {
				i++
			}
		}
		width()
		if i < len(rs) && rs[i] == '.' {
			i++
			width()
		}
		num()
		if i >= len(rs) {
			return ds, used, "ends in an incomplete directive"
		}
		d.verb = rs[i]
		d.text = string(rs[st : i+1])
		for _, s := range d.stars {
			if s+1 > maxArg {
				maxArg = s + 1
			}
		}
		if d.verb != '%' {
			d.arg = next
			next++
			if next > maxArg {
				maxArg = next
			}
			ds = append(ds, d)
		}
	}
	_ = indexed
	return ds, maxArg, ""
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, ok := o.(*types.Func)
	if !ok {
		return false
	}
	s := f.Type().(*types.Signature)
	if s.Params().Len() != 0 || s.Results().Len() != 1 {
		return false
	}
	b, ok := s.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.String {
		return false
	}
	// a pointer method is not in the method set of a value
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, name) != nil
}

func isFormatter(t types.Type) bool {
	return types.NewMethodSet(t).Lookup(nil, "Format") != nil
}

// printable reports whether a verb can print a type.
func printable(verb rune, t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch verb {
	case 'v', 'T':
		return true
	case 'd', 'x', 'X', 's', 'q', 'b', 'o', 'O', 'c', 'U', 't', 'e', 'E', 'f', 'F', 'g', 'G', 'p':
	case 'w':
		_, ok := t.Underlying().(*types.Interface)
		return ok || hasMethod(t, "Error")
	default:
		return false
	}
	if isFormatter(t) {
		return true
	}
	if strings.ContainsRune("sqxXv", verb) && (hasMethod(t, "String") || hasMethod(t, "Error")) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strings.ContainsRune("sqxX", verb)
		case u.Info()&types.IsInteger != 0:
			return strings.ContainsRune("dxXboOcqU", verb)
		case u.Info()&types.IsBoolean != 0:
			return verb == 't'
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return strings.ContainsRune("eEfFgGxXb", verb)
		}
		return u.Kind() == types.UnsafePointer && strings.ContainsRune("pdxX", verb)
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && strings.ContainsRune("sqxX", verb) {
			return true
		}
		return verb == 'p' || printable(verb, u.Elem(), depth+1)
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && strings.ContainsRune("sqxX", verb) {
			return true
		}
		return printable(verb, u.Elem(), depth+1)
	case *types.Map:
		return verb == 'p' || printable(verb, u.Key(), depth+1) && printable(verb, u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !printable(verb, u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	case *types.Pointer:
		if verb == 'p' {
			return true
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return printable(verb, u.Elem(), depth+1)
			}
		}
		return strings.ContainsRune("dxXbo", verb)
	case *types.Signature, *types.Chan:
		return strings.ContainsRune("pdxX", verb)
	case *types.Interface:
		return true
	}
	return true
}

func (a *fmtAn) checkFormat(f string, args []ssa.Value, fwd *ssa.Parameter, nargs int) string {
	ds, used, bad := parseFormat(f)
	if bad != "" {
		return fmt.Sprintf("format %q %s", f, bad)
	}
	if fwd != nil {
		return "" // checked at the callers
	}
	if used > nargs {
		return fmt.Sprintf("format %q consumes %d arguments, %d supplied", f, used, nargs)
	}
	if used < nargs {
		return fmt.Sprintf("format %q consumes %d arguments, %d supplied: data is lost", f, used, nargs)
	}
	for _, d := range ds {
		if t := a.argType(args[d.arg]); !printable(d.verb, t, 0) {
			return fmt.Sprintf("directive %s of format %q cannot print argument %d of type %s", d.text, f, d.arg+1, t)
		}
		for _, s := range d.stars {
			if b, ok := a.argType(args[s]).Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
				return fmt.Sprintf("width of directive %s of format %q is not an int", d.text, f)
			}
		}
	}
	return ""
}

func runC21(r *Rep) {
	E := r.engine()
	if E == nil {
		return
	}
	a := &fmtAn{E: E, r: r, wrap: map[*ssa.Function]int{}}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(E.prog) {
		if p := fnPkg(fn); p != nil && E.repo[p] && p.Pkg.Path() != modPath+"/"+specPkg && fn.Blocks != nil && fn.Synthetic == "" {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	calls := func(fn *ssa.Function, f func(in ssa.Instruction, c *ssa.CallCommon)) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					f(in, ci.Common())
				}
			}
		}
	}
	// wrappers: a function that formats with its own format parameter
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if !isFormatSig(fn.Signature) {
				continue
			}
			if _, ok := a.wrap[fn]; ok {
				continue
			}
			calls(fn, func(in ssa.Instruction, c *ssa.CallCommon) {
				i := a.fmtParam(c)
				if i < 0 || i >= len(c.Args) {
					return
				}
				for _, ps := range a.formats(c.Args[i], 0) {
					for _, p := range ps {
						if p.param != nil && p.param == fn.Params[len(fn.Params)-2] {
							a.wrap[fn] = len(fn.Params) - 2
							changed = true
						}
					}
				}
			})
		}
	}
	for _, fn := range fns {
		calls(fn, func(in ssa.Instruction, c *ssa.CallCommon) {
			i := a.fmtParam(c)
			where := fmt.Sprintf("%s in %s", E.site(in), fn.Name())
			if i < 0 {
				// unformatted messages
				if c.IsInvoke() && c.Method.Name() == "Write" && len(c.Args) == 1 && isString(c.Args[0].Type()) {
					d := ""
					for _, ps := range a.formats(c.Args[0], 0) {
						for _, p := range ps {
							for j := 0; j+1 < len(p.text); j++ {
								if p.text[j] == '%' && strings.IndexByte("vdsqxXt", p.text[j+1]) >= 0 {
									d = fmt.Sprintf("unformatted message %q contains a directive", p.text)
								}
							}
						}
					}
					r.ob("plain message", where, d)
				}
				return
			}
			r.analysed[fn.String()] = true
			if i+1 >= len(c.Args) {
				r.ob("format", where, "no argument list")
				return
			}
			args, fwd, ok := a.arguments(c.Args[i+1])
			if !ok {
				// an argument list built at run time: nothing to match
				r.counts["argument lists built at run time"]++
				return
			}
			for _, ps := range a.formats(c.Args[i], 0) {
				f := ""
				dyn := false
				own := false
				for _, p := range ps {
					f += p.text
					dyn = dyn || p.dyn
					if p.param != nil {
						if isFormatSig(fn.Signature) && p.param == fn.Params[len(fn.Params)-2] {
							own = true
						} else {
							dyn = true
						}
					}
				}
				d := ""
				switch {
				case own && fwd != nil && fwd == fn.Params[len(fn.Params)-1]:
					// forwarded; constant parts must not consume arguments
					if ds, _, bad := parseFormat(f); bad != "" || len(ds) > 0 {
						d = fmt.Sprintf("a forwarded format is extended by %q", f)
					}
				case own:
					d = "a format is forwarded without the arguments it consumes"
				case dyn && len(args) == 0 && fwd == nil:
					d = "text computed at run time is used as a format"
				case dyn:
					r.counts["formats built at run time"]++
				default:
					d = a.checkFormat(f, args, fwd, len(args))
				}
				r.ob("format", where, d)
			}
		})
	}
	r.counts["format wrappers"] = len(a.wrap)
	r.floor("rule format", 20)
}
