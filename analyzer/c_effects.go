package main

// C12: no hidden state. A whole-module effect analysis on SSA: which values
// may point into package-level memory, and what is done with them outside
// package initialisation.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	register("C12", "Whole-module effect analysis on SSA (flow-insensitive points-into-globals propagation through loads, fields, slices, maps, phis, parameters, results, captured variables and local cells, to a fixpoint), over all functions reachable from the exported ones, from methods and from functions stored in tables, package initialisers excepted. Obligations per function: no store, map update, append, copy, delete or mutating library call whose target is package-level memory; no goroutine or channel operation; no call of a source of non-determinism (time, random numbers, environment, process state); no order-dependent iteration over a map; no exported result that points into package-level memory.", runC12)
}

type effAn struct {
	r     *Rep
	E     *Engine
	reach map[*ssa.Function]bool
	order []*ssa.Function
	taint map[ssa.Value]string // what it points into
	cont  map[ssa.Value]string // local cells that hold such values
	ret   map[*ssa.Function]map[int]string
	impls map[string][]*ssa.Function
	ch    bool
}

func inInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#")
}

func isInitFn(fn *ssa.Function) bool { return fn.Parent() == nil && inInit(fn) }

func runC12(r *Rep) {
	E, _, err := load(nil)
	if err != nil {
		r.fail("load", "module", "%v", err)
		return
	}
	a := &effAn{r: r, E: E, reach: map[*ssa.Function]bool{}, taint: map[ssa.Value]string{}, cont: map[ssa.Value]string{},
		ret: map[*ssa.Function]map[int]string{}, impls: map[string][]*ssa.Function{}}
	a.collect()
	for a.ch = true; a.ch; {
		a.ch = false
		for _, fn := range a.order {
			a.flow(fn)
		}
	}
	for _, fn := range a.order {
		r.analysed[fn.String()] = true
		n := len(r.viols)
		a.judge(fn)
		if len(r.viols) == n {
			r.ob("no effect on package-level state", fn.String(), "")
		}
	}
	r.floor("obligations", 100)
}

// collect finds the functions that can run after initialisation.
func (a *effAn) collect() {
	all := ssautil.AllFunctions(a.E.prog)
	var fns []*ssa.Function
	for fn := range all {
		if pk := fnPkg(fn); pk != nil && a.E.repo[pk] && len(fn.Blocks) > 0 {
			fns = append(fns, fn)
			if fn.Signature.Recv() != nil && fn.Synthetic == "" {
				a.impls[fn.Name()] = append(a.impls[fn.Name()], fn)
			}
		}
	}
	// generic functions are analysed through their instances
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	var work []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn == nil || a.reach[fn] || len(fn.Blocks) == 0 {
			return
		}
		if pk := fnPkg(fn); pk == nil || !a.E.repo[pk] || isInitFn(fn) {
			return
		}
		a.reach[fn] = true
		work = append(work, fn)
	}
	for _, fn := range fns {
		if fn.Synthetic == "" && fn.Parent() == nil && (token.IsExported(fn.Name()) || fn.Signature.Recv() != nil) && fn.TypeParams().Len() == 0 {
			add(fn)
		}
		// functions used as values
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						add(g)
					}
					if m, ok := in.(*ssa.MakeClosure); ok {
						add(m.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					add(c.Common().StaticCallee())
				}
			}
		}
	}
	for fn := range a.reach {
		a.order = append(a.order, fn)
	}
	sort.Slice(a.order, func(i, j int) bool { return a.order[i].String() < a.order[j].String() })
}

// refs: a value of this type can lead to memory that can be modified.
func refs(t types.Type) bool { return refsD(t, 0) }

func refsD(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refsD(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return refsD(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refsD(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func (a *effAn) of(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Global:
		return x.RelString(nil)
	case *ssa.FreeVar:
		// a variable captured from an initialiser lives as long as the package
		if p := x.Parent().Parent(); p != nil && inInit(p) {
			return "a variable captured from " + p.String()
		}
	}
	return a.taint[v]
}

func (a *effAn) set(v ssa.Value, why string) {
	if why == "" || a.taint[v] != "" || !refs(v.Type()) {
		return
	}
	a.taint[v] = why
	a.ch = true
}

// cell is the local variable an address belongs to.
func cell(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return x.X
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Parameter, *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.UnOp:
			return x
		default:
			return nil
		}
	}
}

func (a *effAn) setCell(addr ssa.Value, why string) {
	if why == "" {
		return
	}
	if c := cell(addr); c != nil && a.cont[c] == "" {
		a.cont[c] = why
		a.ch = true
	}
}

func (a *effAn) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return a.impls[c.Method.Name()]
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	// a function value: any function of that signature used as a value
	var r []*ssa.Function
	sig := c.Signature()
	for _, fn := range a.order {
		if types.Identical(stripRecv(fn.Signature), stripRecv(sig)) {
			r = append(r, fn)
		}
	}
	return r
}

func stripRecv(s *types.Signature) *types.Signature {
	if s.Recv() == nil {
		return s
	}
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (a *effAn) flow(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				a.set(x, a.of(x.X))
			case *ssa.IndexAddr:
				a.set(x, a.of(x.X))
			case *ssa.Field:
				a.set(x, a.of(x.X))
			case *ssa.Index:
				a.set(x, a.of(x.X))
			case *ssa.Slice:
				a.set(x, a.of(x.X))
			case *ssa.Lookup:
				a.set(x, a.of(x.X))
			case *ssa.ChangeType:
				a.set(x, a.of(x.X))
			case *ssa.ChangeInterface:
				a.set(x, a.of(x.X))
			case *ssa.MakeInterface:
				a.set(x, a.of(x.X))
			case *ssa.TypeAssert:
				a.set(x, a.of(x.X))
			case *ssa.Convert:
				if _, ok := x.Type().Underlying().(*types.Basic); !ok {
					if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
						a.set(x, a.of(x.X))
					}
				}
			case *ssa.SliceToArrayPointer:
				a.set(x, a.of(x.X))
			case *ssa.Phi:
				for _, e := range x.Edges {
					a.set(x, a.of(e))
					if c := a.cont[e]; c != "" && a.cont[x] == "" {
						a.cont[x], a.ch = c, true
					}
				}
			case *ssa.Extract:
				a.set(x, a.ofExtract(x))
			case *ssa.Next:
				if rg, ok := x.Iter.(*ssa.Range); ok {
					a.set(x, a.of(rg.X))
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					a.set(x, a.of(x.X))
					if c := cell(x.X); c != nil {
						a.set(x, a.cont[c])
					}
				}
			case *ssa.Store:
				a.setCell(x.Addr, a.of(x.Val))
			case *ssa.MapUpdate:
				a.setCell(x.Map, a.of(x.Value))
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, v := range x.Bindings {
					fv := g.FreeVars[i]
					a.set(fv, a.of(v))
					if c := cell(v); c != nil {
						if w := a.cont[c]; w != "" && a.cont[fv] == "" {
							a.cont[fv], a.ch = w, true
						}
						if w := a.cont[fv]; w != "" && a.cont[c] == "" {
							a.cont[c], a.ch = w, true
						}
					}
				}
			case ssa.CallInstruction:
				a.flowCall(x)
			case *ssa.Return:
				for i, v := range x.Results {
					if w := a.of(v); w != "" && refs(v.Type()) {
						a.setRet(fn, i, w)
					} else if c := cell(v); c != nil && refs(v.Type()) && a.cont[c] != "" {
						a.setRet(fn, i, a.cont[c])
					}
				}
			}
		}
	}
}

func (a *effAn) setRet(fn *ssa.Function, i int, w string) {
	if a.ret[fn] == nil {
		a.ret[fn] = map[int]string{}
	}
	if a.ret[fn][i] == "" {
		a.ret[fn][i] = w
		a.ch = true
	}
}

func (a *effAn) ofExtract(x *ssa.Extract) string {
	if c, ok := x.Tuple.(*ssa.Call); ok {
		for _, g := range a.callees(c.Common()) {
			if w := a.ret[g][x.Index]; w != "" {
				return w
			}
		}
		return ""
	}
	return a.of(x.Tuple)
}

func (a *effAn) flowCall(in ssa.CallInstruction) {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			if v := in.Value(); v != nil {
				a.set(v, a.of(c.Args[0]))
				if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && refs(st.Elem()) && len(c.Args) > 1 {
					if w := a.of(c.Args[1]); w != "" && a.cont[v] == "" {
						a.cont[v], a.ch = w, true
					}
				}
			}
		}
		return
	}
	for _, g := range a.callees(c) {
		if !a.reach[g] {
			continue
		}
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		if len(args) != len(g.Params) {
			continue
		}
		for i, v := range args {
			a.set(g.Params[i], a.of(v))
		}
		if v := in.Value(); v != nil {
			if _, ok := v.Type().(*types.Tuple); !ok {
				a.set(v, a.ret[g][0])
			}
		}
	}
}

// mutators: library functions that modify an argument.
func mutates(fn *ssa.Function) (arg int, what string) {
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pk = o.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	n := fn.Name()
	switch pk {
	case "sync", "sync/atomic":
		return 0, pk
	case "sort":
		if !strings.HasPrefix(n, "Search") && !strings.HasSuffix(n, "AreSorted") && n != "IsSorted" && n != "SliceIsSorted" && n != "Find" {
			return 0, pk
		}
	case "slices":
		for _, p := range []string{"Sort", "Reverse", "Delete", "Insert", "Compact", "Replace", "Grow"} {
			if strings.HasPrefix(n, p) {
				return 0, pk
			}
		}
	case "maps":
		if n == "Copy" || n == "DeleteFunc" || n == "Insert" {
			return 0, pk
		}
	case "strings", "bytes":
		if fn.Signature.Recv() != nil && n != "String" && n != "Len" && n != "Cap" && n != "Replace" {
			return 0, pk
		}
	case "encoding/binary":
		if strings.HasPrefix(n, "Put") || strings.HasPrefix(n, "Append") || n == "Encode" {
			if fn.Signature.Recv() != nil {
				return 1, pk
			}
			return 0, pk
		}
	}
	return -1, ""
}

var impure = map[string]func(string) bool{
	"time": func(n string) bool {
		return n == "Now" || n == "Since" || n == "Until" || n == "Sleep" || n == "After" || n == "Tick"
	},
	"math/rand":     func(string) bool { return true },
	"math/rand/v2":  func(string) bool { return true },
	"crypto/rand":   func(string) bool { return true },
	"os":            func(string) bool { return true },
	"syscall":       func(string) bool { return true },
	"net":           func(string) bool { return true },
	"runtime":       func(n string) bool { return n != "KeepAlive" },
	"runtime/debug": func(string) bool { return true },
	"hash/maphash":  func(string) bool { return true },
}

func (a *effAn) judge(fn *ssa.Function) {
	bad := func(in ssa.Instruction, rule, f string, v ...interface{}) {
		a.r.ob(rule, fn.String()+" at "+a.E.site(in), fmt.Sprintf(f, v...))
	}
	count := func(k string) { a.r.counts[k]++ }
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				count("stores")
				if w := a.of(x.Addr); w != "" {
					bad(in, "write to package-level state", "stores to %s", w)
				}
			case *ssa.MapUpdate:
				count("map updates")
				if w := a.of(x.Map); w != "" {
					bad(in, "write to package-level state", "updates map %s", w)
				}
			case *ssa.Go:
				bad(in, "concurrency", "starts a goroutine")
			case *ssa.Send:
				bad(in, "concurrency", "sends on a channel")
			case *ssa.Select:
				bad(in, "concurrency", "selects on channels")
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					count("map iterations")
					if w := orderDependent(x); w != "" {
						bad(in, "determinism", "iterates over a map in random order and %s", w)
					}
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					bad(in, "concurrency", "receives from a channel")
				}
			case ssa.CallInstruction:
				count("calls")
				c := x.Common()
				if bl, ok := c.Value.(*ssa.Builtin); ok {
					switch bl.Name() {
					case "append", "copy", "delete", "clear":
						if len(c.Args) == 0 {
							break
						}
						if w := a.of(c.Args[0]); w != "" && !(bl.Name() == "append" && fullSlice(c.Args[0])) {
							bad(in, "write to package-level state", "%s to %s", bl.Name(), w)
						}
					}
					break
				}
				g := c.StaticCallee()
				if g == nil {
					break
				}
				if pk := fnPkg(g); pk != nil && !a.E.repo[pk] {
					if f := impure[pk.Pkg.Path()]; f != nil && f(g.Name()) {
						bad(in, "determinism", "calls %s", g.String())
					}
				}
				if i, what := mutates(g); i >= 0 && i < len(c.Args) {
					if w := a.of(c.Args[i]); w != "" {
						bad(in, "write to package-level state", "%s (%s) modifies %s", g.String(), what, w)
					}
				}
			}
		}
	}
	// exported results
	if fn.Synthetic == "" && fn.Parent() == nil && token.IsExported(fn.Name()) {
		sig := fn.Signature
		if rv := sig.Recv(); rv != nil {
			t := rv.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
				return
			}
		}
		for i := 0; i < sig.Results().Len(); i++ {
			if w := a.ret[fn][i]; w != "" && mutableResult(sig.Results().At(i).Type()) {
				a.r.ob("result shares package-level state", fn.String(), "returns memory of "+w)
			}
		}
	}
}

// mutableResult: the caller can modify what the result leads to.
func mutableResult(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	case *types.Interface:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mutableResult(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// fullSlice: s[a:b:b], whose append always allocates.
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.Max == s.High
}

// orderDependent: what the loop over a map does that depends on the order.
func orderDependent(r *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	for _, b := range head.Parent().Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil {
					if pk := fnPkg(g); pk != nil && (pk.Pkg.Path() == "sort" || pk.Pkg.Path() == "slices") && strings.Contains(g.String(), "or") {
						return "" // put in order afterwards
					}
				}
			}
		}
	}
	// the blocks from which the head is reached again
	in := map[*ssa.BasicBlock]bool{head: true}
	for ch := true; ch; {
		ch = false
		for _, b := range head.Parent().Blocks {
			if in[b] || !head.Dominates(b) {
				continue
			}
			for _, s := range b.Succs {
				if in[s] && !in[b] {
					in[b], ch = true, true
				}
			}
		}
	}
	for b := range in {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.BinOp:
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && x.Op == token.ADD {
					return "concatenates strings"
				}
			case *ssa.Call:
				if bl, ok := x.Call.Value.(*ssa.Builtin); ok && bl.Name() == "append" {
					return "appends to a slice"
				}
				if g := x.Call.StaticCallee(); g != nil && (strings.HasPrefix(g.Name(), "Write") || strings.HasPrefix(g.Name(), "Fprint")) {
					return "writes text"
				}
			}
		}
	}
	return ""
}
