package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2]))
	}
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		workerMain()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "sweep" {
		sweep(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "cmp" {
		debugCmp(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "eval" {
		debugEval(os.Args[2:])
		return
	}
}

// debugEval prints the abstract result of a function.
func debugEval(args []string) {
	t0 := time.Now()
	E, _, err := load(specOverlay())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	if err := E.initPackages(); err != nil {
		fmt.Println(err)
	}
	fmt.Println("init", time.Since(t0))
	for _, a := range args {
		if a == "-d" {
			E.debug = true
			continue
		}
		if a == "-peel" {
			E.peel = true
			continue
		}
		if a == "-n" {
			E.noOpaq = true
			continue
		}
		if strings.HasPrefix(a, "-p") {
			var tag, ord, cx int64
			fmt.Sscanf(a[2:], "%d,%d,%d", &tag, &ord, &cx)
			E.pinPdu(tag, ord, cx)
			continue
		}
		fn := E.findFn(a)
		if fn == nil {
			fmt.Println("no function", a)
			continue
		}
		r := E.totality(fn)
		fmt.Println("==", a, time.Since(t0))
		fmt.Println("ret", r.ret)
		if r.st != nil {
			fmt.Println("val", valString(freeze(r.val, r.st.mem, r.st.full())))
			for i, x := range r.args {
				if p, ok := x.(VSym); ok {
					if o := symPtrObjs[p.p]; o != nil {
						fmt.Println("arg", i, valString(freeze(r.st.mem.get(o), r.st.mem, r.st.full())))
					}
				}
			}
		}
		for _, p := range r.panics {
			fmt.Println("panic", p.site, p.what, p.g)
		}
		for _, e := range r.events {
			fmt.Println("event", e)
		}
	}
}

// findFn finds pkg.Func or pkg.Type.Method.
func (E *Engine) findFn(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	p := E.pkgs[modPath+"/"+parts[0]]
	if p == nil {
		return nil
	}
	if len(parts) == 2 {
		return p.Func(parts[1])
	}
	t := p.Type(parts[1])
	if t == nil {
		return nil
	}
	return E.prog.LookupMethod(t.Type(), p.Pkg, parts[2])
}

// pinPdu fixes the partition of Pdu inputs named pdu: the tag, the byte order
// bit and the context bit of the flags (-1 leaves one open).
func (E *Engine) pinPdu(tag, ord, cx int64) {
	clear(pinned)
	pt := E.pkgs[modPath+"/agentx"].Type("Pdu").Type()
	root := rootPath("pdu", pt)
	for _, root := range []*Path{root, rootPath("pdu", types.NewPointer(pt)).deref(pt)} {
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			p := root.field(f.Name(), f.Type())
			switch f.Name() {
			case "Tag":
				if tag >= 0 {
					pinned[p] = linC(tag)
				}
			case "Flags":
				x := linAtom(symAtom(p))
				l := mkBits(x, 0, 3).add(mkBits(x, 5, 3).scale(32))
				for k, b := range []int64{cx, ord} {
					if b >= 0 {
						l = l.addC(b << (3 + k))
					} else {
						l = l.add(mkBits(x, 3+k, 1).scale(8 << k))
					}
				}
				pinned[p] = l
			}
		}
	}
}

// sweep (development aid): all codec questions on representative cells.
func sweep(whats []string) {
	if len(whats) == 0 {
		whats = []string{"hdr", "hdrdiff", "enc", "pay", "encdiff", "paydiff", "len", "safe:enc", "safe:pay", "safe:paydbg"}
	}
	var ts []task
	for _, w := range whats {
		for _, p := range []Part{{1, 1, 0}, {3, 0, 1}, {4, 0, 0}, {7, 1, 1}, {8, 1, 0}, {16, 0, 1}, {18, 0, 0}} {
			ts = append(ts, task{w, p})
			if strings.Contains(w, "hdr") {
				break
			}
		}
	}
	bad, und := 0, 0
	for _, r := range runTasks(ts, 200*time.Second, 800*time.Second) {
		m := ""
		for _, x := range []string{r.Cmp.Accept, r.Cmp.Refuse, r.Cmp.Value} {
			if x != "" {
				m += x + "; "
			}
		}
		for _, x := range r.Bad {
			m += "[" + x.Rule + "] " + x.Construct + ": " + x.Detail + "; "
		}
		if m != "" {
			bad++
			fmt.Println("VIOL", r.What, r.Part, short2(m))
		}
		m = r.Cmp.Und
		for _, x := range r.Und {
			m += " " + x
		}
		if m != "" {
			und++
			fmt.Println("UND", r.What, r.Part, short2(m))
		}
	}
	fmt.Println("sweep:", bad, "violations", und, "undecided of", len(ts))
}
