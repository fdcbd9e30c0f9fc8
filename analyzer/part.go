package main

// Evaluation of one partition cell for one question, and the distribution of
// the cells over processes.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PartRes is the outcome of one cell.
type PartRes struct {
	What   string
	Part   Part
	Cmp    Cmp
	Bad    []Viol
	Und    []string
	N      map[string]int
	Fns    []string
	Secs   float64
	Killed bool
}

// question: which code, compared with what.
//
//	enc encdbg hdr hdrdbg pay paydbg    the code against the reference
//	encdiff hdrdiff paydiff             the debug variant against the plain one
//	safe:X                              panics, effects and work of X alone
//	own:X                               storage shared with and writes to the inputs of X
//	len lendbg                          length field of the encoded bytes
func (E *Engine) evalPart(what string, p Part) (res PartRes) {
	res = PartRes{What: what, Part: p, N: map[string]int{}}
	t0 := time.Now()
	E.fnSeen = map[*ssa.Function]bool{}
	E.events, E.allocs, E.scans, E.recovs, E.stuck = nil, nil, nil, nil, nil
	i0 := E.instrs
	if strings.HasPrefix(what, "fn:") {
		res = E.evalFn(what, p)
		res.N["instructions"] = E.instrs - i0
		res.Secs = time.Since(t0).Seconds()
		return
	}
	ax := E.pkgs[modPath+"/agentx"]
	sp := E.pkgs[modPath+"/"+specPkg]
	safe := strings.HasPrefix(what, "safe:")
	own := strings.HasPrefix(what, "own:")
	q := strings.TrimPrefix(strings.TrimPrefix(what, "safe:"), "own:")
	safe = safe || own
	var f, s *ssa.Function
	var ctx *DD
	var mkArgs func(fn *ssa.Function) []Value
	sok := false
	switch q {
	case "enc", "encdbg", "encdiff", "len", "lendbg":
		ctx = E.pinPart(p)
		defer clear(pinned)
		mkArgs = func(fn *ssa.Function) []Value { return argsNamed(fn, []string{"pdu"}) }
		f, s = ax.Func("EncodePdu"), sp.Func("Encode")
		if q != "enc" {
			f = ax.Func("EncodePduDbg")
		}
		switch q {
		case "encdiff":
			s, sok = ax.Func("EncodePdu"), true
		case "len":
			f, s = ax.Func("EncodePdu"), nil
		case "lendbg":
			s = nil
		}
	case "hdr", "hdrdbg", "hdrdiff":
		ctx = True
		mkArgs = func(fn *ssa.Function) []Value { return argsNamed(fn, []string{"data"}) }
		f, s = ax.Func("DecodePduHeader"), sp.Func("DecodeHeader")
		if q != "hdr" {
			f = ax.Func("DecodePduHeaderDbg")
		}
		if q == "hdrdiff" {
			s, sok = ax.Func("DecodePduHeader"), true
		}
	case "pay", "paydbg", "paydiff":
		f, s = sp.Func("Payload"), sp.Func("DecodePayload")
		if q != "pay" {
			f = sp.Func("PayloadDbg")
		}
		if q == "paydiff" {
			s, sok = sp.Func("Payload"), true
		}
		names := []string{"tag", "flags", "session", "transaction", "packet", "size", "data"}
		l, c := tagLin(rootPath("tag", f.Params[0].Type()), p)
		fl := flagsLin(rootPath("flags", f.Params[1].Type()), p)
		mkArgs = func(fn *ssa.Function) []Value {
			a := argsNamed(fn, names)
			a[0], a[1] = l, fl
			return a
		}
		ctx = c
		if !safe {
			// a pdu obtained from header decoding
			sz := linAtom(symAtom(rootPath("size", f.Params[5].Type())))
			ctx = c.and(condGE(sz)).and(condEQ(mkBits(sz, 0, 2)))
		}
	}
	if f == nil || s == nil && !safe && !strings.HasPrefix(q, "len") {
		res.Und = append(res.Und, "function of "+what+" not found")
		return
	}
	have := result(E.totalityOn(f, mkArgs(f), ctx), ctx, true)
	ev, al, rc := have.rep.events, E.allocs, E.recovs
	fns := map[string]bool{}
	for fn := range E.fnSeen {
		if pk := fnPkg(fn); pk != nil && E.repo[pk] && pk.Pkg.Path() != modPath+"/"+specPkg {
			fns[fn.String()] = true
		}
	}
	for fn := range fns {
		res.Fns = append(res.Fns, fn)
	}
	sort.Strings(res.Fns)
	for _, e := range ev {
		if e.kind == "undecided" {
			res.Und = append(res.Und, e.msg+" at "+e.site)
		}
	}
	switch {
	case own:
		res.effects(ev)
		if have.ok != nil {
			u0 := len(res.Und)
			if res.fresh(have.val, ctx.and(have.ok), q); len(res.Bad) == 0 && len(res.Und) > u0 {
				// sharing in a loop: look at the first iteration apart
				E.peel = true
				h := result(E.totalityOn(f, mkArgs(f), ctx), ctx, true)
				E.peel = false
				if h.ok != nil {
					res.fresh(h.val, ctx.and(h.ok), q)
				}
			}
		}
	case safe:
		E.safety(&res, have, ev, al, rc, ctx)
	case s == nil:
		if have.ok == nil {
			res.Und = append(res.Und, "the success result is not resolved: "+short(valString(have.rep.val)))
			break
		}
		bad, und := lengthCheck(have.val, ctx.and(have.ok), p.Ord == 1)
		if bad != "" {
			res.Bad = append(res.Bad, Viol{"length", q, bad})
		}
		if und != "" {
			res.Und = append(res.Und, und)
		}
	default:
		want := result(E.totalityOn(s, mkArgs(s), ctx), ctx, sok)
		res.Cmp = compare(have, want, ctx)
	}
	res.N["instructions"] = E.instrs - i0
	res.Secs = time.Since(t0).Seconds()
	return
}

// lengthCheck compares the length field of the encoded bytes with their
// number: a violation, or what is not shown.
func lengthCheck(v Value, ctx *DD, big bool) (bad, und string) {
	und, hint := lengthProof(v, ctx, big)
	if und == "" {
		return "", ""
	}
	test := func(p *Point) string {
		if !p.dd(ctx) {
			return ""
		}
		l, ok := p.val(v).([]interface{})
		if !ok {
			return ""
		}
		if len(l) < 20 {
			return fmt.Sprintf("%d bytes are returned", len(l))
		}
		n := int64(0)
		for i := 0; i < 4; i++ {
			k := 16 + i
			if !big {
				k = 19 - i
			}
			b, ok := l[k].(*bigInt)
			if !ok {
				return ""
			}
			n = n<<8 | b.Int64()
		}
		if n != int64(len(l)-20) {
			return fmt.Sprintf("the length field is %d, but %d bytes follow the header", n, len(l)-20)
		}
		if n%4 != 0 {
			return fmt.Sprintf("the payload size %d is not a multiple of 4", n)
		}
		return ""
	}
	w := search(hint, test)
	if w == "" {
		w = search(ctx, test)
	}
	if w != "" {
		return w, ""
	}
	return "", und
}

func lengthProof(v Value, ctx *DD, big bool) (string, *DD) {
	if !feasible(ctx) {
		return "", nil
	}
	switch x := v.(type) {
	case VAlt:
		for i := range x.vs {
			if m, h := lengthProof(x.vs[i], ctx.and(x.gs[i]), big); m != "" {
				return m, h
			}
		}
		return "", nil
	case VSlice:
		if g := ctx.and(condGE(x.len.addC(-20)).not()); feasible(g) {
			return "fewer than 20 bytes: " + short2(simp(g, True).String()), g
		}
		if x.inl == nil {
			return "the returned bytes are not resolved", ctx
		}
		s := newSimp(ctx)
		n := s.lin(x.len.addC(-20))
		for i := 0; i < 4; i++ {
			k := 8 * i
			if big {
				k = 24 - 8*i
			}
			b, ok := readSeq(*x.inl, linC(int64(16+i)), ctx).(*Lin)
			if !ok {
				return "a byte of the length field is not resolved", ctx
			}
			if l := s.lin(b); !eqL(l, mkBits(n, k, 8), ctx, 0) && (k != 24 || !eqL(l, mkBits(n, k, 7), ctx, 0)) {
				return fmt.Sprintf("byte %d is %s, but %s bytes follow the header", 16+i, short(b.String()), short(n.String())), ctx
			}
		}
		if !eqL(mkBits(n, 0, 2), linZero(), ctx, 0) {
			return "the payload size " + short(n.String()) + " is not shown to be a multiple of 4", ctx.and(condEQ(mkBits(n, 0, 2)).not())
		}
		return "", nil
	}
	return "the returned bytes are not resolved: " + short(valString(v)), ctx
}

// safety: escaping panics, success after a recovered panic, effects, work.
func (E *Engine) safety(res *PartRes, have Result, ev []Event, al []AllocRec, rc []RecovRec, ctx *DD) {
	for _, p := range have.rep.panics {
		res.confirm(p.g, Viol{"panic escapes", p.site, p.what})
	}
	res.N["recovering calls"] = len(rc)
	for _, r := range rc {
		rs := r.fn.Signature.Results()
		if rs.Len() == 0 || !isBool(rs.At(rs.Len()-1).Type()) {
			continue
		}
		v := r.out.val
		if t, ok := v.(VTuple); ok {
			v = t[len(t)-1]
		}
		g, ok := freeze(v, r.out.st.mem, r.out.st.full()).(*DD)
		if !ok {
			res.Und = append(res.Und, "result of "+r.fn.String()+" after a recovered panic is not resolved")
			continue
		}
		if x := r.out.st.full().and(g); feasible(x) {
			res.confirm(x, Viol{"success after panic", r.fn.String(), "reports success after a recovered panic"})
		}
	}
	for _, e := range ev {
		switch e.kind {
		case "input-write", "append-input", "global-write", "go", "unsafe":
			res.Bad = append(res.Bad, Viol{e.kind, e.site, e.msg})
		}
	}
	for _, k := range E.stuck {
		v := Viol{"no-progress", k.site, "an iteration of this loop can leave its cursor where it is"}
		if !feasible(k.g) {
			res.Und = append(res.Und, "["+v.Rule+"] "+v.Construct+": the cursor of this loop is not shown to advance")
			continue
		}
		res.confirm(k.g, v)
	}
	var size *Lin
	for _, a := range have.rep.args {
		if x, ok := a.(VSlice); ok {
			size = x.len
		}
	}
	if size == nil {
		return
	}
	for _, a := range al {
		res.N["bounded "+a.what]++
		b := size.scale(64).addC(4096)
		if g := ctx.and(a.g).and(condGT(a.n.sub(b))); feasible(g) {
			res.confirm(g, Viol{"work", a.site, a.what + " of " + short(a.n.String()) + " is not bounded by the data present"})
		}
	}
}

// ends: on every input the function returns or panics.
func (res *PartRes) ends(rep TotalRep, ctx *DD) {
	g := ctx.and(rep.ret.not())
	for _, p := range rep.panics {
		g = g.and(p.g.not())
	}
	res.N["termination"]++
	if feasible(g) {
		res.confirm(g, Viol{"endless", rep.fn.String(), "neither returns nor panics"})
	}
}

// confirm records a violation whose condition g is feasible in the abstract
// domain, if a point with g is found.
func (res *PartRes) confirm(g *DD, v Viol) {
	if w := witness(g, v.Rule == "work" || v.Rule == "no-progress"); w != "" {
		v.Detail += ": " + w
		res.Bad = append(res.Bad, v)
		return
	}
	res.Und = append(res.Und, "["+v.Rule+"] "+v.Construct+": "+v.Detail+" not excluded under "+short2(simp(g, True).String()))
}

// ---------------------------------------------------------------- workers

type bigInt = big.Int

type task struct {
	What string
	Part Part
}

func workerMain() {
	parent := os.Getppid()
	go func() {
		for {
			time.Sleep(time.Second)
			var a, rss int64
			if b, err := os.ReadFile("/proc/self/statm"); err == nil {
				fmt.Sscan(string(b), &a, &rss)
			}
			if os.Getppid() != parent || rss*int64(os.Getpagesize()) > 3600<<20 {
				os.Exit(3)
			}
		}
	}()
	in := bufio.NewScanner(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	E, _, err := load(specOverlay())
	if err == nil {
		err = E.initPackages()
	}
	for in.Scan() {
		var t task
		json.Unmarshal(in.Bytes(), &t)
		res := PartRes{What: t.What, Part: t.Part}
		if err != nil {
			res.Und = []string{"load: " + err.Error()}
		} else {
			func() {
				defer func() {
					if x := recover(); x != nil {
						if os.Getenv("VERIF_PANIC") != "" {
							panic(x)
						}
						res.Und = append(res.Und, fmt.Sprint("the analysis did not finish: ", x))
					}
				}()
				res = E.evalPart(t.What, t.Part)
			}()
		}
		out.Encode(res)
	}
}

// runTasks evaluates the tasks in worker processes.
func runTasks(ts []task, limit, total time.Duration) []PartRes {
	res := make([]PartRes, len(ts))
	idx := make([]int, len(ts))
	for i := range idx {
		idx[i] = i
	}
	// the expensive cells first
	weight := func(t task) int {
		w := 0
		switch t.Part.Tag {
		case 8, 12, 14, 15, 18:
			w = 3
		case 5, 6, 7:
			w = 2
		}
		return w + int(t.Part.Ctx)
	}
	sort.SliceStable(idx, func(a, b int) bool { return weight(ts[idx[a]]) > weight(ts[idx[b]]) })
	next := make(chan int, len(ts))
	for _, i := range idx {
		next <- i
	}
	close(next)
	end := time.Now().Add(total)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n > len(ts) {
		n = len(ts)
	}
	var wg sync.WaitGroup
	var stop atomic.Int64
	stop.Store(end.UnixNano())
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var wk *worker
			for i := range next {
				t := ts[i]
				res[i] = PartRes{What: t.What, Part: t.Part, Killed: true, Und: []string{"out of time"}}
				left := time.Until(time.Unix(0, stop.Load()))
				if left > limit {
					left = limit
				}
				if left <= 0 {
					continue
				}
				if wk == nil {
					wk = startWorker()
				}
				if r, ok := wk.do(t, left, &stop); ok {
					res[i] = r
					if len(r.Bad) > 0 || r.Cmp.Accept+r.Cmp.Refuse+r.Cmp.Value != "" {
						// a violation is found: the rest gets a little more time
						soon := time.Now().Add(40 * time.Second).UnixNano()
						if soon < stop.Load() {
							stop.Store(soon)
						}
					}
				} else {
					wk.kill()
					wk = nil
				}
			}
			if wk != nil {
				wk.kill()
			}
		}()
	}
	wg.Wait()
	return res
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan PartRes
}

func startWorker() *worker {
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	c := exec.Command(exe, "worker")
	c.Stderr = io.Discard
	c.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOMAXPROCS=2")
	w := &worker{cmd: c, out: make(chan PartRes, 1)}
	w.in, _ = c.StdinPipe()
	o, _ := c.StdoutPipe()
	if c.Start() != nil {
		close(w.out)
		return w
	}
	go func() {
		d := json.NewDecoder(o)
		for {
			var r PartRes
			if d.Decode(&r) != nil {
				close(w.out)
				return
			}
			w.out <- r
		}
	}()
	return w
}

func (w *worker) do(t task, limit time.Duration, stop *atomic.Int64) (PartRes, bool) {
	b, _ := json.Marshal(t)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return PartRes{}, false
	}
	end := time.Now().Add(limit)
	for {
		select {
		case r, ok := <-w.out:
			return r, ok
		case <-time.After(time.Second):
			if now := time.Now(); now.After(end) || now.UnixNano() > stop.Load() {
				return PartRes{}, false
			}
		}
	}
}

func (w *worker) kill() {
	w.in.Close()
	if w.cmd.Process != nil {
		w.cmd.Process.Kill()
		w.cmd.Wait()
	}
}

// cells runs a question on all its cells and books the common counts.
func (r *Rep) cells(whats []string, ps []Part) []PartRes {
	var ts []task
	for _, w := range whats {
		if strings.Contains(w, "hdr") {
			ts = append(ts, task{w, Part{}})
			continue
		}
		for _, p := range ps {
			ts = append(ts, task{w, p})
		}
	}
	out := runTasks(ts, 300*time.Second, 650*time.Second)
	for _, x := range out {
		for _, f := range x.Fns {
			r.analysed[f] = true
		}
		for k, n := range x.N {
			r.counts[k] += n
		}
		for _, u := range x.Und {
			r.undecided(x.What+" "+x.Part.String(), u)
		}
		if x.Cmp.Und != "" {
			r.undecided(x.What+" "+x.Part.String(), x.Cmp.Und)
		}
	}
	return out
}
