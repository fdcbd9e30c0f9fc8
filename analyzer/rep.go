package main

// Check driver: obligations, violations, evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Viol is one broken obligation.
type Viol struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Detail    string `json:"detail"`
}

// Rep collects what a check analysed and found.
type Rep struct {
	id       string
	viols    []Viol
	und      []string
	obs      []string // obligations discharged or broken
	counts   map[string]int
	explain  string
	analysed map[string]bool
}

func newRep(id string) *Rep {
	return &Rep{id: id, counts: map[string]int{}, analysed: map[string]bool{}}
}

// ob records an obligation; detail is empty when it holds.
func (r *Rep) ob(rule, construct, detail string) {
	r.counts["obligations"]++
	r.counts["rule "+rule]++
	if len(r.obs) < 4000 {
		r.obs = append(r.obs, rule+": "+construct)
	}
	if detail != "" {
		r.viols = append(r.viols, Viol{rule, construct, detail})
	}
}

// undecided records an obligation the analysis could not settle: neither shown
// nor refuted. It is reported in the output and the evidence; it is no alarm.
func (r *Rep) undecided(construct, why string) {
	r.counts["obligations"]++
	r.counts["undecided"]++
	r.und = append(r.und, construct+": "+why)
}

func (r *Rep) fail(rule, construct, f string, a ...interface{}) {
	r.ob(rule, construct, fmt.Sprintf(f, a...))
}

// floor reports when a rule matched fewer instances than were
// confirmed by reading the code: an unmatched rule would pass vacuously.
func (r *Rep) floor(what string, n int) {
	if r.counts[what] < n {
		r.undecided(what, fmt.Sprintf("only %d instances found, at least %d expected", r.counts[what], n))
	}
}

type checkDef struct {
	id   string
	run  func(r *Rep)
	text string
}

var checks = map[string]checkDef{}

func register(id, text string, run func(r *Rep)) {
	checks[id] = checkDef{id, run, text}
}

const verifDir = "/verif"

func outDir() string {
	if d := os.Getenv("VERIF_OUT"); d != "" {
		return d
	}
	return verifDir
}

// runCheck runs one check and returns the exit code.
func runCheck(id string) int {
	def, ok := checks[id]
	if !ok {
		fmt.Println("no check", id)
		return 2
	}
	t0 := time.Now()
	r := newRep(id)
	r.explain = def.text
	func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("VERIF_PANIC") != "" {
					panic(x)
				}
				r.undecided("analyser", fmt.Sprint("the analysis did not finish: ", x))
			}
		}()
		def.run(r)
	}()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range r.analysed {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation": def.text,
		"functions":   len(fns),
		"counts":      r.counts,
	}
	if len(fns) > 0 {
		cov["functions_analysed"] = fns
	}
	if len(r.obs) > 0 {
		n := len(r.obs)
		if n > 200 {
			n = 200
		}
		cov["obligation_sample"] = r.obs[:n]
	}
	if len(r.und) > 0 {
		cov["undecided"] = r.und
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(),
		"violations": len(r.viols),
	}
	os.MkdirAll(filepath.Join(outDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(outDir(), "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d functions analysed, %d violations, %d undecided, %.1fs\n", id, r.counts["obligations"], len(fns), len(r.viols), len(r.und), time.Since(t0).Seconds())
	for i, u := range r.und {
		if i == 20 {
			fmt.Printf("  ... %d more\n", len(r.und)-i)
			break
		}
		fmt.Printf("  UNDECIDED %s\n", strings.ReplaceAll(short2(u), "\n", " "))
	}
	if len(r.viols) == 0 {
		return 0
	}
	for i, v := range r.viols {
		if i == 40 {
			fmt.Printf("  ... %d more\n", len(r.viols)-i)
			break
		}
		fmt.Printf("  [%s] %s: %s\n", v.Rule, v.Construct, strings.ReplaceAll(short2(v.Detail), "\n", " "))
	}
	rp := filepath.Join(outDir(), "evidence", id+".violation.json")
	b, _ = json.MarshalIndent(r.viols, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// engine loads the repository with the reference overlay.
func (r *Rep) engine() *Engine {
	E, _, err := load(specOverlay())
	if err != nil {
		r.fail("load", "module", "%v", err)
		return nil
	}
	if err := E.initPackages(); err != nil {
		r.fail("load", "package initialisation", "%v", err)
		return nil
	}
	return E
}
