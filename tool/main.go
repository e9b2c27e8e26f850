package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) newUnit(name, kind string) *Unit {
	c := newCtx()
	u := &Unit{eng: e, Name: name, Kind: kind, c: c, st: newSortTab(c), cellT: map[int]types.Type{}, tags: map[string]int{}, flags: map[string]string{},
		assume: map[string]bool{}, heapT: map[string]*Sort{}, unfolded: map[*Term]bool{}, funcs: map[string]bool{}, used: map[string]int{}}
	return u
}

func propsOf(f *ssa.Function) []string {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != vsPkg || g.Name() != "Prop" {
				continue
			}
			if k, ok := c.Call.Args[0].(*ssa.Const); ok {
				return strings.Split(strings.Trim(k.Value.ExactString(), `"`), ",")
			}
		}
	}
	return nil
}

func optsOf(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != vsPkg || g.Name() != "Option" {
				continue
			}
			if k, ok := c.Call.Args[0].(*ssa.Const); ok {
				out[strings.Trim(k.Value.ExactString(), `"`)] = true
			}
		}
	}
	return out
}

// verify generates the obligations of one contract or lemma.
func (u *Unit) generate(ct, subj *ssa.Function) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(Unsup); ok {
				u.Err = "outside the supported subset: " + x.why
				return
			}
			u.Err = fmt.Sprintf("internal error: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	u.ct, u.subj = ct, subj
	c := u.c
	st := &State{pc: c.True, env: map[envKey]Val{}, cells: map[int]Val{}, heaps: map[string]*Term{}, ghosts: map[string]*Term{}, alloc: c.Int(-1)}
	fr := u.newFrame(ct, nil)
	fr.mode = "verify"
	fr.subj = subj
	fr.pure = true
	var args []Val
	for _, p := range ct.Params {
		v := c.Var("in."+p.Name(), u.st.Of(p.Type()))
		args = append(args, v)
		if isPtrType(p.Type()) {
			u.axiom(c.Lt(c.Int(0), v))
		}
	}
	u.pureN++
	u.run(fr, args, nil, st)
	u.pureN--
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "/verif/tool/") || strings.Contains(l, "govc") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 14 {
		out = out[:14]
	}
	return strings.Join(out, "\n")
}

type OblRep struct {
	Name string  `json:"name"`
	Kind string  `json:"kind"`
	Pos  string  `json:"pos"`
	OK   bool    `json:"ok"`
	By   string  `json:"by"`
	Sec  float64 `json:"sec"`
	Out  string  `json:"out,omitempty"`
	Goal string  `json:"goal,omitempty"`
}

type UnitRep struct {
	Name        string            `json:"name"`
	Kind        string            `json:"kind"`
	Subject     string            `json:"subject"`
	Props       []string          `json:"props"`
	Status      string            `json:"status"` // proved failed undecided
	Reason      string            `json:"reason,omitempty"`
	Obls        []OblRep          `json:"obligations"`
	Discharged  int               `json:"discharged"`
	Invariants  []string          `json:"invariants,omitempty"`
	Hints       []string          `json:"hints,omitempty"`
	InvObls     int               `json:"invariant_obligations"`
	Flags       map[string]string `json:"flags,omitempty"`
	Assume      []string          `json:"assumptions,omitempty"`
	Uses        []string          `json:"uses,omitempty"`
	Inlined     []string          `json:"functions,omitempty"`
	Sec         float64           `json:"sec"`
	Vacuous     bool              `json:"vacuous,omitempty"`
	Fingerprint string            `json:"fingerprint,omitempty"`
}

var (
	quickTO = 3 * time.Second
	deepTO  = 10 * time.Second
)

func (u *Unit) factsFor(o *Obl) []*Term {
	var hs []*Term
	for i := 0; i < o.NFacts && i < len(u.facts); i++ {
		f := u.facts[i]
		if f.Cand != nil && !f.Cand.Alive {
			continue
		}
		hs = append(hs, f.T)
	}
	return hs
}

var dumpDir string

func (u *Unit) prove(o *Obl, deep bool) SolveResult {
	if o.Goal == u.c.True {
		return SolveResult{Status: "unsat", By: "simplifier"}
	}
	if !deadline.IsZero() && time.Now().After(deadline) {
		u.late.Store(true)
		return SolveResult{Status: "not tried", Out: "not tried: out of time"}
	}
	qt := quickTO
	if u.hinted && !deep {
		qt *= 3
	}
	u.mu.Lock()
	hs := u.factsFor(o)
	var gs []*Term
	for _, h := range hs {
		if !hasQuant(h) {
			gs = append(gs, h)
		}
	}
	txt := ""
	if len(gs) < len(hs) {
		txt = u.Emit(gs, o.Goal, modeUF)
	}
	u.mu.Unlock()
	if txt != "" {
		// most obligations need none of the quantified facts
		if r := solveOne("z3-new", txt, qt/3); r.Status == "unsat" {
			return r
		}
	}
	// and most others only those about the loop at hand
	txt = ""
	u.mu.Lock()
	var ls []*Term
	for i := 0; i < o.NFacts && i < len(u.facts); i++ {
		f := u.facts[i]
		if f.Cand != nil && !f.Cand.Alive || (f.Cand != nil || f.Obl) && i < o.Head && hasQuant(f.T) {
			continue
		}
		ls = append(ls, f.T)
	}
	if len(ls) < len(hs) {
		txt = u.Emit(ls, o.Goal, modeUF)
	}
	u.mu.Unlock()
	if txt != "" {
		if r := solveOne("z3-new", txt, qt/2); r.Status == "unsat" {
			return r
		}
	}
	u.mu.Lock()
	txt = u.Emit(hs, o.Goal, modeUF)
	u.mu.Unlock()
	if d := os.Getenv("GOVC_DUMP"); d != "" && strings.Contains(o.Kind+" "+o.Name, d) {
		_ = os.WriteFile(filepath.Join(os.TempDir(), "q-"+sanitize(o.Kind+o.Name)+".smt2"), []byte(txt), 0644)
	}
	r := solveOne("z3-new", txt, qt)
	if os.Getenv("GOVC_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "trace %v %s %s: %s %.1fs\n", deep, o.Kind, o.Name, r.Status, r.Time.Seconds())
	}
	if r.Status == "unsat" || !deep {
		return r
	}
	u.mu.Lock()
	txt2 := u.Emit(hs, o.Goal, modeStr)
	u.mu.Unlock()
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		_ = os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("%s-%d.smt2", sanitize(u.Name), n)), []byte("; "+o.Kind+" "+o.Name+"\n"+txt), 0644)
		_ = os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("%s-%d.str.smt2", sanitize(u.Name), n)), []byte("; "+o.Kind+" "+o.Name+"\n"+txt2), 0644)
	}
	r2 := portfolio([]func() SolveResult{
		func() SolveResult { return solveOne("cvc5", txt, deepTO) },
		func() SolveResult { return solveOne("z3-new", txt2, deepTO) },
		func() SolveResult { return solveOne("cvc5", txt2, deepTO) },
		func() SolveResult { return solveOne("z3", txt, deepTO) },
		func() SolveResult { return solveOne("z3-new-auto", txt, deepTO) },
	})
	if r2.Status == "unsat" {
		return r2
	}
	if r2.Out == "" {
		return r
	}
	return r2
}

var dumpN int64

// deadline: no obligation is tried after this.
var deadline time.Time

// solve runs Houdini for the loop invariants and then discharges the rest.
func (u *Unit) solve() {
	// comparators used for sorting that are provably the same order
	for i := 0; i < len(u.sorters); i++ {
		for j := 0; j < i; j++ {
			a, b := u.sorters[i], u.sorters[j]
			if a.elem != b.elem || a.L == b.L {
				continue
			}
			// the placeholders are arbitrary values; only unconditional facts count
			o := &Obl{Name: "same order", Kind: "sort-equiv", Goal: u.c.Eq(a.L, b.L), NFacts: len(u.facts)}
			if r := u.prove(o, true); r.Status == "unsat" {
				S := u.st.Seq(a.elem)
				bv := u.c.BVar("s", S)
				x := u.c.mk("sorted", fmt.Sprint(a.L.id), S, bv)
				y := u.c.mk("sorted", fmt.Sprint(b.L.id), S, bv)
				q := u.c.Quant("forall", []*Term{bv}, u.c.Eq(x, y), [][]*Term{{x}, {y}})
				u.facts = append([]Fact{{T: q}}, u.facts...)
				for _, o := range u.obls {
					o.NFacts++
					o.Head++
				}
				for _, cd := range u.cands {
					for _, o := range cd.Obls {
						o.NFacts++
						o.Head++
					}
				}
			}
		}
	}
	// first with quick proofs of the invariants only; when that is not enough,
	// again with all candidates and the whole portfolio
	// (before either: only the candidates recorded as sufficient the last time;
	// each of them is still checked)
	var firm map[*Obl]SolveResult
	for try, deep := range []bool{false, false, true} {
		u.hinted = try == 0
		if try == 0 {
			hint, ok := hints[u.Name]
			if !ok || len(u.cands) == 0 {
				continue
			}
			names := u.hintNames()
			exact := map[string]bool{}
			for _, n := range names {
				exact[n] = true
			}
			keep, rough := map[string]bool{}, map[string]bool{}
			for _, h := range hint {
				if exact[h] {
					keep[h] = true
				} else { // the code has changed here: whatever is similar
					rough[roughName(h)] = true
				}
			}
			for _, cd := range u.cands {
				n := names[cd.Name]
				cd.Alive = keep[n] || rough[roughName(n)]
			}
		} else {
			for _, cd := range u.cands {
				cd.Alive = true
			}
		}
		u.houdini(deep || try == 0)
		full := deep || len(u.cands) == 0
		if try == 0 { // as good as it will get
			names := u.hintNames()
			full = true
			for _, h := range hints[u.Name] {
				ok := false
				for _, cd := range u.cands {
					ok = ok || cd.Alive && names[cd.Name] == h
				}
				full = full && ok
			}
		}
		var wg sync.WaitGroup
		for _, o := range u.obls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				o.Res = u.prove(o, full)
				o.OK = o.Res.Status == "unsat"
			}()
		}
		wg.Wait()
		ok := true
		for _, o := range u.obls {
			ok = ok && o.OK
		}
		if u.late.Load() && firm != nil { // all that sufficed before holds, and it does not suffice
			for _, o := range u.obls {
				o.Res, o.OK = firm[o], firm[o].Status == "unsat"
			}
			u.late.Store(false)
			return
		}
		if ok || len(u.cands) == 0 || u.late.Load() {
			return
		}
		if try == 0 && full {
			firm = map[*Obl]SolveResult{}
			for _, o := range u.obls {
				firm[o] = o.Res
			}
		}
	}
}

// hints lists, per unit, the loop invariants that sufficed on the reviewed tree.
var hints map[string][]string

var loopRE = regexp.MustCompile(`loop@[^#\s]+`)
var roughRE = regexp.MustCompile(`loop#\d+|\bt\d+\b|\bcell\d+\b`)

func roughName(s string) string { return roughRE.ReplaceAllString(s, "_") }

// hintNames names the candidates independently of line numbers.
func (u *Unit) hintNames() map[string]string {
	r := map[string]string{}
	for _, cd := range u.cands {
		r[cd.Name] = loopRE.ReplaceAllString(cd.Name, "loop")
	}
	return r
}

func (u *Unit) houdini(deep bool) {
	for round := 0; round < 30; round++ {
		var wg sync.WaitGroup
		var mu sync.Mutex
		var dead []*Cand
		for _, cd := range u.cands {
			if !cd.Alive {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range cd.Obls {
					r := u.prove(o, deep && !cd.Auto)
					if r.Status != "unsat" {
						mu.Lock()
						dead = append(dead, cd)
						mu.Unlock()
						return
					}
					o.Res, o.OK = r, true
				}
			}()
		}
		wg.Wait()
		if len(dead) == 0 {
			break
		}
		for _, d := range dead {
			d.Alive = false
		}
	}
}

func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (u *Unit) vacuous() bool {
	// some postcondition must be reachable under the preconditions
	n := 0
	for _, o := range u.obls {
		if o.Kind != "ensures" {
			continue
		}
		n++
		pc := u.c.True
		if o.Goal.Op == "=>" {
			pc = o.Goal.Args[0]
		}
		v := &Obl{Goal: u.c.Not(pc), NFacts: o.NFacts}
		if o.NFacts > 0 {
			// exclude the obligation facts themselves: they follow from the rest when proved
		}
		u.mu.Lock()
		txt := u.Emit(u.factsFor(v), v.Goal, modeUF)
		u.mu.Unlock()
		if r := solveOne("z3-new", txt, 2*time.Second); r.Status == "unsat" {
			return true
		}
		break
	}
	return n == 0
}

func (u *Unit) report() UnitRep {
	r := UnitRep{Name: u.Name, Kind: u.Kind, Props: u.Prop, Flags: u.flags, Sec: u.secs}
	if u.subj != nil {
		r.Subject = u.subj.String()
	}
	for a := range u.assume {
		r.Assume = append(r.Assume, a)
	}
	sort.Strings(r.Assume)
	r.Uses = sortedKeys(u.used)
	r.Inlined = sortedKeys(u.funcs)
	r.Fingerprint = u.fingerprint()
	for _, cd := range u.cands {
		if cd.Alive {
			r.Invariants = append(r.Invariants, cd.Name)
			r.Hints = append(r.Hints, u.hintNames()[cd.Name])
			r.InvObls += len(cd.Obls)
		}
	}
	bad := 0
	for _, o := range u.obls {
		or := OblRep{Name: o.Name, Kind: o.Kind, Pos: o.Pos, OK: o.OK, By: o.Res.By, Sec: o.Res.Time.Seconds()}
		if !o.OK {
			bad++
			or.Out = o.Res.Status + " " + firstLine(o.Res.Out)
			or.Goal = u.c.show(o.Goal)
		} else {
			r.Discharged++
		}
		r.Obls = append(r.Obls, or)
	}
	switch {
	case u.Err != "":
		r.Status, r.Reason = "undecided", u.Err
	case r.Vacuous:
		r.Status = "undecided"
	case bad == 0:
		r.Status = "proved"
	case len(u.flags) > 0:
		r.Status = "undecided"
		r.Reason = "obligations fail where the code uses unmodelled features: " + strings.Join(sortedKeys(u.flags), ", ")
	case u.late.Load():
		r.Status, r.Reason = "undecided", "out of time"
	default:
		r.Status = "failed"
	}
	return r
}

func firstLine(s string) string {
	a, _, _ := strings.Cut(s, "\n")
	if len(a) > 300 {
		a = a[:300]
	}
	return a
}

type Report struct {
	Units   []UnitRep         `json:"units"`
	Dropped map[string]string `json:"dropped"`
	Missing []string          `json:"missing"`
	Sec     float64           `json:"sec"`
	Solver  float64           `json:"solver_sec"`
	Calls   int64             `json:"solver_calls"`
	Load    string            `json:"load_error,omitempty"`
	Trusted []string          `json:"trusted,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	spec := flag.String("spec", "/verif/spec", "specifications")
	prop := flag.String("prop", "", "only units of this property")
	only := flag.String("unit", "", "only units whose name contains this")
	out := flag.String("out", "", "write the JSON report here")
	dump := flag.String("dump", "", "directory for failing queries")
	verbose := flag.Bool("v", false, "verbose")
	deep := flag.Float64("deep", 10, "seconds per solver for hard obligations")
	limit := flag.Float64("limit", 0, "seconds for all of it")
	hintf := flag.String("hints", "/verif/hints.json", "invariants to try first")
	harv := flag.String("harvest", "", "only write the dictionary of the bounded stand-ins to this directory")
	base := flag.String("base", "", "with -harvest: the literals of the reviewed tree")
	flag.Parse()
	if *harv != "" {
		if err := harvest(*repo, *base, *harv); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if b, err := os.ReadFile(*hintf); err == nil {
		_ = json.Unmarshal(b, &hints)
	}
	dumpDir = *dump
	deepTO = time.Duration(*deep * float64(time.Second))
	t0 := time.Now()
	if *limit > 0 {
		deadline = t0.Add(time.Duration(*limit * float64(time.Second)))
	}
	rep := Report{Dropped: map[string]string{}}
	eng, err := loadEngine(*repo, *spec)
	if err != nil {
		rep.Load = err.Error()
		emit(rep, *out)
		os.Exit(2)
	}
	for k, v := range eng.dropped {
		rep.Dropped[filepath.Base(filepath.Dir(k))+"/"+filepath.Base(k)] = v
	}
	fmt.Fprintf(os.Stderr, "loaded in %.1fs: %d contracts, %d lemmas, %d dropped spec files\n", time.Since(t0).Seconds(), len(eng.subjOf), len(eng.lemmas), len(eng.dropped))
	type job struct{ ct, subj *ssa.Function }
	var jobs []job
	for ct, s := range eng.subjOf {
		jobs = append(jobs, job{ct, s})
	}
	for _, l := range eng.lemmas {
		jobs = append(jobs, job{l, nil})
	}
	sort.Slice(jobs, func(i, j int) bool { return jobs[i].ct.String() < jobs[j].ct.String() })
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, j := range jobs {
		o := optsOf(j.ct)
		if o["inline"] && j.subj != nil {
			eng.inlineAll[j.subj] = true
		}
		if o["pure"] && j.subj != nil {
			eng.pureFns[j.subj] = true
		}
	}
	for _, j := range jobs {
		ps := propsOf(j.ct)
		if *prop != "" {
			ok := false
			for _, p := range ps {
				ok = ok || p == *prop
			}
			if !ok {
				continue
			}
		}
		if *only != "" && !strings.Contains(j.ct.String(), *only) {
			continue
		}
		o := optsOf(j.ct)
		if o["runtime"] {
			continue // contract used only as an executable oracle (bounded)
		}
		if o["trusted"] {
			mu.Lock()
			rep.Trusted = append(rep.Trusted, j.ct.String())
			mu.Unlock()
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			t := time.Now()
			u := eng.newUnit(strings.TrimPrefix(j.ct.String(), repoMod), "contract")
			if j.subj == nil {
				u.Kind = "lemma"
			}
			if o["deep-unfold"] {
				u.unfoldLimit = 4
			}
			u.Prop = ps
			u.opts = o
			u.generate(j.ct, j.subj)
			<-sem
			if u.Err == "" {
				u.solve()
			}
			vac := u.Err == "" && u.vacuous()
			u.secs = time.Since(t).Seconds()
			r := u.report()
			if vac && r.Status == "proved" {
				r.Vacuous = true
				r.Status = "undecided"
				r.Reason = "vacuous: no postcondition is reachable"
			}
			mu.Lock()
			rep.Units = append(rep.Units, r)
			mu.Unlock()
			if *verbose {
				printUnit(u, r)
			}
		}()
	}
	wg.Wait()
	sort.Slice(rep.Units, func(i, j int) bool { return rep.Units[i].Name < rep.Units[j].Name })
	rep.Sec = time.Since(t0).Seconds()
	rep.Solver = float64(atomic.LoadInt64(&solverNanos)) / 1e9
	rep.Calls = atomic.LoadInt64(&solverCalls)
	emit(rep, *out)
	for _, r := range rep.Units {
		fmt.Fprintf(os.Stderr, "%-10s %-60s %3d/%3d obl %3d inv %.1fs %s\n", r.Status, r.Name, r.Discharged, len(r.Obls), len(r.Invariants), r.Sec, firstLine(r.Reason))
	}
	fmt.Fprintf(os.Stderr, "total %.1fs, solver %.1fs in %d calls\n", rep.Sec, rep.Solver, rep.Calls)
}

func printUnit(u *Unit, r UnitRep) {
	fmt.Fprintf(os.Stderr, "== %s: %s %s\n", r.Name, r.Status, r.Reason)
	for _, o := range r.Obls {
		if !o.OK {
			fmt.Fprintf(os.Stderr, "   FAIL %s %s @%s: %s\n        %s\n", o.Kind, o.Name, o.Pos, o.Out, o.Goal)
		}
	}
	for _, i := range r.Invariants {
		fmt.Fprintf(os.Stderr, "   inv %s\n", i)
	}
	if r.Status != "proved" {
		for _, cd := range u.cands {
			if !cd.Alive && !cd.Auto {
				w := ""
				for _, o := range cd.Obls {
					if !o.OK {
						w += " " + o.Kind
					}
				}
				fmt.Fprintf(os.Stderr, "   dead %s %s\n", cd.Name, w)
			}
		}
	}
	for k, v := range r.Flags {
		fmt.Fprintf(os.Stderr, "   flag %s: %s\n", k, v)
	}
}

func emit(r Report, out string) {
	b, _ := json.MarshalIndent(r, "", " ")
	if out != "" {
		_ = os.WriteFile(out, b, 0644)
	}
}
