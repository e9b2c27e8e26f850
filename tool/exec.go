package main

// Symbolic execution of go/ssa functions into verification conditions.
// States are merged at join points (no path enumeration); loops are cut at
// their headers by inductive invariants.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync/atomic"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type PathEl struct {
	Field int   // >=0: struct field
	Idx   *Term // else sequence index
}

type envKey struct {
	fr int
	v  ssa.Value
}

type Ptr struct {
	Cell int   // >0
	Ref  *Term // heap reference
	Reg  envKey
	T    types.Type // type of the root object
	Path []PathEl
}

type Clo struct {
	Fn    *ssa.Function
	Binds []Val
	Recv  Val // bound method receiver (method values)
}

type Tuple []Val

// IfcVal: an interface holding a value kept outside the term language.
type IfcVal struct {
	T   types.Type
	V   Val
	Src ssa.Value
	Fr  *Frame
}

// Obj: an external stateful object modelled by the engine (scanner, csv reader, ...).
type Obj struct {
	Kind string
	Cell int // position cell
	Data map[string]*Term
}

type Iter struct {
	Cell int // position
	M    *Term
	Keys *Term
	Str  bool
	Pos0 *Term
}

type Bad struct{ why string }

type Unsup struct{ why string }

func unsup(f string, a ...any) { panic(Unsup{fmt.Sprintf(f, a...)}) }

type State struct {
	pc     *Term
	env    map[envKey]Val
	cells  map[int]Val
	heaps  map[string]*Term
	ghosts map[string]*Term
	alloc  *Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, env: make(map[envKey]Val, len(s.env)), cells: make(map[int]Val, len(s.cells)), heaps: make(map[string]*Term, len(s.heaps)), ghosts: make(map[string]*Term, len(s.ghosts))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k, v := range s.ghosts {
		n.ghosts[k] = v
	}
	return n
}

type Fact struct {
	T    *Term
	Cand *Cand
	Obl  bool // an obligation, assumed after its place
}

type Obl struct {
	Name   string
	Pos    string
	Goal   *Term
	NFacts int
	Head   int    // the facts at the head of the loop it belongs to start here
	Kind   string // ensures, requires, safety, inv-init, inv-keep, lemma
	Cand   *Cand
	Res    SolveResult
	OK     bool
	Fr     string
}

// Cand: a candidate loop invariant (Houdini).
type Cand struct {
	Name  string
	Alive bool
	Obls  []*Obl
	Auto  bool
}

type Frame struct {
	id         int
	fn         *ssa.Function
	parent     *Frame
	mode       string // "", "verify", "use" (contract functions)
	subj       *ssa.Function
	rets       []retState
	defers     []deferred
	inc        map[*ssa.BasicBlock][]edge
	path       string
	hav        []Val // Modifies list in use mode
	depth      int
	pure       bool
	useRes     []Val
	useDone    bool
	havGhosts  []string
	argRegs    []ssa.Value
	havAlloc   bool
	havTypes   []types.Type
	preAlloc   *Term
	preHeaps   map[string]*Term
	callPos    token.Pos
	callerPure bool
}

type deferred struct {
	pc   *Term
	call *ssa.Defer
	st   []Val
	fnv  Val
}

type retState struct {
	st  *State
	res []Val
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

type modset struct {
	mark   int
	cells  map[int]bool
	heaps  map[string]bool
	ghosts map[string]bool
	regs   map[envKey]bool
	alloc  bool
}

func newMod(mark int) *modset {
	return &modset{mark: mark, cells: map[int]bool{}, heaps: map[string]bool{}, ghosts: map[string]bool{}, regs: map[envKey]bool{}}
}
func (m *modset) size() int {
	n := len(m.cells) + len(m.heaps) + len(m.ghosts) + len(m.regs)
	if m.alloc {
		n++
	}
	return n
}

type Unit struct {
	lastHead    int
	hinted      bool
	late        atomic.Bool
	ran         map[*ssa.Function]bool
	opts        map[string]bool
	eng         *Engine
	Name        string
	Kind        string // contract, lemma, termination
	Prop        []string
	c           *Ctx
	st          *SortTab
	facts       []Fact
	obls        []*Obl
	cands       []*Cand
	templ       []*Clo
	frames      int
	cellN       int
	cellT       map[int]types.Type
	recs        []*modset
	dry         int
	pureN       int // >0: no obligations recorded
	boundN      int // >0: under a binder
	sorters     []*sorter
	tags        map[string]int
	flags       map[string]string // reasons why the unit left the modelled subset
	assume      map[string]bool   // assumptions used
	heapT       map[string]*Sort
	loops       []*loopCtx
	unfolded    map[*Term]bool
	ct          *ssa.Function
	subj        *ssa.Function
	inSubj      int
	nloops      int
	instrs      int
	funcs       map[string]bool
	lemmaSelf   *ssa.Function
	termSelf    *ssa.Function
	termMeas    *Term
	reqs        []*Term
	covers      []*Term
	lambdaDepth int
	Err         string
	secs        float64
	status      string
	failed      []*Obl
	used        map[string]int
	mu          sync.Mutex
	unfoldDepth int
	spFns       map[string]*ssa.Function
	preAlloc    *Term
	preHeaps    map[string]*Term
	modRefs     map[string][]*Term
	unfoldLimit int
	errWraps    map[*Term][]*Term
	subTail     []tailTerm
	prefixSeen  []prefTerm
	lastIdx     []*Term
	logs        map[string]*Sort
	atCall      []atCall
}

type sorter struct {
	elem *Sort
	L    *Term
}

func (u *Unit) bad(f string, a ...any) Val { return &Bad{fmt.Sprintf(f, a...)} }

func (u *Unit) flag(kind, why string) {
	if u.dry == 0 {
		if _, ok := u.flags[kind]; !ok {
			u.flags[kind] = why
		}
	}
}

// ---- facts and obligations

func (u *Unit) fact(pc, t *Term) {
	if u.dry > 0 || u.boundN > 0 || t.bnd {
		return
	}
	f := u.c.Imp(pc, t)
	if f == u.c.True {
		return
	}
	u.facts = append(u.facts, Fact{T: f})
}

func (u *Unit) axiom(t *Term) { u.fact(u.c.True, t) }

func (u *Unit) oblige(st *State, kind, name string, pos token.Pos, goal *Term) {
	if u.dry > 0 || u.boundN > 0 || u.pureN > 0 {
		return
	}
	g := u.c.Imp(st.pc, goal)
	og := u.c.Imp(st.pc, u.skolem(st, goal))
	o := &Obl{Name: name, Kind: kind, Goal: og, NFacts: len(u.facts), Head: u.lastHead, Pos: u.eng.pos(pos)}
	u.obls = append(u.obls, o)
	// once checked, an obligation may be assumed afterwards
	if g != u.c.True && goal != u.c.False {
		u.facts = append(u.facts, Fact{T: g, Obl: true})
	}
}

// skolem: a universally quantified goal that speaks of recursive
// specification functions is checked at a fresh constant, so that their
// definitions unfold there.
func (u *Unit) skolem(st *State, g *Term) *Term {
	c := u.c
	if g.Op != "forall" {
		return g
	}
	if !hasSpec(g, map[*Term]bool{}) {
		return g
	}
	m := map[*Term]*Term{}
	for _, b := range g.BV {
		m[b] = c.Fresh("sk", b.Sort)
	}
	body := c.subst(g.Args[0], m)
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "app" && !t.bnd && strings.HasPrefix(t.Lit, "sp:") {
			if f := u.spFns[t.Lit]; f != nil {
				hs := u.heapDeps(f)
				n := len(t.Args) - len(hs)
				ok := n == len(f.Params)
				for i, h := range hs {
					ok = ok && t.Args[n+i] == u.heap(st, h)
				}
				if ok {
					vals := make([]Val, n)
					for i := range vals {
						vals[i] = t.Args[i]
					}
					u.specApp(nil, st, f, vals)
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	return body
}

func hasSpec(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "app" && strings.HasPrefix(t.Lit, "sp:") {
		return true
	}
	for _, a := range t.Args {
		if hasSpec(a, seen) {
			return true
		}
	}
	return false
}

// ---- values

func (u *Unit) term(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Ptr:
		if x.Ref != nil && len(x.Path) == 0 {
			return x.Ref
		}
		if x.Ref != nil {
			// interior pointer: an opaque non-nil reference
			u.flag("interior-pointer", "interior pointer used as a value")
			return u.c.Fresh("iptr", sInt)
		}
		unsup("address of a local used as a value")
	case *IfcVal:
		return u.box(x.T, u.term(x.V))
	case *Clo:
		return u.c.App("fn:"+x.Fn.String(), sFn)
	case *Bad:
		unsup("%s", x.why)
	case nil:
		unsup("undefined value")
	case *Obj:
		return u.c.Var(fmt.Sprintf("obj.%s.%d", x.Kind, x.Cell), sInt)
	}
	unsup("value of kind %T used as a term", v)
	return nil
}

func (u *Unit) tagOf(k string) int {
	if n, ok := u.tags[k]; ok {
		return n
	}
	n := len(u.tags) + 1
	u.tags[k] = n
	return n
}

func (u *Unit) box(t types.Type, v *Term) *Term {
	k := typeKey(t)
	u.tagOf(k)
	return u.c.App("box:"+k, sIfc, v)
}

func (u *Unit) asPtr(v Val, pt types.Type) *Ptr {
	switch x := v.(type) {
	case *Ptr:
		return x
	case *Term:
		return &Ptr{Ref: x, T: pt.Underlying().(*types.Pointer).Elem()}
	case *Bad:
		unsup("%s", x.why)
	}
	unsup("not a pointer: %T", v)
	return nil
}

func (u *Unit) heapKey(t types.Type) string { return u.st.Of(t).Name }

func (u *Unit) heap(st *State, t types.Type) *Term {
	k := u.heapKey(t)
	h, ok := st.heaps[k]
	if !ok {
		s := u.st.Arr(u.st.Of(t))
		u.heapT[k] = s
		h = u.c.Var("H0."+k, s)
		st.heaps[k] = h
	}
	return h
}

func (u *Unit) setHeap(st *State, t types.Type, h *Term) {
	k := u.heapKey(t)
	u.heapT[k] = h.Sort
	st.heaps[k] = h
	for _, r := range u.recs {
		r.heaps[k] = true
	}
}

func (u *Unit) setCell(st *State, c int, v Val) {
	st.cells[c] = v
	for _, r := range u.recs {
		if c <= r.mark {
			r.cells[c] = true
		}
	}
}

func (u *Unit) newCell(st *State, t types.Type, v Val) int {
	u.cellN++
	u.cellT[u.cellN] = t
	st.cells[u.cellN] = v
	return u.cellN
}

func (u *Unit) setGhost(st *State, k string, v *Term) {
	st.ghosts[k] = v
	for _, r := range u.recs {
		r.ghosts[k] = true
	}
}

func (u *Unit) getPath(t *Term, path []PathEl) *Term {
	for _, p := range path {
		if p.Idx != nil {
			t = u.c.At(t, p.Idx)
		} else {
			if t.Sort.Kind != SStruct {
				unsup("field of opaque type %s", t.Sort.Name)
			}
			t = u.c.Sel(t, p.Field)
		}
	}
	return t
}

func (u *Unit) setPath(t *Term, path []PathEl, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.Idx != nil {
		return u.c.Upd(t, p.Idx, u.setPath(u.c.At(t, p.Idx), path[1:], v))
	}
	if t.Sort.Kind != SStruct {
		unsup("field of opaque type %s", t.Sort.Name)
	}
	return u.c.SetField(t, p.Field, u.setPath(u.c.Sel(t, p.Field), path[1:], v))
}

func (u *Unit) load(st *State, p *Ptr, pos token.Pos) Val {
	switch {
	case p.Cell > 0:
		v, ok := st.cells[p.Cell]
		if !ok {
			unsup("dead cell")
		}
		if len(p.Path) == 0 {
			return v
		}
		return u.getPath(u.term(v), p.Path)
	case p.Ref != nil:
		if len(p.Path) == 0 && u.st.Of(p.T).Kind == SOpaque {
			return u.c.Select(u.heap(st, p.T), p.Ref)
		}
		return u.getPath(u.c.Select(u.heap(st, p.T), p.Ref), p.Path)
	default:
		v := st.env[p.Reg]
		return u.getPath(u.term(v), p.Path)
	}
}

func (u *Unit) store(fr *Frame, st *State, p *Ptr, v Val) {
	switch {
	case p.Cell > 0:
		if len(p.Path) == 0 {
			u.setCell(st, p.Cell, v)
			return
		}
		old := u.term(st.cells[p.Cell])
		u.setCell(st, p.Cell, u.setPath(old, p.Path, u.term(v)))
	case p.Ref != nil:
		h := u.heap(st, p.T)
		old := u.c.Select(h, p.Ref)
		u.setHeap(st, p.T, u.c.Store(h, p.Ref, u.setPath(old, p.Path, u.term(v))))
	default:
		old := u.term(st.env[p.Reg])
		u.writeRoot(st, p.Reg, u.setPath(old, p.Path, u.term(v)))
	}
}

func (u *Unit) setEnv(st *State, k envKey, v Val) { st.env[k] = v }

// writeRoot updates the register that holds a slice or map whose contents were
// changed in place, and writes the change through to where it was loaded from.
func (u *Unit) writeRoot(st *State, k envKey, v *Term) {
	st.env[k] = v
	for _, r := range u.recs {
		r.regs[k] = true
	}
	sub := func(x ssa.Value) envKey { return envKey{k.fr, x} }
	switch x := k.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if pv, ok := st.env[sub(x.X)]; ok {
				u.store(nil, st, u.asPtr(pv, x.X.Type()), v)
			} else if g, ok := x.X.(*ssa.Global); ok {
				u.setGhost(st, "glob:"+g.String(), v)
			}
		}
	case *ssa.Lookup:
		if m, ok := st.env[sub(x.X)]; ok {
			key := u.term(u.val(st, k.fr, x.Index))
			if x.CommaOk {
				return
			}
			u.writeRoot(st, sub(x.X), u.c.Put(u.term(m), key, v))
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			if m, ok := st.env[sub(l.X)]; ok {
				key := u.term(u.val(st, k.fr, l.Index))
				u.writeRoot(st, sub(l.X), u.c.Put(u.term(m), key, v))
			}
		}
	case *ssa.ChangeType:
		u.writeRoot(st, sub(x.X), v)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			if pv, ok := st.env[sub(x.X)]; ok {
				if p, ok := pv.(*Ptr); ok {
					u.store(nil, st, p, v)
					return
				}
				u.writeRoot(st, sub(x.X), v)
			}
		} else {
			u.flag("alias", "write through a re-sliced slice")
		}
	}
}

// val evaluates an SSA operand.
func (u *Unit) val(st *State, fr int, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return u.constVal(x)
	case *ssa.Function:
		return &Clo{Fn: x}
	case *ssa.Global:
		return &Ptr{Reg: envKey{-1, x}, T: x.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return x
	}
	r, ok := st.env[envKey{fr, v}]
	if !ok {
		unsup("undefined register %s in %s", v.Name(), v.Parent())
	}
	return r
}

func (u *Unit) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return u.Zero(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return u.c.Bool(constant.BoolVal(x.Value))
	case constant.String:
		return u.c.Str(constant.StringVal(x.Value))
	case constant.Int:
		if u.st.Of(t) == sReal {
			return u.c.Real(x.Value.ExactString() + ".0")
		}
		n, ok := constant.Int64Val(x.Value)
		if ok {
			return u.c.Int(n)
		}
		return u.c.mk("int", x.Value.ExactString(), sInt)
	case constant.Float:
		if u.st.Of(t) == sInt {
			n, _ := constant.Int64Val(constant.ToInt(x.Value))
			return u.c.Int(n)
		}
		f, _ := constant.Float64Val(x.Value)
		s := fmt.Sprintf("%f", f)
		return u.c.Real(s)
	}
	unsup("constant %s", x)
	return nil
}

// ---- merging

func (u *Unit) mergeVals(conds []*Term, vs []Val) Val {
	same := true
	for _, v := range vs[1:] {
		if !valEq(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	allTerm := true
	for _, v := range vs {
		switch x := v.(type) {
		case *Term:
		case *Ptr:
			if x.Ref == nil || len(x.Path) > 0 {
				allTerm = false
			}
		case *IfcVal:
			if p, ok := x.V.(*Ptr); ok && p.Ref == nil {
				allTerm = false
			}
			if _, ok := x.V.(*Obj); ok {
				allTerm = false
			}
			if _, ok := x.V.(Tuple); ok {
				allTerm = false
			}
		case *Clo:
			if len(x.Binds) > 0 {
				allTerm = false
			}
		default:
			allTerm = false
		}
	}
	if allTerm {
		r := u.term(vs[len(vs)-1])
		for i := len(vs) - 2; i >= 0; i-- {
			x := u.term(vs[i])
			if x.Sort != r.Sort {
				return u.bad("merge of different sorts")
			}
			r = u.c.Ite(conds[i], x, r)
		}
		return r
	}
	if t0, ok := vs[0].(Tuple); ok {
		out := make(Tuple, len(t0))
		for i := range t0 {
			col := make([]Val, len(vs))
			for j, v := range vs {
				tj, ok := v.(Tuple)
				if !ok || len(tj) != len(t0) {
					return u.bad("tuple merge")
				}
				col[j] = tj[i]
			}
			out[i] = u.mergeVals(conds, col)
		}
		return out
	}
	return u.bad("merge of incompatible values")
}

func valEq(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.Cell != y.Cell || x.Ref != y.Ref || x.Reg != y.Reg || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case *Clo:
		y, ok := b.(*Clo)
		if !ok || x.Fn != y.Fn || len(x.Binds) != len(y.Binds) {
			return false
		}
		for i := range x.Binds {
			if !valEq(x.Binds[i], y.Binds[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case *IfcVal:
		y, ok := b.(*IfcVal)
		return ok && (x == y || types.Identical(x.T, y.T) && valEq(x.V, y.V))
	case *Obj:
		y, ok := b.(*Obj)
		return ok && x.Cell == y.Cell && x.Kind == y.Kind
	case *Iter:
		y, ok := b.(*Iter)
		return ok && x.Cell == y.Cell
	case *Bad:
		_, ok := b.(*Bad)
		return ok
	case *ssa.Builtin:
		return a == b
	}
	return false
}

// relConds strips the conjuncts common to all path conditions.
func (u *Unit) relConds(pcs []*Term) []*Term {
	cnt := map[*Term]int{}
	for _, p := range pcs {
		for _, x := range conjuncts(p) {
			cnt[x]++
		}
	}
	out := make([]*Term, len(pcs))
	for i, p := range pcs {
		var r []*Term
		for _, x := range conjuncts(p) {
			if cnt[x] != len(pcs) {
				r = append(r, x)
			}
		}
		out[i] = u.c.And(r...)
	}
	return out
}

func (u *Unit) mergeStates(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	pcs := make([]*Term, len(sts))
	for i, s := range sts {
		pcs[i] = s.pc
	}
	conds := u.relConds(pcs)
	n := &State{pc: u.c.Or(pcs...), env: map[envKey]Val{}, cells: map[int]Val{}, heaps: map[string]*Term{}, ghosts: map[string]*Term{}}
	col := make([]Val, len(sts))
outer:
	for k := range sts[0].env {
		for i, s := range sts {
			v, ok := s.env[k]
			if !ok {
				continue outer
			}
			col[i] = v
		}
		n.env[k] = u.mergeVals(conds, col)
	}
outer2:
	for k := range sts[0].cells {
		for i, s := range sts {
			v, ok := s.cells[k]
			if !ok {
				continue outer2
			}
			col[i] = v
		}
		n.cells[k] = u.mergeVals(conds, col)
	}
	hk := map[string]bool{}
	gk := map[string]bool{}
	for _, s := range sts {
		for k := range s.heaps {
			hk[k] = true
		}
		for k := range s.ghosts {
			gk[k] = true
		}
	}
	for k := range hk {
		for i, s := range sts {
			h, ok := s.heaps[k]
			if !ok {
				h = u.c.Var("H0."+k, u.heapT[k])
			}
			col[i] = h
		}
		n.heaps[k] = u.mergeVals(conds, col).(*Term)
	}
	for k := range gk {
		var srt *Sort
		for _, s := range sts {
			if g, ok := s.ghosts[k]; ok {
				srt = g.Sort
			}
		}
		for i, s := range sts {
			g, ok := s.ghosts[k]
			if !ok {
				g = u.c.Var("G0."+k, srt)
			}
			col[i] = g
		}
		n.ghosts[k] = u.mergeVals(conds, col).(*Term)
	}
	for i, s := range sts {
		col[i] = s.alloc
	}
	n.alloc = u.mergeVals(conds, col).(*Term)
	return n
}

// ---- calls

func (u *Unit) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	u.frames++
	fr := &Frame{id: u.frames, fn: fn, parent: parent, inc: map[*ssa.BasicBlock][]edge{}}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.path = parent.path + "/" + fn.Name()
	} else {
		fr.path = fn.Name()
	}
	if fr.depth > 40 {
		unsup("inlining too deep at %s", fn)
	}
	return fr
}

// run executes fn's body from st and returns the merged result and state
// (nil state: no path returns).
func (u *Unit) run(fr *Frame, args []Val, binds []Val, st *State) ([]Val, *State) {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if u.dry == 0 && u.pureN == 0 {
		u.funcs[fn.String()] = true
	}
	if u.ran == nil {
		u.ran = map[*ssa.Function]bool{}
	}
	u.ran[fn] = true
	s := st.clone()
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[envKey{fr.id, p}] = args[i]
		}
	}
	for i, b := range fn.FreeVars {
		if i < len(binds) {
			s.env[envKey{fr.id, b}] = binds[i]
		}
	}
	li := u.eng.loopInfo(fn)
	fr.inc[fn.Blocks[0]] = []edge{{nil, s}}
	u.region(fr, li, nil, li.rpo)
	if len(fr.rets) == 0 {
		return nil, nil
	}
	sts := make([]*State, len(fr.rets))
	pcs := make([]*Term, len(fr.rets))
	for i, r := range fr.rets {
		sts[i] = r.st
		pcs[i] = r.st.pc
	}
	m := u.mergeStates(sts)
	conds := u.relConds(pcs)
	nres := fn.Signature.Results().Len()
	res := make([]Val, nres)
	for k := 0; k < nres; k++ {
		col := make([]Val, len(sts))
		for i, r := range fr.rets {
			col[i] = r.res[k]
		}
		if len(col) == 1 {
			res[k] = col[0]
		} else {
			res[k] = u.mergeVals(conds, col)
		}
	}
	return res, m
}

// finish drops the callee's registers and propagates in-place changes of map
// and slice arguments to the caller's registers.
func (u *Unit) finish(fr *Frame, callerFr *Frame, argRegs []ssa.Value, args []Val, m *State) {
	if m == nil {
		return
	}
	var wb []func()
	for i, p := range fr.fn.Params {
		if i >= len(args) {
			break
		}
		nv, ok := m.env[envKey{fr.id, p}]
		if !ok {
			continue
		}
		nt, ok1 := nv.(*Term)
		ot, ok2 := args[i].(*Term)
		if ok1 && ok2 && nt != ot && callerFr != nil && i < len(argRegs) && argRegs[i] != nil {
			switch p.Type().Underlying().(type) {
			case *types.Map, *types.Slice:
				reg := argRegs[i]
				wb = append(wb, func() {
					if _, ok := m.env[envKey{callerFr.id, reg}]; ok {
						u.writeRoot(m, envKey{callerFr.id, reg}, nt)
					}
				})
			}
		}
	}
	for k := range m.env {
		if k.fr == fr.id {
			delete(m.env, k)
		}
	}
	for _, f := range wb {
		f()
	}
}

// ---- blocks

func (u *Unit) region(fr *Frame, li *loopInfo, in *loop, order []*ssa.BasicBlock) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		if in != nil && (!in.blocks[b] || b == in.head) {
			continue
		}
		if done[b] {
			continue
		}
		es := fr.inc[b]
		if len(es) == 0 {
			continue
		}
		delete(fr.inc, b)
		if l := li.byHead[b]; l != nil && l != in {
			u.execLoop(fr, li, l, es)
			for x := range l.blocks {
				done[x] = true
			}
			continue
		}
		st := u.join(fr, b, es)
		if st.pc == u.c.False {
			continue
		}
		u.block(fr, li, in, b, st)
	}
}

// join merges the incoming edges of b and evaluates its phis.
func (u *Unit) join(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	sts := make([]*State, len(es))
	pcs := make([]*Term, len(es))
	for i, e := range es {
		sts[i] = e.st
		pcs[i] = e.st.pc
	}
	m := u.mergeStates(sts)
	conds := u.relConds(pcs)
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		col := make([]Val, len(es))
		for i, e := range es {
			col[i] = u.phiOperand(fr, phi, e)
		}
		if len(col) == 1 {
			m.env[envKey{fr.id, phi}] = col[0]
		} else {
			m.env[envKey{fr.id, phi}] = u.mergeVals(conds, col)
		}
	}
	return m
}

func (u *Unit) phiOperand(fr *Frame, phi *ssa.Phi, e edge) Val {
	for j, p := range phi.Block().Preds {
		if p == e.from {
			if c, ok := phi.Edges[j].(*ssa.Const); ok {
				return u.constVal(c)
			}
			if v, ok := e.st.env[envKey{fr.id, phi.Edges[j]}]; ok {
				return v
			}
			if _, ok := phi.Edges[j].(*ssa.Function); ok {
				return &Clo{Fn: phi.Edges[j].(*ssa.Function)}
			}
			return u.bad("phi operand %s undefined", phi.Edges[j].Name())
		}
	}
	return u.bad("phi edge")
}

func (u *Unit) goTo(fr *Frame, li *loopInfo, in *loop, from, to *ssa.BasicBlock, st *State) {
	if st.pc == u.c.False {
		return
	}
	fr.inc[to] = append(fr.inc[to], edge{from, st})
}

func (u *Unit) block(fr *Frame, li *loopInfo, in *loop, b *ssa.BasicBlock, st *State) {
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		switch x := ins.(type) {
		case *ssa.If:
			cnd := u.term(u.val(st, fr.id, x.Cond))
			t, f := st, st.clone()
			t.pc = u.c.And(st.pc, cnd)
			f.pc = u.c.And(f.pc, u.c.Not(cnd))
			u.goTo(fr, li, in, b, b.Succs[0], t)
			u.goTo(fr, li, in, b, b.Succs[1], f)
			return
		case *ssa.Jump:
			u.goTo(fr, li, in, b, b.Succs[0], st)
			return
		case *ssa.Return:
			res := make([]Val, len(x.Results))
			for i, r := range x.Results {
				res[i] = u.val(st, fr.id, r)
			}
			fr.rets = append(fr.rets, retState{st, res})
			return
		case *ssa.Panic:
			u.oblige(st, "safety", "panic unreachable in "+fr.fn.Name(), x.Pos(), u.c.False)
			return
		}
		u.instrs++
		if u.instrs > 3000000 {
			unsup("instruction budget")
		}
		st2 := u.instr(fr, st, ins)
		if st2 == nil {
			return
		}
		st = st2
		if st.pc == u.c.False {
			return
		}
	}
}

func (u *Unit) set(fr *Frame, st *State, v ssa.Value, x Val) { st.env[envKey{fr.id, v}] = x }

func (u *Unit) safe(fr *Frame, st *State, what string, pos token.Pos, goal *Term) {
	if goal == u.c.True {
		return
	}
	if fr.pure {
		return
	}
	u.oblige(st, "safety", what+" in "+fr.fn.Name(), pos, goal)
}

func (u *Unit) derefCheck(fr *Frame, st *State, p *Ptr, pos token.Pos) {
	if p.Ref != nil {
		u.safe(fr, st, "nil dereference", pos, u.c.Not(u.c.Eq(p.Ref, u.c.Int(0))))
	}
}

func (u *Unit) instr(fr *Frame, st *State, ins ssa.Instruction) *State {
	c := u.c
	V := func(v ssa.Value) Val { return u.val(st, fr.id, v) }
	T := func(v ssa.Value) *Term { return u.term(V(v)) }
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return st
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		if u.eng.escapes(x) {
			r := st.alloc
			st.alloc = c.Sub(r, c.Int(1))
			for _, m := range u.recs {
				m.alloc = true
			}
			u.setHeap(st, et, c.Store(u.heap(st, et), r, u.Zero(et)))
			u.fact(st.pc, c.Lt(r, c.Int(0)))
			u.set(fr, st, x, &Ptr{Ref: r, T: et})
			return st
		}
		u.set(fr, st, x, &Ptr{Cell: u.newCell(st, et, u.zeroVal(et)), T: et})
		if et.String() == "golang.org/x/sync/errgroup.Group" {
			u.setGhost(st, "eg", u.nilErr())
		}
	case *ssa.Store:
		p := u.asPtr(V(x.Addr), x.Addr.Type())
		u.derefCheck(fr, st, p, x.Pos())
		if g, ok := x.Addr.(*ssa.Global); ok {
			u.setGhost(st, "glob:"+g.String(), u.term(V(x.Val)))
			return st
		}
		u.store(fr, st, p, V(x.Val))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				u.set(fr, st, x, u.global(st, g))
				return st
			}
			v := V(x.X)
			p := u.asPtr(v, x.X.Type())
			u.derefCheck(fr, st, p, x.Pos())
			r := u.load(st, p, x.Pos())
			u.set(fr, st, x, r)
		case token.NOT:
			u.set(fr, st, x, c.Not(T(x.X)))
		case token.SUB:
			t := T(x.X)
			if t.Sort == sInt {
				u.set(fr, st, x, c.Sub(c.Int(0), t))
			} else {
				u.set(fr, st, x, c.mk("-", "", t.Sort, c.Real("0.0"), t))
			}
		default:
			unsup("unary %s", x.Op)
		}
	case *ssa.BinOp:
		u.set(fr, st, x, u.binop(fr, st, x))
	case *ssa.ChangeType:
		u.set(fr, st, x, V(x.X))
	case *ssa.ChangeInterface:
		u.set(fr, st, x, V(x.X))
	case *ssa.Convert:
		u.set(fr, st, x, u.convert(fr, st, x))
	case *ssa.MakeInterface:
		v := V(x.X)
		iv := &IfcVal{T: x.X.Type(), V: v, Src: x.X, Fr: fr}
		if _, ok := v.(*Bad); ok {
			u.set(fr, st, x, v)
		} else {
			u.set(fr, st, x, iv)
		}
	case *ssa.MakeClosure:
		binds := make([]Val, len(x.Bindings))
		for i, b := range x.Bindings {
			binds[i] = V(b)
		}
		u.set(fr, st, x, &Clo{Fn: x.Fn.(*ssa.Function), Binds: binds})
	case *ssa.MakeMap:
		u.set(fr, st, x, c.Empty(u.st.Of(x.Type())))
	case *ssa.MakeSlice:
		s := u.st.Of(x.Type())
		n := T(x.Len)
		u.safe(fr, st, "make: negative length", x.Pos(), c.Le(c.Int(0), n))
		if s == sStr {
			u.set(fr, st, x, c.Fresh("bytes", sStr))
			return st
		}
		if k, ok := n.isInt(); ok && k == 0 {
			u.set(fr, st, x, c.Empty(s))
			return st
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		r := c.App("zeros", s, n, u.Zero(et))
		bi := c.BVar("i", sInt)
		u.fact(st.pc, c.And(c.Eq(c.Len(r), n), c.Not(c.IsNil(r))))
		if u.boundN == 0 {
			at := c.At(r, bi)
			u.axiomQ(c.Quant("forall", []*Term{bi}, c.Imp(c.And(c.Le(c.Int(0), bi), c.Lt(bi, n)), c.Eq(at, u.Zero(et))), [][]*Term{{at}}))
		}
		u.set(fr, st, x, r)
	case *ssa.FieldAddr:
		p := u.asPtr(V(x.X), x.X.Type())
		u.derefCheck(fr, st, p, x.Pos())
		np := *p
		np.Path = append(append([]PathEl(nil), p.Path...), PathEl{Field: x.Field})
		u.set(fr, st, x, &np)
	case *ssa.Field:
		v := T(x.X)
		if v.Sort.Kind != SStruct {
			u.set(fr, st, x, c.App("xfield."+x.X.Type().String()+"."+fmt.Sprint(x.Field), u.st.Of(x.Type()), v))
			return st
		}
		u.set(fr, st, x, c.Sel(v, x.Field))
	case *ssa.IndexAddr:
		idx := T(x.Index)
		switch xt := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := T(x.X)
			if s.Sort == sStr {
				u.safe(fr, st, "index out of range", x.Pos(), c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.StrLen(s))))
				cl := u.newCell(st, types.Typ[types.Byte], c.App("s.byte", sInt, s, idx))
				u.set(fr, st, x, &Ptr{Cell: cl, T: types.Typ[types.Byte]})
				return st
			}
			u.safe(fr, st, "index out of range", x.Pos(), c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Len(s))))
			if _, isC := x.X.(*ssa.Const); isC {
				unsup("index of constant")
			}
			u.set(fr, st, x, &Ptr{Reg: envKey{fr.id, x.X}, T: x.X.Type(), Path: []PathEl{{Field: -1, Idx: idx}}})
		case *types.Pointer: // array
			p := u.asPtr(V(x.X), x.X.Type())
			if at, ok := xt.Elem().Underlying().(*types.Array); ok {
				u.safe(fr, st, "index out of range", x.Pos(), c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(at.Len()))))
			}
			np := *p
			np.Path = append(append([]PathEl(nil), p.Path...), PathEl{Field: -1, Idx: idx})
			u.set(fr, st, x, &np)
		default:
			unsup("IndexAddr on %s", x.X.Type())
		}
	case *ssa.Index:
		s, idx := T(x.X), T(x.Index)
		if s.Sort == sStr {
			u.safe(fr, st, "index out of range", x.Pos(), c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.StrLen(s))))
			u.set(fr, st, x, c.App("s.byte", sInt, s, idx))
			return st
		}
		u.safe(fr, st, "index out of range", x.Pos(), c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Len(s))))
		u.set(fr, st, x, c.At(s, idx))
	case *ssa.Lookup:
		m := T(x.X)
		k := T(x.Index)
		if m.Sort == sStr {
			u.safe(fr, st, "index out of range", x.Pos(), c.And(c.Le(c.Int(0), k), c.Lt(k, c.StrLen(m))))
			u.set(fr, st, x, c.App("s.byte", sInt, m, k))
			return st
		}
		mt := x.X.Type().Underlying().(*types.Map)
		has := c.Has(m, k)
		v := c.Ite(has, c.Get(m, k), u.Zero(mt.Elem()))
		if x.CommaOk {
			u.set(fr, st, x, Tuple{v, has})
		} else {
			u.set(fr, st, x, v)
		}
	case *ssa.MapUpdate:
		m := T(x.Map)
		u.safe(fr, st, "assignment to nil map", x.Pos(), c.Not(c.IsNil(m)))
		u.writeRoot(st, envKey{fr.id, x.Map}, c.Put(m, T(x.Key), T(x.Value)))
	case *ssa.Range:
		xv := T(x.X)
		if xv.Sort == sStr {
			cell := u.newCell(st, types.Typ[types.Int], c.Int(0))
			u.set(fr, st, x, &Iter{Cell: cell, M: xv, Str: true})
			return st
		}
		ks := c.App("keys", u.st.Seq(xv.Sort.Key), xv)
		if xv.Op == "norm" {
			ks = c.App("keys", u.st.Seq(xv.Sort.Key), xv.Args[0])
		}
		u.assume["map iteration order: one arbitrary but fixed enumeration per map value"] = true
		cell := u.newCell(st, types.Typ[types.Int], c.Int(0))
		u.fact(st.pc, c.Eq(c.Len(ks), c.Card(xv)))
		u.set(fr, st, x, &Iter{Cell: cell, M: xv, Keys: ks})
	case *ssa.Next:
		it, ok := V(x.Iter).(*Iter)
		if !ok {
			unsup("range iterator lost")
		}
		if it.Str {
			pos := u.term(st.cells[it.Cell])
			ok := c.Lt(pos, c.StrLen(it.M))
			w := c.App("runeWidth", sInt, it.M, pos)
			u.fact(st.pc, c.Imp(ok, c.And(c.Le(c.Int(1), w), c.Le(c.Add(pos, w), c.StrLen(it.M)))))
			u.setCell(st, it.Cell, c.Ite(ok, c.Add(pos, w), pos))
			u.set(fr, st, x, Tuple{ok, pos, c.App("runeAt", sInt, it.M, pos)})
			return st
		}
		pos := u.term(st.cells[it.Cell])
		more := c.Lt(pos, c.Len(it.Keys))
		k := c.At(it.Keys, pos)
		u.fact(c.And(st.pc, more), c.Has(it.M, k))
		u.setCell(st, it.Cell, c.Ite(more, c.Add(pos, c.Int(1)), pos))
		u.set(fr, st, x, Tuple{more, k, c.Get(it.M, k)})
	case *ssa.Extract:
		tv := V(x.Tuple)
		if b, ok := tv.(*Bad); ok {
			u.set(fr, st, x, b)
			return st
		}
		tp, ok := tv.(Tuple)
		if !ok {
			unsup("extract from %T", tv)
		}
		u.set(fr, st, x, tp[x.Index])
	case *ssa.Slice:
		u.sliceOp(fr, st, x)
	case *ssa.TypeAssert:
		u.typeAssert(fr, st, x)
	case *ssa.Call:
		res, st2 := u.call(fr, st, x, &x.Call)
		if st2 == nil {
			return nil
		}
		st = st2
		switch len(res) {
		case 0:
		case 1:
			u.set(fr, st, x, res[0])
		default:
			u.set(fr, st, x, Tuple(res))
		}
	case *ssa.Defer:
		args := []Val{}
		var fv Val
		if !x.Call.IsInvoke() {
			fv = V(x.Call.Value)
		} else {
			fv = V(x.Call.Value)
		}
		for _, a := range x.Call.Args {
			args = append(args, V(a))
		}
		fr.defers = append(fr.defers, deferred{pc: st.pc, call: x, st: args, fnv: fv})
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if d.call.Call.IsInvoke() {
				continue
			}
			f := d.call.Call.StaticCallee()
			if f == nil {
				if cl, ok := d.fnv.(*Clo); ok {
					f = cl.Fn
				}
			}
			if f == nil || (f.Pkg != nil && !u.eng.inRepo(f)) {
				continue // e.g. file.Close(): no modelled effect
			}
			var binds []Val
			if cl, ok := d.fnv.(*Clo); ok {
				binds = cl.Binds
			}
			taken := st.clone()
			taken.pc = c.And(st.pc, d.pc)
			if taken.pc == c.False {
				continue
			}
			_, s2 := u.callFn(fr, taken, f, d.st, binds, nil, d.call.Pos())
			other := st
			other.pc = c.And(st.pc, c.Not(d.pc))
			if s2 == nil {
				st = other
			} else if other.pc == c.False {
				st = s2
			} else {
				st = u.mergeStates([]*State{s2, other})
			}
		}
	case *ssa.Go:
		unsup("go statement")
	case *ssa.Send, *ssa.Select:
		unsup("channels")
	default:
		unsup("instruction %T", ins)
	}
	return st
}

func (u *Unit) zeroVal(t types.Type) Val {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		switch n.String() {
		case "golang.org/x/sync/errgroup.Group":
			return &Obj{Kind: "errgroup"}
		}
	}
	return u.Zero(t)
}

// axiomQ records a quantified fact that holds unconditionally.
func (u *Unit) axiomQ(t *Term) {
	if u.dry > 0 || u.boundN > 0 {
		return
	}
	if t.bnd {
		return
	}
	u.facts = append(u.facts, Fact{T: t})
}

func (u *Unit) global(st *State, g *ssa.Global) Val {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if v, ok := st.ghosts["glob:"+g.String()]; ok {
		return v
	}
	if v := u.eng.globalInit(u, g); v != nil {
		return v
	}
	v := u.c.Var("glob:"+g.String(), u.st.Of(t))
	if v.Sort == sIfc {
		// package-level errors and streams are initialised, never nil
		if u.dry == 0 && u.boundN == 0 {
			u.facts = append(u.facts, Fact{T: u.c.Not(u.c.Eq(v, u.c.App("ifc.nil", sIfc)))})
			u.assume["package-level error and stream variables are non-nil and not reassigned"] = true
		}
	}
	return v
}

func (u *Unit) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	c := u.c
	a, b := u.val(st, fr.id, x.X), u.val(st, fr.id, x.Y)
	xt := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		r := u.goEq(st, a, b, xt, x.Y.Type())
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	ta, tb := u.term(a), u.term(b)
	switch x.Op {
	case token.ADD:
		if ta.Sort == sStr {
			return c.Cat(ta, tb)
		}
		if ta.Sort == sReal {
			return c.mk("+", "", sReal, ta, tb)
		}
		return c.Add(ta, tb)
	case token.SUB:
		return c.Sub(ta, tb)
	case token.MUL:
		return c.Mul(ta, tb)
	case token.QUO, token.REM:
		if ta.Sort == sInt {
			u.safe(fr, st, "division by zero", x.Pos(), c.Not(c.Eq(tb, c.Int(0))))
			// exact for non-negative operands; otherwise left uninterpreted
			nn := c.And(c.Le(c.Int(0), ta), c.Lt(c.Int(0), tb))
			op := "div"
			un := "goquo"
			if x.Op == token.REM {
				op, un = "mod", "gorem"
			}
			return c.Ite(nn, c.mk(op, "", sInt, ta, tb), c.App(un, sInt, ta, tb))
		}
		return c.App("fdiv", sReal, ta, tb)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.Op == token.GTR || x.Op == token.GEQ {
			ta, tb = tb, ta
		}
		strict := x.Op == token.LSS || x.Op == token.GTR
		if ta.Sort == sStr {
			if strict {
				return u.strLt(ta, tb)
			}
			return c.Not(u.strLt(tb, ta))
		}
		if strict {
			return c.Lt(ta, tb)
		}
		return c.Le(ta, tb)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if ta.Sort == sBool {
			if x.Op == token.AND {
				return c.And(ta, tb)
			}
			return c.Or(ta, tb)
		}
		if m, ok := ta.isInt(); ok {
			if n, ok := tb.isInt(); ok {
				switch x.Op {
				case token.OR:
					return c.Int(m | n)
				case token.AND:
					return c.Int(m & n)
				}
			}
		}
		return c.App("bit"+x.Op.String(), sInt, ta, tb)
	}
	unsup("binary %s", x.Op)
	return nil
}

func (u *Unit) strLt(a, b *Term) *Term {
	if a == b {
		return u.c.False
	}
	if x, ok := a.isStr(); ok {
		if y, ok := b.isStr(); ok {
			return u.c.Bool(x < y)
		}
	}
	return u.c.App("s.lt", sBool, a, b)
}

func isNilVal(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func (u *Unit) goEq(st *State, a, b Val, ta, tb types.Type) *Term {
	c := u.c
	// pointers to locals are never nil
	pa, oka := a.(*Ptr)
	pb, okb := b.(*Ptr)
	if oka && okb {
		if valEq(pa, pb) {
			return c.True
		}
		if pa.Ref == nil || pb.Ref == nil {
			return c.False
		}
	}
	if oka && pa.Ref == nil || okb && pb.Ref == nil {
		return c.False
	}
	if _, ok := a.(*Obj); ok {
		if t, ok := b.(*Term); ok && t.Op == "int" {
			return c.False
		}
	}
	if _, ok := b.(*Obj); ok {
		if t, ok := a.(*Term); ok && t.Op == "int" {
			return c.False
		}
	}
	if ia, ok := a.(*IfcVal); ok {
		if t, ok := b.(*Term); ok && t.Op == "app" && t.Lit == "ifc.nil" {
			_ = ia
			return c.False
		}
	}
	if ib, ok := b.(*IfcVal); ok {
		if t, ok := a.(*Term); ok && t.Op == "app" && t.Lit == "ifc.nil" {
			_ = ib
			return c.False
		}
	}
	if ca, ok := a.(*Clo); ok {
		if t, ok := b.(*Term); ok && t.Op == "app" && t.Lit == "fn.nil" {
			_ = ca
			return c.False
		}
	}
	x, y := u.term(a), u.term(b)
	if x.Sort.Kind == SSeq || x.Sort.Kind == SMap {
		if y.Op == "nil" {
			return c.IsNil(x)
		}
		if x.Op == "nil" {
			return c.IsNil(y)
		}
	}
	if x.Sort == sStr {
		if _, ok := ta.Underlying().(*types.Slice); ok {
			// []byte compared with nil
			return c.App("bytesnil", sBool, x)
		}
	}
	if x.Sort.Kind == SStruct {
		return u.deepEq(x, y, false)
	}
	return c.Eq(x, y)
}

// deepEq: structural equality; with mod=true it ignores nil versus empty.
func (u *Unit) deepEq(a, b *Term, mod bool) *Term {
	c := u.c
	if a == b {
		return c.True
	}
	switch a.Sort.Kind {
	case SStruct:
		if !mod {
			return c.Eq(a, b)
		}
		has := false
		for _, f := range a.Sort.Fields {
			if f.Sort.Kind == SSeq || f.Sort.Kind == SMap || f.Sort.Kind == SStruct {
				has = true
			}
		}
		if !has {
			return c.Eq(a, b)
		}
		var cs []*Term
		for i := range a.Sort.Fields {
			cs = append(cs, u.deepEq(c.Sel(a, i), c.Sel(b, i), mod))
		}
		return c.And(cs...)
	case SSeq, SMap:
		if mod {
			return c.Eq(c.Norm(a), c.Norm(b))
		}
	}
	return c.Eq(a, b)
}

func (u *Unit) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	c := u.c
	v := u.val(st, fr.id, x.X)
	from, to := u.st.Of(x.X.Type()), u.st.Of(x.Type())
	if from == to {
		if from == sStr || from == sInt && true || from == sReal || from == sBool {
			if from == sInt {
				if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
					return v
				}
			}
			return u.term(v)
		}
		return v
	}
	t := u.term(v)
	switch {
	case from == sInt && to == sReal:
		return c.mk("i2r", "", sReal, t)
	case from == sReal && to == sInt:
		return c.mk("r2i", "", sInt, t) // exact for non-negative values
	case from == sInt && to == sStr:
		return c.App("runeToString", sStr, t)
	}
	return c.App("conv:"+typeShort(x.X.Type())+">"+typeShort(x.Type()), to, t)
}

func (u *Unit) sliceOp(fr *Frame, st *State, x *ssa.Slice) {
	c := u.c
	var s *Term
	pv := u.val(st, fr.id, x.X)
	if p, ok := pv.(*Ptr); ok {
		s = u.term(u.load(st, p, x.Pos()))
	} else if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
		s = u.term(u.load(st, u.asPtr(pv, x.X.Type()), x.Pos()))
	} else {
		s = u.term(pv)
	}
	ln := func() *Term {
		if s.Sort == sStr {
			return c.StrLen(s)
		}
		return c.Len(s)
	}
	lo, hi := c.Int(0), ln()
	if x.Low != nil {
		lo = u.term(u.val(st, fr.id, x.Low))
	}
	if x.High != nil {
		hi = u.term(u.val(st, fr.id, x.High))
	}
	u.safe(fr, st, "slice bounds", x.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, ln())))
	if s.Sort == sStr {
		u.set(fr, st, x, u.substr(st, s, lo, hi))
		return
	}
	if x.High != nil && x.Low == nil || x.High != nil {
		// s[:n] may reach into capacity in Go; the obligation above is stricter (hi <= len)
		_ = 0
	}
	u.set(fr, st, x, c.SubSeq(s, lo, hi))
}

func (u *Unit) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) {
	c := u.c
	v := u.val(st, fr.id, x.X)
	_, toIfc := x.AssertedType.Underlying().(*types.Interface)
	if iv, ok := v.(*IfcVal); ok {
		match := false
		if toIfc {
			match = types.Implements(iv.T, x.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(iv.T, x.AssertedType)
		}
		var r Val
		if match {
			if toIfc {
				r = iv
			} else {
				r = iv.V
			}
		} else {
			r = u.Zero(x.AssertedType)
		}
		if x.CommaOk {
			u.set(fr, st, x, Tuple{r, c.Bool(match)})
		} else {
			u.safe(fr, st, "type assertion", x.Pos(), c.Bool(match))
			u.set(fr, st, x, r)
		}
		return
	}
	t := u.term(v)
	var ok, r *Term
	if toIfc {
		ok = c.App("implements:"+typeKey(x.AssertedType), sBool, t)
		r = t
	} else {
		k := typeKey(x.AssertedType)
		ok = c.Eq(c.App("tag", sInt, t), c.Int(int64(u.tagOf(k))))
		r = c.App("unbox:"+k, u.st.Of(x.AssertedType), t)
		// make sure the box axioms are emitted for this type
		u.axiom(c.Imp(ok, c.Eq(c.App("box:"+k, sIfc, r), t)))
	}
	if x.CommaOk {
		u.set(fr, st, x, Tuple{c.Ite(ok, r, u.Zero(x.AssertedType)), ok})
	} else {
		u.safe(fr, st, "type assertion", x.Pos(), ok)
		u.set(fr, st, x, r)
	}
}

func sortedCells(m map[int]bool) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

var _ = strings.Contains
