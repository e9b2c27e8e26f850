package main

// Loops: modified-state analysis by dry runs, Houdini candidates, and the
// cut at the header.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type slot struct {
	name  string
	T     types.Type
	S     *Sort
	get   func(st *State) *Term
	src   bool // loop-invariant value
	outer bool
}

type loopCtx struct {
	fr    *Frame
	slots []slot
	heads []*Term // their values at the loop head
}

type candSpec struct {
	name string
	auto bool
	eval func(st *State) *Term
}

func copyInc(m map[*ssa.BasicBlock][]edge) map[*ssa.BasicBlock][]edge {
	n := map[*ssa.BasicBlock][]edge{}
	for k, v := range m {
		n[k] = append([]edge(nil), v...)
	}
	return n
}

func (m *modset) merge(o *modset) {
	for k := range o.cells {
		m.cells[k] = true
	}
	for k := range o.heaps {
		m.heaps[k] = true
	}
	for k := range o.ghosts {
		m.ghosts[k] = true
	}
	for k := range o.regs {
		m.regs[k] = true
	}
	m.alloc = m.alloc || o.alloc
}

func (u *Unit) havocVal(hint string, entry Val, back Val, haveBack bool, t types.Type) Val {
	switch x := entry.(type) {
	case *Term:
		return u.c.Fresh(hint, x.Sort)
	case *Ptr:
		if haveBack && valEq(entry, back) {
			return entry
		}
		if x.Ref != nil && len(x.Path) == 0 {
			return &Ptr{Ref: u.c.Fresh(hint, sInt), T: x.T}
		}
	case *IfcVal:
		if haveBack && valEq(entry, back) {
			return entry
		}
		return u.c.Fresh(hint, sIfc)
	case Tuple:
		return u.bad("tuple in loop state")
	}
	if !haveBack || valEq(entry, back) {
		return entry
	}
	return u.bad("loop-carried %T", entry)
}

func (u *Unit) execLoop(fr *Frame, li *loopInfo, l *loop, es []edge) {
	c := u.c
	u.nloops++
	if u.nloops > 4000 {
		unsup("too many loop analyses")
	}
	S0 := u.join(fr, l.head, es)
	if S0.pc == c.False {
		return
	}
	if u.unroll(fr, li, l, S0) {
		return
	}
	var phis []*ssa.Phi
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	mod := newMod(u.cellN)
	back := map[envKey]Val{}
	backCells := map[int]Val{}
	haveBack := false
	savedInc, savedDef := copyInc(fr.inc), len(fr.defers)

	header := func() *State {
		H := S0.clone()
		for _, p := range phis {
			k := envKey{fr.id, p}
			H.env[k] = u.havocVal(phiName(p), S0.env[k], back[k], haveBack, p.Type())
		}
		for _, cl := range sortedCells(mod.cells) {
			if v, ok := S0.cells[cl]; ok {
				b, hb := backCells[cl]
				H.cells[cl] = u.havocVal(fmt.Sprintf("cell%d", cl), v, b, hb, u.cellT[cl])
			}
		}
		for k := range mod.heaps {
			s := u.heapT[k]
			H.heaps[k] = c.Fresh("H."+k, s)
		}
		for k := range mod.ghosts {
			if g, ok := S0.ghosts[k]; ok {
				H.ghosts[k] = c.Fresh("G."+k, g.Sort)
			} else {
				H.ghosts[k] = c.Fresh("G."+k, u.ghostSort(k))
			}
		}
		for k := range mod.regs {
			if v, ok := S0.env[k]; ok {
				if _, isPhi := k.v.(*ssa.Phi); isPhi && k.fr == fr.id && k.v.(*ssa.Phi).Block() == l.head {
					continue
				}
				H.env[k] = u.havocVal(k.v.Name(), v, nil, false, k.v.Type())
			}
		}
		if mod.alloc {
			H.alloc = c.Fresh("alloc", sInt)
			u.fact(c.True, c.Le(H.alloc, S0.alloc))
		}
		return H
	}
	body := func(H *State) *State {
		delete(fr.inc, l.head)
		u.block(fr, li, l, l.head, H)
		u.region(fr, li, l, li.rpo)
		be := fr.inc[l.head]
		delete(fr.inc, l.head)
		if len(be) == 0 {
			return nil
		}
		return u.join(fr, l.head, be)
	}
	for iter := 0; ; iter++ {
		n := mod.size()
		H := header()
		m2 := newMod(mod.mark)
		u.recs = append(u.recs, m2)
		u.dry++
		B := body(H)
		u.dry--
		u.recs = u.recs[:len(u.recs)-1]
		mod.merge(m2)
		changedBack := false
		if B != nil {
			haveBack = true
			for _, p := range phis {
				k := envKey{fr.id, p}
				if old, ok := back[k]; !ok || !valEq(old, B.env[k]) {
					if _, isT := S0.env[k].(*Term); !isT {
						changedBack = changedBack || !ok
					}
				}
				back[k] = B.env[k]
			}
			for cl := range mod.cells {
				if _, isT := S0.cells[cl].(*Term); !isT {
					if _, ok := backCells[cl]; !ok {
						changedBack = true
					}
				}
				backCells[cl] = B.cells[cl]
			}
		}
		if mod.size() == n && !changedBack || iter > 6 {
			break
		}
		fr.inc = copyInc(savedInc)
		fr.defers = fr.defers[:savedDef]
	}
	// propagate to enclosing recorders (this loop's changes belong to them too)
	for _, r := range u.recs {
		for cl := range mod.cells {
			if cl <= r.mark {
				r.cells[cl] = true
			}
		}
		for k := range mod.heaps {
			r.heaps[k] = true
		}
		for k := range mod.ghosts {
			r.ghosts[k] = true
		}
		for k := range mod.regs {
			r.regs[k] = true
		}
		r.alloc = r.alloc || mod.alloc
	}
	if u.dry > 0 {
		return
	}
	fr.inc = copyInc(savedInc)
	fr.defers = fr.defers[:savedDef]

	H := header()
	ctx := &loopCtx{fr: fr}
	ctx.slots = u.loopSlots(fr, l, phis, mod, S0, H)
	var specs []candSpec
	if u.pureN == 0 {
		specs = u.autoCands(fr, l, phis, mod, S0, ctx)
		specs = append(specs, u.templCands(fr, l, S0, ctx)...)
	} else {
		unsup("loop in a specification")
	}
	type live struct {
		cand *Cand
		sp   candSpec
	}
	var lives []live
	seen := map[*Term]bool{}
	where := fmt.Sprintf("%s loop@%s#%d", fr.fn.Name(), u.eng.pos(loopPos(l)), l.head.Index)
	for _, sp := range specs {
		hT := u.evalCand(sp, H)
		if hT == nil || hT == c.True || seen[hT] {
			continue
		}
		seen[hT] = true
		e := u.evalCand(sp, S0)
		if e == nil {
			continue
		}
		g := c.Imp(S0.pc, e)
		if g == c.False || e == c.False {
			continue
		}
		cd := &Cand{Name: sp.name + " @ " + where, Alive: true, Auto: sp.auto}
		if g != c.True {
			o := &Obl{Name: cd.Name, Kind: "inv-init", Goal: g, NFacts: len(u.facts), Head: u.lastHead, Cand: cd, Pos: u.eng.pos(loopPos(l))}
			cd.Obls = append(cd.Obls, o)
		}
		lives = append(lives, live{cd, sp})
		u.cands = append(u.cands, cd)
	}
	head := len(u.facts)
	u.lastHead = head
	for _, lv := range lives {
		hT := u.evalCand(lv.sp, H)
		u.facts = append(u.facts, Fact{T: c.Imp(H.pc, hT), Cand: lv.cand})
	}
	ctx.heads = nil
	for _, s := range ctx.slots {
		ctx.heads = append(ctx.heads, s.get(H))
	}
	u.loops = append(u.loops, ctx)
	B := body(H)
	u.lastHead = head
	u.loops = u.loops[:len(u.loops)-1]
	if B == nil {
		return
	}
	for _, lv := range lives {
		bT := u.evalCand(lv.sp, B)
		if bT == nil {
			lv.cand.Alive = false
			continue
		}
		g := c.Imp(B.pc, bT)
		if g == c.True {
			continue
		}
		o := &Obl{Name: lv.cand.Name, Kind: "inv-keep", Goal: g, NFacts: len(u.facts), Head: head, Cand: lv.cand, Pos: u.eng.pos(loopPos(l))}
		lv.cand.Obls = append(lv.cand.Obls, o)
	}
}

const maxUnroll = 12

// unroll runs a loop whose number of rounds is a constant (a range over a
// literal list) round by round; no invariant is needed for it.
func (u *Unit) unroll(fr *Frame, li *loopInfo, l *loop, S0 *State) bool {
	c := u.c
	// whether the loop goes on, when the header decides that by itself
	test := func(st *State) *Term {
		inc, defs, rets := copyInc(fr.inc), len(fr.defers), len(fr.rets)
		defer func() { fr.inc, fr.defers, fr.rets = inc, fr.defers[:defs], fr.rets[:rets] }()
		iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		for _, ins := range l.head.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef:
			case *ssa.Call:
				if b, ok := ins.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return nil
				}
			default:
				return nil
			}
		}
		s := st.clone()
		u.dry++
		defer func() { u.dry-- }()
		for _, ins := range l.head.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.If, *ssa.DebugRef:
				continue
			}
			if s2 := u.instr(fr, s, ins); s2 != nil {
				s = s2
			}
		}
		r, ok := u.val(s, fr.id, iff.Cond).(*Term)
		if !ok {
			return nil
		}
		if l.blocks[l.head.Succs[0]] {
			return r
		}
		return c.Not(r)
	}
	if t := test(S0); t != c.True {
		return false
	}
	inc, defs, rets, obls, cands := copyInc(fr.inc), len(fr.defers), len(fr.rets), len(u.obls), len(u.cands)
	H := S0
	for k := 0; ; k++ {
		t := test(H)
		if k > maxUnroll || t != c.True && t != c.False {
			fr.inc, fr.defers, fr.rets = inc, fr.defers[:defs], fr.rets[:rets]
			u.obls, u.cands = u.obls[:obls], u.cands[:cands]
			return false
		}
		delete(fr.inc, l.head)
		u.block(fr, li, l, l.head, H)
		u.region(fr, li, l, li.rpo)
		be := fr.inc[l.head]
		delete(fr.inc, l.head)
		if len(be) == 0 {
			return true
		}
		H = u.join(fr, l.head, be)
	}
}

func loopPos(l *loop) token.Pos {
	for _, ins := range l.head.Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() {
				return ins.Pos()
			}
		}
	}
	return token.NoPos
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (u *Unit) ghostSort(k string) *Sort {
	if s, ok := u.logs[k]; ok {
		return s
	}
	if k == "out" {
		return u.st.Map(sIfc, sStr)
	}
	if strings.HasPrefix(k, "glob:") {
		for _, p := range u.eng.spkgs {
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok && "glob:"+g.String() == k {
					return u.st.Of(g.Type().Underlying().(*types.Pointer).Elem())
				}
			}
		}
	}
	switch k {
	case "net", "http.req", "http.resp":
		return sInt
	case "written", "http.hdr", "http.sent":
		return u.st.Map(sStr, sStr)
	case "eg", "http.err", "fs.werr":
		return sIfc
	}
	unsup("ghost %s", k)
	return nil
}

// evalCand evaluates a candidate in a state; nil when it does not apply.
func (u *Unit) evalCand(sp candSpec, st *State) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(Unsup); ok {
				if os.Getenv("GOVC_TRACE") != "" && !sp.auto {
					fmt.Fprintln(os.Stderr, "candidate", sp.name, x)
				}
				r = nil
				return
			}
			panic(e)
		}
	}()
	u.pureN++
	defer func() { u.pureN-- }()
	b := u.boundN
	defer func() { u.boundN = b }()
	return sp.eval(st)
}

func (u *Unit) loopSlots(fr *Frame, l *loop, phis []*ssa.Phi, mod *modset, S0, H *State) []slot {
	var out []slot
	add := func(name string, t types.Type, s *Sort, get func(st *State) *Term) {
		out = append(out, slot{name: name, T: t, S: s, get: get})
	}
	termOf := func(v Val) *Term {
		switch x := v.(type) {
		case *Term:
			return x
		case *Ptr:
			if x.Ref != nil && len(x.Path) == 0 {
				return x.Ref
			}
		case *IfcVal:
			if p, ok := x.V.(*Ptr); ok && p.Ref == nil {
				return nil
			}
			return u.term(x)
		}
		return nil
	}
	for _, p := range phis {
		k := envKey{fr.id, p}
		t, ok := H.env[k].(*Term)
		if !ok {
			if pp, ok2 := H.env[k].(*Ptr); ok2 && pp.Ref != nil {
				t = pp.Ref
			} else {
				continue
			}
		}
		add(phiName(p), p.Type(), t.Sort, func(st *State) *Term { return termOf(st.env[k]) })
		if t.Sort == sInt && isIntType(p.Type()) {
			add(phiName(p)+"+1", p.Type(), t.Sort, func(st *State) *Term { return u.c.Add(termOf(st.env[k]), u.c.Int(1)) })
		}
		if t.Sort.Kind == SStruct {
			u.fieldSlots(&out, phiName(p), p.Type(), t.Sort, func(st *State) *Term { return termOf(st.env[k]) })
		}
	}
	for _, cl := range sortedCells(mod.cells) {
		t, ok := H.cells[cl].(*Term)
		if !ok {
			continue
		}
		get := func(st *State) *Term {
			if v, ok := st.cells[cl]; ok {
				return termOf(v)
			}
			return nil
		}
		add(fmt.Sprintf("cell%d", cl), u.cellT[cl], t.Sort, get)
		if t.Sort.Kind == SStruct {
			u.fieldSlots(&out, fmt.Sprintf("cell%d", cl), u.cellT[cl], t.Sort, get)
		}
	}
	for k := range mod.regs {
		if v, ok := H.env[k].(*Term); ok {
			if _, isPhi := k.v.(*ssa.Phi); isPhi && k.fr == fr.id && k.v.(*ssa.Phi).Block() == l.head {
				continue
			}
			add("reg:"+k.v.Name(), k.v.Type(), v.Sort, func(st *State) *Term { return termOf(st.env[k]) })
		}
	}
	// slots of enclosing loops (same unit): fixed during this loop
	for i := len(u.loops) - 1; i >= 0; i-- {
		for si, s := range u.loops[i].slots {
			if s.src {
				continue
			}
			var cn int
			inner := false
			for k := range mod.regs {
				if "reg:"+k.v.Name() == s.name && k.fr == u.loops[i].fr.id {
					inner = true
				}
			}
			if inner && si < len(u.loops[i].heads) {
				if v := u.loops[i].heads[si]; v != nil {
					s.get = func(*State) *Term { return v }
				}
			} else if n, _ := fmt.Sscanf(s.name, "cell%d", &cn); n == 1 && mod.cells[cn] && si < len(u.loops[i].heads) {
				// this loop changes it too: what it was at the head of the enclosing one
				if v := u.loops[i].heads[si]; v != nil {
					s.get = func(*State) *Term { return v }
				}
			}
			if !s.outer {
				s.outer = true
				s.name = fmt.Sprintf("out%d:%s", len(u.loops)-1-i, s.name)
			} else {
				continue
			}
			out = append(out, s)
		}
	}
	// loop-invariant values of the frame, for template parameters named src*
	for k, v := range S0.env {
		if k.fr != fr.id {
			continue
		}
		if ins, ok := k.v.(ssa.Instruction); ok && l.blocks[ins.Block()] {
			continue
		}
		if mod.regs[k] {
			continue
		}
		t, ok := v.(*Term)
		if !ok || t.isLit() {
			continue
		}
		out = append(out, slot{name: "src:" + k.v.Name(), T: k.v.Type(), S: t.Sort, src: true, get: func(st *State) *Term { return t }})
	}
	return out
}

func (u *Unit) fieldSlots(out *[]slot, name string, t types.Type, s *Sort, get func(st *State) *Term) {
	str, ok := t.Underlying().(*types.Struct)
	if !ok || len(*out) > 60 {
		return
	}
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		*out = append(*out, slot{name: name + "." + f.Name(), T: f.Type(), S: s.Fields[i].Sort, get: func(st *State) *Term {
			b := get(st)
			if b == nil {
				return nil
			}
			return u.c.Sel(b, i)
		}})
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isPtrType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (u *Unit) autoCands(fr *Frame, l *loop, phis []*ssa.Phi, mod *modset, S0 *State, ctx *loopCtx) []candSpec {
	c := u.c
	var out []candSpec
	add := func(name string, f func(st *State) *Term) { out = append(out, candSpec{name, true, f}) }
	var ints, seqs []slot
	for _, s := range ctx.slots {
		if s.src || s.outer {
			continue
		}
		if s.S == sInt && isIntType(s.T) && !strings.HasSuffix(s.name, "+1") {
			ints = append(ints, s)
		}
		if s.S.Kind == SSeq || s.S.Kind == SMap {
			seqs = append(seqs, s)
		}
	}
	if u.inSubj > 0 && u.preHeaps != nil {
		for _, k := range sortedKeys(mod.heaps) {
			add("frame "+k, func(st *State) *Term { return u.frameGoal(k, u.heapOf(st, k)) })
		}
	}
	for _, s := range ints {
		e := s.get(S0)
		if e == nil {
			continue
		}
		if n, ok := e.isInt(); ok {
			add(fmt.Sprintf("%d <= %s", n, s.name), func(st *State) *Term { return c.Le(e, s.get(st)) })
		} else {
			add("entry <= "+s.name, func(st *State) *Term { return c.Le(e, s.get(st)) })
		}
	}
	// upper bounds from the header comparison
	for _, ins := range l.head.Instrs {
		b, ok := ins.(*ssa.BinOp)
		if !ok {
			continue
		}
		var x, y ssa.Value
		strict := false
		switch b.Op {
		case token.LSS:
			x, y, strict = b.X, b.Y, true
		case token.LEQ:
			x, y = b.X, b.Y
		case token.GTR:
			x, y, strict = b.Y, b.X, true
		default:
			continue
		}
		if !isIntType(x.Type()) {
			continue
		}
		ev := u.headerEval(fr, l, y)
		ex := u.headerEval(fr, l, x)
		if ev == nil || ex == nil {
			continue
		}
		_ = strict
		add("header bound", func(st *State) *Term {
			a, b := ex(st), ev(st)
			if a == nil || b == nil {
				return nil
			}
			return c.Le(a, b)
		})
	}
	// the same for loops that test at the end
	for _, p := range l.head.Preds {
		if !l.blocks[p] || p == l.head {
			continue
		}
		for _, ins := range p.Instrs {
			b, ok := ins.(*ssa.BinOp)
			if !ok || b.Op != token.LSS || !isIntType(b.X.Type()) {
				continue
			}
			ev := u.headerEval(fr, l, b.Y)
			if ev == nil {
				continue
			}
			for _, pi := range l.head.Instrs {
				ph, ok := pi.(*ssa.Phi)
				if !ok {
					break
				}
				for k, q := range l.head.Preds {
					if q == p && ph.Edges[k] == b.X {
						ex := u.headerEval(fr, l, ph)
						if ex == nil {
							continue
						}
						add("latch bound", func(st *State) *Term {
							a, b := ex(st), ev(st)
							if a == nil || b == nil {
								return nil
							}
							return c.Lt(a, b)
						})
					}
				}
			}
		}
	}
	// iterators
	for cl := range mod.cells {
		for _, v := range S0.env {
			if it, ok := v.(*Iter); ok && it.Cell == cl {
				n := c.StrLen(it.M)
				if !it.Str {
					n = c.Len(it.Keys)
				}
				add("iterator bound", func(st *State) *Term { return c.Le(u.term(st.cells[cl]), n) })
			}
			if ob, ok := v.(*Obj); ok && ob.Cell == cl && ob.Data["lines"] != nil {
				add("reader bound", func(st *State) *Term { return c.Le(u.term(st.cells[cl]), c.Len(ob.Data["lines"])) })
			}
		}
	}
	for _, s := range seqs {
		add("not nil "+s.name, func(st *State) *Term { return c.Not(c.IsNil(s.get(st))) })
		if s.S.Kind == SSeq {
			if strings.HasPrefix(s.name, "reg:") {
				e := c.Len(s.get(S0))
				add("len unchanged "+s.name, func(st *State) *Term { return c.Eq(c.Len(s.get(st)), e) })
			}
			for _, i := range ints {
				e := s.get(S0)
				add("len "+s.name+" = "+i.name+"+k", func(st *State) *Term {
					e0 := i.get(S0)
					return c.Eq(c.Sub(c.Len(s.get(st)), c.Len(e)), c.Sub(i.get(st), e0))
				})
			}
		}
	}
	// unchanged fields of modified structs
	for _, s := range ctx.slots {
		if s.src || s.outer || !strings.Contains(s.name, ".") {
			continue
		}
		e := s.get(S0)
		if e == nil {
			continue
		}
		add("unchanged "+s.name, func(st *State) *Term { return c.Eq(s.get(st), e) })
	}
	for k := range mod.heaps {
		h0, ok := S0.heaps[k]
		if !ok {
			h0 = c.Var("H0."+k, u.heapT[k])
		}
		a0 := S0.alloc
		add("only fresh objects change in heap "+k, func(st *State) *Term {
			bv := c.BVar("r", sInt)
			h := u.heapOf(st, k)
			if h == h0 {
				return c.True
			}
			at := c.mk("select", "", h.Sort.Elem, h, bv)
			return c.Quant("forall", []*Term{bv}, c.Imp(c.Lt(a0, bv), c.Eq(at, c.mk("select", "", h.Sort.Elem, h0, bv))), [][]*Term{{at}})
		})
	}
	return out
}

// headerEval finds how to evaluate a value used in the loop header in an
// arbitrary header state.
func (u *Unit) headerEval(fr *Frame, l *loop, v ssa.Value) func(st *State) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		t, ok := u.constVal(x).(*Term)
		if !ok {
			return nil
		}
		return func(*State) *Term { return t }
	case *ssa.BinOp:
		if l.blocks[x.Block()] {
			a, b := u.headerEval(fr, l, x.X), u.headerEval(fr, l, x.Y)
			if a == nil || b == nil {
				return nil
			}
			switch x.Op {
			case token.ADD:
				return func(st *State) *Term {
					p, q := a(st), b(st)
					if p == nil || q == nil || p.Sort != sInt {
						return nil
					}
					return u.c.Add(p, q)
				}
			case token.SUB:
				return func(st *State) *Term {
					p, q := a(st), b(st)
					if p == nil || q == nil || p.Sort != sInt {
						return nil
					}
					return u.c.Sub(p, q)
				}
			}
			return nil
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && l.blocks[x.Block()] {
			a := u.headerEval(fr, l, x.Call.Args[0])
			if a == nil {
				return nil
			}
			return func(st *State) *Term {
				t := a(st)
				if t == nil {
					return nil
				}
				if t.Sort == sStr {
					return u.c.StrLen(t)
				}
				if t.Sort.Kind == SSeq {
					return u.c.Len(t)
				}
				return nil
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && l.blocks[x.Block()] {
			return func(st *State) *Term {
				pv, ok := st.env[envKey{fr.id, x.X}]
				if !ok {
					return nil
				}
				p, ok := pv.(*Ptr)
				if !ok {
					return nil
				}
				t, _ := u.load(st, p, token.NoPos).(*Term)
				return t
			}
		}
	}
	if ins, ok := v.(ssa.Instruction); ok && l.blocks[ins.Block()] {
		if _, isPhi := v.(*ssa.Phi); !isPhi || ins.Block() != l.head {
			return nil
		}
	}
	return func(st *State) *Term {
		t, _ := st.env[envKey{fr.id, v}].(*Term)
		return t
	}
}

// templCands binds the parameters of every vs.Inv template to the loop's slots.
func (u *Unit) templCands(fr *Frame, l *loop, S0 *State, ctx *loopCtx) []candSpec {
	var out []candSpec
	for ti, cl := range u.templ {
		ps := cl.Fn.Params
		opts := make([][]slot, len(ps))
		ok := true
		for i, p := range ps {
			want := u.st.Of(p.Type())
			src := strings.HasPrefix(p.Name(), "src")
			anyOuter := strings.HasPrefix(p.Name(), "out")
			for _, s := range ctx.slots {
				if s.src != src || s.S != want || isPtrType(s.T) != isPtrType(p.Type()) {
					continue
				}
				if s.outer && !anyOuter && !src || anyOuter && !s.outer {
					continue
				}
				if p.Name() == "code" && (strings.Contains(s.name, "rangeindex") || strings.HasSuffix(s.name, "+1")) {
					continue // no position
				}
				if len(p.Name()) == 1 && s.S == sInt && u.opts["range loops"] && !strings.Contains(s.name, "rangeindex") {
					continue
				}
				opts[i] = append(opts[i], s)
			}
			if len(opts[i]) == 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		n := 0
		idx := make([]int, len(ps))
		for {
			bound := make([]slot, len(ps))
			dup := false
			for i := range ps {
				bound[i] = opts[i][idx[i]]
				for j := 0; j < i; j++ {
					if bound[j].name == bound[i].name {
						dup = true
					}
				}
			}
			if !dup {
				n++
				var ns []string
				for i, b := range bound {
					ns = append(ns, ps[i].Name()+"="+b.name)
				}
				out = append(out, candSpec{name: fmt.Sprintf("inv%d(%s)", ti, strings.Join(ns, ",")), eval: func(st *State) *Term {
					args := make([]Val, len(bound))
					for i, b := range bound {
						t := b.get(st)
						if t == nil {
							return nil
						}
						args[i] = t
					}
					return u.evalClo(cl, args, st)
				}})
			}
			k := len(ps) - 1
			for k >= 0 {
				idx[k]++
				if idx[k] < len(opts[k]) {
					break
				}
				idx[k] = 0
				k--
			}
			if k < 0 || n >= 160 {
				break
			}
		}
	}
	return out
}

// evalClo evaluates a pure boolean or value closure in a state.
func (u *Unit) evalClo(cl *Clo, args []Val, st *State) *Term {
	f := u.newFrame(cl.Fn, nil)
	f.pure = true
	u.pureN++
	defer func() { u.pureN-- }()
	s := st.clone()
	pc := s.pc
	s.pc = u.c.True
	res, m := u.run(f, args, cl.Binds, s)
	_ = pc
	if m == nil || len(res) != 1 {
		unsup("specification closure does not return")
	}
	return u.term(res[0])
}
