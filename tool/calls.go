package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fullName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (u *Unit) call(fr *Frame, st *State, ins ssa.Instruction, cc *ssa.CallCommon) ([]Val, *State) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return u.builtin(fr, st, b, cc, ins.Pos())
	}
	var args []Val
	if cc.IsInvoke() {
		recv := u.val(st, fr.id, cc.Value)
		for _, a := range cc.Args {
			args = append(args, u.val(st, fr.id, a))
		}
		return u.invoke(fr, st, recv, cc, args, ins.Pos())
	}
	argRegs := append([]ssa.Value(nil), cc.Args...)
	for _, a := range cc.Args {
		args = append(args, u.val(st, fr.id, a))
	}
	if f := cc.StaticCallee(); f != nil {
		var binds []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			if cl, ok := u.val(st, fr.id, mc).(*Clo); ok {
				binds = cl.Binds
			}
		}
		return u.callFn(fr, st, f, args, binds, argRegs, ins.Pos())
	}
	fv := u.val(st, fr.id, cc.Value)
	return u.callVal(fr, st, fv, cc.Signature(), args, argRegs, ins.Pos())
}

func (u *Unit) callVal(fr *Frame, st *State, fv Val, sig *types.Signature, args []Val, argRegs []ssa.Value, pos token.Pos) ([]Val, *State) {
	switch x := fv.(type) {
	case *Clo:
		return u.callFn(fr, st, x.Fn, args, x.Binds, argRegs, pos)
	case *Term:
		u.safe(fr, st, "call of nil function", pos, u.c.Not(u.c.Eq(x, u.c.App("fn.nil", sFn))))
		u.assume["functions held in tables are deterministic in their arguments and the files they read"] = true
		ts := []*Term{x}
		for _, a := range args {
			ts = append(ts, u.term(a))
		}
		return u.ufResults("apply", sig, ts), st
	}
	unsup("call of %T", fv)
	return nil, nil
}

func (u *Unit) ufResults(name string, sig *types.Signature, ts []*Term) []Val {
	n := sig.Results().Len()
	out := make([]Val, n)
	for i := 0; i < n; i++ {
		nm := name
		if n > 1 {
			nm = fmt.Sprintf("%s#%d", name, i)
		}
		out[i] = u.c.App(nm, u.st.Of(sig.Results().At(i).Type()), ts...)
	}
	return out
}

func (u *Unit) havocResults(st *State, hint string, sig *types.Signature) []Val {
	n := sig.Results().Len()
	out := make([]Val, n)
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		v := u.c.Fresh(hint, u.st.Of(t))
		out[i] = v
		if isPtrType(t) {
			u.fact(st.pc, u.c.Lt(st.alloc, v))
		}
	}
	return out
}

func (u *Unit) invoke(fr *Frame, st *State, recv Val, cc *ssa.CallCommon, args []Val, pos token.Pos) ([]Val, *State) {
	m := cc.Method
	if iv, ok := recv.(*IfcVal); ok {
		if f := u.eng.prog.LookupMethod(iv.T, m.Pkg(), m.Name()); f != nil {
			return u.callFn(fr, st, f, append([]Val{iv.V}, args...), nil, append([]ssa.Value{nil}, cc.Args...), pos)
		}
	}
	rt := u.term(recv)
	u.safe(fr, st, "method call on nil interface", pos, u.c.Not(u.c.Eq(rt, u.c.App("ifc.nil", sIfc))))
	tn := ""
	if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			tn = n.Obj().Pkg().Path() + "."
		}
		tn += n.Obj().Name()
	} else {
		tn = "iface"
	}
	key := tn + "." + m.Name()
	if ct, ok := u.eng.icontr[key]; ok {
		return u.useContract(fr, st, ct, nil, append([]Val{rt}, args...), m.Type().(*types.Signature), pos)
	}
	if mod, ok := imodels[key]; ok {
		return mod(u, fr, st, rt, args, cc), st
	}
	if imodelPure[key] {
		ts := []*Term{rt}
		for _, a := range args {
			ts = append(ts, u.term(a))
		}
		return u.ufResults("im:"+key, m.Type().(*types.Signature), ts), st
	}
	u.flag("invoke "+key, "interface method "+key+" is not modelled")
	return u.havocResults(st, "inv", m.Type().(*types.Signature)), st
}

// callFn: the calls that the contract asks about are noted.
func (u *Unit) callFn(fr *Frame, st *State, f *ssa.Function, args []Val, binds []Val, argRegs []ssa.Value, pos token.Pos) ([]Val, *State) {
	if u.inSubj == 0 || u.pureN > 0 || len(u.logs)+len(u.atCall) == 0 {
		return u.callFn1(fr, st, f, args, binds, argRegs, pos)
	}
	note := func(st *State, kind string, vs []Val) {
		for i, v := range vs {
			k := fmt.Sprintf("log:%s:%s%d", fullName(f), kind, i)
			if _, ok := u.logs[k]; ok {
				u.setGhost(st, k, u.c.Snoc(u.ghost(st, k), u.term(v)))
			}
		}
	}
	for _, a := range u.atCall {
		if a.fn == f && len(a.pred.Fn.Params) == len(args) {
			var ts []Val
			for _, x := range args {
				ts = append(ts, u.term(x))
			}
			if t := u.evalClo(a.pred, ts, st); t != nil {
				u.oblige(st, "at-call", a.label, pos, t)
			} else {
				unsup("vs.AtCall predicate")
			}
		}
	}
	note(st, "a", args)
	res, m := u.callFn1(fr, st, f, args, binds, argRegs, pos)
	if m != nil {
		note(m, "r", res)
	}
	return res, m
}

type atCall struct {
	label string
	fn    *ssa.Function
	pred  *Clo
}

// declared: the function behind a method expression.
func (u *Unit) declared(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" && f.Object() != nil {
		if o, ok := f.Object().(*types.Func); ok {
			if g := u.eng.prog.FuncValue(o); g != nil {
				return g
			}
		}
	}
	return f
}

// logKey: which calls a contract asks about.
func (u *Unit) logKey(fv Val, kind string, i *Term, t types.Type) string {
	if iv, ok := fv.(*IfcVal); ok {
		fv = iv.V
	}
	cl, ok := fv.(*Clo)
	n, isInt := i.isInt()
	if !ok || !isInt {
		unsup("vs.Log and vs.Got need a function and a number")
	}
	f := u.declared(cl.Fn)
	k := fmt.Sprintf("log:%s:%s%d", fullName(f), kind, n)
	if u.logs == nil {
		u.logs = map[string]*Sort{}
	}
	u.logs[k] = u.st.Of(t)
	return k
}

func (u *Unit) callFn1(fr *Frame, st *State, f *ssa.Function, args []Val, binds []Val, argRegs []ssa.Value, pos token.Pos) ([]Val, *State) {
	name := fullName(f)
	if name == "path/filepath.Walk" {
		if w := u.eng.member(vsPkg, "Walk"); w != nil {
			u.assume["filepath.Walk calls its function for one fixed list of files and stops at the first error; that error is not fs.SkipDir or fs.SkipAll"] = true
			nf := u.newFrame(w, fr)
			res, m := u.run(nf, args, nil, st)
			u.finish(nf, fr, argRegs, args, m)
			return res, m
		}
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == vsPkg || f.Origin() != nil && f.Origin().Pkg != nil && f.Origin().Pkg.Pkg.Path() == vsPkg {
		return u.intrinsic(fr, st, f, args, argRegs, pos)
	}
	if fr.subj != nil && f == fr.subj {
		if fr.mode == "use" {
			return u.useSubject(fr, st, f, args, pos)
		}
		if fr.mode == "verify" {
			u.inSubj++
			pn := u.pureN
			u.pureN = 0
			nf := u.newFrame(f, fr)
			pre := st.clone()
			u.preAlloc, u.modRefs, u.preHeaps = st.alloc, u.modifiedRefs(fr), pre.heaps
			res, m := u.run(nf, args, binds, st)
			if m != nil {
				u.frameObls(fr, nf, pre, m, args, pos)
			}
			u.finish(nf, fr, argRegs, args, m)
			u.pureN = pn
			u.inSubj--
			return res, m
		}
	}
	if ct, ok := u.eng.contracts[f]; ok && !u.eng.inlineAll[f] && (fr.mode == "" || fr.subj != f) {
		if u.boundN > 0 && u.simpleFn(f) && !u.eng.pureFns[f] {
			// inside a quantifier the result has to be a function of the bound variable
			nf := u.newFrame(f, fr)
			nf.pure = fr.pure
			res, m := u.run(nf, args, binds, st)
			u.finish(nf, fr, argRegs, args, m)
			return res, m
		}
		if u.inSubj > 0 || u.subj != f {
			args, back := u.copyIn(st, f, args)
			res, m := u.useContractRegs(fr, st, ct, f, args, argRegs, f.Signature, pos)
			if m != nil && back != nil {
				back(fr, m, pos)
			}
			return res, m
		}
	}
	if (strings.HasPrefix(f.Name(), "lem_") || strings.HasPrefix(f.Name(), "Lem_")) && u.eng.isSpec(f) {
		return u.useContract(fr, st, f, nil, args, f.Signature, pos)
	}
	if u.eng.rec[f] || u.opaque(f) {
		return []Val{u.specApp(fr, st, f, args)}, st
	}
	if m, ok := models[name]; ok {
		r, s2 := m(u, fr, st, &callInfo{f: f, args: args, regs: argRegs, pos: pos})
		return r, s2
	}
	if len(f.Blocks) > 0 && (u.eng.inRepo(f) || f.Synthetic != "" && f.Pkg == nil && !externalWrapper(f)) {
		for p := fr; p != nil; p = p.parent {
			if p.fn == f && f.Parent() == nil {
				unsup("recursive function %s has no contract", f)
			}
		}
		nf := u.newFrame(f, fr)
		nf.pure = fr.pure
		res, m := u.run(nf, args, binds, st)
		u.finish(nf, fr, argRegs, args, m)
		return res, m
	}
	if pureExternal(name) {
		var ts []*Term
		for _, a := range args {
			if p, ok := a.(*Ptr); ok && p.Ref == nil {
				a = u.load(st, p, pos) // a local: its value
			}
			ts = append(ts, u.term(a))
		}
		u.assume["library functions modelled as deterministic uninterpreted functions"] = true
		return u.ufResults(name, f.Signature, ts), st
	}
	u.flag("call "+name, "external function "+name+" is not modelled")
	return u.havocResults(st, f.Name(), f.Signature), st
}

// copyIn: a pointer to a part of an object is handed to a contract as a pointer
// to a copy of that part, which is put back after the call. (Contracts do not
// return or keep such pointers: results that could hold one are refused.)
func (u *Unit) copyIn(st *State, f *ssa.Function, args []Val) ([]Val, func(*Frame, *State, token.Pos)) {
	type part struct{ tmp, orig *Ptr }
	var parts []part
	for i, a := range args {
		p, ok := a.(*Ptr)
		if !ok || p.Ref == nil || len(p.Path) == 0 || i >= len(f.Params) {
			continue
		}
		pt, ok := f.Params[i].Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		rs := f.Signature.Results()
		for j := 0; j < rs.Len(); j++ {
			if types.Identical(rs.At(j).Type(), pt) {
				return args, nil
			}
		}
		if parts == nil {
			args = append([]Val(nil), args...)
		}
		r := st.alloc
		st.alloc = u.c.Sub(r, u.c.Int(1))
		for _, m := range u.recs {
			m.alloc = true
		}
		u.setHeap(st, pt.Elem(), u.c.Store(u.heap(st, pt.Elem()), r, u.term(u.load(st, p, token.NoPos))))
		u.fact(st.pc, u.c.Lt(r, u.c.Int(0)))
		tmp := &Ptr{Ref: r, T: pt.Elem()}
		parts = append(parts, part{tmp, p})
		args[i] = tmp
	}
	if parts == nil {
		return args, nil
	}
	return args, func(fr *Frame, m *State, pos token.Pos) {
		for _, x := range parts {
			u.store(fr, m, x.orig, u.load(m, x.tmp, pos))
		}
	}
}

// modifiedRefs: the objects a contract declares modified, by kind of object.
func (u *Unit) modifiedRefs(fr *Frame) map[string][]*Term {
	out := map[string][]*Term{}
	for _, h := range fr.hav {
		if iv, ok := h.(*IfcVal); ok {
			if pt, ok := iv.T.Underlying().(*types.Pointer); ok {
				switch x := iv.V.(type) {
				case *Term:
					out[u.heapKey(pt.Elem())] = append(out[u.heapKey(pt.Elem())], x)
				case *Ptr:
					if x.Ref != nil {
						out[u.heapKey(x.T)] = append(out[u.heapKey(x.T)], x.Ref)
					}
				}
			}
		}
	}
	return out
}

func (u *Unit) heapOf(st *State, k string) *Term {
	if h, ok := st.heaps[k]; ok {
		return h
	}
	return u.c.Var("H0."+k, u.heapT[k])
}

// frameGoal: an arbitrary object that existed before the call and is not
// declared modified is in heap h as it was.
func (u *Unit) frameGoal(k string, h *Term) *Term {
	c := u.c
	h0, ok := u.preHeaps[k]
	if !ok {
		h0 = c.Var("H0."+k, h.Sort)
	}
	sk := c.Var("frame."+k, sInt)
	hyp := []*Term{c.Lt(u.preAlloc, sk)}
	for _, r := range u.modRefs[k] {
		hyp = append(hyp, c.Not(c.Eq(sk, r)))
	}
	return c.Imp(c.And(hyp...), c.Eq(c.Select(h, sk), c.Select(h0, sk)))
}

// frameObls: what the contract does not declare modified is as before.
func (u *Unit) frameObls(fr, nf *Frame, pre, post *State, args []Val, pos token.Pos) {
	c := u.c
	declared := func(p *ssa.Parameter, i int) bool {
		for _, h := range fr.hav {
			if iv, ok := h.(*IfcVal); ok && iv.Src != nil {
				if q, ok := iv.Src.(*ssa.Parameter); ok && i < len(fr.fn.Params) && fr.fn.Params[i] == q {
					return true
				}
			}
		}
		return false
	}
	for _, k := range sortedKeys(post.heaps) {
		h := post.heaps[k]
		all := false
		for _, t := range fr.havTypes {
			all = all || u.heapKey(t) == k
		}
		if u.heapOf(pre, k) != h && !all {
			u.oblige(post, "frame", "no other "+k+" changes", pos, u.frameGoal(k, h))
		}
	}
	for _, k := range sortedKeys(post.ghosts) {
		g := post.ghosts[k]
		if k == "eg" || strings.HasPrefix(k, "log:") {
			continue
		}
		g0, ok := pre.ghosts[k]
		if !ok {
			g0 = c.Var("G0."+k, g.Sort)
		}
		if g0 == g {
			continue
		}
		ok = false
		for _, x := range fr.havGhosts {
			if x == k {
				ok = true
			}
		}
		if !ok {
			u.oblige(post, "frame", k+" does not change", pos, c.Eq(g, g0))
		}
	}
	for i, p := range nf.fn.Params {
		if i >= len(args) || declared(p, i) {
			continue
		}
		switch p.Type().Underlying().(type) {
		case *types.Map, *types.Slice:
			nt, ok1 := post.env[envKey{nf.id, p}].(*Term)
			ot, ok2 := args[i].(*Term)
			if ok1 && ok2 && nt != ot {
				u.oblige(post, "frame", "argument "+p.Name()+" does not change", pos, c.Eq(nt, ot))
			}
		}
	}
}

// unused: the contract says vs.Option("use ct_x: a; b"), which keeps of the
// postconditions of ct_x only those whose labels start with a or b.
func (u *Unit) unused(ct *ssa.Function, lab string) bool {
	for o := range u.opts {
		if rest, ok := strings.CutPrefix(o, "use "+ct.Name()+":"); ok {
			for _, w := range strings.Split(rest, ";") {
				if w = strings.TrimSpace(w); w != "" && strings.HasPrefix(lab, w) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// preState: the state before the call that the contract is about.
func (u *Unit) preState(fr *Frame) (*Term, map[string]*Term) {
	for p := fr; p != nil; p = p.parent {
		if p.mode == "use" && p.preAlloc != nil {
			return p.preAlloc, p.preHeaps
		}
		if p.mode == "verify" {
			break
		}
	}
	if u.preAlloc == nil {
		unsup("state before the call, used before it")
	}
	return u.preAlloc, u.preHeaps
}

// opaque: a spo_/Spo_ predicate, known only through lemmas unless the contract
// being verified reveals it.
func (u *Unit) opaque(f *ssa.Function) bool {
	n := f.Name()
	return (strings.HasPrefix(n, "spo_") || strings.HasPrefix(n, "Spo_")) && u.eng.isSpec(f) && !u.opts["reveal"] && !u.opts["reveal "+n]
}

// simpleFn: no loops, so that it can be evaluated in place.
func (u *Unit) simpleFn(f *ssa.Function) bool {
	return len(f.Blocks) > 0 && len(u.eng.loopInfo(f).byHead) == 0
}

func externalWrapper(f *ssa.Function) bool {
	if f.Object() != nil && f.Object().Pkg() != nil {
		return !strings.HasPrefix(f.Object().Pkg().Path(), repoMod)
	}
	return false
}

// useSubject: inside a contract used by a caller, the call of the subject is
// replaced by arbitrary results.
func (u *Unit) useSubject(fr *Frame, st *State, f *ssa.Function, args []Val, pos token.Pos) ([]Val, *State) {
	fr.preAlloc, fr.preHeaps = st.alloc, map[string]*Term{}
	for k, h := range st.heaps {
		fr.preHeaps[k] = h
	}
	if fr.havAlloc {
		a := u.c.Fresh("alloc", sInt)
		u.fact(u.c.True, u.c.Le(a, st.alloc))
		st.alloc = a
		for _, r := range u.recs {
			r.alloc = true
		}
	}
	if fr.useRes == nil {
		if u.eng.pureFns[f] {
			// a function of its arguments, whatever it is
			var ts []*Term
			ptr := false
			for i, a := range args {
				// a pointer stands for what it points to
				if i < len(f.Params) && isPtrType(f.Params[i].Type()) {
					el := f.Params[i].Type().Underlying().(*types.Pointer).Elem()
					if !external(types.Unalias(el)) {
						p, ok := a.(*Ptr)
						if t, isT := a.(*Term); isT {
							p, ok = &Ptr{Ref: t, T: el}, true
						}
						if ok {
							a = u.load(st, p, pos)
						}
						ptr = true
					}
				}
				ts = append(ts, u.term(a))
			}
			if hs := u.heapDeps(f); len(hs) > 0 {
				for _, ht := range hs {
					own := false
					for i := range f.Params {
						if ptr && isPtrType(f.Params[i].Type()) && typeKey(f.Params[i].Type().Underlying().(*types.Pointer).Elem()) == typeKey(ht) {
							own = true
						}
					}
					if !own {
						ts = append(ts, u.heap(st, ht))
					}
				}
			}
			fr.useRes = u.ufResults("fn:"+fullName(f), f.Signature, ts)
		} else {
			fr.useRes = u.havocResults(st, "r."+f.Name(), f.Signature)
		}
		fr.useDone = true
	}
	for _, h := range fr.hav {
		p, ok := h.(*Ptr)
		if iv, isI := h.(*IfcVal); isI {
			switch iv.T.Underlying().(type) {
			case *types.Map, *types.Slice:
				if iv.Src == nil {
					unsup("vs.Modifies of a computed value")
				}
				old := u.term(iv.V)
				mod := u.c.Fresh("mod", old.Sort)
				u.fact(u.c.True, u.c.Eq(u.c.IsNil(mod), u.c.IsNil(old)))
				if _, ok := iv.T.Underlying().(*types.Slice); ok {
					u.fact(u.c.True, u.c.Eq(u.c.Len(mod), u.c.Len(old)))
				}
				u.writeRoot(st, envKey{fr.id, iv.Src}, mod)
				continue
			}
			if pp, ok2 := iv.V.(*Ptr); ok2 {
				p, ok = pp, true
			} else if tt, ok2 := iv.V.(*Term); ok2 && isPtrType(iv.T) {
				p, ok = &Ptr{Ref: tt, T: iv.T.Underlying().(*types.Pointer).Elem()}, true
			} else if tt, ok2 := iv.V.(*Term); ok2 && tt.Sort.Kind == SIfc || iv.T.String() == "io.Writer" {
				_ = tt
				continue
			}
		}
		if !ok {
			continue
		}
		cur := u.load(st, p, pos)
		if ct, ok := cur.(*Term); ok {
			u.store(fr, st, p, u.c.Fresh("mod", ct.Sort))
		}
	}
	for _, g := range fr.havGhosts {
		u.setGhost(st, g, u.c.Fresh("G."+g, u.ghostSort(g)))
	}
	for _, t := range fr.havTypes {
		u.setHeap(st, t, u.c.Fresh("H", u.heap(st, t).Sort))
	}
	return fr.useRes, st
}

func (u *Unit) useContractRegs(fr *Frame, st *State, ct, subj *ssa.Function, args []Val, argRegs []ssa.Value, sig *types.Signature, pos token.Pos) ([]Val, *State) {
	return u.useContractAt(fr, st, ct, subj, args, argRegs, sig, pos)
}

func (u *Unit) useContract(fr *Frame, st *State, ct, subj *ssa.Function, args []Val, sig *types.Signature, pos token.Pos) ([]Val, *State) {
	return u.useContractAt(fr, st, ct, subj, args, nil, sig, pos)
}

func (u *Unit) useContractAt(fr *Frame, st *State, ct, subj *ssa.Function, args []Val, argRegs []ssa.Value, sig *types.Signature, pos token.Pos) ([]Val, *State) {
	nf := u.newFrame(ct, fr)
	nf.argRegs = argRegs
	nf.mode = "use"
	nf.subj = subj
	nf.pure = true
	nf.callPos = pos
	nf.callerPure = u.pureN > 0
	u.pureN++
	if u.pureN == 1 && u.dry == 0 {
		n := ct.Name()
		u.used[n]++
	}
	nf0 := len(u.facts)
	res, m := u.run(nf, args, nil, st)
	u.pureN--
	_ = res
	if m == nil {
		return nil, nil
	}
	// a postcondition that says what a result is: use it in its place
	for i, r := range nf.useRes {
		rt, ok := r.(*Term)
		if !ok || rt.Op != "var" {
			continue
		}
		for _, f := range u.facts[nf0:] {
			if t := definedBy(f.T, rt, st.pc); t != nil {
				nf.useRes[i] = t
				break
			}
		}
	}
	u.finish(nf, fr, nf.argRegs, args, m)
	m.pc = st.pc
	if subj == nil && sig != nil && sig.Results().Len() > 0 {
		// interface contract: the contract function returns the results itself
		if len(res) == sig.Results().Len() {
			return res, m
		}
	}
	if subj == nil {
		return nil, m
	}
	if nf.useRes == nil {
		unsup("contract %s does not call its subject", ct.Name())
	}
	return nf.useRes, m
}

// definedBy: the fact is pc => rt = t for a t not mentioning rt.
func definedBy(f, rt, pc *Term) *Term {
	if f.Op == "=>" && f.Args[0] == pc {
		f = f.Args[1]
	}
	if f.Op != "=" {
		return nil
	}
	var t *Term
	switch rt {
	case f.Args[0]:
		t = f.Args[1]
	case f.Args[1]:
		t = f.Args[0]
	default:
		return nil
	}
	seen := map[*Term]bool{}
	var occurs func(x *Term) bool
	occurs = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x == rt {
			return true
		}
		for _, a := range x.Args {
			if occurs(a) {
				return true
			}
		}
		return false
	}
	if occurs(t) {
		return nil
	}
	return t
}

// specApp: a recursive specification function as an uninterpreted function
// with its definition unfolded at the ground applications that occur.
func (u *Unit) specApp(fr *Frame, st *State, f *ssa.Function, args []Val) *Term {
	c := u.c
	var ts []*Term
	var vals []Val
	for i, a := range args {
		t := u.term(a)
		if t.Sort.Kind == SSeq || t.Sort.Kind == SMap {
			t = c.Norm(t)
		}
		_ = i
		ts = append(ts, t)
		vals = append(vals, t)
	}
	hs := u.heapDeps(f)
	for _, ht := range hs {
		ts = append(ts, u.heap(st, ht))
	}
	rs := u.st.Of(f.Signature.Results().At(0).Type())
	t := c.App("sp:"+f.Name(), rs, ts...)
	if u.spFns == nil {
		u.spFns = map[string]*ssa.Function{}
	}
	u.spFns["sp:"+f.Name()] = f
	if t.bnd || u.dry > 0 || u.opaque(f) {
		return t
	}
	lim := u.unfoldLimit
	if lim == 0 {
		lim = 2
	}
	if u.unfolded[t] || u.unfoldDepth >= lim {
		return t
	}
	u.unfolded[t] = true
	u.unfoldDepth++
	b := u.boundN
	u.boundN = 0
	nf := u.newFrame(f, nil)
	nf.pure = true
	nf.mode = "spec"
	u.pureN++
	s := st.clone()
	s.pc = c.True
	res, m := u.run(nf, vals, nil, s)
	u.pureN--
	u.boundN = b
	u.unfoldDepth--
	if m != nil {
		u.facts = append(u.facts, Fact{T: c.Eq(t, u.normIf(u.term(res[0])))})
	}
	return t
}

func (u *Unit) normIf(t *Term) *Term { return t }

// heapDeps: pointee types reachable through the parameters of a spec function.
func (u *Unit) heapDeps(f *ssa.Function) []types.Type {
	var out []types.Type
	seen := map[string]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch x := t.Underlying().(type) {
		case *types.Pointer:
			if external(types.Unalias(x.Elem())) {
				return
			}
			k := typeKey(x.Elem())
			if !seen[k] {
				seen[k] = true
				out = append(out, x.Elem())
				walk(x.Elem())
			}
		case *types.Slice:
			walk(x.Elem())
		case *types.Map:
			walk(x.Key())
			walk(x.Elem())
		case *types.Struct:
			if external(types.Unalias(t)) {
				return
			}
			if k := "s:" + typeKey(t); seen[k] {
				return
			} else {
				seen[k] = true
			}
			for i := 0; i < x.NumFields(); i++ {
				walk(x.Field(i).Type())
			}
		}
	}
	for _, p := range f.Params {
		walk(p.Type())
	}
	if len(out) == 0 || readsHeap(f) {
		return out
	}
	return nil
}

// readsHeap: the function may look behind a pointer. It does not when it calls
// only itself and vs, and loads only from its own variables and from slices.
func readsHeap(f *ssa.Function) bool {
	if len(f.AnonFuncs) > 0 {
		return true
	}
	var own func(v ssa.Value) bool
	own = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return own(x.X)
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				return true
			}
			return own(x.X)
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && !own(x.X) {
					return true
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				g := cc.StaticCallee()
				if g == nil {
					return true
				}
				o := g
				if g.Origin() != nil {
					o = g.Origin()
				}
				if g == f {
					continue
				}
				if o.Pkg == nil || o.Pkg.Pkg.Path() != vsPkg {
					return true
				}
				switch o.Name() {
				case "Append", "Put", "Has", "Same", "Member":
				default:
					return true
				}
			}
		}
	}
	return false
}

func (u *Unit) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, pos token.Pos) ([]Val, *State) {
	c := u.c
	arg := func(i int) *Term { return u.term(u.val(st, fr.id, cc.Args[i])) }
	switch b.Name() {
	case "len":
		t := arg(0)
		switch t.Sort.Kind {
		case SStr:
			return []Val{c.StrLen(t)}, st
		case SMap:
			return []Val{c.Card(t)}, st
		case SSeq:
			return []Val{c.Len(t)}, st
		}
	case "cap":
		t := arg(0)
		r := c.Fresh("cap", sInt)
		if t.Sort.Kind == SSeq {
			u.fact(st.pc, c.Le(c.Len(t), r))
		}
		return []Val{r}, st
	case "append":
		a, b2 := arg(0), arg(1)
		if a.Sort == sStr {
			return []Val{c.Cat(a, b2)}, st
		}
		return []Val{u.concat(st, a, b2)}, st
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(cc.Args); i++ {
			x := arg(i)
			cnd := c.Le(r, x)
			if r.Sort == sStr {
				cnd = c.Not(u.strLt(x, r))
			}
			if b.Name() == "min" {
				r = c.Ite(cnd, r, x)
			} else {
				r = c.Ite(cnd, x, r)
			}
		}
		return []Val{r}, st
	case "delete":
		m, k := arg(0), arg(1)
		u.writeRoot(st, envKey{fr.id, cc.Args[0]}, c.mk("mdel", "", m.Sort, m, k))
		return nil, st
	case "copy":
		d, s := arg(0), arg(1)
		if d.Sort.Kind == SSeq {
			n := c.Ite(c.Le(c.Len(s), c.Len(d)), c.Len(s), c.Len(d))
			// exact only when the whole destination is overwritten
			r := c.Ite(c.Eq(c.Len(s), c.Len(d)), s, c.App("copied", d.Sort, d, s))
			u.writeRoot(st, envKey{fr.id, cc.Args[0]}, r)
			return []Val{n}, st
		}
	case "print", "println":
		return nil, st
	case "ssa:wrapnilchk":
		return []Val{u.val(st, fr.id, cc.Args[0])}, st
	case "recover":
		return []Val{c.App("ifc.nil", sIfc)}, st
	case "panic":
		u.oblige(st, "safety", "panic unreachable in "+fr.fn.Name(), pos, c.False)
		return nil, nil
	}
	unsup("builtin %s", b.Name())
	return nil, nil
}

func (u *Unit) concat(st *State, a, b *Term) *Term {
	c := u.c
	// append(nil, nothing...) stays nil
	if b.Op == "nil" {
		return a
	}
	if b.Op == "empty" {
		return a
	}
	r := c.SCat(a, b)
	if b.Op == "snoc" {
		return r
	}
	// nil-ness of append(a, b...): nil iff a nil and b empty
	return c.Ite(c.And(c.IsNil(a), c.Eq(c.Len(b), c.Int(0))), c.Nil(a.Sort), r)
}

// ---- vs intrinsics

func (u *Unit) intrinsic(fr *Frame, st *State, f *ssa.Function, args []Val, regs []ssa.Value, pos token.Pos) ([]Val, *State) {
	c := u.c
	name := f.Name()
	if o := f.Origin(); o != nil {
		name = o.Name()
	}
	label := func(v Val) string {
		if t, ok := v.(*Term); ok {
			if s, ok := t.isStr(); ok {
				return s
			}
		}
		return "?"
	}
	use := fr.mode == "use"
	switch name {
	case "Prop", "Props", "Bound", "Option":
		return nil, st
	case "Requires":
		t := u.term(args[0])
		if use {
			if !fr.callerPure {
				pn := u.pureN
				u.pureN = 0
				u.oblige(st, "requires", "precondition of "+strings.TrimPrefix(fr.fn.Name(), "ct_"), fr.callPos, t)
				u.pureN = pn
			}
		} else {
			u.fact(st.pc, t)
			u.reqs = append(u.reqs, c.Imp(st.pc, t))
		}
		return nil, st
	case "Ensures":
		if use && u.unused(fr.fn, label(args[0])) {
			return nil, st
		}
		t := u.term(args[1])
		if use {
			u.fact(st.pc, t)
		} else {
			pn := u.pureN
			u.pureN = 0
			u.oblige(st, "ensures", label(args[0]), pos, t)
			u.pureN = pn
		}
		return nil, st
	case "Assert":
		if !use {
			pn := u.pureN
			u.pureN = 0
			u.oblige(st, "assert", label(args[0]), pos, u.term(args[1]))
			u.pureN = pn
		}
		return nil, st
	case "Assume":
		// an assumption about a dependency; listed in the evidence
		u.assume["assumed: "+label(args[0])] = true
		u.fact(st.pc, u.term(args[1]))
		return nil, st
	case "Inv":
		if use {
			return nil, st
		}
		iv, ok := args[0].(*IfcVal)
		if ok {
			if cl, ok := iv.V.(*Clo); ok {
				u.templ = append(u.templ, cl)
				return nil, st
			}
		}
		unsup("vs.Inv argument")
	case "AtCall":
		// an obligation at every call of the function that the subject makes
		if use {
			return nil, st
		}
		fv, pv := args[1], args[2]
		if iv, ok := fv.(*IfcVal); ok {
			fv = iv.V
		}
		if iv, ok := pv.(*IfcVal); ok {
			pv = iv.V
		}
		fc, ok1 := fv.(*Clo)
		pc, ok2 := pv.(*Clo)
		if !ok1 || !ok2 {
			unsup("vs.AtCall arguments")
		}
		u.atCall = append(u.atCall, atCall{label(args[0]), u.declared(fc.Fn), pc})
		return nil, st
	case "Modifies":
		fr.hav = append(fr.hav, args[0])
		return nil, st
	case "ModifiesOut":
		fr.havGhosts = append(fr.havGhosts, "out")
		return nil, st
	case "ModifiesNet":
		fr.havGhosts = append(fr.havGhosts, "http.req", "http.resp", "http.err", "http.hdr", "http.sent", "net")
		return nil, st
	case "ModifiesFiles":
		fr.havGhosts = append(fr.havGhosts, "written", "fs.werr")
		return nil, st
	case "Allocates":
		fr.havAlloc = true
		return nil, st
	case "Decreases":
		t := u.term(args[0])
		if use {
			if u.termMeas != nil && fr.fn == u.ct && !fr.callerPure {
				pn := u.pureN
				u.pureN = 0
				u.oblige(st, "decreases", "recursion terminates", fr.callPos, c.And(c.Le(c.Int(0), t), c.Lt(t, u.termMeas)))
				u.pureN = pn
			}
		} else {
			u.termMeas = t
		}
		return nil, st
	case "Eq":
		return []Val{u.deepEq(u.term(args[0]), u.term(args[1]), true)}, st
	case "Same":
		return []Val{c.Eq(u.term(args[0]), u.term(args[1]))}, st
	case "Clone":
		return []Val{args[0]}, st
	case "In", "Member":
		return []Val{c.In(u.term(args[0]), u.term(args[1]))}, st
	case "Has":
		return []Val{c.Has(u.term(args[0]), u.term(args[1]))}, st
	case "Keys":
		m := u.term(args[0])
		if m.Op == "norm" {
			m = m.Args[0]
		}
		ks := c.App("keys", u.st.Seq(m.Sort.Key), m)
		u.fact(c.True, c.Eq(c.Len(ks), c.Card(m)))
		return []Val{ks}, st
	case "Concat":
		return []Val{c.SCat(u.term(args[0]), u.term(args[1]))}, st
	case "Append":
		return []Val{c.Snoc(u.term(args[0]), u.term(args[1]))}, st
	case "Sub":
		return []Val{c.SubSeq(u.term(args[0]), u.term(args[1]), u.term(args[2]))}, st
	case "At":
		return []Val{c.At(u.term(args[0]), u.term(args[1]))}, st
	case "Put":
		return []Val{c.Put(u.term(args[0]), u.term(args[1]), u.term(args[2]))}, st
	case "SortBy":
		cl, ok := args[1].(*Clo)
		if !ok {
			unsup("vs.SortBy comparator")
		}
		s := u.term(args[0])
		a, b := u.cmpVars(s.Sort.Elem)
		L := u.evalClo(cl, []Val{a, b}, st)
		return []Val{u.sorted(st, s, L)}, st
	case "Sorted":
		s := u.term(args[0])
		a, b := u.cmpVars(s.Sort.Elem)
		return []Val{u.sorted(st, s, u.strLt(a, b))}, st
	case "Written":
		return []Val{c.Get(u.outGhost(st), u.term(args[0]))}, st
	case "Nil":
		return []Val{c.App("ifc.nil", sIfc)}, st
	case "Forall", "Exists":
		lo, hi := u.term(args[0]), u.term(args[1])
		cl, ok := args[2].(*Clo)
		if !ok {
			unsup("quantifier body")
		}
		bv := c.BVar("i", sInt)
		u.boundN++
		body := u.evalClo(cl, []Val{bv}, st)
		u.boundN--
		return []Val{u.rangeQuant(name == "Forall", bv, lo, hi, body, 0)}, st
	case "ForallKeys", "ExistsKey":
		m := u.term(args[0])
		cl := args[1].(*Clo)
		bv := c.BVar("k", m.Sort.Key)
		return []Val{u.quantify(name == "ForallKeys", bv, func() *Term { return c.Has(m, bv) }, cl, st)}, st
	case "ForallStr", "ForallAny":
		cl := args[0].(*Clo)
		bv := c.BVar("x", u.st.Of(cl.Fn.Params[0].Type()))
		return []Val{u.quantify(true, bv, func() *Term { return c.True }, cl, st)}, st
	case "Fresh":
		a, _ := u.preState(fr)
		return []Val{c.Le(u.term(args[0]), a)}, st
	case "Log", "Got":
		k := u.logKey(args[0], map[string]string{"Log": "a", "Got": "r"}[name], u.term(args[1]), f.Signature.Results().At(0).Type())
		if _, ok := st.ghosts[k]; !ok {
			if u.inSubj > 0 {
				unsup("vs.%s before the call", name)
			}
			st.ghosts[k] = c.Empty(u.logs[k])
		}
		return []Val{st.ghosts[k]}, st
	case "Flag":
		return []Val{u.flagVal(args[0], f.Signature.Results().At(0).Type())}, st
	case "FlagArgs":
		return []Val{c.Var("flag.args", u.st.Of(f.Signature.Results().At(0).Type()))}, st
	case "Known":
		return []Val{c.Lt(st.alloc, u.term(args[0]))}, st
	case "Old":
		_, hs := u.preState(fr)
		t := f.Signature.Results().At(0).Type()
		k := u.heapKey(t)
		h, ok := hs[k]
		if !ok {
			u.heap(st, t)
			h = c.Var("H0."+k, u.heapT[k])
		}
		return []Val{c.Select(h, u.term(args[0]))}, st
	case "ModifiesAll":
		fr.havTypes = append(fr.havTypes, f.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem())
		return nil, st
	case "Unchanged":
		return nil, st
	case "Havoc":
		return u.havocResults(st, "havoc", f.Signature), st
	case "Result":
		return u.havocResults(st, "res", f.Signature), st
	case "SameBag":
		a, b := c.Norm(u.term(args[0])), c.Norm(u.term(args[1]))
		return []Val{u.sameBag(a, b)}, st
	case "Visits":
		return u.ufResults("fs.walk", f.Signature, []*Term{u.term(args[0])}), st
	case "FileText":
		return []Val{c.App("fs.text", sStr, u.term(args[0]))}, st
	case "FileErr":
		return []Val{c.App("fs.openErr", sIfc, u.term(args[0]))}, st
	}
	if m, ok := models["vs."+name]; ok {
		return m(u, fr, st, &callInfo{f: f, args: args, regs: regs, pos: pos})
	}
	unsup("intrinsic %s", name)
	return nil, nil
}

func (u *Unit) sameBag(a, b *Term) *Term {
	if a == b {
		return u.c.True
	}
	strip := func(t *Term) *Term {
		for t.Op == "sorted" || t.Op == "norm" {
			t = t.Args[0]
		}
		return t
	}
	a, b = u.c.Norm(strip(a)), u.c.Norm(strip(b))
	if a == b {
		return u.c.True
	}
	bs := u.st.Opaque("Bag_" + a.Sort.Elem.Name)
	return u.c.Eq(u.c.App("bag", bs, a), u.c.App("bag", bs, b))
}

func (u *Unit) quantify(forall bool, bv *Term, guard func() *Term, cl *Clo, st *State) *Term {
	u.boundN++
	g := guard()
	body := u.evalClo(cl, []Val{bv}, st)
	u.boundN--
	return u.quantBody(forall, bv, g, body)
}

// rangeQuant: over the indexes from lo on below hi; the last index of a list
// that an element was just added to is spelt out.
func (u *Unit) rangeQuant(forall bool, bv, lo, hi, body *Term, depth int) *Term {
	c := u.c
	if a, ok := lo.isInt(); ok {
		if b, ok := hi.isInt(); ok && b-a <= 4 {
			var ts []*Term
			for i := a; i < b; i++ {
				ts = append(ts, c.subst(body, map[*Term]*Term{bv: c.Int(i)}))
			}
			if forall {
				return c.And(ts...)
			}
			return c.Or(ts...)
		}
	}
	if depth < 4 && !hi.bnd {
		if hi.Op == "ite" {
			x := u.rangeQuant(forall, bv, lo, hi.Args[1], c.subst(body, map[*Term]*Term{hi.Args[0]: c.True}), depth+1)
			y := u.rangeQuant(forall, bv, lo, hi.Args[2], c.subst(body, map[*Term]*Term{hi.Args[0]: c.False}), depth+1)
			return c.Ite(hi.Args[0], x, y)
		}
		m := map[*Term]*Term{}
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] || !t.bnd {
				return
			}
			seen[t] = true
			if t.Op == "at" && t.Args[1] == bv && t.Args[0].Op == "snoc" && !t.Args[0].bnd && c.Len(t.Args[0]) == hi {
				m[t] = c.At(t.Args[0].Args[0], bv)
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(body)
		if len(m) > 0 {
			h := c.Sub(hi, c.Int(1))
			first := u.rangeQuant(forall, bv, lo, h, c.subst(body, m), depth+1)
			last := c.subst(body, map[*Term]*Term{bv: h})
			if forall {
				return c.And(first, c.Imp(c.Le(lo, h), last))
			}
			return c.Or(first, c.And(c.Le(lo, h), last))
		}
	}
	return u.quantBody(forall, bv, c.And(c.Le(lo, bv), c.Lt(bv, hi)), body)
}

func (u *Unit) quantBody(forall bool, bv, g, body *Term) *Term {
	c := u.c
	if !forall {
		body = c.Not(body)
	}
	bvs := []*Term{bv}
	// forall x. g => forall y. b: one quantifier over both
	if body.Op == "forall" {
		bvs = append(bvs, body.BV...)
		body = body.Args[0]
	}
	full := c.Imp(g, body)
	q := c.Quant("forall", bvs, full, u.patterns(full, bvs...))
	if !forall {
		return c.Not(q)
	}
	return q
}

// patterns picks trigger terms that mention the bound variables.
func (u *Unit) patterns(t *Term, bvs ...*Term) [][]*Term {
	isBV := map[*Term]bool{}
	for _, b := range bvs {
		isBV[b] = true
	}
	type cand struct {
		t      *Term
		vars   map[*Term]bool
		direct bool
		size   int
	}
	var cands []cand
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.bnd {
			return
		}
		seen[t] = true
		switch t.Op {
		case "at", "get", "has", "in", "app", "sorted":
			if t.Op == "app" && t.Sort == sBool && len(t.Args) == 0 {
				break
			}
			k := cand{t: t, vars: map[*Term]bool{}}
			ok := true
			for _, a := range t.Args {
				if isBV[a] {
					k.direct = true
				}
			}
			var chk func(x *Term)
			chk = func(x *Term) {
				k.size++
				if !x.bnd {
					return
				}
				if x.Op == "bvar" {
					if isBV[x] {
						k.vars[x] = true
					} else {
						ok = false
					}
				}
				switch x.Op {
				case "and", "or", "not", "=>", "=", "ite", "<=", "<", "forall", "exists":
					ok = false
				}
				for _, a := range x.Args {
					chk(a)
				}
			}
			chk(t)
			if ok && len(k.vars) > 0 {
				cands = append(cands, k)
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	var out [][]*Term
	// terms with all the variables, those with a variable as a direct argument first
	for pass := 0; pass < 2; pass++ {
		for _, k := range cands {
			if len(k.vars) == len(bvs) && (pass == 1 || k.direct || len(bvs) > 1) && len(out) < 4 {
				out = append(out, []*Term{k.t})
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	if len(bvs) < 2 {
		return out
	}
	// multi-patterns: cover the variables one after the other
	for start := range cands {
		cov := map[*Term]bool{}
		var mp []*Term
		for i := range cands {
			k := cands[(start+i)%len(cands)]
			news := false
			for v := range k.vars {
				news = news || !cov[v]
			}
			if news && (k.direct || i == 0) {
				mp = append(mp, k.t)
				for v := range k.vars {
					cov[v] = true
				}
			}
		}
		if len(cov) == len(bvs) {
			out = append(out, mp)
		}
		if len(out) >= 3 {
			break
		}
	}
	return out
}

// variadic reads the values passed through a ...any parameter.
func (u *Unit) variadic(st *State, v Val) []Val {
	if l, ok := v.(*VarArgs); ok {
		return l.Vals
	}
	t, ok := v.(*Term)
	if !ok {
		return nil
	}
	var out []Val
	for t.Op == "snoc" {
		out = append([]Val{t.Args[1]}, out...)
		t = t.Args[0]
	}
	return out
}

// VarArgs keeps the individual interface values of a variadic call.
type VarArgs struct {
	T    *Term
	Vals []Val
}

func (u *Unit) cmpVars(s *Sort) (*Term, *Term) {
	return u.c.Var("cmpA."+s.Name, s), u.c.Var("cmpB."+s.Name, s)
}

func (u *Unit) sorted(st *State, s, L *Term) *Term {
	c := u.c
	found := false
	for _, x := range u.sorters {
		if x.L == L && x.elem == s.Sort.Elem {
			found = true
		}
	}
	if !found && u.dry == 0 {
		u.sorters = append(u.sorters, &sorter{elem: s.Sort.Elem, L: L})
	}
	in := s
	if in.Op == "sorted" && in.Lit == fmt.Sprint(L.id) {
		return in
	}
	r := c.mk("sorted", fmt.Sprint(L.id), s.Sort, c.Norm(in))
	u.fact(c.True, c.Eq(c.Len(r), c.Len(s)))
	u.fact(c.True, c.Imp(c.Le(c.Len(s), c.Int(1)), c.Eq(r, c.Norm(in))))
	return c.Ite(c.IsNil(s), s, r)
}
