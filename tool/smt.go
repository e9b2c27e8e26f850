package main

// SMT-LIB printing and solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Mode int

const (
	modeUF Mode = iota
	modeStr
)

type emitter struct {
	u      *Unit
	mode   Mode
	out    strings.Builder
	sorts  map[*Sort]bool
	order  []*Sort
	names  map[*Term]string
	refs   map[*Term]int
	decl   map[string]bool
	decls  []string
	lits   map[string]string
	litOrd []string
	ops    map[string]map[*Sort]bool // op -> sorts
	seen   map[*Term]bool
	arity  map[int]bool
	n      int
	boxes  map[string]*Term
	sorted map[string]*Term
	eqs    []*Term
	defs   strings.Builder
}

func q(s string) string {
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "!") + "|"
}

func (e *emitter) useSort(s *Sort) {
	if e.sorts[s] {
		return
	}
	e.sorts[s] = true
	if s.Elem != nil {
		e.useSort(s.Elem)
	}
	if s.Key != nil {
		e.useSort(s.Key)
	}
	for _, f := range s.Fields {
		e.useSort(f.Sort)
	}
	e.order = append(e.order, s)
}

func (e *emitter) sortName(s *Sort) string {
	switch s.Kind {
	case SBool, SInt, SReal:
		return s.Name
	case SStr:
		if e.mode == modeStr {
			return "String"
		}
		return "Str"
	case SArr:
		return "(Array Int " + e.sortName(s.Elem) + ")"
	}
	return q(s.Name)
}

func (e *emitter) useOp(op string, s *Sort) {
	m := e.ops[op]
	if m == nil {
		m = map[*Sort]bool{}
		e.ops[op] = m
	}
	m[s] = true
	e.useSort(s)
}

// collect sorts, ops, references.
func (e *emitter) collect(t *Term) {
	e.refs[t]++
	if e.seen[t] {
		return
	}
	e.seen[t] = true
	e.useSort(t.Sort)
	for _, b := range t.BV {
		e.useSort(b.Sort)
	}
	switch t.Op {
	case "str":
		if _, ok := e.lits[t.Lit]; !ok {
			e.lits[t.Lit] = fmt.Sprintf("lit%d", len(e.lits))
			e.litOrd = append(e.litOrd, t.Lit)
		}
	case "len", "at", "sub", "norm", "isnil", "card":
		e.useOp(t.Op, t.Args[0].Sort)
	case "snoc", "scat", "upd", "empty", "nil", "put", "munion", "mdel":
		e.useOp(t.Op, t.Sort)
	case "sorted":
		e.sorted[t.Lit+"."+t.Sort.Name] = t
	case "in":
		e.useOp("in", t.Args[1].Sort)
	case "has", "get":
		e.useOp(t.Op, t.Args[0].Sort)
	case "cat":
		for i := 2; i <= len(t.Args); i++ {
			e.arity[i] = true
		}
	case "app":
		if t.Lit == "keys" {
			e.useOp("keys", t.Args[0].Sort)
		}
		if strings.HasPrefix(t.Lit, "box:") {
			e.boxes[t.Lit] = t
		}
		if t.Lit == "s.lt" {
			e.useOp("s.lt", sStr)
		}
	}
	if t.Op == "=" && !t.bnd && (t.Args[0].Sort.Kind == SSeq || t.Args[0].Sort.Kind == SMap) {
		e.eqs = append(e.eqs, t)
	}
	for _, a := range t.Args {
		e.collect(a)
	}
	for _, ps := range t.Pats {
		for _, p := range ps {
			e.collect(p)
		}
	}
}

var theoryDefs = map[string]string{
	"s.hasPrefix": "(str.prefixof %[2]s %[1]s)",
	"s.hasSuffix": "(str.suffixof %[2]s %[1]s)",
	"s.contains":  "(str.contains %[1]s %[2]s)",
	"s.cutB":      "(ite (str.contains %[1]s %[2]s) (str.substr %[1]s 0 (str.indexof %[1]s %[2]s 0)) %[1]s)",
	"s.cutA":      "(ite (str.contains %[1]s %[2]s) (str.substr %[1]s (+ (str.indexof %[1]s %[2]s 0) (str.len %[2]s)) (str.len %[1]s)) \"\")",
	"s.dropP":     "(ite (str.prefixof %[2]s %[1]s) (str.substr %[1]s (str.len %[2]s) (str.len %[1]s)) %[1]s)",
	"s.dropS":     "(ite (str.suffixof %[2]s %[1]s) (str.substr %[1]s 0 (- (str.len %[1]s) (str.len %[2]s))) %[1]s)",
	"s.index":     "(str.indexof %[1]s %[2]s 0)",
	"s.lt":        "(str.< %[1]s %[2]s)",
	"s.sub":       "(str.substr %[1]s %[2]s (- %[3]s %[2]s))",
	"s.byte":      "(str.to_code (str.at %[1]s %[2]s))",
}

func (e *emitter) opName(op string, s *Sort) string { return q(op + "." + s.Name) }

func (e *emitter) declFun(name string, args []*Sort, ret *Sort) string {
	if !e.decl[name] {
		e.decl[name] = true
		var as []string
		for _, a := range args {
			e.useSort(a)
			as = append(as, e.sortName(a))
		}
		e.useSort(ret)
		e.decls = append(e.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(as, " "), e.sortName(ret)))
	}
	return name
}

func (e *emitter) smtStr(s string) string {
	if e.mode == modeUF {
		return e.lits[s]
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '"' {
			b.WriteString(`""`)
		} else if ch == '\\' || ch < 32 || ch > 126 {
			fmt.Fprintf(&b, "\\u{%x}", ch)
		} else {
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (e *emitter) expr(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	s := e.expr1(t)
	if t.Op == "ite" && !t.bnd && t.Sort != sBool {
		// a name of its own, so that it can occur in patterns
		e.n++
		n := fmt.Sprintf("t%d", e.n)
		fmt.Fprintf(&e.defs, "(declare-const %s %s)\n(assert (= %s %s))\n", n, e.sortName(t.Sort), n, s)
		e.names[t] = n
		return n
	}
	if !t.bnd && len(t.Args) > 0 && e.refs[t] > 1 && t.Op != "forall" && t.Op != "exists" {
		e.n++
		n := fmt.Sprintf("t%d", e.n)
		fmt.Fprintf(&e.defs, "(define-fun %s () %s %s)\n", n, e.sortName(t.Sort), s)
		e.names[t] = n
		return n
	}
	if len(t.Args) == 0 {
		e.names[t] = s
	}
	return s
}

func (e *emitter) argl(t *Term) string {
	var as []string
	for _, a := range t.Args {
		as = append(as, e.expr(a))
	}
	return strings.Join(as, " ")
}

func (e *emitter) expr1(t *Term) string {
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		if strings.HasPrefix(t.Lit, "-") {
			return "(- " + t.Lit[1:] + ")"
		}
		return t.Lit
	case "real":
		if strings.HasPrefix(t.Lit, "-") {
			return "(- " + t.Lit[1:] + ")"
		}
		return t.Lit
	case "str":
		return e.smtStr(t.Lit)
	case "var":
		return e.declFun(q(t.Lit+":"+t.Sort.Name), nil, t.Sort)
	case "bvar":
		return q(t.Lit)
	case "and", "or", "not", "=>", "=", "ite", "+", "-", "*", "<", "<=", "select", "store", "div", "mod":
		return "(" + t.Op + " " + e.argl(t) + ")"
	case "i2r":
		return "(to_real " + e.argl(t) + ")"
	case "r2i":
		return "(to_int " + e.argl(t) + ")"
	case "mk":
		if len(t.Args) == 0 {
			return q("mk-" + t.Sort.Name)
		}
		return "(" + q("mk-"+t.Sort.Name) + " " + e.argl(t) + ")"
	case "sel":
		return "(" + q(t.Lit) + " " + e.argl(t) + ")"
	case "len", "at", "sub", "norm", "isnil", "card", "has", "get":
		return "(" + e.opName(t.Op, t.Args[0].Sort) + " " + e.argl(t) + ")"
	case "in":
		return "(" + e.opName("in", t.Args[1].Sort) + " " + e.argl(t) + ")"
	case "sorted":
		f := e.declFun(q("sorted."+t.Lit+"."+t.Sort.Name), []*Sort{t.Sort}, t.Sort)
		return "(" + f + " " + e.argl(t) + ")"
	case "snoc", "scat", "upd", "put", "munion", "mdel":
		return "(" + e.opName(t.Op, t.Sort) + " " + e.argl(t) + ")"
	case "empty", "nil":
		return e.opName(t.Op, t.Sort)
	case "cat":
		if e.mode == modeStr {
			return "(str.++ " + e.argl(t) + ")"
		}
		return fmt.Sprintf("(cat%d %s)", len(t.Args), e.argl(t))
	case "strlen":
		if e.mode == modeStr {
			return "(str.len " + e.argl(t) + ")"
		}
		return "(strlen " + e.argl(t) + ")"
	case "app":
		if e.mode == modeStr {
			if d, ok := theoryDefs[t.Lit]; ok {
				var as []any
				for _, a := range t.Args {
					as = append(as, e.expr(a))
				}
				return fmt.Sprintf(d, as...)
			}
		}
		var ss []*Sort
		nm := t.Lit
		for _, a := range t.Args {
			ss = append(ss, a.Sort)
			nm += "." + a.Sort.Name
		}
		nm += ">" + t.Sort.Name
		f := e.declFun(q(nm), ss, t.Sort)
		if len(t.Args) == 0 {
			return f
		}
		return "(" + f + " " + e.argl(t) + ")"
	case "forall", "exists":
		var bs []string
		for _, b := range t.BV {
			bs = append(bs, fmt.Sprintf("(%s %s)", q(b.Lit), e.sortName(b.Sort)))
		}
		body := e.expr(t.Args[0])
		if t.Op == "forall" && len(t.Pats) > 0 {
			body = "(! " + body
			for _, p := range t.Pats {
				var ps []string
				for _, x := range p {
					ps = append(ps, e.expr(x))
				}
				body += " :pattern (" + strings.Join(ps, " ") + ")"
			}
			body += ")"
		}
		return "(" + t.Op + " (" + strings.Join(bs, " ") + ") " + body + ")"
	}
	panic("expr: op " + t.Op)
}

func (e *emitter) axioms() string {
	var b strings.Builder
	A := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	hasOp := func(op string, s *Sort) bool { return e.ops[op][s] }
	var seqs, maps []*Sort
	for _, s := range e.order {
		if s.Kind == SSeq {
			seqs = append(seqs, s)
		}
		if s.Kind == SMap {
			maps = append(maps, s)
		}
	}
	// key sequences of maps need their seq sort
	D := func(name string, args []*Sort, ret *Sort) string { return e.declFun(name, args, ret) }
	for _, s := range seqs {
		S, E := e.sortName(s), e.sortName(s.Elem)
		n := func(op string) string { return e.opName(op, s) }
		D(n("len"), []*Sort{s}, sInt)
		D(n("at"), []*Sort{s, sInt}, s.Elem)
		D(n("empty"), nil, s)
		D(n("nil"), nil, s)
		D(n("norm"), []*Sort{s}, s)
		D(n("isnil"), []*Sort{s}, sBool)
		D(n("snoc"), []*Sort{s, s.Elem}, s)
		A("(assert (forall ((s %s)) (! (<= 0 (%s s)) :pattern ((%s s)))))", S, n("len"), n("len"))
		A("(assert (= (%s %s) 0))", n("len"), n("empty"))
		A("(assert (= (%s %s) 0))", n("len"), n("nil"))
		A("(assert (%s %s))", n("isnil"), n("nil"))
		A("(assert (not (%s %s)))", n("isnil"), n("empty"))
		A("(assert (forall ((s %s)) (! (and (= (%s (%s s)) (%s s)) (not (%s (%s s))) (=> (%s s) (and (= (%s s) %s) (= (%s s) 0))) (=> (not (%s s)) (= (%s s) s))) :pattern ((%s s)))))",
			S, n("len"), n("norm"), n("len"), n("isnil"), n("norm"), n("isnil"), n("norm"), n("empty"), n("len"), n("isnil"), n("norm"), n("norm"))
		A("(assert (forall ((s %s)) (! (=> (%s s) (= (%s s) 0)) :pattern ((%s s)))))", S, n("isnil"), n("len"), n("isnil"))
		A("(assert (forall ((s %s) (i Int)) (! (= (%s (%s s) i) (%s s i)) :pattern ((%s (%s s) i)))))", S, n("at"), n("norm"), n("at"), n("at"), n("norm"))
		if hasOp("snoc", s) {
			A("(assert (forall ((s %s) (x %s)) (! (and (= (%s (%s s x)) (+ (%s s) 1)) (= (%s (%s s x) (%s s)) x) (not (%s (%s s x)))) :pattern ((%s s x)))))",
				S, E, n("len"), n("snoc"), n("len"), n("at"), n("snoc"), n("len"), n("isnil"), n("snoc"), n("snoc"))
			A("(assert (forall ((s %s) (x %s) (i Int)) (! (= (%s (%s s x) i) (ite (= i (%s s)) x (%s s i))) :pattern ((%s (%s s x) i)) :pattern ((%s s x) (%s s i)))))",
				S, E, n("at"), n("snoc"), n("len"), n("at"), n("at"), n("snoc"), n("snoc"), n("at"))
		}
		if hasOp("upd", s) {
			D(n("upd"), []*Sort{s, sInt, s.Elem}, s)
			A("(assert (forall ((s %s) (j Int) (x %s)) (! (and (= (%s (%s s j x)) (%s s)) (not (%s (%s s j x)))) :pattern ((%s s j x)))))",
				S, E, n("len"), n("upd"), n("len"), n("isnil"), n("upd"), n("upd"))
			A("(assert (forall ((s %s) (j Int) (x %s) (i Int)) (! (= (%s (%s s j x) i) (ite (= i j) x (%s s i))) :pattern ((%s (%s s j x) i)))))",
				S, E, n("at"), n("upd"), n("at"), n("at"), n("upd"))
		}
		if hasOp("sub", s) {
			D(n("sub"), []*Sort{s, sInt, sInt}, s)
			A("(assert (forall ((s %s) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (%s s))) (= (%s (%s s a b)) (- b a))) :pattern ((%s s a b)))))",
				S, n("len"), n("len"), n("sub"), n("sub"))
			A("(assert (forall ((s %s) (a Int) (b Int) (i Int)) (! (= (%s (%s s a b) i) (%s s (+ a i))) :pattern ((%s (%s s a b) i)))))",
				S, n("at"), n("sub"), n("at"), n("at"), n("sub"))
		}
		if hasOp("scat", s) {
			D(n("scat"), []*Sort{s, s}, s)
			A("(assert (forall ((a %s) (b %s)) (! (= (%s (%s a b)) (+ (%s a) (%s b))) :pattern ((%s a b)))))", S, S, n("len"), n("scat"), n("len"), n("len"), n("scat"))
			A("(assert (forall ((a %s) (b %s) (i Int)) (! (= (%s (%s a b) i) (ite (< i (%s a)) (%s a i) (%s b (- i (%s a))))) :pattern ((%s (%s a b) i)))))",
				S, S, n("at"), n("scat"), n("len"), n("at"), n("at"), n("len"), n("at"), n("scat"))
			A("(assert (forall ((a %s) (b %s) (x %s)) (! (= (%s a (%s b x)) (%s (%s a b) x)) :pattern ((%s a (%s b x))))))", S, S, E, n("scat"), n("snoc"), n("snoc"), n("scat"), n("scat"), n("snoc"))
			A("(assert (forall ((a %s)) (! (= (%s a %s) a) :pattern ((%s a %s)))))", S, n("scat"), n("empty"), n("scat"), n("empty"))
		}
		if hasOp("in", s) {
			D(n("in"), []*Sort{s.Elem, s}, sBool)
			ix := D(q("inidx."+s.Name), []*Sort{s.Elem, s}, sInt)
			A("(assert (forall ((x %s)) (! (not (%s x %s)) :pattern ((%s x %s)))))", E, n("in"), n("empty"), n("in"), n("empty"))
			A("(assert (forall ((x %s) (s %s) (y %s)) (! (= (%s x (%s s y)) (or (%s x s) (= x y))) :pattern ((%s x (%s s y))))))", E, S, E, n("in"), n("snoc"), n("in"), n("in"), n("snoc"))
			A("(assert (forall ((x %s) (s %s)) (! (= (%s x (%s s)) (%s x s)) :pattern ((%s x (%s s))))))", E, S, n("in"), n("norm"), n("in"), n("in"), n("norm"))
			A("(assert (forall ((x %s) (s %s)) (! (=> (%s x s) (and (<= 0 (%s x s)) (< (%s x s) (%s s)) (= (%s s (%s x s)) x))) :pattern ((%s x s)))))",
				E, S, n("in"), ix, ix, n("len"), n("at"), ix, n("in"))
			A("(assert (forall ((s %s) (i Int)) (! (=> (and (<= 0 i) (< i (%s s))) (%s (%s s i) s)) :pattern ((%s s i)))))", S, n("len"), n("in"), n("at"), n("at"))
		}
	}
	for _, s := range maps {
		S, K, V := e.sortName(s), e.sortName(s.Key), e.sortName(s.Elem)
		n := func(op string) string { return e.opName(op, s) }
		D(n("has"), []*Sort{s, s.Key}, sBool)
		D(n("get"), []*Sort{s, s.Key}, s.Elem)
		D(n("empty"), nil, s)
		D(n("nil"), nil, s)
		D(n("norm"), []*Sort{s}, s)
		D(n("isnil"), []*Sort{s}, sBool)
		D(n("card"), []*Sort{s}, sInt)
		A("(assert (forall ((m %s)) (! (<= 0 (%s m)) :pattern ((%s m)))))", S, n("card"), n("card"))
		A("(assert (and (= (%s %s) 0) (= (%s %s) 0) (%s %s) (not (%s %s))))", n("card"), n("empty"), n("card"), n("nil"), n("isnil"), n("nil"), n("isnil"), n("empty"))
		A("(assert (forall ((m %s)) (! (and (= (%s (%s m)) (%s m)) (not (%s (%s m))) (=> (%s m) (and (= (%s m) %s) (= (%s m) 0))) (=> (not (%s m)) (= (%s m) m))) :pattern ((%s m)))))",
			S, n("card"), n("norm"), n("card"), n("isnil"), n("norm"), n("isnil"), n("norm"), n("empty"), n("card"), n("isnil"), n("norm"), n("norm"))
		A("(assert (forall ((m %s) (k %s)) (! (=> (%s m k) (and (not (%s m)) (< 0 (%s m)))) :pattern ((%s m k)))))", S, K, n("has"), n("isnil"), n("card"), n("has"))
		A("(assert (forall ((k %s)) (! (not (%s %s k)) :pattern ((%s %s k)))))", K, n("has"), n("empty"), n("has"), n("empty"))
		A("(assert (forall ((m %s) (k %s)) (! (and (= (%s (%s m) k) (%s m k))) :pattern ((%s (%s m) k)))))", S, K, n("has"), n("norm"), n("has"), n("has"), n("norm"))
		A("(assert (forall ((m %s) (k %s)) (! (and (= (%s (%s m) k) (%s m k))) :pattern ((%s (%s m) k)))))", S, K, n("get"), n("norm"), n("get"), n("get"), n("norm"))
		if hasOp("put", s) {
			D(n("put"), []*Sort{s, s.Key, s.Elem}, s)
			A("(assert (forall ((m %s) (k %s) (v %s) (j %s)) (! (= (%s (%s m k v) j) (or (= j k) (%s m j))) :pattern ((%s (%s m k v) j)))))", S, K, V, K, n("has"), n("put"), n("has"), n("has"), n("put"))
			A("(assert (forall ((m %s) (k %s) (v %s) (j %s)) (! (= (%s (%s m k v) j) (ite (= j k) v (%s m j))) :pattern ((%s (%s m k v) j)))))", S, K, V, K, n("get"), n("put"), n("get"), n("get"), n("put"))
			A("(assert (forall ((m %s) (k %s) (v %s)) (! (and (%s (%s m k v) k) (not (%s (%s m k v))) (= (%s (%s m k v)) (+ (%s m) (ite (%s m k) 0 1)))) :pattern ((%s m k v)))))",
				S, K, V, n("has"), n("put"), n("isnil"), n("put"), n("card"), n("put"), n("card"), n("has"), n("put"))
		}
		if hasOp("munion", s) {
			D(n("munion"), []*Sort{s, s}, s)
			A("(assert (forall ((a %s) (b %s) (j %s)) (! (= (%s (%s a b) j) (or (%s a j) (%s b j))) :pattern ((%s (%s a b) j)))))", S, S, K, n("has"), n("munion"), n("has"), n("has"), n("has"), n("munion"))
			A("(assert (forall ((a %s) (b %s) (j %s)) (! (= (%s (%s a b) j) (ite (%s b j) (%s b j) (%s a j))) :pattern ((%s (%s a b) j)))))", S, S, K, n("get"), n("munion"), n("has"), n("get"), n("get"), n("get"), n("munion"))
			A("(assert (forall ((a %s) (b %s)) (! (not (%s (%s a b))) :pattern ((%s a b)))))", S, S, n("isnil"), n("munion"), n("munion"))
		}
		if hasOp("mdel", s) {
			D(n("mdel"), []*Sort{s, s.Key}, s)
			A("(assert (forall ((m %s) (k %s) (j %s)) (! (= (%s (%s m k) j) (and (not (= j k)) (%s m j))) :pattern ((%s (%s m k) j)))))", S, K, K, n("has"), n("mdel"), n("has"), n("has"), n("mdel"))
			A("(assert (forall ((m %s) (k %s) (j %s)) (! (= (%s (%s m k) j) (%s m j)) :pattern ((%s (%s m k) j)))))", S, K, K, n("get"), n("mdel"), n("get"), n("get"), n("mdel"))
		}
		if hasOp("keys", s) {
			ks := e.u.st.Seq(s.Key)
			kn := q("keys." + s.Name + ">" + ks.Name)
			e.declFun(kn, []*Sort{s}, ks)
			at, ln := e.opName("at", ks), e.opName("len", ks)
			ix := e.declFun(q("kidx."+s.Name), []*Sort{s, s.Key}, sInt)
			A("(assert (forall ((m %s)) (! (= (%s (%s m)) (%s m)) :pattern ((%s m)))))", S, ln, kn, n("card"), kn)
			A("(assert (forall ((m %s) (i Int)) (! (=> (and (<= 0 i) (< i (%s m))) (and (%s m (%s (%s m) i)) (= (%s m (%s (%s m) i)) i))) :pattern ((%s (%s m) i)))))",
				S, n("card"), n("has"), at, kn, ix, at, kn, at, kn)
			A("(assert (forall ((m %s) (k %s)) (! (=> (%s m k) (and (<= 0 (%s m k)) (< (%s m k) (%s m)) (= (%s (%s m) (%s m k)) k))) :pattern ((%s m k)))))",
				S, K, n("has"), ix, ix, n("card"), at, kn, ix, n("has"))
			A("(assert (forall ((m %s)) (! (= (%s (%s m)) (%s m)) :pattern ((%s (%s m))))))", S, kn, n("norm"), kn, kn, n("norm"))
		}
	}
	for _, k := range sortedKeys(e.sorted) {
		t := e.sorted[k]
		s := t.Sort
		f := e.declFun(q("sorted."+t.Lit+"."+s.Name), []*Sort{s}, s)
		S := e.sortName(s)
		A("(assert (forall ((s %s)) (! (= (%s (%s s)) (%s s)) :pattern ((%s s)))))", S, e.opName("len", s), f, e.opName("len", s), f)
		A("(assert (forall ((s %s)) (! (=> (not (%s s)) (not (%s (%s s)))) :pattern ((%s s)))))", S, e.opName("isnil", s), e.opName("isnil", s), f, f)
		if hasOp("in", s) {
			A("(assert (forall ((x %s) (s %s)) (! (= (%s x (%s s)) (%s x s)) :pattern ((%s x (%s s))))))", e.sortName(s.Elem), S, e.opName("in", s), f, e.opName("in", s), e.opName("in", s), f)
			A("(assert (forall ((x %s) (s %s)) (! (=> (%s x s) (%s x (%s s))) :pattern ((%s x s) (%s s)))))", e.sortName(s.Elem), S, e.opName("in", s), e.opName("in", s), f, e.opName("in", s), f)
		}
	}
	// bags
	for _, s := range seqs {
		nm := q("bag." + s.Name + ">Bag_" + s.Elem.Name)
		if !e.decl[nm] {
			continue
		}
		bs := e.u.st.Opaque("Bag_" + s.Elem.Name)
		add := e.declFun(q("badd."+bs.Name), []*Sort{bs, s.Elem}, bs)
		uni := e.declFun(q("buni."+bs.Name), []*Sort{bs, bs}, bs)
		S, E, B := e.sortName(s), e.sortName(s.Elem), e.sortName(bs)
		A("(assert (forall ((s %s) (x %s)) (! (= (%s (%s s x)) (%s (%s s) x)) :pattern ((%s (%s s x))))))", S, E, nm, e.opName("snoc", s), add, nm, nm, e.opName("snoc", s))
		A("(assert (forall ((b %s) (x %s) (y %s)) (! (= (%s (%s b x) y) (%s (%s b y) x)) :pattern ((%s (%s b x) y)))))", B, E, E, add, add, add, add, add, add)
		for _, k := range sortedKeys(e.sorted) {
			if t := e.sorted[k]; t.Sort == s {
				f := q("sorted." + t.Lit + "." + s.Name)
				A("(assert (forall ((s %s)) (! (= (%s (%s s)) (%s s)) :pattern ((%s (%s s))))))", S, nm, f, nm, nm, f)
			}
		}
		A("(assert (forall ((s %s)) (! (= (%s (%s s)) (%s s)) :pattern ((%s (%s s))))))", S, nm, e.opName("norm", s), nm, nm, e.opName("norm", s))
		if hasOp("scat", s) {
			A("(assert (forall ((a %s) (b %s)) (! (= (%s (%s a b)) (%s (%s a) (%s b))) :pattern ((%s (%s a b))))))", S, S, nm, e.opName("scat", s), uni, nm, nm, nm, e.opName("scat", s))
			A("(assert (forall ((a %s) (b %s) (x %s)) (! (= (%s a (%s b x)) (%s (%s a b) x)) :pattern ((%s a (%s b x))))))", B, B, E, uni, add, add, uni, uni, add)
		}
	}
	if e.mode == modeUF {
		A("(assert (forall ((s Str)) (! (and (<= 0 (strlen s)) (= (= (strlen s) 0) (= s %s))) :pattern ((strlen s)))))", e.lits[""])
		for _, l := range e.litOrd {
			A("(assert (= (strlen %s) %d))", e.lits[l], len(l))
		}
		if e.ops["s.lt"] != nil {
			lt := e.declFun(q("s.lt.Str.Str>Bool"), []*Sort{sStr, sStr}, sBool)
			A("(assert (forall ((a Str) (b Str)) (! (and (not (and (%s a b) (%s b a))) (or (%s a b) (%s b a) (= a b))) :pattern ((%s a b)))))", lt, lt, lt, lt, lt)
			A("(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (%s a b) (%s b c)) (%s a c)) :pattern ((%s a b) (%s b c)))))", lt, lt, lt, lt, lt)
		}
	}
	// boxes
	if len(e.boxes) > 0 {
		tag := e.declFun(q("tag.Ifc>Int"), []*Sort{sIfc}, sInt)
		nl := e.declFun(q("ifc.nil>Ifc"), nil, sIfc)
		A("(assert (= (%s %s) 0))", tag, nl)
		A("(assert (forall ((x Ifc)) (! (= (= (%s x) 0) (= x %s)) :pattern ((%s x)))))", tag, nl, tag)
		for _, k := range sortedKeys(e.boxes) {
			t := e.boxes[k]
			as := t.Args[0].Sort
			bf := e.declFun(q(k+"."+as.Name+">Ifc"), []*Sort{as}, sIfc)
			uf := e.declFun(q("un"+k+".Ifc>"+as.Name), []*Sort{sIfc}, as)
			A("(assert (forall ((x %s)) (! (and (= (%s (%s x)) x) (= (%s (%s x)) %d)) :pattern ((%s x)))))", e.sortName(as), uf, bf, tag, bf, e.u.tagOf(strings.TrimPrefix(k, "box:")), bf)
		}
	}
	return b.String()
}

// Emit prints a query: hyps and not goal.
func (u *Unit) Emit(hyps []*Term, goal *Term, mode Mode) string {
	e := &emitter{u: u, mode: mode, sorts: map[*Sort]bool{}, names: map[*Term]string{}, refs: map[*Term]int{}, decl: map[string]bool{}, lits: map[string]string{},
		ops: map[string]map[*Sort]bool{}, seen: map[*Term]bool{}, arity: map[int]bool{}, boxes: map[string]*Term{}, sorted: map[string]*Term{}}
	e.useSort(sStr)
	e.useSort(sIfc)
	e.useSort(sFn)
	e.lits[""] = "lit0"
	e.litOrd = append(e.litOrd, "")
	for _, h := range hyps {
		e.collect(h)
	}
	e.collect(goal)
	for s := range e.ops["keys"] {
		e.useSort(u.st.Seq(s.Key))
	}
	var asserts strings.Builder
	for _, h := range hyps {
		x := e.expr(h)
		asserts.WriteString(e.defs.String())
		e.defs.Reset()
		fmt.Fprintf(&asserts, "(assert %s)\n", x)
	}
	for _, q := range e.eqs {
		e.refs[q.Args[0]] += 2
		e.refs[q.Args[1]] += 2
		a, b := e.expr(q.Args[0]), e.expr(q.Args[1])
		asserts.WriteString(e.defs.String())
		e.defs.Reset()
		s := q.Args[0].Sort
		e.n++
		d := fmt.Sprintf("diff%d", e.n)
		if s.Kind == SSeq {
			e.decls = append(e.decls, fmt.Sprintf("(declare-const %s Int)", d))
			ln, at, nl := e.opName("len", s), e.opName("at", s), e.opName("isnil", s)
			fmt.Fprintf(&asserts, "(assert (or (= %s %s) (not (= (%s %s) (%s %s))) (not (= (%s %s) (%s %s))) (and (<= 0 %s) (< %s (%s %s)) (not (= (%s %s %s) (%s %s %s))))))\n",
				a, b, ln, a, ln, b, nl, a, nl, b, d, d, ln, a, at, a, d, at, b, d)
		} else {
			e.useSort(s.Key)
			e.decls = append(e.decls, fmt.Sprintf("(declare-const %s %s)", d, e.sortName(s.Key)))
			has, get, nl := e.opName("has", s), e.opName("get", s), e.opName("isnil", s)
			fmt.Fprintf(&asserts, "(assert (or (= %s %s) (not (= (%s %s) (%s %s))) (not (= (%s %s %s) (%s %s %s))) (and (%s %s %s) (not (= (%s %s %s) (%s %s %s))))))\n",
				a, b, nl, a, nl, b, has, a, d, has, b, d, has, a, d, get, a, d, get, b, d)
		}
	}
	x := e.expr(goal)
	asserts.WriteString(e.defs.String())
	e.defs.Reset()
	fmt.Fprintf(&asserts, "(assert (not %s))\n(check-sat)\n", x)
	ax := e.axioms()
	var o strings.Builder
	o.WriteString("(set-logic ALL)\n")
	// sorts in dependency order
	var st, dt []*Sort
	for _, s := range e.order {
		switch s.Kind {
		case SSeq, SMap, SOpaque, SIfc:
			st = append(st, s)
		case SStruct:
			dt = append(dt, s)
		}
	}
	if mode == modeUF {
		o.WriteString("(declare-sort Str 0)\n")
	}
	for _, s := range st {
		fmt.Fprintf(&o, "(declare-sort %s 0)\n", q(s.Name))
	}
	pos := map[*Sort]int{}
	for i, s := range u.st.structs {
		pos[s] = i
	}
	sort.Slice(dt, func(i, j int) bool { return pos[dt[i]] < pos[dt[j]] })
	for _, s := range dt {
		fmt.Fprintf(&o, "(declare-datatypes ((%s 0)) (((%s", q(s.Name), q("mk-"+s.Name))
		for _, f := range s.Fields {
			fmt.Fprintf(&o, " (%s %s)", q(f.Name), e.sortName(f.Sort))
		}
		o.WriteString("))))\n")
	}
	if mode == modeUF {
		for _, l := range e.litOrd {
			fmt.Fprintf(&o, "(declare-const %s Str) ; %q\n", e.lits[l], l)
		}
		if len(e.litOrd) > 1 {
			o.WriteString("(assert (distinct")
			for _, l := range e.litOrd {
				o.WriteString(" " + e.lits[l])
			}
			o.WriteString("))\n")
		}
		o.WriteString("(declare-fun strlen (Str) Int)\n")
		for k := range e.arity {
			fmt.Fprintf(&o, "(declare-fun cat%d (%s) Str)\n", k, strings.TrimSpace(strings.Repeat("Str ", k)))
		}
	}
	for _, d := range e.decls {
		o.WriteString(d + "\n")
	}
	o.WriteString(ax)
	o.WriteString(asserts.String())
	return o.String()
}

// ---- solver portfolio

type SolveResult struct {
	Status string // unsat | sat | unknown
	By     string
	Time   time.Duration
	Out    string
}

var solverSem = make(chan struct{}, 8)
var solverNanos int64
var solverCalls int64

func runSolver(ctx context.Context, name string, text string, to time.Duration) (string, string) {
	var cmd *exec.Cmd
	ms := int(to / time.Millisecond)
	switch name {
	case "z3-new":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false")
	case "z3-new-mixed":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false")
	case "z3-new-auto":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	case "z3":
		cmd = exec.CommandContext(ctx, "z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false")
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--strings-exp", "-")
	}
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	s := strings.TrimSpace(out.String())
	for _, l := range strings.Split(s, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return "unsat", s
		case "sat":
			return "sat", s
		case "unknown", "timeout":
			return "unknown", s
		}
		if strings.HasPrefix(strings.TrimSpace(l), "(error") {
			return "unknown", s
		}
	}
	return "unknown", s
}

func solveOne(name, text string, to time.Duration) SolveResult {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	ctx, cancel := context.WithTimeout(context.Background(), to+2*time.Second)
	defer cancel()
	t0 := time.Now()
	r, o := runSolver(ctx, name, text, to)
	if left := to - time.Since(t0); name == "z3-new" && r == "unknown" && left > to/2 {
		// gave up early: another strategy often settles these at once
		if r2, o2 := runSolver(ctx, "z3-new-mixed", text, left); r2 == "unsat" {
			r, o, name = r2, o2, "z3-new-mixed"
		}
	}
	d := time.Since(t0)
	atomic.AddInt64(&solverNanos, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	return SolveResult{r, name, d, o}
}

// portfolio runs several solvers on several encodings, returns at first unsat.
func portfolio(tasks []func() SolveResult) SolveResult {
	var wg sync.WaitGroup
	ch := make(chan SolveResult, len(tasks))
	for _, t := range tasks {
		wg.Add(1)
		go func() { defer wg.Done(); ch <- t() }()
	}
	go func() { wg.Wait(); close(ch) }()
	best := SolveResult{Status: "unknown"}
	for r := range ch {
		if r.Status == "unsat" {
			return r
		}
		if best.Out == "" || r.Status == "sat" {
			best = r
		}
	}
	return best
}
