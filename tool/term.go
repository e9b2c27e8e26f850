package main

// Terms: hash-consed first-order terms with light simplification.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SReal
	SStr
	SStruct // datatype
	SSeq    // Go slices and arrays
	SMap    // Go maps
	SArr    // SMT arrays Int -> Elem (heaps)
	SIfc    // interface values
	SOpaque // anything else
)

type FieldS struct {
	Name string
	Sort *Sort
}

type Sort struct {
	Kind   SortKind
	Name   string
	Elem   *Sort
	Key    *Sort
	Fields []FieldS
	sealed bool
}

func (s *Sort) String() string {
	if s.Kind == SArr {
		return "(Array Int " + s.Elem.String() + ")"
	}
	return s.Name
}

var (
	sBool = &Sort{Kind: SBool, Name: "Bool"}
	sInt  = &Sort{Kind: SInt, Name: "Int"}
	sReal = &Sort{Kind: SReal, Name: "Real"}
	sStr  = &Sort{Kind: SStr, Name: "Str"}
	sIfc  = &Sort{Kind: SIfc, Name: "Ifc"}
	sFn   = &Sort{Kind: SOpaque, Name: "Fn"}
)

type Term struct {
	Op   string
	Args []*Term
	Sort *Sort
	Lit  string  // literal text / variable or function name / field
	BV   []*Term // bound variables (quantifiers)
	Pats [][]*Term
	id   int
	bnd  bool // contains bound variables
	key  string
}

// Ctx owns the terms of one verification unit.
type Ctx struct {
	tab    map[string]*Term
	next   int
	fresh  int
	True   *Term
	False  *Term
	sorts  map[string]*Sort
	onTerm func(*Term)
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, sorts: map[string]*Sort{}}
	c.True = c.mk("true", "", sBool)
	c.False = c.mk("false", "", sBool)
	return c
}

func (c *Ctx) mk(op, lit string, s *Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(lit)
	b.WriteByte('|')
	b.WriteString(s.String())
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, Args: append([]*Term(nil), args...), Sort: s, Lit: lit, id: c.next, key: k}
	c.next++
	t.bnd = op == "bvar"
	for _, a := range args {
		if a.bnd {
			t.bnd = true
		}
	}
	c.tab[k] = t
	if c.onTerm != nil {
		c.onTerm(t)
	}
	return t
}

func (c *Ctx) Var(name string, s *Sort) *Term { return c.mk("var", name, s) }
func (c *Ctx) Fresh(hint string, s *Sort) *Term {
	c.fresh++
	return c.mk("var", fmt.Sprintf("%s!%d", sanitize(hint), c.fresh), s)
}
func (c *Ctx) BVar(hint string, s *Sort) *Term {
	c.fresh++
	return c.mk("bvar", fmt.Sprintf("%s?%d", sanitize(hint), c.fresh), s)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.-!#$@<>?^~", r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "x"
	}
	return b.String()
}

func (c *Ctx) Int(n int64) *Term     { return c.mk("int", strconv.FormatInt(n, 10), sInt) }
func (c *Ctx) Real(lit string) *Term { return c.mk("real", lit, sReal) }
func (c *Ctx) Str(s string) *Term    { return c.mk("str", s, sStr) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) isInt() (int64, bool) {
	if t.Op == "int" {
		n, _ := strconv.ParseInt(t.Lit, 10, 64)
		return n, true
	}
	return 0, false
}
func (t *Term) isStr() (string, bool) { return t.Lit, t.Op == "str" }
func (t *Term) isLit() bool {
	switch t.Op {
	case "int", "str", "true", "false", "real":
		return true
	}
	return false
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.Args[0]
	}
	return c.mk("not", "", sBool, a)
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.False {
			return false
		}
		if t == c.True || seen[t] {
			return true
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "", sBool, out...)
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	if t.Op == "true" {
		return nil
	}
	return []*Term{t}
}

func (c *Ctx) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == c.True {
			return c.True
		}
		if t == c.False || seen[t] {
			continue
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	// (A and c) or (A and not c) => A ; A or (A and B) => A, repeated
	for changed := true; changed && len(out) > 1; {
		changed = false
	outer:
		for i := 0; i < len(out); i++ {
			for j := i + 1; j < len(out); j++ {
				if m := c.orMerge(out[i], out[j]); m != nil {
					if m == c.True {
						return c.True
					}
					out[i] = m
					out = append(out[:j], out[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "", sBool, out...)
}

func (c *Ctx) orMerge(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	inA := map[*Term]bool{}
	for _, x := range ca {
		inA[x] = true
	}
	var onlyA, onlyB []*Term
	for _, x := range ca {
		if !inB[x] {
			onlyA = append(onlyA, x)
		}
	}
	for _, x := range cb {
		if !inA[x] {
			onlyB = append(onlyB, x)
		}
	}
	if len(onlyA) == 0 {
		return a
	}
	if len(onlyB) == 0 {
		return b
	}
	if len(onlyA) == 1 && c.Not(onlyA[0]) == c.And(onlyB...) || len(onlyB) == 1 && c.Not(onlyB[0]) == c.And(onlyA...) {
		var common []*Term
		for _, x := range ca {
			if inB[x] {
				common = append(common, x)
			}
		}
		return c.And(common...)
	}
	if len(onlyA) == 1 && len(onlyB) > 1 {
		na := c.Not(onlyA[0])
		for k, x := range onlyB {
			if x == na { // p or (not p and q) => p or q
				rest := append(append([]*Term{}, onlyB[:k]...), onlyB[k+1:]...)
				_ = rest
			}
		}
	}
	return nil
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True || a == b {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	if b.Op == "=>" {
		return c.Imp(c.And(a, b.Args[0]), b.Args[1])
	}
	// drop conjuncts implied syntactically
	if b.Op == "and" {
		inA := map[*Term]bool{}
		for _, x := range conjuncts(a) {
			inA[x] = true
		}
		var rest []*Term
		for _, x := range b.Args {
			if !inA[x] {
				rest = append(rest, x)
			}
		}
		if len(rest) != len(b.Args) {
			return c.Imp(a, c.And(rest...))
		}
	} else {
		for _, x := range conjuncts(a) {
			if x == b {
				return c.True
			}
		}
	}
	return c.mk("=>", "", sBool, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort && a.Sort.String() != b.Sort.String() {
		panic(fmt.Sprintf("sort mismatch in =: %s:%s vs %s:%s", c.show(a), a.Sort, c.show(b), b.Sort))
	}
	if a.isLit() && b.isLit() && a.Sort.Kind != SReal {
		return c.False
	}
	if a.Sort.Kind == SBool {
		if b == c.True {
			return a
		}
		if a == c.True {
			return b
		}
		if b == c.False {
			return c.Not(a)
		}
		if a == c.False {
			return c.Not(b)
		}
	}
	if a.Sort.Kind == SStruct && a.Op == "mk" && b.Op == "mk" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if a.Sort.Kind == SStruct && (a.Op == "mk" || b.Op == "mk") {
		var cs []*Term
		for i := range a.Sort.Fields {
			cs = append(cs, c.Eq(c.Sel(a, i), c.Sel(b, i)))
		}
		return c.And(cs...)
	}
	if a.Sort.Kind == SStr {
		if t := c.strEq(a, b); t != nil {
			return t
		}
	}
	// ite with literal branches
	if a.Op == "ite" && b.isLit() {
		x, y := c.Eq(a.Args[1], b), c.Eq(a.Args[2], b)
		if x.isLit() || y.isLit() {
			return c.Ite(a.Args[0], x, y)
		}
	}
	if b.Op == "ite" && a.isLit() {
		return c.Eq(b, a)
	}
	if a.Sort.Kind == SInt {
		// x + k = n
		if ai, bi := c.splitOff(a), c.splitOff(b); ai.base == bi.base && ai.base != nil {
			return c.Bool(ai.off == bi.off)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", sBool, a, b)
}

func (c *Ctx) strEq(a, b *Term) *Term {
	if s, ok := b.isStr(); ok && s == "" && a.Op == "cat" {
		for _, x := range a.Args {
			if l, ok := x.isStr(); ok && l != "" {
				return c.False
			}
		}
	}
	if s, ok := a.isStr(); ok && s == "" && b.Op == "cat" {
		return c.strEq(b, a)
	}
	if a.Op == "cat" && b.Op == "cat" {
		// strip common literal/equal prefix and suffix
		x, y := a.Args, b.Args
		ch := false
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y, ch = x[1:], y[1:], true
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
			x, y, ch = x[:len(x)-1], y[:len(y)-1], true
		}
		if ch {
			return c.Eq(c.Cat(x...), c.Cat(y...))
		}
	}
	return nil
}

type offTerm struct {
	base *Term
	off  int64
}

func (c *Ctx) splitOff(t *Term) offTerm {
	if n, ok := t.isInt(); ok {
		return offTerm{c.True, n}
	}
	if t.Op == "+" && len(t.Args) == 2 {
		if n, ok := t.Args[1].isInt(); ok {
			return offTerm{t.Args[0], n}
		}
	}
	return offTerm{t, 0}
}

func (c *Ctx) Ite(cnd, a, b *Term) *Term {
	if cnd == c.True || a == b {
		return a
	}
	if cnd == c.False {
		return b
	}
	if cnd.Op == "not" {
		return c.Ite(cnd.Args[0], b, a)
	}
	if a.Sort.Kind == SBool {
		if a == c.True && b == c.False {
			return cnd
		}
		if a == c.False && b == c.True {
			return c.Not(cnd)
		}
		if a == c.True {
			return c.Or(cnd, b)
		}
		if b == c.False {
			return c.And(cnd, a)
		}
		if a == c.False {
			return c.And(c.Not(cnd), b)
		}
		if b == c.True {
			return c.Or(c.Not(cnd), a)
		}
	}
	if a.Op == "ite" && a.Args[0] == cnd {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == cnd {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.Sort.Kind == SStruct && a.Op == "mk" && b.Op == "mk" {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = c.Ite(cnd, a.Args[i], b.Args[i])
		}
		return c.Mk(a.Sort, args...)
	}
	return c.mk("ite", "", a.Sort, cnd, a, b)
}

func (c *Ctx) Add(a, b *Term) *Term {
	x, y := c.splitOff(a), c.splitOff(b)
	if x.base == c.True && y.base == c.True {
		return c.Int(x.off + y.off)
	}
	if y.base == c.True {
		return c.plusK(x.base, x.off+y.off)
	}
	if x.base == c.True {
		return c.plusK(y.base, x.off+y.off)
	}
	// a - b + b
	if x.base.Op == "-" && x.base.Args[1] == y.base {
		return c.plusK(x.base.Args[0], x.off+y.off)
	}
	if x.base.id > y.base.id {
		x, y = y, x
	}
	return c.plusK(c.mk("+", "", a.Sort, x.base, y.base), x.off+y.off)
}
func (c *Ctx) plusK(t *Term, k int64) *Term {
	if k == 0 {
		return t
	}
	return c.mk("+", "", sInt, t, c.Int(k))
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.Sort.Kind == SReal {
		return c.mk("-", "", sReal, a, b)
	}
	x, y := c.splitOff(a), c.splitOff(b)
	if x.base == y.base {
		return c.Int(x.off - y.off)
	}
	if y.base == c.True {
		return c.plusK(x.base, x.off-y.off)
	}
	if x.base == c.True {
		return c.plusK(c.mk("-", "", sInt, c.Int(0), y.base), x.off-y.off)
	}
	return c.plusK(c.mk("-", "", sInt, x.base, y.base), x.off-y.off)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return c.Int(x * y)
		}
	}
	return c.mk("*", "", a.Sort, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if a.Sort.Kind == SInt {
		return c.Le(c.Add(a, c.Int(1)), b)
	}
	if a == b {
		return c.False
	}
	return c.mk("<", "", sBool, a, b)
}
func (c *Ctx) Le(a, b *Term) *Term {
	if a.Sort.Kind == SInt {
		x, y := c.splitOff(a), c.splitOff(b)
		if x.base == y.base {
			return c.Bool(x.off <= y.off)
		}
		// canonical: base_x <= base_y + k
		k := y.off - x.off
		if x.base == c.True { // const <= y  ->  k' <= base
			return c.nonNeg(c.Int(-k), y.base)
		}
		if y.base == c.True {
			return c.mk("<=", "", sBool, x.base, c.Int(k))
		}
		return c.mk("<=", "", sBool, x.base, c.plusK(y.base, k))
	}
	if a == b {
		return c.True
	}
	return c.mk("<=", "", sBool, a, b)
}

func (c *Ctx) nonNeg(k, t *Term) *Term {
	n, _ := k.isInt()
	if n <= 0 && (t.Op == "len" || t.Op == "strlen" || t.Op == "card") {
		return c.True
	}
	return c.mk("<=", "", sBool, k, t)
}

// ---- structs

func (c *Ctx) Mk(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("mk arity " + s.Name)
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].Op == "sel" && args[0].Args[0].Sort == s {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != "sel" || a.Args[0] != x || a.Lit != s.Fields[i].Name {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return c.mk("mk", s.Name, s, args...)
}

func (c *Ctx) Sel(t *Term, i int) *Term {
	if t.Op == "mk" {
		return t.Args[i]
	}
	f := t.Sort.Fields[i]
	if t.Op == "ite" && (t.Args[1].Op == "mk" || t.Args[2].Op == "mk" || t.Args[1].Op == "ite" || t.Args[2].Op == "ite") {
		return c.Ite(t.Args[0], c.Sel(t.Args[1], i), c.Sel(t.Args[2], i))
	}
	return c.mk("sel", f.Name, f.Sort, t)
}

func (c *Ctx) SetField(t *Term, i int, v *Term) *Term {
	args := make([]*Term, len(t.Sort.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.Sel(t, j)
		}
	}
	return c.Mk(t.Sort, args...)
}

// ---- SMT arrays (heaps)

func (c *Ctx) Select(a, i *Term) *Term {
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		e := c.Eq(a.Args[1], i)
		if e == c.False {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "ite" {
		x, y := c.Select(a.Args[1], i), c.Select(a.Args[2], i)
		if x.Op != "select" || y.Op != "select" || x == y {
			return c.Ite(a.Args[0], x, y)
		}
	}
	return c.mk("select", "", a.Sort.Elem, a, i)
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return c.mk("store", "", a.Sort, a, i, v)
}

// ---- sequences

func (c *Ctx) Empty(s *Sort) *Term { return c.mk("empty", "", s) }
func (c *Ctx) Nil(s *Sort) *Term   { return c.mk("nil", "", s) }
func (c *Ctx) Len(s *Term) *Term {
	switch s.Op {
	case "empty", "nil":
		return c.Int(0)
	case "snoc":
		return c.Add(c.Len(s.Args[0]), c.Int(1))
	case "upd":
		return c.Len(s.Args[0])
	case "scat":
		return c.Add(c.Len(s.Args[0]), c.Len(s.Args[1]))
	case "norm", "sorted":
		return c.Len(s.Args[0])
	case "ite":
		return c.Ite(s.Args[0], c.Len(s.Args[1]), c.Len(s.Args[2]))
	}
	return c.mk("len", "", sInt, s)
}
func (c *Ctx) At(s, i *Term) *Term {
	switch s.Op {
	case "snoc":
		e := c.Eq(i, c.Len(s.Args[0]))
		if e == c.True {
			return s.Args[1]
		}
		if e == c.False {
			return c.At(s.Args[0], i)
		}
	case "upd":
		e := c.Eq(i, s.Args[1])
		if e == c.True {
			return s.Args[2]
		}
		if e == c.False {
			return c.At(s.Args[0], i)
		}
	case "norm":
		return c.At(s.Args[0], i)
	case "sub":
		return c.At(s.Args[0], c.Add(i, s.Args[1]))
	case "ite":
		x, y := c.At(s.Args[1], i), c.At(s.Args[2], i)
		return c.Ite(s.Args[0], x, y)
	}
	return c.mk("at", "", s.Sort.Elem, s, i)
}
func (c *Ctx) Snoc(s, x *Term) *Term {
	s = c.Norm(s)
	return c.mk("snoc", "", s.Sort, s, x)
}
func (c *Ctx) SCat(a, b *Term) *Term {
	switch b.Op {
	case "nil", "empty":
		return a
	case "snoc":
		return c.Snoc(c.SCat(a, b.Args[0]), b.Args[1])
	}
	a, b = c.Norm(a), c.Norm(b)
	if a.Op == "empty" {
		return b
	}
	if b.Op == "empty" {
		return a
	}
	return c.mk("scat", "", a.Sort, a, b)
}
func (c *Ctx) Upd(s, i, v *Term) *Term {
	if s.Op == "upd" && s.Args[1] == i {
		s = s.Args[0]
	}
	if s.Op == "snoc" {
		e := c.Eq(i, c.Len(s.Args[0]))
		if e == c.True {
			return c.Snoc(s.Args[0], v)
		}
		if e == c.False {
			return c.Snoc(c.Upd(s.Args[0], i, v), s.Args[1])
		}
	}
	return c.mk("upd", "", s.Sort, s, i, v)
}
func (c *Ctx) SubSeq(s, lo, hi *Term) *Term {
	if l, ok := lo.isInt(); ok && l == 0 && hi == c.Len(s) {
		return s
	}
	if s.Op == "sub" {
		return c.SubSeq(s.Args[0], c.Add(s.Args[1], lo), c.Add(s.Args[1], hi))
	}
	if l, ok := lo.isInt(); ok {
		if h, ok := hi.isInt(); ok && h-l >= 0 && h-l <= 4 {
			if n, ok := c.Len(s).isInt(); ok && h <= n {
				r := c.Empty(s.Sort)
				for k := l; k < h; k++ {
					r = c.Snoc(r, c.At(s, c.Int(k)))
				}
				return r
			}
		}
	}
	return c.mk("sub", "", s.Sort, s, lo, hi)
}

// Norm drops nil-ness: norm(nil) = empty, otherwise identity.
func (c *Ctx) Norm(s *Term) *Term {
	switch s.Op {
	case "nil":
		return c.Empty(s.Sort)
	case "empty", "norm", "snoc", "put", "scat", "munion":
		return s
	case "ite":
		return c.Ite(s.Args[0], c.Norm(s.Args[1]), c.Norm(s.Args[2]))
	}
	return c.mk("norm", "", s.Sort, s)
}
func (c *Ctx) IsNil(s *Term) *Term {
	switch s.Op {
	case "nil":
		return c.True
	case "empty", "snoc", "put", "norm", "munion":
		return c.False
	case "upd":
		return c.False
	case "ite":
		return c.Ite(s.Args[0], c.IsNil(s.Args[1]), c.IsNil(s.Args[2]))
	}
	return c.mk("isnil", "", sBool, s)
}
func (c *Ctx) In(x, s *Term) *Term {
	switch s.Op {
	case "nil", "empty":
		return c.False
	case "snoc":
		return c.Or(c.In(x, s.Args[0]), c.Eq(x, s.Args[1]))
	case "norm":
		return c.In(x, s.Args[0])
	case "scat":
		return c.Or(c.In(x, s.Args[0]), c.In(x, s.Args[1]))
	case "ite":
		return c.Ite(s.Args[0], c.In(x, s.Args[1]), c.In(x, s.Args[2]))
	}
	return c.mk("in", "", sBool, x, s)
}

// ---- maps

func (c *Ctx) Has(m, k *Term) *Term {
	switch m.Op {
	case "nil", "empty":
		return c.False
	case "put":
		return c.Or(c.Eq(k, m.Args[1]), c.Has(m.Args[0], k))
	case "norm":
		return c.Has(m.Args[0], k)
	case "munion":
		return c.Or(c.Has(m.Args[0], k), c.Has(m.Args[1], k))
	case "ite":
		return c.Ite(m.Args[0], c.Has(m.Args[1], k), c.Has(m.Args[2], k))
	}
	return c.mk("has", "", sBool, m, k)
}
func (c *Ctx) Get(m, k *Term) *Term {
	switch m.Op {
	case "put":
		return c.Ite(c.Eq(k, m.Args[1]), m.Args[2], c.Get(m.Args[0], k))
	case "norm":
		return c.Get(m.Args[0], k)
	case "munion":
		return c.Ite(c.Has(m.Args[1], k), c.Get(m.Args[1], k), c.Get(m.Args[0], k))
	case "ite":
		return c.Ite(m.Args[0], c.Get(m.Args[1], k), c.Get(m.Args[2], k))
	}
	return c.mk("get", "", m.Sort.Elem, m, k)
}
func (c *Ctx) Put(m, k, v *Term) *Term {
	m = c.Norm(m)
	if m.Op == "put" && m.Args[1] == k {
		m = m.Args[0]
	}
	return c.mk("put", "", m.Sort, m, k, v)
}
func (c *Ctx) MUnion(a, b *Term) *Term {
	a = c.Norm(a)
	switch b.Op {
	case "nil", "empty":
		return a
	case "put":
		return c.Put(c.MUnion(a, b.Args[0]), b.Args[1], b.Args[2])
	case "norm":
		b = b.Args[0]
	}
	return c.mk("munion", "", a.Sort, a, b)
}
func (c *Ctx) Card(m *Term) *Term {
	switch m.Op {
	case "nil", "empty":
		return c.Int(0)
	case "norm":
		return c.Card(m.Args[0])
	}
	return c.mk("card", "", sInt, m)
}

// ---- strings

func (c *Ctx) Cat(parts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "cat" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if s, ok := t.isStr(); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if l, ok := out[len(out)-1].isStr(); ok {
					out[len(out)-1] = c.Str(l + s)
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return c.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("cat", "", sStr, out...)
}

func (c *Ctx) StrLen(s *Term) *Term {
	if l, ok := s.isStr(); ok {
		return c.Int(int64(len(l)))
	}
	if s.Op == "cat" {
		r := c.Int(0)
		for _, a := range s.Args {
			r = c.Add(r, c.StrLen(a))
		}
		return r
	}
	return c.mk("strlen", "", sInt, s)
}

// App: uninterpreted function application.
func (c *Ctx) App(name string, s *Sort, args ...*Term) *Term {
	return c.mk("app", name, s, args...)
}

// ---- quantifiers

func (c *Ctx) Quant(op string, bvs []*Term, body *Term, pats [][]*Term) *Term {
	if body == c.True || body == c.False {
		return body
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%d", op, body.id)
	for _, v := range bvs {
		fmt.Fprintf(&b, ",%d", v.id)
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, Args: []*Term{body}, BV: bvs, Pats: pats, Sort: sBool, id: c.next, key: k}
	c.next++
	own := map[*Term]bool{}
	for _, v := range bvs {
		own[v] = true
	}
	t.bnd = hasFreeBV(body, own, map[*Term]bool{})
	c.tab[k] = t
	return t
}

func hasFreeBV(t *Term, own map[*Term]bool, seen map[*Term]bool) bool {
	if !t.bnd || seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "bvar" {
		return !own[t]
	}
	if t.Op == "forall" || t.Op == "exists" {
		own2 := map[*Term]bool{}
		for k := range own {
			own2[k] = true
		}
		for _, v := range t.BV {
			own2[v] = true
		}
		return hasFreeBV(t.Args[0], own2, map[*Term]bool{})
	}
	for _, a := range t.Args {
		if hasFreeBV(a, own, seen) {
			return true
		}
	}
	return false
}

// subst replaces terms (memoised).
func (c *Ctx) subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch && (t.Op == "forall" || t.Op == "exists") {
			var pats [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					y := rec(x)
					switch y.Op {
					case "at", "get", "has", "in", "app":
						q = append(q, y)
					}
				}
				if len(q) == len(p) {
					pats = append(pats, q)
				}
			}
			r = c.Quant(t.Op, t.BV, args[0], pats)
		} else if ch {
			r = c.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "=>":
		return c.Imp(a[0], a[1])
	case "=":
		return c.Eq(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "+":
		return c.Add(a[0], a[1])
	case "-":
		return c.Sub(a[0], a[1])
	case "<":
		return c.Lt(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "mk":
		return c.Mk(t.Sort, a...)
	case "sel":
		for i, f := range a[0].Sort.Fields {
			if f.Name == t.Lit {
				return c.Sel(a[0], i)
			}
		}
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "len":
		return c.Len(a[0])
	case "at":
		return c.At(a[0], a[1])
	case "snoc":
		return c.Snoc(a[0], a[1])
	case "scat":
		return c.SCat(a[0], a[1])
	case "upd":
		return c.Upd(a[0], a[1], a[2])
	case "sub":
		return c.SubSeq(a[0], a[1], a[2])
	case "norm":
		return c.Norm(a[0])
	case "isnil":
		return c.IsNil(a[0])
	case "in":
		return c.In(a[0], a[1])
	case "has":
		return c.Has(a[0], a[1])
	case "get":
		return c.Get(a[0], a[1])
	case "put":
		return c.Put(a[0], a[1], a[2])
	case "card":
		return c.Card(a[0])
	case "munion":
		return c.MUnion(a[0], a[1])
	case "cat":
		return c.Cat(a...)
	case "strlen":
		return c.StrLen(a[0])
	case "forall", "exists":
		pats := t.Pats
		return c.Quant(t.Op, t.BV, a[0], pats)
	}
	return c.mk(t.Op, t.Lit, t.Sort, a...)
}

// show prints a term for humans.
func (c *Ctx) show(t *Term) string {
	var b strings.Builder
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if b.Len() > 2500 {
			return
		}
		switch t.Op {
		case "var", "bvar", "int", "real":
			b.WriteString(t.Lit)
			return
		case "str":
			b.WriteString(strconv.Quote(t.Lit))
			return
		}
		n := t.Op
		if t.Op == "app" || t.Op == "sel" || t.Op == "mk" {
			n = t.Lit
			if t.Op == "sel" {
				n = "." + t.Lit
			}
		}
		if len(t.Args) == 0 {
			b.WriteString(n)
			return
		}
		if d > 12 {
			b.WriteString("…")
			return
		}
		b.WriteString("(" + n)
		if len(t.BV) > 0 {
			b.WriteString(" [")
			for _, v := range t.BV {
				b.WriteString(" " + v.Lit)
			}
			b.WriteString("]")
		}
		for _, a := range t.Args {
			b.WriteString(" ")
			rec(a, d+1)
		}
		b.WriteString(")")
	}
	rec(t, 0)
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
