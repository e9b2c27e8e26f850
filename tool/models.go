package main

// Models of the library functions the code under contract calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callInfo struct {
	f    *ssa.Function
	args []Val
	regs []ssa.Value
	pos  token.Pos
}

type modelFn func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State)

var models map[string]modelFn
var imodels map[string]func(u *Unit, fr *Frame, st *State, recv *Term, args []Val, cc *ssa.CallCommon) []Val

var imodelPure = map[string]bool{
	repoMod + "/pkg/database.DB.Identifier":                     true,
	repoMod + "/pkg/database.DB.Name":                           true,
	"github.com/google/osv-scalibr/semantic.Version.CompareStr": true,
	"io/fs.FileInfo.Name":                                       true,
	"io/fs.FileInfo.IsDir":                                      true,
	"io/fs.DirEntry.IsDir":                                      true,
	"io/fs.DirEntry.Name":                                       true,
	"error.Error":                                               true,
	repoMod + "/internal/reporter.Result.String":                true,
}

var purePkgs = []string{
	"strings.", "strconv.", "path.", "path/filepath.", "net/url.", "(*net/url.URL).", "(net/url.Values).", "unicode.", "regexp.", "(*regexp.Regexp).",
	"github.com/fatih/color.", "github.com/google/osv-scalibr/semantic.", "github.com/tidwall/jsonc.", "crypto/sha256.", "os.TempDir", "os.Getenv", "math.",
	"context.Background", "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "(net/http.Header).Get", "(time.Time).", "golang.org/x/mod/modfile.Parse",
	"archive/zip.NewReader", "io.ReadAll", "(*archive/zip.File).Open", "bytes.", "cmp.", "unicode/utf8.",
}

func pureExternal(n string) bool {
	if n == "path/filepath.Walk" || n == "path/filepath.WalkDir" || n == "strings.NewReplacer" {
		return false
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (u *Unit) outGhost(st *State) *Term {
	g, ok := st.ghosts["out"]
	if !ok {
		g = u.c.Var("G0.out", u.st.Map(sIfc, sStr))
	}
	return g
}

func (u *Unit) write(st *State, w *Term, s *Term) {
	g := u.outGhost(st)
	u.setGhost(st, "out", u.c.Put(g, w, u.c.Cat(u.c.Get(g, w), s)))
}

func (u *Unit) ghost(st *State, k string) *Term {
	if g, ok := st.ghosts[k]; ok {
		return g
	}
	return u.c.Var("G0."+k, u.ghostSort(k))
}

func tt(u *Unit, ci *callInfo, i int) *Term { return u.term(ci.args[i]) }

func (u *Unit) nilErr() *Term { return u.c.App("ifc.nil", sIfc) }

// newErr: a fresh non-nil error wrapping the given ones.
func (u *Unit) newErr(st *State, key string, wraps []*Term, args ...*Term) *Term {
	// deterministic in its arguments
	e := u.c.App("error:"+key, sIfc, args...)
	u.axiom(u.c.Not(u.c.Eq(e, u.nilErr())))
	if u.errWraps == nil {
		u.errWraps = map[*Term][]*Term{}
	}
	u.errWraps[e] = wraps
	if key == "errorf" {
		u.axiom(u.c.Eq(u.c.App("im:error.Error", sStr, e), args[0]))
	}
	return e
}

func (u *Unit) errIs(e, t *Term) *Term {
	c := u.c
	if e == t {
		return c.True
	}
	if e.Op == "app" && e.Lit == "ifc.nil" {
		return c.False
	}
	if e.Op == "app" && strings.Contains(e.Lit, ".err:") && strings.HasPrefix(t.Lit, "glob:os.") {
		u.assume["errors of the decoders are not file system errors"] = true
		return c.False
	}
	if e.Op == "ite" {
		return c.Ite(e.Args[0], u.errIs(e.Args[1], t), u.errIs(e.Args[2], t))
	}
	if ws, ok := u.errWraps[e]; ok {
		r := c.Eq(e, t)
		if strings.HasPrefix(t.Lit, "glob:") {
			r = c.False // an error made here is none of the package-level ones
		}
		for _, w := range ws {
			r = c.Or(r, u.errIs(w, t))
		}
		return r
	}
	return c.And(c.Not(c.Eq(e, u.nilErr())), c.Or(c.Eq(e, t), c.App("errIs", sBool, e, t)))
}

// sprintf expands a constant format over its arguments.
func (u *Unit) sprintf(st *State, format *Term, va Val) (*Term, []*Term) {
	c := u.c
	fs, ok := format.isStr()
	vals := u.variadic(st, va)
	var seq *Term
	if t, ok := va.(*Term); ok {
		seq = t
	}
	if !ok {
		if seq == nil {
			seq = c.Nil(u.st.Seq(sIfc))
		}
		return c.App("fmt.Sprintf", sStr, format, c.Norm(seq)), nil
	}
	var parts, wraps []*Term
	k := 0
	i := 0
	for i < len(fs) {
		if fs[i] != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				j = len(fs) - i
			}
			parts = append(parts, c.Str(fs[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.[]", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			break
		}
		verb := fs[i : j+1]
		i = j + 1
		if verb == "%%" {
			parts = append(parts, c.Str("%"))
			continue
		}
		if k >= len(vals) {
			parts = append(parts, c.Str("%!"+verb[1:]+"(MISSING)"))
			continue
		}
		a := u.term(vals[k])
		k++
		if verb == "%w" {
			wraps = append(wraps, a)
			parts = append(parts, c.App("fmt%v", sStr, a))
			continue
		}
		parts = append(parts, u.fmtArg(verb, a))
	}
	for ; k < len(vals); k++ {
		parts = append(parts, c.App("fmtextra", sStr, u.term(vals[k])))
	}
	return c.Cat(parts...), wraps
}

func (u *Unit) fmtArg(verb string, a *Term) *Term {
	c := u.c
	if a.Op == "ite" {
		return c.Ite(a.Args[0], u.fmtArg(verb, a.Args[1]), u.fmtArg(verb, a.Args[2]))
	}
	if a.Op == "app" && strings.HasPrefix(a.Lit, "box:") {
		x := a.Args[0]
		plain := !strings.Contains(a.Lit, ".String") // named string types without a String method print as strings
		if x.Sort == sStr && (verb == "%s" || verb == "%v") && plain {
			return x
		}
		if x.Sort == sInt && (verb == "%d" || verb == "%v") {
			return u.itoa(x)
		}
	}
	r := c.App("fmt"+strings.Replace(verb, "%s", "%v", 1), sStr, a)
	if verb == "%x" && a.Op == "app" && strings.HasPrefix(a.Lit, "box:[") {
		// hexadecimal digits: the bytes can be read off again
		u.axiom(c.Eq(c.App("unhex", a.Sort, r), a))
	}
	return r
}

// plainName: a file name without separators.
func plainName(t *Term) bool {
	if s, ok := t.isStr(); ok {
		return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\\")
	}
	if t.Op == "app" && t.Lit == "fmt%x" {
		return strings.HasPrefix(t.Args[0].Lit, "box:[")
	}
	if t.Op != "cat" {
		return false
	}
	lit := false
	for _, a := range t.Args {
		if !plainName(a) {
			return false
		}
		_, ok := a.isStr()
		lit = lit || ok
	}
	return lit
}

func (u *Unit) itoa(x *Term) *Term {
	if n, ok := x.isInt(); ok {
		return u.c.Str(fmt.Sprint(n))
	}
	return u.c.App("strconv.Itoa", sStr, x)
}

// ---- strings

func (u *Unit) hasPrefix(s, p *Term) *Term {
	c := u.c
	if b, ok := p.isStr(); ok {
		if b == "" {
			return c.True
		}
		if a, ok := s.isStr(); ok {
			return c.Bool(strings.HasPrefix(a, b))
		}
		if s.Op == "cat" {
			if a, ok := s.Args[0].isStr(); ok {
				if len(a) >= len(b) {
					return c.Bool(strings.HasPrefix(a, b))
				}
				if !strings.HasPrefix(b, a) {
					return c.False
				}
			}
		}
	}
	if s == p || s.Op == "cat" && s.Args[0] == p {
		return c.True
	}
	if s.Op == "cat" && p.Op == "cat" && len(p.Args) <= len(s.Args) {
		// the same parts come first
		n := len(p.Args)
		same := true
		for i := 0; i < n-1; i++ {
			same = same && s.Args[i] == p.Args[i]
		}
		if same && s.Args[n-1] == p.Args[n-1] {
			return c.True
		}
		a, ok1 := s.Args[n-1].isStr()
		b, ok2 := p.Args[n-1].isStr()
		if same && ok1 && ok2 && strings.HasPrefix(a, b) {
			return c.True
		}
	}
	return c.App("s.hasPrefix", sBool, s, p)
}

func (u *Unit) hasSuffix(s, p *Term) *Term {
	c := u.c
	if b, ok := p.isStr(); ok {
		if b == "" {
			return c.True
		}
		if a, ok := s.isStr(); ok {
			return c.Bool(strings.HasSuffix(a, b))
		}
		if s.Op == "cat" {
			if a, ok := s.Args[len(s.Args)-1].isStr(); ok && len(a) >= len(b) {
				return c.Bool(strings.HasSuffix(a, b))
			}
		}
	}
	if s == p {
		return c.True
	}
	return c.App("s.hasSuffix", sBool, s, p)
}

func (u *Unit) contains(s, p *Term) *Term {
	c := u.c
	if b, ok := p.isStr(); ok {
		if b == "" {
			return c.True
		}
		if a, ok := s.isStr(); ok {
			return c.Bool(strings.Contains(a, b))
		}
	}
	if s.Op == "cat" {
		for _, a := range s.Args {
			if r := u.containsLit(a, p); r {
				return c.True
			}
		}
	}
	return c.App("s.contains", sBool, s, p)
}

func (u *Unit) containsLit(a, p *Term) bool {
	x, ok1 := a.isStr()
	y, ok2 := p.isStr()
	return a == p || ok1 && ok2 && strings.Contains(x, y)
}

// cut returns before, after, found.
func (u *Unit) cut(st *State, s, sep *Term) (*Term, *Term, *Term) {
	c := u.c
	if a, ok := s.isStr(); ok {
		if b, ok := sep.isStr(); ok {
			x, y, f := strings.Cut(a, b)
			return c.Str(x), c.Str(y), c.Bool(f)
		}
	}
	found := u.contains(s, sep)
	// s = lit + rest with the separator inside the leading literal
	if s.Op == "cat" {
		if a, ok := s.Args[0].isStr(); ok {
			if b, ok := sep.isStr(); ok {
				if x, y, f := strings.Cut(a, b); f {
					return c.Str(x), c.Cat(append([]*Term{c.Str(y)}, s.Args[1:]...)...), c.True
				}
			}
		}
	}
	b, a := c.App("s.cutB", sStr, s, sep), c.App("s.cutA", sStr, s, sep)
	u.axiom(c.Imp(found, c.And(c.Eq(c.Cat(b, sep, a), s), c.Not(u.containsApp(b, sep)), c.Eq(c.StrLen(s), c.Add(c.Add(c.StrLen(b), c.StrLen(sep)), c.StrLen(a))))))
	u.axiom(c.Imp(c.Not(found), c.And(c.Eq(b, s), c.Eq(a, c.Str("")))))
	return b, a, found
}

func (u *Unit) containsApp(s, p *Term) *Term { return u.c.App("s.contains", sBool, s, p) }

func (u *Unit) dropP(s, p *Term) *Term {
	c := u.c
	if a, ok := s.isStr(); ok {
		if b, ok := p.isStr(); ok {
			return c.Str(strings.TrimPrefix(a, b))
		}
	}
	if s.Op == "cat" {
		if a, ok := s.Args[0].isStr(); ok {
			if b, ok := p.isStr(); ok && strings.HasPrefix(a, b) {
				return c.Cat(append([]*Term{c.Str(a[len(b):])}, s.Args[1:]...)...)
			}
		}
		if s.Args[0] == p {
			return c.Cat(s.Args[1:]...)
		}
	}
	h := u.hasPrefix(s, p)
	r := c.App("s.dropP", sStr, s, p)
	u.axiom(c.Imp(h, c.And(c.Eq(c.Cat(p, r), s), c.Eq(c.StrLen(s), c.Add(c.StrLen(p), c.StrLen(r))))))
	u.axiom(c.Imp(c.Not(h), c.Eq(r, s)))
	return r
}

func (u *Unit) dropS(s, p *Term) *Term {
	c := u.c
	if a, ok := s.isStr(); ok {
		if b, ok := p.isStr(); ok {
			return c.Str(strings.TrimSuffix(a, b))
		}
	}
	h := u.hasSuffix(s, p)
	r := c.App("s.dropS", sStr, s, p)
	u.axiom(c.Imp(h, c.And(c.Eq(c.Cat(r, p), s), c.Eq(c.StrLen(s), c.Add(c.StrLen(p), c.StrLen(r))))))
	u.axiom(c.Imp(c.Not(h), c.Eq(r, s)))
	return r
}

func (u *Unit) substr(st *State, s, lo, hi *Term) *Term {
	c := u.c
	if n, ok := lo.isInt(); ok && n == 0 && hi == c.StrLen(s) {
		return s
	}
	if a, ok := s.isStr(); ok {
		if l, ok := lo.isInt(); ok {
			if h, ok := hi.isInt(); ok && 0 <= l && l <= h && h <= int64(len(a)) {
				return c.Str(a[l:h])
			}
		}
	}
	isIdx := func(t *Term) (*Term, int64, bool) {
		o := c.splitOff(t)
		if o.base != nil && o.base.Op == "app" && o.base.Lit == "s.index" && o.base.Args[0] == s {
			return o.base, o.off, true
		}
		return nil, 0, false
	}
	if n, ok := lo.isInt(); ok && n == 0 {
		if ix, off, ok := isIdx(hi); ok && off == 0 {
			b, _, _ := u.cut(st, s, ix.Args[1])
			return c.Ite(c.Le(c.Int(0), ix), b, c.App("s.sub", sStr, s, lo, hi))
		}
	}
	if hi == c.StrLen(s) {
		if ix, off, ok := isIdx(lo); ok {
			if p, ok := ix.Args[1].isStr(); ok && off == int64(len(p)) {
				_, a, _ := u.cut(st, s, ix.Args[1])
				return c.Ite(c.Le(c.Int(0), ix), a, c.App("s.sub", sStr, s, lo, hi))
			}
		}
	}
	r := c.App("s.sub", sStr, s, lo, hi)
	u.axiom(c.Imp(c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.StrLen(s))), c.Eq(c.StrLen(r), c.Sub(hi, lo))))
	if hi == c.StrLen(s) {
		// relate s[k:] to prefix removal for the literal prefixes of that length in play
		if k, ok := lo.isInt(); ok {
			u.subTail = append(u.subTail, tailTerm{s, k, r})
			for _, h := range u.prefixSeen {
				if h.s == s && int64(len(h.p)) == k {
					u.axiom(c.Imp(u.hasPrefix(s, c.Str(h.p)), c.Eq(r, u.dropP(s, c.Str(h.p)))))
				}
			}
		}
	}
	return r
}

type tailTerm struct {
	s *Term
	k int64
	r *Term
}
type prefTerm struct {
	s *Term
	p string
}

// idxPrefix: a byte found in a string whose literal prefix lacks it lies after the prefix.
func (u *Unit) idxPrefix(r *Term, h prefTerm) {
	c := u.c
	if x, ok := r.Args[1].isStr(); ok && len(x) == 1 && r.Args[0] == h.s && !strings.Contains(h.p, x) {
		u.axiom(c.Imp(c.And(u.hasPrefix(h.s, c.Str(h.p)), c.Le(c.Int(0), r)), c.Le(c.Int(int64(len(h.p))), r)))
	}
}

func (u *Unit) notePrefix(s, p *Term) {
	if b, ok := p.isStr(); ok {
		for _, h := range u.prefixSeen {
			if h.s == s && h.p == b {
				return
			}
		}
		for _, h := range u.prefixSeen {
			if h.s != s || h.p == "" || b == "" {
				continue
			}
			hp, bp := u.hasPrefix(s, u.c.Str(h.p)), u.hasPrefix(s, p)
			switch {
			case strings.HasPrefix(h.p, b):
				u.axiom(u.c.Imp(hp, bp))
			case strings.HasPrefix(b, h.p):
				u.axiom(u.c.Imp(bp, hp))
			default:
				u.axiom(u.c.Not(u.c.And(hp, bp)))
			}
		}
		u.prefixSeen = append(u.prefixSeen, prefTerm{s, b})
		for _, r := range u.lastIdx {
			u.idxPrefix(r, prefTerm{s, b})
		}
		for _, t := range u.subTail {
			if t.s == s && t.k == int64(len(b)) {
				u.axiom(u.c.Imp(u.hasPrefix(s, p), u.c.Eq(t.r, u.dropP(s, p))))
			}
		}
	}
}

func (u *Unit) index(s, p *Term) *Term {
	c := u.c
	if a, ok := s.isStr(); ok {
		if b, ok := p.isStr(); ok {
			return c.Int(int64(strings.Index(a, b)))
		}
	}
	r := c.App("s.index", sInt, s, p)
	f := u.contains(s, p)
	u.axiom(c.And(c.Le(c.Int(-1), r), c.Eq(c.Le(c.Int(0), r), f), c.Le(c.Add(r, c.Ite(f, c.StrLen(p), c.Int(0))), c.StrLen(s))))
	return r
}

// decode models an Unmarshal-like call into *target.
func (u *Unit) decode(fr *Frame, st *State, kind string, data *Term, target Val, pos token.Pos) ([]Val, *State) {
	c := u.c
	iv, ok := target.(*IfcVal)
	if !ok {
		unsup("decode target")
	}
	p := u.asPtr(iv.V, iv.T)
	et := iv.T.Underlying().(*types.Pointer).Elem()
	old := u.load(st, p, pos)
	errT := c.App(kind+".err:"+typeShort(et), sIfc, data)
	if pt, ok := et.Underlying().(*types.Pointer); ok {
		// decoding into a pointer: nil for a null document, else a new object
		r := st.alloc
		st.alloc = c.Sub(r, c.Int(1))
		for _, m := range u.recs {
			m.alloc = true
		}
		u.fact(st.pc, c.Lt(r, c.Int(0)))
		dv := c.App(kind+".dec:"+typeShort(pt.Elem()), u.st.Of(pt.Elem()), data)
		u.setHeap(st, pt.Elem(), c.Store(u.heap(st, pt.Elem()), r, dv))
		null := c.App(kind+".null", sBool, data)
		oldT := u.term(old)
		res := c.Ite(null, c.Int(0), r)
		// an error may leave anything behind
		part := c.Ite(c.App(kind+".partial", sBool, data), res, oldT)
		u.store(fr, st, p, c.Ite(c.Eq(errT, u.nilErr()), res, part))
		return []Val{errT}, st
	}
	oldT := u.term(old)
	zero := u.Zero(et)
	var nv *Term
	if keep := skipped(et, kind); len(keep) > 0 {
		// fields that the decoder leaves alone
		for _, i := range keep {
			zero = c.SetField(zero, i, c.Sel(oldT, i))
		}
		if oldT == zero {
			nv = c.App(kind+".dec:"+typeShort(et), u.st.Of(et), data)
		} else {
			nv = c.App(kind+".decInto:"+typeShort(et), u.st.Of(et), data, oldT)
		}
		for _, i := range keep {
			nv = c.SetField(nv, i, c.Sel(oldT, i))
		}
	} else if oldT == zero {
		nv = c.App(kind+".dec:"+typeShort(et), u.st.Of(et), data)
	} else {
		nv = c.App(kind+".decInto:"+typeShort(et), u.st.Of(et), data, oldT)
	}
	u.assume["decoders ("+kind+") are deterministic functions of the document (struct tags are covered by the Wire obligations and the bounded checks)"] = true
	u.store(fr, st, p, nv)
	return []Val{errT}, st
}

// skipped: the fields tagged "-" for the decoder.
func skipped(t types.Type, kind string) []int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []int
	for i := 0; i < s.NumFields(); i++ {
		if reflect.StructTag(s.Tag(i)).Get(kind) == "-" {
			out = append(out, i)
		}
	}
	return out
}

// setHeader: the headers of the request being made (there is one at a time).
func setHeader(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
	u.assume["request headers are set on the request that is sent next"] = true
	u.setGhost(st, "http.hdr", u.c.Put(u.ghost(st, "http.hdr"), tt(u, ci, 1), tt(u, ci, 2)))
	return nil, st
}

// yamlEnc: the document for a value, without the fields that are left out.
func (u *Unit) yamlEnc(st *State, v Val, pos token.Pos) *Term {
	iv, ok := v.(*IfcVal)
	if !ok {
		unsup("yaml value")
	}
	t := u.term(iv.V)
	for _, i := range skipped(iv.T, "yaml") {
		s := iv.T.Underlying().(*types.Struct)
		t = u.c.SetField(t, i, u.Zero(s.Field(i).Type()))
	}
	return u.c.App("yaml.enc:"+typeShort(iv.T), sStr, t)
}

func reGroups(pat string) int {
	r, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return -1
	}
	return r.MaxCap()
}

// reMinLens: the least lengths of the groups that take part in every match.
func reMinLens(pat string) map[int]int64 {
	r, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	out := map[int]int64{}
	var min func(r *syntax.Regexp) int64
	min = func(r *syntax.Regexp) int64 {
		switch r.Op {
		case syntax.OpLiteral:
			return int64(len(r.Rune))
		case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			return 1
		case syntax.OpCapture, syntax.OpPlus:
			return min(r.Sub[0])
		case syntax.OpRepeat:
			return int64(r.Min) * min(r.Sub[0])
		case syntax.OpConcat:
			n := int64(0)
			for _, s := range r.Sub {
				n += min(s)
			}
			return n
		case syntax.OpAlternate:
			n := min(r.Sub[0])
			for _, s := range r.Sub[1:] {
				if m := min(s); m < n {
					n = m
				}
			}
			return n
		}
		return 0
	}
	var walk func(r *syntax.Regexp)
	walk = func(r *syntax.Regexp) {
		switch r.Op {
		case syntax.OpCapture:
			if n := min(r.Sub[0]); n > 0 {
				out[r.Cap] = n
			}
			walk(r.Sub[0])
		case syntax.OpConcat:
			for _, s := range r.Sub {
				walk(s)
			}
		}
	}
	walk(r)
	return out
}

func init() {
	imodels = map[string]func(u *Unit, fr *Frame, st *State, recv *Term, args []Val, cc *ssa.CallCommon) []Val{
		"io.ReadCloser.Close": func(u *Unit, fr *Frame, st *State, recv *Term, args []Val, cc *ssa.CallCommon) []Val {
			return []Val{u.c.Fresh("closeErr", sIfc)}
		},
		// what memDB.Check and APIDB.Check promise
		repoMod + "/pkg/database.DB.Check": func(u *Unit, fr *Frame, st *State, recv *Term, args []Val, cc *ssa.CallCommon) []Val {
			p := u.c.Norm(u.term(args[0]))
			r := u.ufResults("im:DB.Check", cc.Method.Type().(*types.Signature), []*Term{recv, p})
			u.axiom(u.c.Or(u.c.Not(u.c.Eq(u.term(r[1]), u.c.App("ifc.nil", sIfc))), u.c.Eq(u.c.Len(u.term(r[0])), u.c.Len(p))))
			u.assume["a database gives the same answer when asked again for the same packages, one list for each package (the latter is a contract of memDB.Check and APIDB.Check)"] = true
			if u.pureN == 0 {
				for _, g := range []string{"http.req", "http.resp", "http.err", "net"} {
					u.setGhost(st, g, u.c.Fresh(g, u.ghost(st, g).Sort))
				}
			}
			return r
		},
	}
	str1 := func(f func(u *Unit, st *State, a, b *Term) Val) modelFn {
		return func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{f(u, st, tt(u, ci, 0), tt(u, ci, 1))}, st
		}
	}
	sortSeq := func(u *Unit, fr *Frame, st *State, ci *callInfo, less func(a, b *Term) *Term) ([]Val, *State) {
		s := tt(u, ci, 0)
		a, b := u.cmpVars(s.Sort.Elem)
		L := less(a, b)
		if ci.regs[0] != nil {
			u.writeRoot(st, envKey{fr.id, ci.regs[0]}, u.sorted(st, s, L))
		}
		return nil, st
	}
	models = map[string]modelFn{
		"strings.HasPrefix": str1(func(u *Unit, st *State, a, b *Term) Val { u.notePrefix(a, b); return u.hasPrefix(a, b) }),
		"strings.HasSuffix": str1(func(u *Unit, st *State, a, b *Term) Val { return u.hasSuffix(a, b) }),
		"strings.Contains":  str1(func(u *Unit, st *State, a, b *Term) Val { return u.contains(a, b) }),
		"strings.Index":     str1(func(u *Unit, st *State, a, b *Term) Val { return u.index(a, b) }),
		"strings.LastIndex": str1(func(u *Unit, st *State, a, b *Term) Val {
			c := u.c
			r := c.App("s.lastIndex", sInt, a, b)
			f := u.contains(a, b)
			u.axiom(c.And(c.Le(c.Int(-1), r), c.Eq(c.Le(c.Int(0), r), f), c.Le(c.Add(r, c.Ite(f, c.StrLen(b), c.Int(0))), c.StrLen(a))))
			u.lastIdx = append(u.lastIdx, r)
			for _, h := range u.prefixSeen {
				u.idxPrefix(r, h)
			}
			return r
		}),
		"strings.TrimPrefix": str1(func(u *Unit, st *State, a, b *Term) Val { u.notePrefix(a, b); return u.dropP(a, b) }),
		"strings.TrimSuffix": str1(func(u *Unit, st *State, a, b *Term) Val { return u.dropS(a, b) }),
		"strings.Cut": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			b, a, f := u.cut(st, tt(u, ci, 0), tt(u, ci, 1))
			return []Val{b, a, f}, st
		},
		"strings.CutPrefix": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			s, p := tt(u, ci, 0), tt(u, ci, 1)
			u.notePrefix(s, p)
			return []Val{u.dropP(s, p), u.hasPrefix(s, p)}, st
		},
		"strings.CutSuffix": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			s, p := tt(u, ci, 0), tt(u, ci, 1)
			return []Val{u.dropS(s, p), u.hasSuffix(s, p)}, st
		},
		"strings.EqualFold": str1(func(u *Unit, st *State, a, b *Term) Val {
			return u.c.Eq(u.c.App("strings.ToLower", sStr, a), u.c.App("strings.ToLower", sStr, b))
		}),
		"strings.ToLower": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			s := tt(u, ci, 0)
			if l, ok := s.isStr(); ok {
				return []Val{u.c.Str(strings.ToLower(l))}, st
			}
			return []Val{u.c.App("strings.ToLower", sStr, s)}, st
		},
		"strings.SplitN": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			s, sep, n := tt(u, ci, 0), tt(u, ci, 1), tt(u, ci, 2)
			ss := u.st.Seq(sStr)
			k, ok := n.isInt()
			if !ok || k <= 0 {
				return []Val{c.App("strings.SplitN", ss, s, sep, n)}, st
			}
			if k == 1 {
				return []Val{c.Snoc(c.Empty(ss), s)}, st
			}
			cur := s
			var parts []*Term
			r := c.Snoc(c.Empty(ss), s)
			_ = parts
			// r_j: j parts
			res := r
			prefix := c.Empty(ss)
			var conds []*Term
			var outs []*Term
			for j := int64(1); j < k; j++ {
				b, a, f := u.cut(st, cur, sep)
				conds = append(conds, c.Not(f))
				outs = append(outs, c.Snoc(prefix, cur))
				prefix = c.Snoc(prefix, b)
				cur = a
			}
			res = c.Snoc(prefix, cur)
			for j := len(conds) - 1; j >= 0; j-- {
				res = c.Ite(conds[j], outs[j], res)
			}
			return []Val{res}, st
		},
		"strings.IndexAny": str1(func(u *Unit, st *State, a, b *Term) Val {
			c := u.c
			r := c.App("strings.IndexAny", sInt, a, b)
			u.axiom(c.And(c.Le(c.Int(-1), r), c.Le(c.Add(r, c.Ite(c.Le(c.Int(0), r), c.Int(1), c.Int(0))), c.StrLen(a))))
			return r
		}),
		"strings.FieldsFunc": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			cl, ok := ci.args[1].(*Clo)
			if !ok {
				unsup("strings.FieldsFunc predicate")
			}
			bv := c.Var("ff.r", sInt)
			b := u.evalClo(cl, []Val{bv}, st)
			return []Val{c.App("strings.FieldsFunc|"+fmt.Sprint(b.id), u.st.Seq(sStr), tt(u, ci, 0))}, st
		},
		"strings.Split": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			s, sep := tt(u, ci, 0), tt(u, ci, 1)
			r := c.App("strings.Split", u.st.Seq(sStr), s, sep)
			if p, ok := sep.isStr(); ok && p != "" {
				b, _, f := u.cut(st, s, sep)
				u.axiom(c.And(c.Le(c.Int(1), c.Len(r)), c.Eq(c.At(r, c.Int(0)), b), c.Eq(c.Le(c.Int(2), c.Len(r)), f), c.Not(c.IsNil(r))))
			}
			return []Val{r}, st
		},
		"strings.Join": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			s, sep := tt(u, ci, 0), tt(u, ci, 1)
			flat := func(n int64) *Term {
				var ps []*Term
				for i := int64(0); i < n; i++ {
					if i > 0 {
						ps = append(ps, sep)
					}
					ps = append(ps, c.At(s, c.Int(i)))
				}
				if n == 0 {
					return c.Str("")
				}
				return c.Cat(ps...)
			}
			if n, ok := c.Len(s).isInt(); ok && n <= 4 {
				return []Val{flat(n)}, st
			}
			if s.Op == "sub" {
				// in bounds: slicing has its own obligation
				if o, p := c.splitOff(s.Args[1]), c.splitOff(s.Args[2]); o.base == p.base && p.off >= o.off && p.off-o.off <= 4 {
					return []Val{flat(p.off - o.off)}, st
				}
			}
			r := c.App("strings.Join", sStr, c.Norm(s), sep)
			u.axiom(c.And(c.Imp(c.Eq(c.Len(s), c.Int(0)), c.Eq(r, c.Str(""))), c.Imp(c.Eq(c.Len(s), c.Int(1)), c.Eq(r, c.At(s, c.Int(0))))))
			return []Val{r}, st
		},
		"strconv.Itoa": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.itoa(tt(u, ci, 0))}, st
		},
		"slices.Contains": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.c.In(tt(u, ci, 1), tt(u, ci, 0))}, st
		},
		"slices.ContainsFunc": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			s := tt(u, ci, 0)
			cl, ok := ci.args[1].(*Clo)
			if !ok {
				unsup("slices.ContainsFunc predicate")
			}
			bv := c.BVar("i", sInt)
			u.boundN++
			body := u.evalClo(cl, []Val{c.At(s, bv)}, st)
			u.boundN--
			full := c.Imp(c.And(c.Le(c.Int(0), bv), c.Lt(bv, c.Len(s))), c.Not(body))
			return []Val{c.Not(c.Quant("forall", []*Term{bv}, full, u.patterns(full, bv)))}, st
		},
		"slices.Index": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			s, x := tt(u, ci, 0), tt(u, ci, 1)
			r := c.App("slices.Index", sInt, s, x)
			u.axiom(c.And(c.Le(c.Int(-1), r), c.Lt(r, c.Len(s)), c.Eq(c.Le(c.Int(0), r), c.In(x, s)), c.Imp(c.Le(c.Int(0), r), c.Eq(c.At(s, r), x))))
			return []Val{r}, st
		},
		"github.com/google/osv-scalibr/semantic.MustParse": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			r := u.c.App("semantic.MustParse", sIfc, tt(u, ci, 0), tt(u, ci, 1))
			u.axiom(u.c.Not(u.c.Eq(r, u.nilErr())))
			u.assume["versions and ecosystems handed to semantic.MustParse are ones it can parse (it panics otherwise), and its comparison is deterministic"] = true
			return []Val{r}, st
		},
		"slices.Sort": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return sortSeq(u, fr, st, ci, func(a, b *Term) *Term {
				if a.Sort == sStr {
					return u.strLt(a, b)
				}
				return u.c.Lt(a, b)
			})
		},
		"sort.Strings": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return sortSeq(u, fr, st, ci, func(a, b *Term) *Term { return u.strLt(a, b) })
		},
		"slices.SortFunc": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			cl, ok := ci.args[1].(*Clo)
			if !ok {
				unsup("comparator")
			}
			return sortSeq(u, fr, st, ci, func(a, b *Term) *Term { return u.c.Lt(u.evalClo(cl, []Val{a, b}, st), u.c.Int(0)) })
		},
		"cmp.Compare": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			a, b := tt(u, ci, 0), tt(u, ci, 1)
			lt := u.c.Lt
			if a.Sort == sStr {
				lt = u.strLt
			}
			return []Val{u.c.Ite(lt(a, b), u.c.Int(-1), u.c.Ite(lt(b, a), u.c.Int(1), u.c.Int(0)))}, st
		},
		"strings.Compare": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			a, b := tt(u, ci, 0), tt(u, ci, 1)
			return []Val{u.c.Ite(u.strLt(a, b), u.c.Int(-1), u.c.Ite(u.strLt(b, a), u.c.Int(1), u.c.Int(0)))}, st
		},
		"sort.Slice": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			iv, ok := ci.args[0].(*IfcVal)
			if !ok {
				unsup("sort.Slice argument")
			}
			cl, ok := ci.args[1].(*Clo)
			if !ok {
				unsup("sort.Slice comparator")
			}
			s := u.term(iv.V)
			a, b := u.cmpVars(s.Sort.Elem)
			s2 := st.clone()
			s2.pc = u.c.True
			u.dry++ // the substitution below must leave no trace
			rec := u.recs
			u.recs = nil
			u.writeRoot(s2, envKey{fr.id, iv.Src}, u.c.Snoc(u.c.Snoc(u.c.Empty(s.Sort), a), b))
			u.recs = rec
			u.dry--
			nf := u.newFrame(cl.Fn, fr)
			nf.pure = true
			u.pureN++
			res, m := u.run(nf, []Val{u.c.Int(0), u.c.Int(1)}, cl.Binds, s2)
			u.pureN--
			if m == nil {
				unsup("comparator does not return")
			}
			u.writeRoot(st, envKey{fr.id, iv.Src}, u.sorted(st, s, u.term(res[0])))
			return nil, st
		},
		"maps.Copy": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			d, s := tt(u, ci, 0), tt(u, ci, 1)
			u.safe(fr, st, "assignment to nil map", ci.pos, u.c.Or(u.c.Not(u.c.IsNil(d)), u.c.Eq(u.c.Card(s), u.c.Int(0))))
			if ci.regs[0] != nil {
				u.writeRoot(st, envKey{fr.id, ci.regs[0]}, u.c.Ite(u.c.IsNil(d), d, u.c.MUnion(d, s)))
			}
			return nil, st
		},
		"math.Min": str1(func(u *Unit, st *State, a, b *Term) Val { return u.c.Ite(u.c.Le(a, b), a, b) }),
		"math.Max": str1(func(u *Unit, st *State, a, b *Term) Val { return u.c.Ite(u.c.Le(a, b), b, a) }),
		"errors.New": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.newErr(st, u.eng.pos(ci.pos), nil, tt(u, ci, 0))}, st
		},
		"errors.Is": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.errIs(tt(u, ci, 0), tt(u, ci, 1))}, st
		},
		"fmt.Errorf": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			s, ws := u.sprintf(st, tt(u, ci, 0), ci.args[1])
			return []Val{u.newErr(st, "errorf", ws, append([]*Term{s}, ws...)...)}, st
		},
		"fmt.Sprintf": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			s, _ := u.sprintf(st, tt(u, ci, 0), ci.args[1])
			return []Val{s}, st
		},
		"fmt.Sprint": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.sprint(st, ci.args[0])}, st
		},
		"fmt.Fprintf": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			s, _ := u.sprintf(st, tt(u, ci, 1), ci.args[2])
			u.write(st, tt(u, ci, 0), s)
			return []Val{u.c.StrLen(s), u.c.Fresh("werr", sIfc)}, st
		},
		"fmt.Fprint": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			s := u.sprint(st, ci.args[1])
			u.write(st, tt(u, ci, 0), s)
			return []Val{u.c.StrLen(s), u.c.Fresh("werr", sIfc)}, st
		},
		"fmt.Fprintln": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			s := u.c.Cat(u.sprint(st, ci.args[1]), u.c.Str("\n"))
			u.write(st, tt(u, ci, 0), s)
			return []Val{u.c.StrLen(s), u.c.Fresh("werr", sIfc)}, st
		},
		"log.Fatal":  fatal,
		"log.Fatalf": fatal,
		"os.Exit":    fatal,
		"os.ReadFile": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			p := tt(u, ci, 0)
			u.assume["a file's content does not change while it is being read"] = true
			return []Val{u.c.App("fs.text", sStr, p), u.c.App("fs.openErr", sIfc, p)}, st
		},
		"os.Open": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			p := tt(u, ci, 0)
			f := u.c.App("fs.file", sInt, p)
			e := u.c.App("fs.openErr", sIfc, p)
			u.axiom(u.c.Lt(u.c.Int(0), f))
			return []Val{f, e}, st
		},
		"(*os.File).Close": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.c.Fresh("closeErr", sIfc)}, st
		},
		"(*os.File).Stat": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			r := u.ufResults("fs.stat", ci.f.Signature, []*Term{tt(u, ci, 0)})
			nilI := u.c.App("ifc.nil", sIfc)
			u.axiom(u.c.Imp(u.c.Eq(u.term(r[1]), nilI), u.c.Not(u.c.Eq(u.term(r[0]), nilI))))
			return r, st
		},
		"(*os.File).ReadDir": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			r := u.ufResults("fs.readdir", ci.f.Signature, []*Term{tt(u, ci, 0), tt(u, ci, 1)})
			ds, k := u.term(r[0]), u.c.BVar("k", sInt)
			nilI := u.c.App("ifc.nil", sIfc)
			at := u.c.At(ds, k)
			u.axiom(u.c.Quant("forall", []*Term{k}, u.c.Imp(u.c.And(u.c.Le(u.c.Int(0), k), u.c.Lt(k, u.c.Len(ds))), u.c.Not(u.c.Eq(at, nilI))), [][]*Term{{at}}))
			return r, st
		},
		"archive/zip.NewReader": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			r := u.ufResults("archive/zip.NewReader", ci.f.Signature, []*Term{tt(u, ci, 0), tt(u, ci, 1)})
			ref := u.term(r[0])
			et := ci.f.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			rs := et.Underlying().(*types.Struct)
			for i := 0; i < rs.NumFields(); i++ {
				if rs.Field(i).Name() == "File" {
					fs := c.Sel(c.Select(u.heap(st, et), ref), i)
					k := c.BVar("k", sInt)
					at := c.At(fs, k)
					good := c.Quant("forall", []*Term{k}, c.Imp(c.And(c.Le(c.Int(0), k), c.Lt(k, c.Len(fs))), c.Lt(c.Int(0), at)), [][]*Term{{at}})
					u.axiom(c.Imp(c.Eq(u.term(r[1]), u.nilErr()), c.And(c.Lt(c.Int(0), ref), good)))
				}
			}
			u.assume["zip.NewReader gives a reader with its entries or an error; an entry opened again has the same content"] = true
			return r, st
		},
		"os.WriteFile": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			p, d := tt(u, ci, 0), tt(u, ci, 1)
			e := u.c.Fresh("werr", sIfc)
			g := u.ghost(st, "written")
			// a failed write may leave anything behind
			u.setGhost(st, "written", u.c.Put(g, p, u.c.Ite(u.c.Eq(e, u.nilErr()), d, u.c.Fresh("part", sStr))))
			u.setGhost(st, "fs.werr", e)
			return []Val{e}, st
		},
		"os.OpenFile": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			p := tt(u, ci, 0)
			fl, ok := tt(u, ci, 1).isInt()
			if !ok || fl&int64(os.O_WRONLY) == 0 {
				unsup("os.OpenFile other than for writing")
			}
			if fl&int64(os.O_APPEND|os.O_EXCL) != 0 {
				unsup("os.OpenFile in this mode")
			}
			e := c.Fresh("openErr", sIfc)
			f := c.App("fs.wfile", sInt, p)
			u.axiom(c.And(c.Lt(c.Int(0), f), c.Eq(c.App("fs.wpath", sStr, f), p)))
			g := u.ghost(st, "written")
			was := c.Str("")
			if fl&int64(os.O_TRUNC) == 0 {
				// what is written goes over what was there
				was = c.Fresh("part", sStr)
			}
			u.setGhost(st, "written", c.Ite(c.Eq(e, u.nilErr()), c.Put(g, p, was), g))
			u.setGhost(st, "fs.werr", e)
			return []Val{f, e}, st
		},
		"gopkg.in/yaml.v3.NewEncoder": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			iv, ok := ci.args[0].(*IfcVal)
			if !ok || iv.T.String() != "*os.File" {
				unsup("yaml.NewEncoder for something else than a file")
			}
			cl := u.newCell(st, types.Typ[types.Int], u.c.Int(0))
			return []Val{&Obj{Kind: "yamlenc", Cell: cl, Data: map[string]*Term{"file": u.term(iv.V)}}}, st
		},
		"(*gopkg.in/yaml.v3.Encoder).SetIndent": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) { return nil, st },
		"(*gopkg.in/yaml.v3.Encoder).Close": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.nilErr()}, st
		},
		"(*gopkg.in/yaml.v3.Encoder).Encode": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			o, ok := ci.args[0].(*Obj)
			if !ok || o.Kind != "yamlenc" {
				unsup("encoder lost")
			}
			p := c.App("fs.wpath", sStr, o.Data["file"])
			e := c.Fresh("werr", sIfc)
			g := u.ghost(st, "written")
			d := c.Cat(c.Get(g, p), u.yamlEnc(st, ci.args[1], ci.pos))
			u.setGhost(st, "written", c.Put(g, p, c.Ite(c.Eq(e, u.nilErr()), d, c.Fresh("part", sStr))))
			u.setGhost(st, "fs.werr", e)
			return []Val{e}, st
		},
		"vs.YAML": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.yamlEnc(st, ci.args[0], ci.pos)}, st
		},
		"vs.LastWriteErr": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.ghost(st, "fs.werr")}, st
		},
		"vs.SentHeader": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			m, k := u.ghost(st, "http.sent"), tt(u, ci, 0)
			return []Val{u.c.Ite(u.c.Has(m, k), u.c.Get(m, k), u.c.Str(""))}, st
		},
		"bufio.NewScanner": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			r := u.term(ci.args[0])
			lines := u.linesOf(r)
			cl := u.newCell(st, types.Typ[types.Int], u.c.Int(0))
			u.assume["bufio.Scanner yields the lines of its input in order; lines longer than its buffer end the scan with an error"] = true
			return []Val{&Obj{Kind: "scanner", Cell: cl, Data: map[string]*Term{"lines": lines, "src": r}}}, st
		},
		"(*bufio.Scanner).Scan": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			o, ok := ci.args[0].(*Obj)
			if !ok {
				unsup("scanner lost")
			}
			pos := u.term(st.cells[o.Cell])
			more := u.c.Lt(pos, u.c.Len(o.Data["lines"]))
			u.setCell(st, o.Cell, u.c.Ite(more, u.c.Add(pos, u.c.Int(1)), pos))
			return []Val{more}, st
		},
		"(*bufio.Scanner).Text": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			o, ok := ci.args[0].(*Obj)
			if !ok {
				unsup("scanner lost")
			}
			pos := u.term(st.cells[o.Cell])
			return []Val{u.c.At(o.Data["lines"], u.c.Sub(pos, u.c.Int(1)))}, st
		},
		"(*bufio.Scanner).Err": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			o, ok := ci.args[0].(*Obj)
			if !ok {
				unsup("scanner lost")
			}
			return []Val{u.c.App("scan.err", sIfc, o.Data["src"])}, st
		},
		"encoding/csv.NewReader": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			r := u.term(ci.args[0])
			cl := u.newCell(st, types.Typ[types.Int], u.c.Int(0))
			u.assume["encoding/csv yields the records of its input in order and then an error, which is io.EOF at the end of well-formed input"] = true
			return []Val{&Obj{Kind: "csv", Cell: cl, Data: map[string]*Term{"lines": u.csvRows(r), "src": r}}}, st
		},
		"(*encoding/csv.Reader).Read": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			o, ok := ci.args[0].(*Obj)
			if !ok {
				unsup("csv reader lost")
			}
			pos := u.term(st.cells[o.Cell])
			rows := o.Data["lines"]
			more := c.Lt(pos, c.Len(rows))
			end := c.App("csv.end", sIfc, o.Data["src"])
			u.axiom(c.Not(c.Eq(end, u.nilErr())))
			u.setCell(st, o.Cell, c.Ite(more, c.Add(pos, c.Int(1)), pos))
			rec := c.Ite(more, c.At(rows, pos), c.App("csv.last", rows.Sort.Elem, o.Data["src"]))
			return []Val{rec, c.Ite(more, u.nilErr(), end)}, st
		},
		"encoding/json.Unmarshal": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return u.decode(fr, st, "json", tt(u, ci, 0), ci.args[1], ci.pos)
		},
		"gopkg.in/yaml.v3.Unmarshal": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return u.decode(fr, st, "yaml", tt(u, ci, 0), ci.args[1], ci.pos)
		},
		"encoding/xml.Unmarshal": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return u.decode(fr, st, "xml", tt(u, ci, 0), ci.args[1], ci.pos)
		},
		"github.com/BurntSushi/toml.Unmarshal": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return u.decode(fr, st, "toml", tt(u, ci, 0), ci.args[1], ci.pos)
		},
		"encoding/json.Marshal": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			iv, ok := ci.args[0].(*IfcVal)
			if !ok {
				unsup("json.Marshal argument")
			}
			var t *Term
			if p, ok := iv.V.(*Ptr); ok {
				t = u.term(u.load(st, p, ci.pos))
			} else if isPtrType(iv.T) {
				pt := iv.T.Underlying().(*types.Pointer).Elem()
				t = u.c.Select(u.heap(st, pt), u.term(iv.V))
				isNil := u.c.Eq(u.term(iv.V), u.c.Int(0))
				return []Val{u.c.Ite(isNil, u.c.Str("null"), u.c.App("json.enc", sStr, t)), u.c.Ite(isNil, u.nilErr(), u.c.App("json.encErr", sIfc, t))}, st
			} else {
				t = u.term(iv.V)
			}
			return []Val{u.c.App("json.enc", sStr, t), u.c.App("json.encErr", sIfc, t)}, st
		},
		repoMod + "/internal/cachedregexp.MustCompile": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			r := u.c.App("regexp", sInt, tt(u, ci, 0))
			u.axiom(u.c.Lt(u.c.Int(0), r))
			if _, ok := tt(u, ci, 0).isStr(); !ok {
				u.flag("regexp", "regular expression that is not a constant")
			}
			return []Val{r}, st
		},
		"(*regexp.Regexp).FindStringSubmatch": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			c := u.c
			re, s := tt(u, ci, 0), tt(u, ci, 1)
			r := c.App("re.find", u.st.Seq(sStr), re, s)
			m := c.App("re.match", sBool, re, s)
			u.axiom(c.And(c.Eq(c.IsNil(r), c.Not(m)), c.Imp(c.IsNil(r), c.Eq(r, c.Nil(r.Sort)))))
			if re.Op == "app" && re.Lit == "regexp" {
				if p, ok := re.Args[0].isStr(); ok {
					if n := reGroups(p); n >= 0 {
						u.axiom(c.Imp(m, c.Eq(c.Len(r), c.Int(int64(n+1)))))
						ml := reMinLens(p)
						for i := 0; i <= n; i++ {
							if k, ok := ml[i]; ok {
								u.axiom(c.Imp(m, c.Le(c.Int(k), c.StrLen(c.At(r, c.Int(int64(i)))))))
							}
						}
					}
				}
			}
			return []Val{r}, st
		},
		"(*regexp.Regexp).MatchString": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.c.App("re.match", sBool, tt(u, ci, 0), tt(u, ci, 1))}, st
		},
		"(*golang.org/x/sync/errgroup.Group).SetLimit": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) { return nil, st },
		"(*golang.org/x/sync/errgroup.Group).Go": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			// tasks write disjoint slots: every interleaving equals running each where it is started
			cl, ok := ci.args[1].(*Clo)
			if !ok {
				unsup("errgroup task")
			}
			u.assume["errgroup tasks write disjoint elements and share nothing else mutable, so every schedule equals the sequential one; Wait returns an error exactly when some task did"] = true
			res, s2 := u.callFn(fr, st, cl.Fn, nil, cl.Binds, nil, ci.pos)
			if s2 == nil {
				return nil, nil
			}
			g, ok := s2.ghosts["eg"]
			if !ok {
				g = u.nilErr()
			}
			e := u.term(res[0])
			// the group keeps one of the errors
			u.setGhost(s2, "eg", u.c.Ite(u.c.Eq(e, u.nilErr()), g, u.c.Ite(u.c.Or(u.c.Eq(g, u.nilErr()), u.c.Fresh("first", sBool)), e, g)))
			return nil, s2
		},
		"(*golang.org/x/sync/errgroup.Group).Wait": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			g, ok := st.ghosts["eg"]
			if !ok {
				g = u.nilErr()
			}
			return []Val{g}, st
		},
		"net/url.ParseRequestURI": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			r := u.ufResults("net/url.ParseRequestURI", ci.f.Signature, []*Term{tt(u, ci, 0)})
			u.axiom(u.c.Imp(u.c.Eq(u.term(r[1]), u.nilErr()), u.c.Lt(u.c.Int(0), u.term(r[0]))))
			return r, st
		},
		"net/url.Parse": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			r := u.ufResults("net/url.Parse", ci.f.Signature, []*Term{tt(u, ci, 0)})
			u.axiom(u.c.Or(u.c.Lt(u.c.Int(0), r[0].(*Term)), u.c.Not(u.c.Eq(r[1].(*Term), u.nilErr()))))
			return r, st
		},
		"path/filepath.Join": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			l := u.c.Norm(tt(u, ci, 0))
			r := u.c.App("path/filepath.Join", sStr, l)
			if l.Op == "snoc" && plainName(l.Args[1]) {
				u.axiom(u.c.Eq(u.c.App("path/filepath.Base", sStr, r), l.Args[1]))
			}
			return []Val{r}, st
		},
		"path.Join": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.c.App("path.Join", sStr, u.c.Norm(tt(u, ci, 0)))}, st
		},
		"crypto/sha256.Sum256": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			x := tt(u, ci, 0)
			r := u.c.App("crypto/sha256.Sum256", u.st.Of(ci.f.Signature.Results().At(0).Type()), x)
			u.axiom(u.c.Eq(u.c.App("sha256.source", x.Sort, r), x))
			u.assume["no two texts that occur have the same SHA-256 hash"] = true
			return []Val{r}, st
		},
		"net/http.NewRequestWithContext": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			a := []*Term{tt(u, ci, 1), tt(u, ci, 2), tt(u, ci, 3)}
			r := u.c.App("http.req", sInt, a...)
			e := u.c.App("http.reqErr", sIfc, a...)
			u.axiom(u.c.Lt(u.c.Int(0), r))
			if u.pureN == 0 {
				u.setGhost(st, "http.hdr", u.c.Empty(u.st.Map(sStr, sStr)))
			}
			return []Val{r, e}, st
		},
		"(*net/http.Client).Do": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			r := u.c.Fresh("resp", sInt)
			e := u.c.Fresh("doErr", sIfc)
			u.fact(st.pc, u.c.Lt(u.c.Int(0), r))
			n := u.ghost(st, "net")
			u.setGhost(st, "net", u.c.Add(n, u.c.Int(1)))
			u.setGhost(st, "http.req", tt(u, ci, 1))
			u.setGhost(st, "http.resp", r)
			u.setGhost(st, "http.err", e)
			u.setGhost(st, "http.sent", u.ghost(st, "http.hdr"))
			if pt, ok := ci.f.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
				// a response without an error is complete
				rs, ok2 := pt.Elem().Underlying().(*types.Struct)
				if v, isT := u.load(st, &Ptr{Ref: r, T: pt.Elem()}, ci.pos).(*Term); ok2 && isT && v.Sort.Kind == SStruct {
					for i := 0; i < rs.NumFields(); i++ {
						switch rs.Field(i).Name() {
						case "Body":
							u.fact(st.pc, u.c.Imp(u.c.Eq(e, u.nilErr()), u.c.Not(u.c.Eq(u.c.Sel(v, i), u.nilErr()))))
						case "Request":
							u.fact(st.pc, u.c.Imp(u.c.Eq(e, u.nilErr()), u.c.Eq(u.c.Sel(v, i), tt(u, ci, 1))))
						}
					}
				}
			}
			u.assume["http.Client.Do returns an arbitrary response or an error"] = true
			return []Val{r, e}, st
		},
		"vs.GroupErr": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.ghost(st, "eg")}, st
		},
		"vs.LastRequest": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.ghost(st, "http.req")}, st
		},
		"vs.LastResponse": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.ghost(st, "http.resp")}, st
		},
		"vs.LastHTTPErr": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.ghost(st, "http.err")}, st
		},
		"(net/http.Header).Add": setHeader,
		"(net/http.Header).Set": setHeader,
		"vs.NetCalls": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			n := u.ghost(st, "net")
			return []Val{n}, st
		},
		"flag.NewFlagSet": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			u.assume["the flag package sets each flag to some value, once, before it is read, and ends the process on flags that it does not know"] = true
			s := u.c.Var("flag.set", u.st.Of(ci.f.Signature.Results().At(0).Type()))
			u.axiom(u.c.Lt(u.c.Int(0), s))
			return []Val{s}, st
		},
		"(*flag.FlagSet).Bool":   flagCell,
		"(*flag.FlagSet).String": flagCell,
		"(*flag.FlagSet).Int":    flagCell,
		"(*flag.FlagSet).Var": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			iv, ok := ci.args[1].(*IfcVal)
			var p *Ptr
			if ok {
				p, ok = iv.V.(*Ptr)
			}
			if !ok {
				unsup("a flag value that is not a pointer to a variable")
			}
			u.store(fr, st, p, u.flagVal(ci.args[2], p.T))
			return nil, st
		},
		"(*flag.FlagSet).Parse": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.nilErr()}, st
		},
		"(*flag.FlagSet).Args": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.c.Var("flag.args", u.st.Of(ci.f.Signature.Results().At(0).Type()))}, st
		},
		"vs.Streams": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.outGhost(st)}, st
		},
		"vs.On": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.c.Get(u.term(ci.args[0]), u.term(ci.args[1]))}, st
		},
		"vs.WrittenFiles": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			g := u.ghost(st, "written")
			return []Val{g}, st
		},
		"vs.CSVRows": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.csvRows(u.term(ci.args[0]))}, st
		},
		"vs.CSVEnd": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.c.App("csv.end", sIfc, u.term(ci.args[0]))}, st
		},
		"vs.Lines": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.linesOf(u.fileReader(tt(u, ci, 0)))}, st
		},
		"vs.ScanErr": func(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
			return []Val{u.c.App("scan.err", sIfc, u.fileReader(tt(u, ci, 0)))}, st
		},
	}
}

func (u *Unit) flagVal(name Val, t types.Type) *Term {
	s := u.st.Of(t)
	return u.c.App("flag:"+s.Name, s, u.term(name))
}

func flagCell(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
	et := ci.f.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	return []Val{&Ptr{Cell: u.newCell(st, et, u.flagVal(ci.args[1], et)), T: et}}, st
}

func (u *Unit) fileReader(path *Term) *Term {
	f := u.c.App("fs.file", sInt, path)
	u.axiom(u.c.Lt(u.c.Int(0), f))
	for k := range u.tags {
		if k == "*os.File" {
			return u.c.App("box:*os.File", sIfc, f)
		}
	}
	u.tagOf("*os.File")
	return u.c.App("box:*os.File", sIfc, f)
}

func (u *Unit) csvRows(r *Term) *Term { return u.c.App("csv.rows", u.st.Seq(u.st.Seq(sStr)), r) }

func (u *Unit) linesOf(r *Term) *Term { return u.c.App("scan.lines", u.st.Seq(sStr), r) }

func fatal(u *Unit, fr *Frame, st *State, ci *callInfo) ([]Val, *State) {
	u.oblige(st, "safety", "process not terminated in "+fr.fn.Name(), ci.pos, u.c.False)
	return nil, nil
}

func (u *Unit) sprint(st *State, va Val) *Term {
	vals := u.variadic(st, va)
	if len(vals) == 1 {
		return u.fmtArg("%v", u.term(vals[0]))
	}
	if t, ok := va.(*Term); ok {
		return u.c.App("fmt.Sprint", sStr, u.c.Norm(t))
	}
	unsup("fmt.Sprint")
	return nil
}
