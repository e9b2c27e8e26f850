package main

// Loading of the real code plus the specification overlay, and static
// information about functions (loops, escaping locals, package variables).

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/g-rath/osv-detector"
const vsPkg = repoMod + "/internal/vs"

type Engine struct {
	mu        sync.Mutex
	repo      string
	specDir   string
	prog      *ssa.Program
	pkgs      []*packages.Package
	spkgs     map[string]*ssa.Package
	li        map[*ssa.Function]*loopInfo
	esc       map[*ssa.Alloc]bool
	contracts map[*ssa.Function]*ssa.Function // subject -> contract
	subjOf    map[*ssa.Function]*ssa.Function
	lemmas    []*ssa.Function
	icontr    map[string]*ssa.Function // interface method full name -> contract
	specFiles map[string]string        // overlay path -> spec source path
	dropped   map[string]string        // spec file -> reason
	stored    map[*ssa.Global]int
	rec       map[*ssa.Function]bool
	inlineAll map[*ssa.Function]bool
	pureFns   map[*ssa.Function]bool // contracts whose results are functions of the arguments
	byName    map[string]*ssa.Function
	srcs      map[string][]byte
	decls     string
	declOnce  sync.Once
}

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type loopInfo struct {
	rpo    []*ssa.BasicBlock
	byHead map[*ssa.BasicBlock]*loop
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED", "GOPACKAGESDRIVER":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH=/opt/veriftools/go1.24.13/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0")
}

// blank removes the declarations of a spec file that the lines lie in.
func (e *Engine) blank(virt string, text []byte, lines map[int]string) []byte {
	src := e.specFiles[virt]
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, virt, text, parser.ParseComments)
	gone := func() []byte {
		for _, m := range lines {
			e.dropped[src] = m
		}
		return []byte("package " + pkgClause(text) + "\n")
	}
	if err != nil {
		return gone()
	}
	out := append([]byte{}, text...)
	hit := false
	erase := func(n ast.Node) {
		a, b := fset.Position(n.Pos()).Offset, fset.Position(n.End()).Offset
		for i := a; i < b; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		hit = true
	}
	for ln, msg := range lines {
		for _, d := range f.Decls {
			if ln < fset.Position(d.Pos()).Line || ln > fset.Position(d.End()).Line {
				continue
			}
			switch d := d.(type) {
			case *ast.FuncDecl:
				erase(d)
				e.dropped[src+"#"+d.Name.Name] = msg
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					for _, sp := range d.Specs {
						if fset.Position(sp.Pos()).Line == ln {
							erase(sp)
						}
					}
				} else {
					erase(d)
					e.dropped[src+"#decl"] = msg
				}
			}
		}
	}
	if !hit {
		return gone()
	}
	return out
}

func pkgClause(text []byte) string {
	for _, l := range strings.Split(string(text), "\n") {
		if strings.HasPrefix(l, "package ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "package "))
		}
	}
	return "main"
}

// overlayFiles maps every spec file to its virtual place inside the repository.
func overlayFiles(repo, specDir string, drop map[string]string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(specDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if _, ok := drop[p]; ok {
			return nil
		}
		rel, _ := filepath.Rel(specDir, p)
		dir, base := filepath.Split(rel)
		switch {
		case strings.HasPrefix(rel, "vs/"):
			out[filepath.Join(repo, "internal/vs", base)] = p
		case strings.HasPrefix(dir, "root"):
			out[filepath.Join(repo, "zz_verif_"+base)] = p
		default:
			out[filepath.Join(repo, dir, "zz_verif_"+base)] = p
		}
		return nil
	})
	return out
}

func loadEngine(repo, specDir string) (*Engine, error) {
	e := &Engine{repo: repo, specDir: specDir, li: map[*ssa.Function]*loopInfo{}, esc: map[*ssa.Alloc]bool{}, contracts: map[*ssa.Function]*ssa.Function{},
		subjOf: map[*ssa.Function]*ssa.Function{}, icontr: map[string]*ssa.Function{}, dropped: map[string]string{}, spkgs: map[string]*ssa.Package{}, stored: map[*ssa.Global]int{},
		rec: map[*ssa.Function]bool{}, inlineAll: map[*ssa.Function]bool{}, pureFns: map[*ssa.Function]bool{}, byName: map[string]*ssa.Function{}}
	var ps []*packages.Package
	e.specFiles = overlayFiles(repo, specDir, nil)
	ov := map[string][]byte{}
	for virt, src := range e.specFiles {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[virt] = b
	}
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: ov, Fset: token.NewFileSet()}
		var err error
		ps, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		bad := map[string]map[int]string{}
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				f, rest, _ := strings.Cut(er.Pos, ":")
				if _, ok := e.specFiles[f]; ok {
					ln, _, _ := strings.Cut(rest, ":")
					n, _ := strconv.Atoi(ln)
					if bad[f] == nil {
						bad[f] = map[int]string{}
					}
					bad[f][n] = er.Error()
				} else {
					other = append(other, er.Error())
				}
			}
		})
		if len(bad) == 0 {
			if len(other) > 0 {
				return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(other, "; "))
			}
			break
		}
		if round > 25 {
			return nil, fmt.Errorf("spec files do not type-check: %v", bad)
		}
		// contracts that no longer fit the code (a function is gone or has another
		// signature) are left out one by one; what they covered is reported
		for f, lines := range bad {
			ov[f] = e.blank(f, ov[f], lines)
		}
	}
	e.pkgs = ps
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	for _, sp := range spkgs {
		if sp != nil {
			e.spkgs[sp.Pkg.Path()] = sp
		}
	}
	e.index()
	return e, nil
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.prog.Fset.Position(p)
	rel, err := filepath.Rel(e.repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (e *Engine) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		p := f.Pkg.Pkg.Path()
		return (p == repoMod || strings.HasPrefix(p, repoMod+"/")) && p != vsPkg
	}
	// wrappers, thunks, bound methods
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), repoMod)
	}
	return false
}

func (e *Engine) isSpec(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return strings.HasPrefix(filepath.Base(e.prog.Fset.Position(f.Pos()).Filename), "zz_verif")
}

// index finds contracts, lemmas and the functions they talk about.
func (e *Engine) index() {
	all := ssautil.AllFunctions(e.prog)
	var fs []*ssa.Function
	for f := range all {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		if !e.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						e.stored[g]++
					}
				}
			}
		}
		if f.Pkg != nil && f.Parent() == nil {
			e.byName[f.String()] = f
		}
	}
	for _, f := range fs {
		if f.Pkg == nil || f.Parent() != nil || !e.inRepo(f) || !e.isSpec(f) {
			continue
		}
		n := f.Name()
		switch {
		case strings.HasPrefix(n, "lem_") || strings.HasPrefix(n, "Lem_"):
			e.lemmas = append(e.lemmas, f)
		case strings.HasPrefix(n, "ci_"): // interface method contract: ci_Iface_Method
			e.icontr[f.Pkg.Pkg.Path()+"."+strings.Replace(strings.TrimPrefix(n, "ci_"), "_", ".", 1)] = f
		case strings.HasPrefix(n, "ct_"):
			if s := e.subject(f); s != nil {
				e.contracts[s] = f
				e.subjOf[f] = s
			}
		}
		if e.callsSelf(f) {
			e.rec[f] = true
		}
	}
}

func (e *Engine) callsSelf(f *ssa.Function) bool {
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && c.Call.StaticCallee() == f {
					return true
				}
			}
		}
		for _, a := range g.AnonFuncs {
			if visit(a) {
				return true
			}
		}
		return false
	}
	return visit(f)
}

// subject: ct_Recv_Name or ct__name -> the function under contract. For a
// method the name is looked up on Recv in the contract's package.
func (e *Engine) subject(ct *ssa.Function) *ssa.Function {
	n := strings.TrimPrefix(ct.Name(), "ct_")
	recv, name, ok := strings.Cut(n, "_")
	if !ok {
		return nil
	}
	if recv == "" {
		if m, ok := ct.Pkg.Members[name].(*ssa.Function); ok {
			return m
		}
		return nil
	}
	t, ok := ct.Pkg.Members[recv].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := e.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				f := e.prog.MethodValue(s)
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
	}
	return nil
}

func (e *Engine) loopInfo(fn *ssa.Function) *loopInfo {
	e.mu.Lock()
	defer e.mu.Unlock()
	if l, ok := e.li[fn]; ok {
		return l
	}
	li := &loopInfo{byHead: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := li.byHead[h]
			if l == nil {
				l = &loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				li.byHead[h] = l
			}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if l.blocks[x] {
					return
				}
				l.blocks[x] = true
				for _, p := range x.Preds {
					if seen[p] {
						up(p)
					}
				}
			}
			up(b)
		}
	}
	e.li[fn] = li
	return li
}

// escapes: the local's address is stored, returned or merged, so it needs a
// heap reference instead of a cell.
func (e *Engine) escapes(a *ssa.Alloc) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	if r, ok := e.esc[a]; ok {
		return r
	}
	e.esc[a] = false
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, root bool) bool
	visit = func(v ssa.Value, root bool) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return true
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					// storing into a local that is only a closure-captured variable still escapes
					return true
				}
			case *ssa.Return, *ssa.MapUpdate, *ssa.Send:
				return true
			case *ssa.Phi:
				return true
			case *ssa.ChangeType:
				if visit(x, root) {
					return true
				}
			case *ssa.Call:
				// a function known by its contract may keep the pointer
				f := x.Call.StaticCallee()
				if f == nil || e.contracts[f] == nil || !e.inRepo(f) {
					break
				}
				for i, arg := range x.Call.Args {
					if arg == v && i < len(f.Params) && visit(f.Params[i], false) {
						return true
					}
				}
			}
		}
		return false
	}
	r := visit(a, true)
	e.esc[a] = r
	return r
}

// globalInit evaluates package variables initialised with constant composite
// literals and never assigned again.
func (e *Engine) globalInit(u *Unit, g *ssa.Global) Val {
	if e.stored[g] != 1 || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), repoMod) {
		return nil
	}
	in := g.Pkg.Func("init")
	if in == nil {
		return nil
	}
	constOf := func(v ssa.Value) *Term {
		switch x := v.(type) {
		case *ssa.Const:
			return u.term(u.constVal(x))
		case *ssa.Function:
			return u.term(&Clo{Fn: x})
		case *ssa.ChangeType:
			if f, ok := x.X.(*ssa.Function); ok {
				return u.term(&Clo{Fn: f})
			}
			if k, ok := x.X.(*ssa.Const); ok {
				return u.term(u.constVal(k))
			}
		}
		return nil
	}
	for _, b := range in.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(g) {
				continue
			}
			switch v := s.Val.(type) {
			case *ssa.Const:
				return u.constVal(v)
			case *ssa.MakeMap:
				m := u.c.Empty(u.st.Of(v.Type()))
				for _, r := range *v.Referrers() {
					if mu, ok := r.(*ssa.MapUpdate); ok {
						k, w := constOf(mu.Key), constOf(mu.Value)
						if k == nil || w == nil {
							return nil
						}
						m = u.c.Put(m, k, w)
					}
				}
				return m
			case *ssa.Slice:
				a, ok := v.X.(*ssa.Alloc)
				if !ok {
					return nil
				}
				at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				if !ok {
					return nil
				}
				es := make([]*Term, at.Len())
				for _, r := range *a.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					k, ok := ia.Index.(*ssa.Const)
					if !ok {
						return nil
					}
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok {
							es[k.Int64()] = constOf(st.Val)
						}
					}
				}
				s := u.c.Empty(u.st.Of(v.Type()))
				for _, t := range es {
					if t == nil {
						return nil
					}
					s = u.c.Snoc(s, t)
				}
				return s
			}
			return nil
		}
	}
	return nil
}

// member: a function of a loaded package.
func (e *Engine) member(pkg, name string) *ssa.Function {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			f, _ := p.Members[name].(*ssa.Function)
			return f
		}
	}
	return nil
}
