package main

// Fingerprints of the code a unit was generated from: the comment-free tokens
// of the functions it executed and of all declarations other than functions.
// They are used for one thing only: telling a proof that timed out on code
// whose proof is on record from one that failed on changed code.

import (
	"crypto/sha256"
	"encoding/hex"
	"go/ast"
	"go/scanner"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func tokensOf(b []byte) string {
	var sc scanner.Scanner
	fs := token.NewFileSet()
	f := fs.AddFile("x", fs.Base(), len(b))
	sc.Init(f, b, func(token.Position, string) {}, 0)
	var sb strings.Builder
	for {
		_, tok, lit := sc.Scan()
		if tok == token.EOF {
			break
		}
		if tok == token.SEMICOLON {
			lit = ""
		}
		sb.WriteString(tok.String() + " " + lit + "\x00")
	}
	return sb.String()
}

func (e *Engine) sourceOf(n ast.Node) string {
	p, q := e.prog.Fset.Position(n.Pos()), e.prog.Fset.Position(n.End())
	e.mu.Lock()
	b, ok := e.srcs[p.Filename]
	if !ok {
		b, _ = os.ReadFile(p.Filename)
		if e.srcs == nil {
			e.srcs = map[string][]byte{}
		}
		e.srcs[p.Filename] = b
	}
	e.mu.Unlock()
	if q.Offset > len(b) {
		return ""
	}
	return tokensOf(b[p.Offset:q.Offset])
}

func (e *Engine) declPrint() string {
	e.declOnce.Do(func() {
		var out []string
		packages.Visit(e.pkgs, nil, func(p *packages.Package) {
			if p.PkgPath != repoMod && !strings.HasPrefix(p.PkgPath, repoMod+"/") {
				return
			}
			for _, f := range p.Syntax {
				name := e.prog.Fset.Position(f.Pos()).Filename
				if _, ok := e.specFiles[name]; ok {
					continue
				}
				for _, d := range f.Decls {
					if g, ok := d.(*ast.GenDecl); ok && g.Tok != token.IMPORT {
						out = append(out, p.PkgPath+" "+e.sourceOf(g))
					}
				}
			}
		})
		sort.Strings(out)
		e.decls = strings.Join(out, "\n")
	})
	return e.decls
}

func (u *Unit) fingerprint() string {
	var parts []string
	add := func(f *ssa.Function) {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Syntax() == nil || !u.eng.inRepo(f) || u.eng.isSpec(f) {
			return
		}
		parts = append(parts, f.String()+"\n"+u.eng.sourceOf(f.Syntax()))
	}
	for f := range u.ran {
		add(f)
	}
	if u.subj != nil {
		add(u.subj)
	}
	sort.Strings(parts)
	h := sha256.New()
	last := ""
	for _, p := range parts {
		if p != last {
			h.Write([]byte(p))
		}
		last = p
	}
	h.Write([]byte(u.eng.declPrint()))
	return hex.EncodeToString(h.Sum(nil))[:24]
}
