package main

// The dictionary of the bounded stand-ins: the string and integer literals of
// the code under test, with those that the reviewed tree does not have apart.

import (
	"bufio"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func harvest(repo, base, dir string) error {
	lits, ints := map[string]bool{}, map[string]bool{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == "testdata" || n == "vendor" || n == "node_modules" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		var sc scanner.Scanner
		fs := token.NewFileSet()
		sc.Init(fs.AddFile(p, fs.Base(), len(b)), b, func(token.Position, string) {}, 0)
		imp, depth := false, 0
		for {
			_, tok, lit := sc.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.IMPORT:
				imp, depth = true, 0
			case token.LPAREN:
				depth++
			case token.RPAREN:
				depth--
				if depth <= 0 {
					imp = false
				}
			case token.SEMICOLON:
				if depth <= 0 {
					imp = false
				}
			case token.STRING:
				if s, err := strconv.Unquote(lit); err == nil && !imp {
					lits[s] = true
				}
			case token.CHAR:
				if s, _, _, err := strconv.UnquoteChar(strings.Trim(lit, "'"), '\''); err == nil {
					lits[string(s)] = true
				}
			case token.INT:
				if n, err := strconv.ParseInt(lit, 0, 64); err == nil && n < 1<<31 {
					ints[strconv.Itoa(int(n))] = true
				}
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	known := map[string]bool{}
	if f, err := os.Open(base); err == nil {
		s := bufio.NewScanner(f)
		s.Buffer(make([]byte, 1<<20), 1<<24)
		for s.Scan() {
			if v, err := strconv.Unquote(s.Text()); err == nil {
				known[v] = true
			}
		}
		f.Close()
	}
	write := func(name string, m map[string]bool) error {
		var ls []string
		for k := range m {
			ls = append(ls, strconv.Quote(k))
		}
		sort.Strings(ls)
		if len(ls) > 0 {
			ls = append(ls, "")
		}
		return os.WriteFile(filepath.Join(dir, name), []byte(strings.Join(ls, "\n")), 0o644)
	}
	fresh := map[string]bool{}
	for k := range lits {
		if !known[k] {
			fresh[k] = true
			// and its parts, for literals such as regular expressions or messages
			for _, w := range strings.FieldsFunc(k, func(r rune) bool { return strings.ContainsRune(` ()[]|^$%{}*+?\`, r) }) {
				if w != "" && !known[w] {
					fresh[w] = true
				}
			}
		}
	}
	for k := range ints {
		if !known["#"+k] && known["#0"] {
			fresh[k] = true
		}
	}
	if err := write("fresh.txt", fresh); err != nil {
		return err
	}
	if err := write("literals.txt", lits); err != nil {
		return err
	}
	return write("ints.txt", ints)
}
