package main

import (
	"errors"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/g-rath/osv-detector/internal/reporter"
	"github.com/g-rath/osv-detector/internal/vs"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func sp_prefix(s string) string {
	if !strings.Contains(s, ":") {
		return ""
	}
	as, _, _ := strings.Cut(s, ":")

	return as
}

func sp_path(s string) string {
	if !strings.Contains(s, ":") {
		return s
	}
	_, path, _ := strings.Cut(s, ":")

	return path
}

func ct__parseLockfilePathWithParseAs(s string) {
	vs.Prop("C13")
	vs.Option("pure")
	as, path := parseLockfilePathWithParseAs(s)
	vs.Ensures("what stands before the first colon", as == sp_prefix(s))
	vs.Ensures("what stands after it, or everything", path == sp_path(s))
	vs.Ensures("nothing is lost", s == path && as == "" || s == as+":"+path)
	vs.Ensures("the prefix has no colon", !strings.Contains(as, ":"))
}

// sp_wanted: the entry of a directory is a file that a parser is for.
func sp_wanted(d fs.DirEntry, parseAs string) bool {
	if d.IsDir() {
		return false
	}
	p, _ := lockfile.FindParser(d.Name(), parseAs)

	return parseAs == "csv-file" || p != nil
}

func sp_found(dir string, ds []fs.DirEntry, n int, parseAs string) []string {
	if n <= 0 || n > len(ds) {
		return []string{}
	}
	if !sp_wanted(ds[n-1], parseAs) {
		return sp_found(dir, ds, n-1, parseAs)
	}

	return vs.Append(sp_found(dir, ds, n-1, parseAs), filepath.Join(dir, ds[n-1].Name()))
}

func sp_readErr(path string) error {
	file, err := os.Open(path)
	if err != nil {
		return err
	}
	info, err := file.Stat()
	if err != nil {
		return err
	}
	if !info.IsDir() {
		return nil
	}
	_, err = file.ReadDir(-1)

	return err
}

func sp_isDir(path string) bool {
	file, _ := os.Open(path)
	info, _ := file.Stat()

	return info.IsDir()
}

func sp_entries(path string) []fs.DirEntry {
	file, _ := os.Open(path)
	ds, _ := file.ReadDir(-1)

	return ds
}

func sp_lockfiles(path, parseAs string) []string {
	if sp_readErr(path) != nil {
		return []string{}
	}
	if !sp_isDir(path) {
		return []string{path}
	}
	ds := sp_entries(path)

	return vs.Sorted(sp_found(path, ds, len(ds), parseAs))
}

func ct__findLockfiles(r *reporter.Reporter, path string, parseAs string) {
	vs.Prop("C06,C13")
	vs.Requires(reporter.Sp_ready(r))
	vs.Modifies(r)
	vs.ModifiesOut()
	ds := sp_entries(path)
	old, out := *r, reporter.Sp_out(r)
	vs.Inv(func(i int, acc []string) bool { return vs.Eq(acc, sp_found(path, ds, i, parseAs)) })
	l, failed := findLockfiles(r, path, parseAs)
	vs.Ensures("failed exactly when the path cannot be read", failed == (sp_readErr(path) != nil))
	vs.Ensures("which is an error of the run", reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || failed))
	vs.Ensures("the reporter is otherwise as before", reporter.Sp_kept(r, old))
	vs.Ensures("in JSON mode nothing is written to standard output", reporter.Sp_mute(r, out))
	vs.Ensures("the file itself, or the files in the directory that have a parser, sorted", vs.Eq(l, sp_lockfiles(path, parseAs)))
}

// sp_all: the files for the first n arguments, in order, each with how to parse it.
func sp_all(args []string, n int, global string) []string {
	if n <= 0 || n > len(args) {
		return nil
	}
	as := sp_prefix(args[n-1])
	if as == "" {
		as = global
	}
	ls := sp_lockfiles(sp_path(args[n-1]), as)

	return sp_tag(sp_all(args, n-1, global), as, ls, len(ls))
}

func sp_tag(acc []string, as string, ls []string, n int) []string {
	if n <= 0 || n > len(ls) {
		return acc
	}

	return vs.Append(sp_tag(acc, as, ls, n-1), as+":"+filepath.Clean(ls[n-1]))
}

func ct__findAllLockfiles(r *reporter.Reporter, args []string, global string) {
	vs.Prop("C06,C13")
	vs.Requires(reporter.Sp_ready(r))
	vs.Modifies(r)
	vs.ModifiesOut()
	old, out := *r, reporter.Sp_out(r)
	vs.Inv(func(i int, acc []string) bool { return vs.Eq(acc, sp_all(args, i, global)) })
	vs.Inv(func(j int, acc []string, outAcc []string, srcAs string, srcLs []string) bool {
		return vs.Eq(acc, sp_tag(outAcc, srcAs, srcLs, j))
	})
	vs.Inv(func(i int, failed bool) bool {
		return failed == vs.Exists(0, i, func(k int) bool { return sp_readErr(sp_path(args[k])) != nil })
	})
	vs.Inv(func(failed bool) bool { return reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || failed) })
	vs.Inv(func() bool { return reporter.Sp_kept(r, old) && reporter.Sp_mute(r, out) })
	l, failed := findAllLockfiles(r, args, global)
	if global == "csv-row" {
		vs.Ensures("rows given as arguments are one input", len(l) == 1 && l[0] == "csv-row:-" && !failed)
	} else {
		vs.Ensures("failed exactly when some path cannot be read", failed == vs.Exists(0, len(args), func(k int) bool { return sp_readErr(sp_path(args[k])) != nil }))
		vs.Ensures("every file of every argument, in order, with how to parse it", vs.Eq(l, sp_all(args, len(args), global)))
	}
	vs.Ensures("a failure is an error of the run", reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || failed))
	vs.Ensures("the reporter is otherwise as before", reporter.Sp_kept(r, old))
	vs.Ensures("in JSON mode nothing is written to standard output", reporter.Sp_mute(r, out))
}

// sp_parsed: what the parser that the prefix asks for makes of the input.
func sp_parsed(in string, args []string) (lockfile.Lockfile, error) {
	as, path := sp_prefix(in), sp_path(in)
	if as == "csv-row" {
		return lockfile.FromCSVRows(path, as, args)
	}
	if as == "csv-file" {
		return lockfile.FromCSVFile(path, as)
	}

	return lockfile.Parse(path, as)
}

func ct__parseLockfile(in string, args []string) {
	vs.Prop("C12,C13")
	vs.Option("pure")
	l, err := parseLockfile(in, args)
	want, werr := sp_parsed(in, args)
	vs.Ensures("an error exactly when the parser fails", (err == nil) == (werr == nil))
	vs.Ensures("the error of the parser", err == nil || errors.Is(err, werr))
	if err == nil {
		vs.Ensures("the packages of the parser", vs.Eq(l, want))
	}
}
