package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/configer"
	"github.com/g-rath/osv-detector/internal/reporter"
	"github.com/g-rath/osv-detector/internal/vs"
)

// sp_listed: the identifiers, in some order.
func sp_listed(m map[string]struct{}) []string {
	if len(m) == 0 {
		return nil
	}

	return vs.Keys(m)
}

// sp_ids: the identifiers, sorted.
func sp_ids(m map[string]struct{}) []string { return vs.Sorted(sp_listed(m)) }

// sp_done: the config has been given exactly these ignores.
func sp_done(files map[string]string, path string, ids map[string]struct{}) bool {
	return vs.Has(files, path) && files[path] == configer.Sp_updated(path, sp_ids(ids))
}

func sp_complaint(line string) bool { return strings.HasPrefix(line, "Error updating") }

func ct__writeUpdatedConfigs(r *reporter.Reporter, m map[string]map[string]struct{}) {
	vs.Prop("C06,C08")
	vs.Requires(reporter.Sp_ready(r))
	vs.Modifies(r)
	vs.ModifiesOut()
	vs.ModifiesFiles()
	old, out, files := *r, reporter.Sp_out(r), vs.WrittenFiles()
	ks := vs.Keys(m)
	vs.Inv(func() bool { return reporter.Sp_kept(r, old) })
	vs.Inv(func() bool { return reporter.Sp_mute(r, out) })
	vs.Inv(func(i int, lines []string) bool {
		now := vs.WrittenFiles()
		return vs.Forall(0, i, func(k int) bool { return sp_done(now, ks[k], m[ks[k]]) }) ||
			!vs.ForallStr(func(x string) bool { return !(vs.In(x, lines) && sp_complaint(x)) })
	})
	vs.Inv(func() bool {
		now := vs.WrittenFiles()
		return vs.ForallStr(func(f string) bool { return vs.Has(m, f) || vs.Has(now, f) == vs.Has(files, f) && now[f] == files[f] })
	})
	vs.Inv(func(i int, acc []string, src map[string]struct{}) bool {
		return len(acc) == i && vs.Forall(0, i, func(k int) bool { return acc[k] == vs.Keys(src)[k] })
	})
	vs.Inv(func(i int, acc []string, src map[string]struct{}) bool {
		return i < len(src) || vs.Same(acc, sp_listed(src))
	})
	vs.Inv(func(i int, srcLines []string) bool {
		return reporter.Sp_failed(r) || vs.Forall(0, i, func(k int) bool { return !sp_complaint(srcLines[k]) })
	})
	vs.Inv(func(i int, srcLines []string) bool {
		now := vs.WrittenFiles()
		return vs.Forall(0, len(ks), func(k int) bool { return sp_done(now, ks[k], m[ks[k]]) }) ||
			!vs.ForallStr(func(x string) bool { return !(vs.In(x, srcLines) && sp_complaint(x)) })
	})
	vs.Inv(func() bool { return reporter.Sp_failed(r) || !reporter.Sp_failed(&old) })
	writeUpdatedConfigs(r, m)
	now := vs.WrittenFiles()
	vs.Ensures("every config has exactly the identifiers found for it as its ignores, or the run has failed", reporter.Sp_failed(r) ||
		vs.Forall(0, len(ks), func(k int) bool { return sp_done(now, ks[k], m[ks[k]]) }))
	vs.Ensures("no other file is written", vs.ForallStr(func(f string) bool {
		return vs.Has(m, f) || vs.Has(now, f) == vs.Has(files, f) && now[f] == files[f]
	}))
	vs.Ensures("a failed run stays failed", reporter.Sp_failed(r) || !reporter.Sp_failed(&old))
	vs.Ensures("the reporter is otherwise as before", reporter.Sp_kept(r, old))
	vs.Ensures("in JSON mode nothing is written to standard output", reporter.Sp_mute(r, out))
}
