package main

import (
	"github.com/g-rath/osv-detector/internal/reporter"
	"github.com/g-rath/osv-detector/internal/vs"
	"github.com/g-rath/osv-detector/pkg/database"
)

func ct__describeDB(db database.DB) {
	vs.Prop("C07")
	vs.Requires(sp_real(db))
	d := describeDB(db)
	vs.Ensures("a description of a database", d == d)
}

// sp_real: a database, not a nil pointer to one.
func sp_real(db database.DB) bool {
	z, isZip := db.(*database.ZipDB)
	a, isAPI := db.(*database.APIDB)
	d, isDir := db.(*database.DirDB)

	return db != nil && !(isZip && z == nil) && !(isAPI && a == nil) && !(isDir && d == nil)
}

func ct__loadDatabases(r *reporter.Reporter, cs []database.Config, list, offline bool, size int, names []string) {
	vs.Prop("C06,C07,C14,C15")
	vs.Option("reveal spo_listed")
	vs.Requires(reporter.Sp_ready(r) && reporter.Sp_own(r))
	vs.Modifies(r)
	vs.ModifiesOut()
	vs.ModifiesNet()
	vs.ModifiesFiles()
	vs.Allocates()
	old, out, calls := *r, reporter.Sp_out(r), vs.NetCalls()
	vs.Inv(func(acc OSVDatabases) bool {
		return vs.Forall(0, len(acc), func(k int) bool { return sp_real(acc[k]) && spo_listed(cs, acc[k].Identifier()) })
	})
	vs.Inv(func(i int, acc OSVDatabases, errored bool) bool {
		return errored || len(acc) == i && vs.Forall(0, i, func(k int) bool { return acc[k].Identifier() == cs[k].Identifier() })
	})
	vs.Inv(func(i int, acc OSVDatabases, errored bool) bool { return !errored || len(acc) < i })
	vs.Inv(func(errored bool) bool { return reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || errored) })
	vs.Inv(func() bool { return reporter.Sp_kept(r, old) })
	vs.Inv(func() bool { return reporter.Sp_mute(r, out) })
	vs.Inv(func() bool { return !offline || vs.NetCalls() == calls })
	dbs, errored := loadDatabases(r, cs, list, offline, size, names)
	vs.Ensures("no database is needed to list packages", !list || len(dbs) == 0 && !errored && vs.NetCalls() == calls)
	vs.Ensures("all of them are loaded, in order, or that is an error", list || errored ||
		len(dbs) == len(cs) && vs.Forall(0, len(cs), func(k int) bool { return dbs[k].Identifier() == cs[k].Identifier() }))
	vs.Ensures("an error only when one is missing", !errored || len(dbs) < len(cs))
	vs.Ensures("only those that are asked for are loaded", vs.Forall(0, len(dbs), func(k int) bool { return sp_real(dbs[k]) && spo_listed(cs, dbs[k].Identifier()) }))
	vs.Ensures("an error marks the run as failed", reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || errored))
	vs.Ensures("offline, no server is contacted", !offline || vs.NetCalls() == calls)
	vs.Ensures("the reporter is otherwise as before", reporter.Sp_kept(r, old))
	vs.Ensures("in JSON mode nothing is written to standard output", reporter.Sp_mute(r, out))
}
