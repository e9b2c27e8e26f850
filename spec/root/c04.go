package main

import (
	"slices"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/reporter"
	"github.com/g-rath/osv-detector/internal/vs"
	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

// sp_returned: some database returned the advisory for package p.
func sp_returned(x database.OSV, all [][]database.Vulnerabilities, p int) bool {
	return vs.Exists(0, len(all), func(d int) bool { return vs.Member(x, all[d][p]) })
}

// sp_represented: everything the first d databases returned for package p is in one of the lists.
func sp_represented(all [][]database.Vulnerabilities, n, p int, v, g database.Vulnerabilities) bool {
	return vs.Forall(0, n, func(d int) bool {
		return vs.Forall(0, len(all[d][p]), func(j int) bool { return database.Sp_includes(v, all[d][p][j]) || database.Sp_includes(g, all[d][p][j]) })
	})
}

func sp_sound(all [][]database.Vulnerabilities, p int, ignores []string, v, g database.Vulnerabilities) bool {
	return vs.Forall(0, len(v), func(k int) bool { return sp_returned(v[k], all, p) && !vs.In(v[k].ID, ignores) }) &&
		vs.Forall(0, len(g), func(k int) bool { return sp_returned(g[k], all, p) && vs.In(g[k].ID, ignores) })
}

func sp_noRepeats(v, g database.Vulnerabilities) bool {
	return vs.Forall(0, len(v), func(k int) bool { return vs.Forall(0, k, func(j int) bool { return !database.Spo_related(v[j], v[k]) }) }) &&
		vs.Forall(0, len(g), func(k int) bool { return vs.Forall(0, k, func(j int) bool { return !database.Spo_related(g[j], g[k]) }) }) &&
		vs.Forall(0, len(v), func(k int) bool { return vs.Forall(0, len(g), func(j int) bool { return !database.Spo_related(v[k], g[j]) }) })
}

func ct_OSVDatabases_transposePkgResults(dbs OSVDatabases, pkg internal.PackageDetails, ignores []string, p int, all [][]database.Vulnerabilities) {
	vs.Prop("C04")
	vs.Requires(0 <= p && vs.Forall(0, len(all), func(d int) bool { return p < len(all[d]) }))
	database.Lem_related()
	// the outer loop, and the inner loop at database d
	vs.Inv(func(n int, v, g database.Vulnerabilities) bool { return sp_represented(all, n, p, v, g) })
	vs.Inv(func(outN int, v, g database.Vulnerabilities) bool { return sp_represented(all, outN, p, v, g) })
	vs.Inv(func(outN, j int, v, g database.Vulnerabilities) bool {
		return vs.Forall(0, j, func(k int) bool { return database.Sp_includes(v, all[outN][p][k]) || database.Sp_includes(g, all[outN][p][k]) })
	})
	vs.Inv(func(v, g database.Vulnerabilities) bool { return sp_sound(all, p, ignores, v, g) })
	vs.Inv(func(v, g database.Vulnerabilities) bool { return sp_noRepeats(v, g) })
	r := dbs.transposePkgResults(pkg, ignores, p, all)
	vs.Ensures("the package is kept as it is", r.PackageDetails == pkg)
	vs.Ensures("everything a database returned is represented", sp_represented(all, len(all), p, r.Vulnerabilities, r.Ignored))
	vs.Ensures("nothing is invented and ignores are honoured", sp_sound(all, p, ignores, r.Vulnerabilities, r.Ignored))
	vs.Ensures("nothing is repeated", sp_noRepeats(r.Vulnerabilities, r.Ignored))
}

// sp_okResults: what the first n databases returned, without those that failed.
func sp_okResults(dbs OSVDatabases, n int, pkgs lockfile.Packages) [][]database.Vulnerabilities {
	if n <= 0 || n > len(dbs) {
		return [][]database.Vulnerabilities{}
	}
	res, err := dbs[n-1].Check(pkgs)
	if err != nil {
		return sp_okResults(dbs, n-1, pkgs)
	}

	return vs.Append(sp_okResults(dbs, n-1, pkgs), res)
}

func sp_anyFails(dbs OSVDatabases, n int, pkgs lockfile.Packages) bool {
	return vs.Exists(0, n, func(k int) bool { _, err := dbs[k].Check(pkgs); return err != nil })
}

func sp_pkgReport(out reporter.PackageDetailsWithVulnerabilities, pkg internal.PackageDetails, ignores []string, all [][]database.Vulnerabilities, p int) bool {
	return out.PackageDetails == pkg && sp_represented(all, len(all), p, out.Vulnerabilities, out.Ignored) &&
		sp_sound(all, p, ignores, out.Vulnerabilities, out.Ignored) && sp_noRepeats(out.Vulnerabilities, out.Ignored)
}

var _ = slices.Contains[[]string]

// sp_aligned: every list of results has one entry for each package.
func sp_aligned(all [][]database.Vulnerabilities, n int) bool {
	return vs.Forall(0, len(all), func(d int) bool { return len(all[d]) == n })
}

func ct_OSVDatabases_check(dbs OSVDatabases, r *reporter.Reporter, lockf lockfile.Lockfile, ignores []string) {
	vs.Prop("C04,C06,C14")
	vs.Requires(reporter.Sp_ready(r))
	vs.Requires(vs.Forall(0, len(dbs), func(k int) bool { return dbs[k] != nil }))
	vs.Modifies(r)
	vs.ModifiesOut()
	vs.ModifiesNet()
	old, out := *r, reporter.Sp_out(r)
	all := sp_okResults(dbs, len(dbs), lockf.Packages)
	vs.Inv(func(n int, acc [][]database.Vulnerabilities) bool {
		return vs.Same(acc, sp_okResults(dbs, n, lockf.Packages))
	})
	vs.Inv(func(acc [][]database.Vulnerabilities) bool { return sp_aligned(acc, len(lockf.Packages)) })
	vs.Inv(func(n int) bool {
		return reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || sp_anyFails(dbs, n, lockf.Packages))
	})
	vs.Inv(func() bool { return reporter.Sp_kept(r, old) && reporter.Sp_mute(r, out) })
	vs.Inv(func(n int, ps []reporter.PackageDetailsWithVulnerabilities) bool {
		return len(ps) == n && vs.Forall(0, n, func(p int) bool { return ps[p].PackageDetails == lockf.Packages[p] })
	})
	vs.Inv(func(n int, ps []reporter.PackageDetailsWithVulnerabilities) bool {
		return vs.Forall(0, n, func(p int) bool { return sp_represented(all, len(all), p, ps[p].Vulnerabilities, ps[p].Ignored) })
	})
	vs.Inv(func(n int, ps []reporter.PackageDetailsWithVulnerabilities) bool {
		return vs.Forall(0, n, func(p int) bool { return sp_sound(all, p, ignores, ps[p].Vulnerabilities, ps[p].Ignored) })
	})
	vs.Inv(func(n int, ps []reporter.PackageDetailsWithVulnerabilities) bool {
		return vs.Forall(0, n, func(p int) bool { return sp_noRepeats(ps[p].Vulnerabilities, ps[p].Ignored) })
	})
	rep := dbs.check(r, lockf, ignores)
	vs.Ensures("the report is about this lockfile", vs.Same(rep.Lockfile, lockf))
	vs.Ensures("it has an entry for every package, in order", len(rep.Packages) == len(lockf.Packages))
	vs.Ensures("with what the databases that answered said about it", vs.Forall(0, len(rep.Packages), func(p int) bool {
		return sp_pkgReport(rep.Packages[p], lockf.Packages[p], ignores, all, p)
	}))
	vs.Ensures("a database that fails is an error of the run", reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || sp_anyFails(dbs, len(dbs), lockf.Packages)))
	vs.Ensures("the reporter is otherwise as before", reporter.Sp_kept(r, old))
	vs.Ensures("in JSON mode nothing is written to standard output", reporter.Sp_mute(r, out))
}
