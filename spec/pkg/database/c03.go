package database

import (
	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vs"
)

// sp_key: what advisories are indexed and looked up by.
func sp_key(name string, e internal.Ecosystem) string { return sp_eco(e) + "-" + sp_normName(name, e) }

// sp_keyed: one of the first n entries is indexed under the key.
func sp_keyed(as []Affected, n int, key string) bool {
	return vs.Exists(0, n, func(k int) bool { return sp_key(as[k].Package.Name, as[k].Package.Ecosystem) == key })
}

func sp_anyNamed(p Package, names []string) bool {
	return vs.Exists(0, len(names), func(k int) bool { return sp_named(p, names[k]) })
}

func sp_might(as []Affected, i int, names []string) bool {
	if i < 0 || i >= len(as) {
		return false
	}

	return sp_anyNamed(as[i].Package, names) || sp_might(as, i+1, names)
}

func ct__mightAffectPackages(v OSV, names []string) {
	vs.Prop("C03")
	vs.Inv(func(i int) bool { return sp_might(v.Affected, i, names) == sp_might(v.Affected, 0, names) })
	want := sp_might(v.Affected, 0, names)
	r := mightAffectPackages(v, names)
	vs.Ensures("kept exactly when an entry has one of the names", r == want)
}

func ct_memDB_addVulnerability(db *memDB, osv OSV, pkgNames []string) {
	vs.Prop("C03")
	vs.Requires(db != nil && db.vulnerabilities != nil)
	old := vs.Clone(db.vulnerabilities)
	as := osv.Affected
	vs.Inv(func() bool { return db.vulnerabilities != nil })
	vs.Inv(func(i int) bool {
		return vs.ForallStr(func(key string) bool {
			return vs.ForallAny(func(x OSV) bool {
				return vs.Member(x, db.vulnerabilities[key]) ==
					(vs.Member(x, old[key]) || vs.Same(x, osv) && sp_keyed(as, i, key))
			})
		})
	})
	vs.Modifies(db)
	db.addVulnerability(osv, pkgNames)
	keep := len(pkgNames) == 0 || sp_might(as, 0, pkgNames)
	now := db.vulnerabilities
	vs.Ensures("the index stays usable", now != nil)
	vs.Ensures("the advisory is indexed under each of its packages and nothing else changes",
		vs.ForallStr(func(key string) bool {
			return vs.ForallAny(func(x OSV) bool {
				return vs.Member(x, now[key]) == (vs.Member(x, old[key]) || keep && vs.Same(x, osv) && sp_keyed(as, len(as), key))
			})
		}))
}

// Spo_related: they are the same advisory or share an identifier or alias.
func Spo_related(a, b OSV) bool {
	return a.ID == b.ID || sp_aliasOf(a, b) || sp_aliasOf(b, a)
}

func sp_aliasOf(a, b OSV) bool {
	return vs.Exists(0, len(b.Aliases), func(k int) bool { return b.Aliases[k] == a.ID || vs.In(b.Aliases[k], a.Aliases) })
}

// Lem_related: an advisory is related to itself, and the relation goes both ways.
func Lem_related() {
	vs.Prop("C03,C04,C05")
	vs.Option("reveal")
	vs.Ensures("reflexive", vs.ForallAny(func(a OSV) bool { return Spo_related(a, a) }))
	vs.Ensures("symmetric", vs.ForallAny(func(a OSV) bool {
		return vs.ForallAny(func(b OSV) bool { return Spo_related(a, b) == Spo_related(b, a) })
	}))
}

func ct_OSV_isAliasOf(osv *OSV, vulnerability OSV) {
	vs.Prop("C03,C04")
	vs.Requires(osv != nil)
	me := *osv
	vs.Inv(func(i int) bool {
		return vs.Forall(0, i, func(k int) bool {
			return vulnerability.Aliases[k] != me.ID && !vs.In(vulnerability.Aliases[k], me.Aliases)
		})
	})
	r := osv.isAliasOf(vulnerability)
	vs.Ensures("one of the other's aliases is its identifier or alias", r == sp_aliasOf(me, vulnerability))
}

func Sp_includes(l Vulnerabilities, x OSV) bool {
	return vs.Exists(0, len(l), func(k int) bool { return Spo_related(l[k], x) })
}

func ct_Vulnerabilities_Includes(l Vulnerabilities, x OSV) {
	vs.Prop("C03,C04,C05")
	vs.Option("reveal Spo_related")
	vs.Inv(func(i int) bool { return vs.Forall(0, i, func(k int) bool { return !Spo_related(l[k], x) }) })
	r := l.Includes(x)
	vs.Ensures("one of the listed advisories shares an identifier or alias", r == Sp_includes(l, x))
}

func ct_Vulnerabilities_Unique(l Vulnerabilities) {
	vs.Prop("C04,C05")
	Lem_related()
	vs.Inv(func(i int, acc Vulnerabilities) bool {
		return vs.Forall(0, len(acc), func(k int) bool { return vs.Member(acc[k], l) })
	})
	vs.Inv(func(i int, acc Vulnerabilities) bool {
		return vs.Forall(0, i, func(k int) bool { return Sp_includes(acc, l[k]) })
	})
	vs.Inv(func(i int, acc Vulnerabilities) bool {
		return vs.Forall(0, len(acc), func(k int) bool {
			return vs.Forall(0, k, func(j int) bool { return !Spo_related(acc[j], acc[k]) })
		})
	})
	r := l.Unique()
	vs.Ensures("nothing is invented", vs.Forall(0, len(r), func(k int) bool { return vs.Member(r[k], l) }))
	vs.Ensures("everything is represented", vs.Forall(0, len(l), func(k int) bool { return Sp_includes(r, l[k]) }))
	vs.Ensures("nothing is repeated", vs.Forall(0, len(r), func(k int) bool {
		return vs.Forall(0, k, func(j int) bool { return !Spo_related(r[j], r[k]) })
	}))
}

// sp_applies: the advisory has to be reported for the package.
func sp_applies(v OSV, pkg internal.PackageDetails) bool {
	return v.Withdrawn == nil && sp_anyEntry(v.Affected, 0, pkg)
}

func ct_memDB_VulnerabilitiesAffectingPackage(db *memDB, pkg internal.PackageDetails) {
	vs.Prop("C03")
	vs.Requires(db != nil)
	Lem_related()
	list := db.vulnerabilities[sp_key(pkg.Name, pkg.Ecosystem)]
	vs.Inv(func(i int, acc Vulnerabilities) bool {
		return vs.Forall(0, len(acc), func(k int) bool { return vs.Member(acc[k], list) && sp_applies(acc[k], pkg) })
	})
	vs.Inv(func(i int, acc Vulnerabilities) bool {
		return vs.Forall(0, i, func(k int) bool { return !sp_applies(list[k], pkg) || Sp_includes(acc, list[k]) })
	})
	vs.ModifiesOut()
	r := db.VulnerabilitiesAffectingPackage(pkg)
	vs.Ensures("only indexed advisories that apply", vs.Forall(0, len(r), func(k int) bool {
		return vs.Member(r[k], list) && sp_applies(r[k], pkg)
	}))
	vs.Ensures("every indexed advisory that applies is listed, or one related to it", vs.Forall(0, len(list), func(k int) bool {
		return !sp_applies(list[k], pkg) || Sp_includes(r, list[k])
	}))
}

// sp_answer: a correct answer for the package.
func sp_answer(m map[string][]OSV, pkg internal.PackageDetails, r Vulnerabilities) bool {
	list := m[sp_key(pkg.Name, pkg.Ecosystem)]

	return vs.Forall(0, len(r), func(k int) bool { return vs.Member(r[k], list) && sp_applies(r[k], pkg) }) &&
		vs.Forall(0, len(list), func(k int) bool { return !sp_applies(list[k], pkg) || Sp_includes(r, list[k]) })
}

func ct_memDB_Check(db *memDB, pkgs []internal.PackageDetails) {
	vs.Prop("C03")
	vs.Requires(db != nil)
	m := db.vulnerabilities
	vs.Inv(func(i int, acc []Vulnerabilities) bool {
		return len(acc) == i && vs.Forall(0, i, func(k int) bool { return sp_answer(m, pkgs[k], acc[k]) })
	})
	vs.ModifiesOut()
	r, err := db.Check(pkgs)
	vs.Ensures("never fails", err == nil)
	vs.Ensures("one answer per package", len(r) == len(pkgs))
	vs.Ensures("answer i belongs to package i", vs.Forall(0, len(pkgs), func(k int) bool { return sp_answer(m, pkgs[k], r[k]) }))
}

// An entry that affects a package is indexed under the key the package is
// looked up by, so no advisory that applies can be missed.
func lem_lookupFindsEntry(a Affected, pkg internal.PackageDetails) {
	vs.Prop("C03")
	vs.Requires(sp_entryAffects(a, pkg))
	vs.Ensures("same key", sp_key(a.Package.Name, a.Package.Ecosystem) == sp_key(pkg.Name, pkg.Ecosystem))
}

// ... and is kept when loading is limited to names that include the package's.
func lem_filterKeepsEntry(a Affected, pkg internal.PackageDetails, names []string, k int) {
	vs.Prop("C03")
	vs.Requires(sp_entryAffects(a, pkg))
	vs.Requires(0 <= k && k < len(names) && names[k] == pkg.Name)
	vs.Assert("the name is in the list", sp_named(a.Package, names[k]))
	vs.Ensures("kept", sp_anyNamed(a.Package, names))
}
