package database

import (
	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vs"
	"github.com/google/osv-scalibr/semantic"
)

// sp_cmp: how the package's version compares with another one.
func sp_cmp(pkg internal.PackageDetails, v string) int {
	order, _ := semantic.MustParse(pkg.Version, string(pkg.CompareAs)).CompareStr(v)

	return order
}

// sp_before: the order in which the events of a range are replayed.
func sp_before(cmpAs string, a, b RangeEvent) bool {
	if a.Introduced == "0" {
		return true
	}
	if b.Introduced == "0" {
		return false
	}
	order, _ := semantic.MustParse(a.version(), cmpAs).CompareStr(b.version())

	return order < 0
}

// sp_step: the effect of one event.
func sp_step(affected bool, e RangeEvent, pkg internal.PackageDetails) bool {
	if affected {
		if e.Fixed != "" {
			return sp_cmp(pkg, e.Fixed) < 0
		}
		if e.LastAffected != "" {
			return e.LastAffected == pkg.Version || sp_cmp(pkg, e.LastAffected) <= 0
		}

		return true
	}

	return e.Introduced != "" && (e.Introduced == "0" || sp_cmp(pkg, e.Introduced) >= 0)
}

// sp_replay: replaying the events from index i on.
func sp_replay(es []RangeEvent, i int, affected bool, pkg internal.PackageDetails) bool {
	if i < 0 || i >= len(es) {
		return affected
	}

	return sp_replay(es, i+1, sp_step(affected, es[i], pkg), pkg)
}

func sp_rangeContains(ar AffectsRange, pkg internal.PackageDetails) bool {
	if ar.Type != TypeEcosystem && ar.Type != TypeSemver {
		return false
	}
	es := vs.SortBy(ar.Events, func(a, b RangeEvent) bool { return sp_before(string(pkg.CompareAs), a, b) })

	return sp_replay(es, 0, false, pkg)
}

func ct_RangeEvent_version(e RangeEvent) {
	vs.Prop("C01")
	vs.Option("inline")
	r := e.version()
	vs.Ensures("the event's version is the one it names", r == e.Introduced && e.Introduced != "" ||
		e.Introduced == "" && (r == e.Fixed && e.Fixed != "" || e.Fixed == "" && r == e.LastAffected))
}

func ct_AffectsRange_containsVersion(ar AffectsRange, pkg internal.PackageDetails) {
	vs.Prop("C01,C02,C03")
	es := vs.SortBy(ar.Events, func(a, b RangeEvent) bool { return sp_before(string(pkg.CompareAs), a, b) })
	vs.Inv(func(i int, affected bool) bool {
		return sp_replay(es, i, affected, pkg) == sp_replay(es, 0, false, pkg)
	})
	want := sp_rangeContains(ar, pkg)
	vs.Modifies(&ar)
	r := ar.containsVersion(pkg)
	vs.Ensures("affected exactly when replaying the events in version order says so", r == want)
}

func sp_anyRange(a Affects, i int, pkg internal.PackageDetails) bool {
	if i < 0 || i >= len(a) {
		return false
	}

	return sp_rangeContains(a[i], pkg) || sp_anyRange(a, i+1, pkg)
}

func ct_Affects_affectsVersion(a Affects, pkg internal.PackageDetails) {
	vs.Prop("C01,C02,C03")
	vs.Inv(func(i int) bool { return sp_anyRange(a, i, pkg) == sp_anyRange(a, 0, pkg) })
	want := sp_anyRange(a, 0, pkg)
	r := a.affectsVersion(pkg)
	vs.Ensures("affected exactly when one of the ranges contains the version", r == want)
}
