package database

import (
	"slices"
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/cachedregexp"
	"github.com/g-rath/osv-detector/internal/vs"
)

// sp_eco: an ecosystem without its release suffix.
func sp_eco(e internal.Ecosystem) string {
	eco, _, _ := strings.Cut(string(e), ":")

	return eco
}

func sp_ecoSuffix(e internal.Ecosystem) string {
	_, suffix, _ := strings.Cut(string(e), ":")

	return suffix
}

func sp_sameEco(a, b internal.Ecosystem) bool {
	return sp_eco(a) == sp_eco(b) &&
		(sp_ecoSuffix(a) == "" || sp_ecoSuffix(b) == "" || sp_ecoSuffix(a) == sp_ecoSuffix(b))
}

// sp_pyName: per PEP 503.
func sp_pyName(name string) string {
	return strings.ToLower(cachedregexp.MustCompile(`[-_.]+`).ReplaceAllString(name, "-"))
}

func sp_normName(name string, e internal.Ecosystem) string {
	if sp_eco(e) == "PyPI" {
		return sp_pyName(name)
	}

	return name
}

func sp_named(p Package, name string) bool {
	return sp_normName(p.Name, p.Ecosystem) == sp_normName(name, p.Ecosystem)
}

func sp_entryAffects(a Affected, pkg internal.PackageDetails) bool {
	return sp_sameEco(a.Package.Ecosystem, pkg.Ecosystem) && sp_named(a.Package, pkg.Name) &&
		(len(a.Versions) > 0 || len(a.Ranges) > 0) &&
		(slices.Contains(a.Versions, pkg.Version) || sp_anyRange(a.Ranges, 0, pkg) || pkg.Version == "")
}

func sp_anyEntry(as []Affected, i int, pkg internal.PackageDetails) bool {
	if i < 0 || i >= len(as) {
		return false
	}

	return sp_entryAffects(as[i], pkg) || sp_anyEntry(as, i+1, pkg)
}

func ct__areEcosystemsEqual(a, b internal.Ecosystem) {
	vs.Prop("C02,C03")
	r := areEcosystemsEqual(a, b)
	vs.Ensures("equal up to release suffixes only one side has", r == sp_sameEco(a, b))
}

func ct_Package_NormalizedEcosystem(p Package) {
	vs.Prop("C02,C03")
	r := p.NormalizedEcosystem()
	vs.Ensures("the ecosystem without its suffix", string(r) == sp_eco(p.Ecosystem))
}

func ct_Package_NormalizedName(p Package) {
	vs.Prop("C02,C03")
	r := p.NormalizedName()
	vs.Ensures("PyPI names are normalised and others kept", r == sp_normName(p.Name, p.Ecosystem))
}

func ct_Package_isNamed(p Package, name string) {
	vs.Prop("C02,C03")
	r := p.isNamed(name)
	vs.Ensures("the names are equal once normalised", r == sp_named(p, name))
}

func ct_OSV_IsAffected(osv *OSV, pkg internal.PackageDetails) {
	vs.Prop("C02,C03")
	vs.Requires(osv != nil)
	as := osv.Affected
	vs.Inv(func(i int) bool { return sp_anyEntry(as, i, pkg) == sp_anyEntry(as, 0, pkg) })
	want := sp_anyEntry(as, 0, pkg)
	vs.ModifiesOut()
	r := osv.IsAffected(pkg)
	vs.Ensures("affected exactly when one of the entries says so", r == want)
}

func ct_OSV_AffectsEcosystem(osv *OSV, ecosystem internal.Ecosystem) {
	vs.Prop("C02")
	vs.Requires(osv != nil)
	vs.Inv(func(i int) bool {
		return vs.Forall(0, i, func(k int) bool { return osv.Affected[k].Package.Ecosystem != ecosystem })
	})
	r := osv.AffectsEcosystem(ecosystem)
	vs.Ensures("an entry has the ecosystem", r == vs.Exists(0, len(osv.Affected), func(k int) bool {
		return osv.Affected[k].Package.Ecosystem == ecosystem
	}))
}
