// Package vfdb draws advisories and packages and states, independently of
// the code under test, which advisory affects which package.
package vfdb

import (
	"fmt"
	"strings"
	"time"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vfh"
	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/google/osv-scalibr/semantic"
)

var Ecosystems = []string{"npm", "PyPI", "crates.io", "Packagist", "RubyGems", "Go", "Maven", "NuGet", "Hex", "Pub", "CRAN", "Debian", "Alpine", "Bitnami"}

var versions = []string{
	"0", "0.0.0", "0.0.0-0", "0.0.1", "0.1.0", "0.9.9", "1", "1.0", "1.0.0", "1.0.0-alpha", "1.0.0-alpha.1", "1.0.0-beta", "1.0.0-rc.1", "1.0.1", "1.0.2", "1.0.9", "1.0.10", "1.1.0", "1.1.1", "1.2.0", "1.2.3", "1.10.0",
	"2.0.0", "2.0.0-rc.1", "2.1.0", "2.5.0", "3.0.0", "3.1.4", "4.17.20", "4.17.21", "9.0.0", "10.0.0", "10.2.1", "11.0.0", "99.99.99", "100.0.0", "1.0.0.1", "2.0.post1", "1.0a1", "1.0b2", "1.0-SNAPSHOT", "2021.1.1", "20200101",
}

// ParsesAs: the version can be compared as a version of the ecosystem (a
// precondition of the code: it panics otherwise, see DESIGN.md).
func ParsesAs(v, eco string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	_, err := semantic.Parse(v, eco)

	return err == nil
}

func cmp(a, b, eco string) (int, bool) {
	p, err := semantic.Parse(a, eco)
	if err != nil {
		return 0, false
	}
	o, err := p.CompareStr(b)

	return o, err == nil
}

func Version(h *vfh.H, eco string) string {
	for {
		v := h.Str(versions...)
		if h.P(10) {
			v = fmt.Sprintf("%d.%d.%d", h.Intn(4), h.Intn(12), h.Intn(4))
		}
		if v != "" && ParsesAs(v, eco) {
			return v
		}
	}
}

// Events: an event list naming each version at most once, in any order.
func Events(h *vfh.H, eco string, near string) []database.RangeEvent {
	n := h.Size(8)
	var es []database.RangeEvent
	var used []string
	for tries := 0; len(es) < n && tries < 40; tries++ {
		v := Version(h, eco)
		if near != "" && h.P(15) && ParsesAs(near, eco) {
			v = near
		}
		if len(es) == 0 && h.P(40) || h.P(5) {
			v = "0"
		}
		clash := false
		for _, u := range used {
			if u == v {
				clash = true
			} else if v != "0" && u != "0" {
				if o, ok := cmp(u, v, eco); !ok || o == 0 {
					clash = true
				}
			}
		}
		if clash {
			continue
		}
		e := database.RangeEvent{}
		switch k := h.Intn(10); {
		case v == "0" || k < 4:
			e.Introduced = v
		case k < 8:
			e.Fixed = v
		default:
			e.LastAffected = v
		}
		used = append(used, v)
		es = append(es, e)
	}
	h.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })

	return es
}

// InRange: the closed form of replaying the events: an introduced event at or
// below the version that no later event at or below it closes again.
func InRange(r database.AffectsRange, v, eco string) bool {
	if r.Type != "SEMVER" && r.Type != "ECOSYSTEM" {
		return false
	}
	le := func(a, b string, strict bool) bool { // a <= b (or a < b), "0" being below everything
		if a == b {
			return !strict
		}
		if a == "0" {
			return true
		}
		if b == "0" {
			// the package's own version is compared like any other
			o, ok := cmp(a, b, eco)

			return ok && (o < 0 || !strict && o == 0)
		}
		o, ok := cmp(a, b, eco)
		if !ok {
			return false
		}

		return o < 0 || !strict && o == 0
	}
	for _, i := range r.Events {
		if i.Introduced == "" || !(i.Introduced == "0" || le(i.Introduced, v, false)) {
			continue
		}
		closed := false
		for _, c := range r.Events {
			if c.Fixed != "" && after(c.Fixed, i.Introduced, eco) && le(c.Fixed, v, false) {
				closed = true
			}
			if c.LastAffected != "" && after(c.LastAffected, i.Introduced, eco) && c.LastAffected != v && le(c.LastAffected, v, true) {
				closed = true
			}
		}
		if !closed {
			return true
		}
	}

	return false
}

func after(c, i, eco string) bool {
	if i == "0" {
		return true
	}
	o, ok := cmp(c, i, eco)

	return ok && o > 0
}

func Range(h *vfh.H, eco, near string) database.AffectsRange {
	return database.AffectsRange{
		Type:   vfh.Pick(h, database.TypeSemver, database.TypeEcosystem, database.TypeSemver, database.TypeEcosystem, database.TypeGit, "", "semver", "OTHER"),
		Events: Events(h, eco, near),
	}
}

var names = []string{
	"a", "b", "lodash", "Lodash", "my-package", "my_package", "my.package", "My-Package", "my--package", "my__pkg", "zope.interface", "zope-interface", "Zope_Interface", "a.-_b", "a-b",
	"@scope/a", "@scope/b", "org.x:y", "org.x:z", "github.com/a/b", "github.com/A/b", "pkg-1", "pkg", "1-a", "-a", "PyPI-a", "npm-a", "a:1", "-", "_", "..", "Django", "django", "DJANGO-x", "é-x", "K-a",
}

func Name(h *vfh.H) string {
	s := h.Str(names...)
	if h.P(15) { // other spellings of the same PyPI name
		s = strings.NewReplacer("-", vfh.Pick(h, "-", "_", ".", "--", "-_.")).Replace(s)
	}
	if h.P(8) {
		s = strings.ToUpper(s)
	}

	return s
}

func Eco(h *vfh.H) string {
	e := Ecosystems[h.Intn(len(Ecosystems))]
	if h.P(35) {
		e = vfh.Pick(h, "npm", "PyPI", "Debian")
	}

	return e
}

func Suffixed(h *vfh.H, e string) internal.Ecosystem {
	switch h.Intn(8) {
	case 0:
		return internal.Ecosystem(e + ":" + vfh.Pick(h, "10", "11", "v3.16", "1", "10:1", ""))
	case 1:
		return internal.Ecosystem(e + vfh.Pick(h, ":10", ":11", "", " ", "2", "-a"))
	}

	return internal.Ecosystem(e)
}

// Pkg: a package whose version can be compared as its ecosystem's.
func Pkg(h *vfh.H) internal.PackageDetails {
	e := Eco(h)
	p := internal.PackageDetails{Name: Name(h), Ecosystem: Suffixed(h, e), CompareAs: internal.Ecosystem(e), Version: Version(h, e)}
	if h.P(8) && ParsesAs("", e) {
		p.Version = ""
	}
	if h.P(5) {
		p.Commit = "abc123"
	}

	return p
}

func Affected(h *vfh.H, near internal.PackageDetails) database.Affected {
	e, _, _ := strings.Cut(string(near.Ecosystem), ":")
	a := database.Affected{Package: database.Package{Name: near.Name, Ecosystem: near.Ecosystem}}
	if h.P(30) {
		a.Package.Name = Name(h)
	}
	if h.P(30) {
		a.Package.Ecosystem = Suffixed(h, e)
	}
	if h.P(15) {
		a.Package.Ecosystem = Suffixed(h, Eco(h))
	}
	cmpAs := string(near.CompareAs)
	for i := h.Intn(3); i > 0; i-- {
		a.Versions = append(a.Versions, Version(h, cmpAs))
	}
	if h.P(15) {
		a.Versions = append(a.Versions, near.Version)
	}
	if h.P(60) {
		for i := h.Intn(4); i > 0; i-- {
			a.Ranges = append(a.Ranges, Range(h, cmpAs, near.Version))
		}
	}

	return a
}

var ids = []string{"GHSA-1", "GHSA-2", "GHSA-3", "CVE-1", "CVE-2", "CVE-3", "OSV-1", "OSV-2", "OSV-3", "PYSEC-1", "RUSTSEC-1", "GO-1", "MAL-1", "DSA-1-1", "osv-1"}

func ID(h *vfh.H) string { return h.Str(ids...) }

// OSV: an advisory with entries for some of the packages.
func OSV(h *vfh.H, id string, pkgs []internal.PackageDetails) database.OSV {
	o := database.OSV{ID: id}
	for i := h.Intn(3); i > 0; i-- {
		o.Aliases = append(o.Aliases, ID(h))
	}
	if h.P(60) {
		o.Aliases = nil
	}
	if h.P(10) {
		tm := time.Date(2021, 1, 1+h.Intn(20), 0, 0, 0, 0, time.UTC)
		o.Withdrawn = &tm
	}
	for i := h.Size(6); i > 0; i-- {
		near := pkgs[h.Intn(len(pkgs))]
		o.Affected = append(o.Affected, Affected(h, near))
	}

	return o
}

// ---- oracles

func Norm(name, eco string) string {
	base, _, _ := strings.Cut(eco, ":")
	if base != "PyPI" {
		return name
	}
	var b strings.Builder
	sep := false
	for _, c := range name {
		if c == '-' || c == '_' || c == '.' {
			sep = true

			continue
		}
		if sep {
			b.WriteByte('-')
			sep = false
		}
		b.WriteRune(c)
	}
	if sep {
		b.WriteByte('-')
	}

	return strings.ToLower(b.String())
}

func SameEco(a, b string) bool {
	ab, as, _ := strings.Cut(a, ":")
	bb, bs, _ := strings.Cut(b, ":")

	return ab == bb && (as == "" || bs == "" || as == bs)
}

func EntryAffects(a database.Affected, p internal.PackageDetails) bool {
	if !SameEco(string(a.Package.Ecosystem), string(p.Ecosystem)) || Norm(a.Package.Name, string(a.Package.Ecosystem)) != Norm(p.Name, string(p.Ecosystem)) {
		return false
	}
	if len(a.Versions) == 0 && len(a.Ranges) == 0 {
		return false
	}
	if p.Version == "" {
		return true
	}
	for _, v := range a.Versions {
		if v == p.Version {
			return true
		}
	}
	for _, r := range a.Ranges {
		if InRange(r, p.Version, string(p.CompareAs)) {
			return true
		}
	}

	return false
}

func IsAffected(o database.OSV, p internal.PackageDetails) bool {
	for _, a := range o.Affected {
		if EntryAffects(a, p) {
			return true
		}
	}

	return false
}

// Comparable: every version the entries may compare is one of the package's ecosystem.
func Comparable(o database.OSV, p internal.PackageDetails) bool {
	eco := string(p.CompareAs)
	if !ParsesAs(p.Version, eco) {
		return false
	}
	for _, a := range o.Affected {
		if !SameEco(string(a.Package.Ecosystem), string(p.Ecosystem)) || Norm(a.Package.Name, string(a.Package.Ecosystem)) != Norm(p.Name, string(p.Ecosystem)) {
			continue
		}
		for _, r := range a.Ranges {
			if !totallyOrdered(p.Version, r.Events, eco) {
				return false
			}
		}
	}

	return true
}

func Related(a, b database.OSV) bool {
	as := append([]string{a.ID}, a.Aliases...)
	bs := append([]string{b.ID}, b.Aliases...)
	if a.ID == b.ID {
		return true
	}
	for i, x := range as {
		for j, y := range bs {
			if x == y && (i != 0 || j != 0) {
				return true
			}
		}
	}

	return false
}

// totallyOrdered: the ecosystem's comparison is a strict order on the event
// versions and consistent for the package's (it is not for malformed ones).
func totallyOrdered(pv string, es []database.RangeEvent, eco string) bool {
	vs := []string{pv}
	for _, e := range es {
		if v := e.Introduced + e.Fixed + e.LastAffected; v != "0" {
			vs = append(vs, v)
		}
	}
	n := len(vs)
	c := make([][]int, n)
	for i := range vs {
		if !ParsesAs(vs[i], eco) {
			return false
		}
		c[i] = make([]int, n)
		for j := range vs {
			o, ok := cmp(vs[i], vs[j], eco)
			if !ok || i != j && o == 0 && i != 0 && j != 0 {
				return false
			}
			c[i][j] = o
		}
	}
	for i := range vs {
		for j := range vs {
			if c[i][j] != -c[j][i] {
				return false
			}
			for k := range vs {
				if c[i][j] <= 0 && c[j][k] <= 0 && c[i][k] > 0 {
					return false
				}
			}
		}
	}

	return true
}
