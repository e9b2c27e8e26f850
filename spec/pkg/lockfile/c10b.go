package lockfile

import (
	"encoding/json"
	"encoding/xml"
	"net/url"
	"path"
	"strings"

	"github.com/g-rath/osv-detector/internal/cachedregexp"
	"github.com/g-rath/osv-detector/internal/vs"
	"github.com/tidwall/jsonc"
	"golang.org/x/mod/modfile"
	"golang.org/x/mod/module"
	"gopkg.in/yaml.v3"
)

// ---- bun.lock

// sp_bun: "name@version", "@scope/name@version", "name@...#commit"
func sp_bun(pkg []any) PackageDetails {
	none := sp_pkg("", "", "", "npm")
	if len(pkg) == 0 {
		return none
	}
	s, ok := pkg[0].(string)
	if !ok {
		return none
	}
	scope := ""
	if strings.HasPrefix(s, "@") {
		scope = "@"
	}
	name, rest, _ := strings.Cut(strings.TrimPrefix(s, "@"), "@")
	version, commit, _ := strings.Cut(rest, "#")
	if commit != "" || strings.HasPrefix(version, "file:") {
		version = ""
	}

	return sp_pkg(scope+name, version, commit, "npm")
}

func ct__structurePackageDetails(pkg []any) {
	vs.Prop("C09,C10")
	n, v, c := structurePackageDetails(pkg)
	w := sp_bun(pkg)
	vs.Ensures("the name", n == w.Name)
	vs.Ensures("the version", v == w.Version)
	vs.Ensures("the commit", c == w.Commit)
}

func sp_bunKeeps(pkg []any) bool {
	w := sp_bun(pkg)
	return w.Name != "" || w.Version != "" || w.Commit != ""
}

func ct__ParseBunLock(path string) {
	vs.Prop("C09,C10")
	var doc BunLockfile
	derr := json.Unmarshal(jsonc.ToJSON([]byte(vs.FileText(path))), &doc)
	ks := vs.Keys(doc.Packages)
	vs.Inv(func(i int, acc []PackageDetails) bool {
		return vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, acc) == vs.Exists(0, i, func(k int) bool { return sp_bunKeeps(doc.Packages[ks[k]]) && p == sp_bun(doc.Packages[ks[k]]) })
		})
	})
	r, err := ParseBunLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		vs.Ensures("exactly the entries with a name, version or commit", vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, r) == vs.ExistsKey(doc.Packages, func(k string) bool { return sp_bunKeeps(doc.Packages[k]) && p == sp_bun(doc.Packages[k]) })
		}))
	}
}

// ---- pubspec.lock

func ct__ParsePubspecLock(path string) {
	vs.Prop("C09,C10")
	var doc *PubspecLockfile
	derr := yaml.Unmarshal([]byte(vs.FileText(path)), &doc)
	vs.Inv(func(i int, acc []PackageDetails) bool {
		ks := vs.Keys(doc.Packages)
		return vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, acc) == vs.Exists(0, i, func(k int) bool {
				d := doc.Packages[ks[k]]
				return p == sp_pkg(ks[k], d.Version, d.Description.Ref, "Pub")
			})
		})
	})
	r, err := ParsePubspecLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil && doc == nil {
		vs.Ensures("an empty document lists nothing", len(r) == 0)
	}
	if err == nil && doc != nil {
		vs.Ensures("exactly the entries", vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, r) == vs.ExistsKey(doc.Packages, func(k string) bool {
				d := doc.Packages[k]
				return p == sp_pkg(k, d.Version, d.Description.Ref, "Pub")
			})
		}))
	}
}

// ---- package-lock.json

func sp_npmName(p string) string {
	scope := path.Base(path.Dir(p))
	if strings.HasPrefix(scope, "@") {
		return scope + "/" + path.Base(p)
	}

	return path.Base(p)
}

func ct__extractNpmPackageName(p string) {
	vs.Prop("C09,C10")
	r := extractNpmPackageName(p)
	vs.Ensures("the last path element, with its scope", r == sp_npmName(p))
}

// sp_group: what the first group of the pattern matches.
func sp_matches(pattern, s string) bool { return cachedregexp.MustCompile(pattern).FindStringSubmatch(s) != nil }
func sp_group(pattern, s string) string { return cachedregexp.MustCompile(pattern).FindStringSubmatch(s)[1] }

func sp_group2(pattern, s string) string {
	return cachedregexp.MustCompile(pattern).FindStringSubmatch(s)[2]
}

const (
	sp_reGit      = `(?:^|.+@)(?:git(?:\+(?:ssh|https))?|ssh)://.+#(\w+)$`
	sp_reDotGit   = `(?:^|.+@)https://.+\.git#(\w+)$`
	sp_reCodeload = `https://codeload\.github\.com(?:/[\w-.]+){2}/tar\.gz/(\w+)$`
	sp_reCommit   = `.+#commit[:=](\w+)$`
	sp_reHost     = `^(?:github|gitlab|bitbucket):.+#(\w+)$`
)

// sp_urlCommit: repositories on the known hosts name the commit as ref or fragment.
func sp_urlCommit(s string) string {
	u, err := url.Parse(s)
	if err != nil || u.Host != "bitbucket.org" && u.Host != "github.com" && u.Host != "gitlab.com" {
		return ""
	}
	if u.RawQuery != "" && u.Query().Has("ref") {
		return u.Query().Get("ref")
	}

	return u.Fragment
}

func sp_commit(s string) string {
	switch {
	case sp_matches(sp_reGit, s):
		return sp_group(sp_reGit, s)
	case sp_matches(sp_reDotGit, s):
		return sp_group(sp_reDotGit, s)
	case sp_matches(sp_reCodeload, s):
		return sp_group(sp_reCodeload, s)
	case sp_matches(sp_reCommit, s):
		return sp_group(sp_reCommit, s)
	case sp_matches(sp_reHost, s):
		return sp_group(sp_reHost, s)
	}

	return sp_urlCommit(s)
}

func ct__tryExtractCommit(resolution string) {
	vs.Prop("C09,C10,C11")
	vs.Option("pure")
	r := tryExtractCommit(resolution)
	vs.Ensures("the commit the resolution names", r == sp_commit(resolution))
}

func sp_npmPkg(p string, d NpmLockPackage) PackageDetails {
	name := d.Name
	if name == "" {
		name = sp_npmName(p)
	}

	return sp_pkg(name, d.Version, tryExtractCommit(d.Resolved), "npm")
}

// sp_npmKey: what entries are told apart by.
func sp_npmKey(p PackageDetails) string {
	if p.Commit != "" {
		return p.Name + "@" + p.Commit
	}

	return p.Name + "@" + p.Version
}

func ct__parseNpmLockPackages(ps map[string]NpmLockPackage) {
	vs.Prop("C09,C10")
	ks := vs.Keys(ps)
	vs.Inv(func(acc map[string]PackageDetails) bool { return acc != nil })
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.Forall(0, i, func(k int) bool { return ks[k] == "" || vs.Has(acc, sp_npmKey(sp_npmPkg(ks[k], ps[ks[k]]))) })
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(key string) bool {
			return !vs.Has(acc, key) || key == sp_npmKey(acc[key]) &&
				vs.Exists(0, i, func(k int) bool { return ks[k] != "" && acc[key] == sp_npmPkg(ks[k], ps[ks[k]]) })
		})
	})
	r := parseNpmLockPackages(ps)
	vs.Ensures("usable", r != nil)
	vs.Ensures("every entry but the root is there", vs.ForallKeys(ps, func(k string) bool { return k == "" || vs.Has(r, sp_npmKey(sp_npmPkg(k, ps[k]))) }))
	vs.Ensures("nothing else is there", vs.ForallStr(func(key string) bool {
		return !vs.Has(r, key) || key == sp_npmKey(r[key]) && vs.ExistsKey(ps, func(k string) bool { return k != "" && r[key] == sp_npmPkg(k, ps[k]) })
	}))
}

// sp_npmDep: a dependency of the first lockfile version.
func sp_npmDep(name string, d NpmLockDependency) PackageDetails {
	if strings.HasPrefix(d.Version, "file:") {
		return sp_pkg(name, "", "", "npm")
	}
	n, v := name, d.Version
	if i := strings.LastIndex(d.Version, "@"); i != -1 && strings.HasPrefix(d.Version, "npm:") {
		n, v = d.Version[4:i], d.Version[i+1:]
	}
	c := tryExtractCommit(d.Version)
	if c != "" {
		v = ""
	}

	return sp_pkg(n, v, c, "npm")
}

// sp_npmDepKey: entries are told apart by name and recorded version, or commit.
func sp_npmDepKey(name string, d NpmLockDependency) string {
	p := sp_npmDep(name, d)
	if p.Commit != "" {
		return p.Name + "@" + p.Commit
	}

	return p.Name + "@" + d.Version
}

// sp_npmHas: the tree holds, at any depth, an entry with the key.
func sp_npmHas(ds map[string]NpmLockDependency, key string) bool {
	return vs.ExistsKey(ds, func(k string) bool {
		return sp_npmDepKey(k, ds[k]) == key || ds[k].Dependencies != nil && sp_npmHas(ds[k].Dependencies, key)
	})
}

// sp_npmAt: the tree holds, at any depth, an entry with the key that is the package.
func sp_npmAt(ds map[string]NpmLockDependency, key string, p PackageDetails) bool {
	return vs.ExistsKey(ds, func(k string) bool {
		return sp_npmDepKey(k, ds[k]) == key && sp_npmDep(k, ds[k]) == p ||
			ds[k].Dependencies != nil && sp_npmAt(ds[k].Dependencies, key, p)
	})
}

func ct__parseNpmLockDependencies(ds map[string]NpmLockDependency) {
	vs.Prop("C09,C10")
	ks := vs.Keys(ds)
	vs.Inv(func(acc map[string]PackageDetails) bool { return acc != nil })
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(key string) bool {
			return vs.Has(acc, key) == vs.Exists(0, i, func(k int) bool {
				d := ds[ks[k]]
				return sp_npmDepKey(ks[k], d) == key || d.Dependencies != nil && sp_npmHas(d.Dependencies, key)
			})
		})
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(key string) bool {
			return !vs.Has(acc, key) || vs.Exists(0, i, func(k int) bool {
				d := ds[ks[k]]
				return sp_npmDepKey(ks[k], d) == key && sp_npmDep(ks[k], d) == acc[key] || d.Dependencies != nil && sp_npmAt(d.Dependencies, key, acc[key])
			})
		})
	})
	r := parseNpmLockDependencies(ds)
	vs.Ensures("usable", r != nil)
	vs.Ensures("every entry at every depth is there and nothing else", vs.ForallStr(func(key string) bool { return vs.Has(r, key) == sp_npmHas(ds, key) }))
	vs.Ensures("as it is", vs.ForallStr(func(key string) bool { return !vs.Has(r, key) || sp_npmAt(ds, key, r[key]) }))
}

func ct__ParseNpmLock(path string) {
	vs.Prop("C09,C10")
	var doc NpmLockfile
	derr := json.Unmarshal([]byte(vs.FileText(path)), &doc)
	r, err := ParseNpmLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil && doc.Packages != nil {
		vs.Ensures("every entry but the root is listed", vs.ForallKeys(doc.Packages, func(k string) bool {
			return k == "" || !vs.ForallAny(func(p PackageDetails) bool {
				return !(vs.Member(p, r) && sp_npmKey(p) == sp_npmKey(sp_npmPkg(k, doc.Packages[k])))
			})
		}))
		vs.Ensures("nothing else is listed", vs.Forall(0, len(r), func(i int) bool {
			return vs.ExistsKey(doc.Packages, func(k string) bool { return k != "" && r[i] == sp_npmPkg(k, doc.Packages[k]) })
		}))
	}
	if err == nil && doc.Packages == nil {
		vs.Ensures("only entries of the tree are listed", vs.Forall(0, len(r), func(i int) bool {
			return !vs.ForallStr(func(key string) bool { return !sp_npmAt(doc.Dependencies, key, r[i]) })
		}))
		vs.Ensures("every entry of the tree is listed", vs.ForallStr(func(key string) bool {
			return !sp_npmHas(doc.Dependencies, key) || !vs.ForallAny(func(p PackageDetails) bool {
				return !(vs.Member(p, r) && sp_npmAt(doc.Dependencies, key, p))
			})
		}))
	}
}

// ---- go.mod

func sp_wild(mod module.Version, r *modfile.Replace) bool {
	return r.Old.Path == mod.Path && r.Old.Version == ""
}

func ct__findGoReplacement(mod module.Version, rs []*modfile.Replace) {
	vs.Prop("C09,C10")
	vs.Option("pure")
	vs.Requires(vs.Forall(0, len(rs), func(k int) bool { return rs[k] != nil }))
	vs.Inv(func(i int, acc module.Version) bool { return vs.Forall(0, i, func(k int) bool { return rs[k].Old != mod }) })
	vs.Inv(func(i int, acc module.Version) bool {
		return vs.Forall(0, i, func(k int) bool {
			return !(sp_wild(mod, rs[k]) && vs.Forall(k+1, i, func(j int) bool { return !sp_wild(mod, rs[j]) })) || acc == rs[k].New
		})
	})
	vs.Inv(func(i int, acc module.Version) bool {
		return acc == mod || vs.Exists(0, i, func(k int) bool { return sp_wild(mod, rs[k]) })
	})
	r := findGoReplacement(mod, rs)
	n := len(rs)
	exact := vs.Exists(0, n, func(k int) bool { return rs[k].Old == mod })
	vs.Ensures("a replacement of exactly that version takes precedence", !exact || vs.Exists(0, n, func(k int) bool {
		return rs[k].Old == mod && r == rs[k].New
	}))
	vs.Ensures("otherwise the last replacement of every version applies", exact || vs.Forall(0, n, func(k int) bool {
		return !(sp_wild(mod, rs[k]) && vs.Forall(k+1, n, func(j int) bool { return !sp_wild(mod, rs[j]) })) || r == rs[k].New
	}))
	vs.Ensures("otherwise the module itself", exact || r == mod || vs.Exists(0, n, func(k int) bool { return sp_wild(mod, rs[k]) }))
}

func ct__deduplicatePackages(ps map[string]PackageDetails) {
	vs.Prop("C10")
	ks := vs.Keys(ps)
	vs.Inv(func(acc map[string]PackageDetails) bool { return acc != nil })
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.Forall(0, i, func(k int) bool { return vs.Has(acc, ps[ks[k]].Name+"@"+ps[ks[k]].Version) })
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(key string) bool {
			return !vs.Has(acc, key) || key == acc[key].Name+"@"+acc[key].Version && vs.Exists(0, i, func(k int) bool { return acc[key] == ps[ks[k]] })
		})
	})
	r := deduplicatePackages(ps)
	vs.Ensures("usable", r != nil)
	vs.Ensures("every package is there", vs.ForallKeys(ps, func(k string) bool { return vs.Has(r, ps[k].Name+"@"+ps[k].Version) }))
	vs.Ensures("under its name and version, and nothing else", vs.ForallStr(func(key string) bool {
		return !vs.Has(r, key) || key == r[key].Name+"@"+r[key].Version && vs.ExistsKey(ps, func(k string) bool { return r[key] == ps[k] })
	}))
}

func sp_go(m module.Version, rs []*modfile.Replace) PackageDetails {
	w := findGoReplacement(m, rs)

	return sp_pkg(w.Path, strings.TrimPrefix(w.Version, "v"), "", "Go")
}

func ct__ParseGoLock(path string) {
	vs.Prop("C09,C10")
	doc, derr := modfile.Parse(path, []byte(vs.FileText(path)), nil)
	vs.Assume("modfile.Parse gives a file or an error, with no nil entries", derr != nil || doc != nil &&
		vs.Forall(0, len(doc.Replace), func(k int) bool { return doc.Replace[k] != nil }) &&
		vs.Forall(0, len(doc.Require), func(k int) bool { return doc.Require[k] != nil }))
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.Forall(0, i, func(k int) bool {
			m := doc.Require[k].Mod
			return vs.Has(acc, m.Path+"@"+m.Version)
		})
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(key string) bool {
			return !vs.Has(acc, key) || vs.Exists(0, i, func(k int) bool {
				m := doc.Require[k].Mod
				return key == m.Path+"@"+m.Version && acc[key] == sp_go(m, doc.Replace)
			})
		})
	})
	r, err := ParseGoLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		vs.Ensures("only required modules, as replaced", vs.Forall(0, len(r), func(i int) bool {
			return vs.Exists(0, len(doc.Require), func(k int) bool { return r[i] == sp_go(doc.Require[k].Mod, doc.Replace) })
		}))
		vs.Ensures("every required module, once per path and version", vs.Forall(0, len(doc.Require), func(k int) bool {
			return vs.Exists(0, len(doc.Require), func(j int) bool {
				m, w := doc.Require[j].Mod, sp_go(doc.Require[j].Mod, doc.Replace)
				return m.Path+"@"+m.Version == doc.Require[k].Mod.Path+"@"+doc.Require[k].Mod.Version &&
					!vs.ForallAny(func(p PackageDetails) bool { return !(vs.Member(p, r) && p.Name+"@"+p.Version == w.Name+"@"+w.Version) })
			})
		}))
	}
}

// ---- pom.xml

const sp_reRequirement = `[[(]?(.*?)(?:,|[)\]]|$)`
const sp_reProperty = `\${([^}]+)}`

// sp_interpolate: replace properties until none is left, at most n times.
func sp_interpolate(v string, props map[string]string, n int) string {
	if n <= 0 {
		return "0"
	}
	if !sp_matches(sp_reProperty, v) {
		return v
	}
	whole := cachedregexp.MustCompile(sp_reProperty).FindStringSubmatch(v)[0]
	name := sp_group(sp_reProperty, v)
	if !vs.Has(props, name) {
		return "0"
	}

	return sp_interpolate(strings.ReplaceAll(v, whole, props[name]), props, n-1)
}

func ct_MavenLockDependency_resolveVersionValue(mld MavenLockDependency, file MavenLockFile) {
	vs.Prop("C09,C10")
	vs.Option("pure")
	vs.ModifiesOut()
	n := len(file.Properties.m) + 1
	vs.Inv(func(i int, version string) bool {
		return sp_interpolate(version, file.Properties.m, n-i) == sp_interpolate(mld.Version, file.Properties.m, n)
	})
	r := mld.resolveVersionValue(file)
	vs.Ensures("every property replaced, 0 when that is impossible", r == sp_interpolate(mld.Version, file.Properties.m, n))
}

func ct_MavenLockDependency_parseResolvedVersion(mld MavenLockDependency, version string) {
	vs.Prop("C09,C10")
	vs.Option("pure")
	r := mld.parseResolvedVersion(version)
	if sp_matches(sp_reRequirement, version) && sp_group(sp_reRequirement, version) != "" {
		vs.Ensures("the lower bound", r == sp_group(sp_reRequirement, version))
	} else {
		vs.Ensures("0 when there is none", r == "0")
	}
}

func ct_MavenLockDependency_ResolveVersion(mld MavenLockDependency, file MavenLockFile) {
	vs.Prop("C09,C10")
	vs.Option("pure")
	vs.ModifiesOut()
	r := mld.ResolveVersion(file)
	vs.Ensures("the lower bound of the interpolated version", r == mld.parseResolvedVersion(mld.resolveVersionValue(file)))
}

func sp_mavenName(d MavenLockDependency) string { return d.GroupID + ":" + d.ArtifactID }

func sp_maven(d MavenLockDependency, file MavenLockFile) PackageDetails {
	return sp_pkg(sp_mavenName(d), d.ResolveVersion(file), "", "Maven")
}

// sp_managed: the dependencies after the first n managed ones.
func sp_managed(file MavenLockFile, n int) map[string]PackageDetails {
	if n <= 0 || n > len(file.ManagedDependencies) {
		return map[string]PackageDetails{}
	}
	d := file.ManagedDependencies[n-1]

	return vs.Put(sp_managed(file, n-1), sp_mavenName(d), sp_maven(d, file))
}

// sp_deps: a dependency overrides what is managed, unless it leaves the version to it.
func sp_deps(file MavenLockFile, n int) map[string]PackageDetails {
	if n <= 0 || n > len(file.Dependencies) {
		return sp_managed(file, len(file.ManagedDependencies))
	}
	d := file.Dependencies[n-1]
	before := sp_deps(file, n-1)
	if vs.Has(before, sp_mavenName(d)) && d.Version == "" {
		return before
	}

	return vs.Put(before, sp_mavenName(d), sp_maven(d, file))
}

func ct__ParseMavenLock(path string) {
	vs.Prop("C09,C10")
	vs.ModifiesOut()
	var doc *MavenLockFile
	derr := xml.Unmarshal([]byte(vs.FileText(path)), &doc)
	vs.Assume("an XML document has a root element, so it decodes to a file or an error", doc != nil || derr != nil)
	vs.Inv(func(i int, acc map[string]PackageDetails) bool { return vs.Eq(acc, sp_managed(*doc, i)) })
	vs.Inv(func(i int, acc map[string]PackageDetails) bool { return vs.Eq(acc, sp_deps(*doc, i)) })
	r, err := ParseMavenLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		all := sp_deps(*doc, len(doc.Dependencies))
		vs.Ensures("exactly the dependencies", vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, r) == vs.ExistsKey(all, func(k string) bool { return all[k] == p })
		}))
	}
}
