package lockfile

import (
	"encoding/json"
	"strings"

	"github.com/BurntSushi/toml"
	"github.com/g-rath/osv-detector/internal/vs"
)

func sp_pkg(name, version, commit string, e Ecosystem) PackageDetails {
	return PackageDetails{Name: name, Version: version, Commit: commit, Ecosystem: e, CompareAs: e}
}

// ---- TOML

func sp_cargo(p CargoLockPackage) PackageDetails { return sp_pkg(p.Name, p.Version, "", "crates.io") }

func ct__ParseCargoLock(path string) {
	vs.Prop("C09,C10")
	var doc *CargoLockFile
	derr := toml.Unmarshal([]byte(vs.FileText(path)), &doc)
	vs.Assume("a TOML document is a table, never null", doc != nil || derr != nil)
	vs.Inv(func(i int, acc []PackageDetails) bool {
		return len(acc) == i && vs.Forall(0, i, func(k int) bool { return acc[k] == sp_cargo(doc.Packages[k]) })
	})
	r, err := ParseCargoLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		vs.Ensures("one package per entry", len(r) == len(doc.Packages))
		vs.Ensures("every entry as it is", vs.Forall(0, len(r), func(k int) bool { return r[k] == sp_cargo(doc.Packages[k]) }))
	}
}

func sp_poetry(p PoetryLockPackage) PackageDetails { return sp_pkg(p.Name, p.Version, p.Source.Commit, "PyPI") }

func ct__ParsePoetryLock(path string) {
	vs.Prop("C09,C10")
	var doc *PoetryLockFile
	derr := toml.Unmarshal([]byte(vs.FileText(path)), &doc)
	vs.Assume("a TOML document is a table, never null", doc != nil || derr != nil)
	vs.Inv(func(i int, acc []PackageDetails) bool {
		return len(acc) == i && vs.Forall(0, i, func(k int) bool { return acc[k] == sp_poetry(doc.Packages[k]) })
	})
	r, err := ParsePoetryLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		vs.Ensures("one package per entry", len(r) == len(doc.Packages))
		vs.Ensures("every entry as it is", vs.Forall(0, len(r), func(k int) bool { return r[k] == sp_poetry(doc.Packages[k]) }))
	}
}

func sp_uvs(ps []UvLockPackage, n int) []PackageDetails {
	if n <= 0 || n > len(ps) {
		return []PackageDetails{}
	}
	p := ps[n-1]
	if p.Source.Virtual == "." {
		return sp_uvs(ps, n-1)
	}
	_, commit, _ := strings.Cut(p.Source.Git, "#")

	return vs.Append(sp_uvs(ps, n-1), sp_pkg(p.Name, p.Version, commit, "PyPI"))
}

func ct__ParseUvLock(path string) {
	vs.Prop("C09,C10")
	var doc *UvLockFile
	derr := toml.Unmarshal([]byte(vs.FileText(path)), &doc)
	vs.Assume("a TOML document is a table, never null", doc != nil || derr != nil)
	vs.Inv(func(i int, acc []PackageDetails) bool { return vs.Eq(acc, sp_uvs(doc.Packages, i)) })
	r, err := ParseUvLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		vs.Ensures("every entry but the root", vs.Eq(r, sp_uvs(doc.Packages, len(doc.Packages))))
	}
}

// ---- JSON

func sp_composer(p ComposerPackage) PackageDetails {
	if strings.Contains(p.Dist.Reference, ".") {
		return sp_pkg(p.Name, p.Version, "", "Packagist")
	}

	return sp_pkg(p.Name, p.Version, p.Dist.Reference, "Packagist")
}

func ct__ParseComposerLock(path string) {
	vs.Prop("C09,C10")
	var doc ComposerLock
	derr := json.Unmarshal([]byte(vs.FileText(path)), &doc)
	vs.Inv(func(i int, acc []PackageDetails) bool {
		return len(acc) == i && vs.Forall(0, i, func(k int) bool { return acc[k] == sp_composer(doc.Packages[k]) })
	})
	vs.Inv(func(i int, acc []PackageDetails) bool {
		n := len(doc.Packages)
		return len(acc) == n+i && vs.Forall(0, n, func(k int) bool { return acc[k] == sp_composer(doc.Packages[k]) }) &&
			vs.Forall(0, i, func(k int) bool { return acc[n+k] == sp_composer(doc.PackagesDev[k]) })
	})
	r, err := ParseComposerLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		n := len(doc.Packages)
		vs.Ensures("one package per entry", len(r) == n+len(doc.PackagesDev))
		vs.Ensures("every entry as it is", vs.Forall(0, n, func(k int) bool { return r[k] == sp_composer(doc.Packages[k]) }))
		vs.Ensures("every development entry as it is", vs.Forall(0, len(doc.PackagesDev), func(k int) bool { return r[n+k] == sp_composer(doc.PackagesDev[k]) }))
	}
}

func sp_renvKeeps(p RenvPackage) bool { return p.Repository == "" || p.Repository == "CRAN" }

func ct__ParseRenvLock(path string) {
	vs.Prop("C09,C10")
	var doc RenvLockfile
	derr := json.Unmarshal([]byte(vs.FileText(path)), &doc)
	ks := vs.Keys(doc.Packages)
	vs.Inv(func(i int, acc []PackageDetails) bool {
		return vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, acc) == vs.Exists(0, i, func(k int) bool {
				d := doc.Packages[ks[k]]
				return sp_renvKeeps(d) && p == sp_pkg(d.Package, d.Version, "", "CRAN")
			})
		})
	})
	r, err := ParseRenvLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		vs.Ensures("exactly the entries from CRAN", vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, r) == vs.ExistsKey(doc.Packages, func(k string) bool {
				d := doc.Packages[k]
				return sp_renvKeeps(d) && p == sp_pkg(d.Package, d.Version, "", "CRAN")
			})
		}))
	}
}

func sp_pdm(p PdmLockPackage) PackageDetails { return sp_pkg(p.Name, p.Version, p.Revision, "PyPI") }

func ct__ParsePdmLock(path string) {
	vs.Prop("C09,C10")
	var doc *PdmLockFile
	derr := toml.Unmarshal([]byte(vs.FileText(path)), &doc)
	vs.Assume("a TOML document is a table, never null", doc != nil || derr != nil)
	vs.Inv(func(i int, acc []PackageDetails) bool {
		return len(acc) == i && vs.Forall(0, i, func(k int) bool { return acc[k] == sp_pdm(doc.Packages[k]) })
	})
	r, err := ParsePdmLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		vs.Ensures("one package per entry", len(r) == len(doc.Packages))
		vs.Ensures("every entry as it is", vs.Forall(0, len(r), func(k int) bool { return r[k] == sp_pdm(doc.Packages[k]) }))
	}
}

func sp_pylocks(ps []PylockPackage, n int) []PackageDetails {
	if n <= 0 || n > len(ps) {
		return []PackageDetails{}
	}
	p := ps[n-1]
	if p.Version == "" && p.Directory.Path == "." {
		return sp_pylocks(ps, n-1)
	}

	return vs.Append(sp_pylocks(ps, n-1), sp_pkg(p.Name, p.Version, p.VCS.Commit, "PyPI"))
}

func ct__ParsePylock(path string) {
	vs.Prop("C09,C10")
	var doc *PylockLockfile
	derr := toml.Unmarshal([]byte(vs.FileText(path)), &doc)
	vs.Assume("a TOML document is a table, never null", doc != nil || derr != nil)
	vs.Inv(func(i int, acc []PackageDetails) bool { return vs.Eq(acc, sp_pylocks(doc.Packages, i)) })
	r, err := ParsePylock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		vs.Ensures("every entry but the root", vs.Eq(r, sp_pylocks(doc.Packages, len(doc.Packages))))
	}
}

// ---- maps to lists

func ct__pkgDetailsMapToSlice(m map[string]PackageDetails) {
	vs.Prop("C10")
	ks := vs.Keys(m)
	vs.Inv(func(i int, acc []PackageDetails) bool {
		return len(acc) == i && vs.Forall(0, i, func(k int) bool { return acc[k] == m[ks[k]] })
	})
	r := pkgDetailsMapToSlice(m)
	vs.Ensures("as many as there are", len(r) == len(m))
	vs.Ensures("each value is listed", vs.ForallStr(func(k string) bool { return !vs.Has(m, k) || vs.Member(m[k], r) }))
	vs.Ensures("exactly the values", vs.ForallAny(func(p PackageDetails) bool {
		return vs.Member(p, r) == vs.ExistsKey(m, func(k string) bool { return m[k] == p })
	}))
}

func ct__mergePkgDetailsMap(m1 map[string]PackageDetails, m2 map[string]PackageDetails) {
	vs.Prop("C10")
	r := mergePkgDetailsMap(m1, m2)
	vs.Ensures("usable", r != nil)
	vs.Ensures("the keys of both", vs.ForallStr(func(k string) bool { return vs.Has(r, k) == (vs.Has(m1, k) || vs.Has(m2, k)) }))
	vs.Ensures("the second one wins", vs.ForallStr(func(k string) bool {
		return (!vs.Has(m2, k) || r[k] == m2[k]) && (vs.Has(m2, k) || !vs.Has(m1, k) || r[k] == m1[k])
	}))
}

// ---- NuGet

func sp_nuget(name string, d NuGetLockPackage) PackageDetails { return sp_pkg(name, d.Resolved, "", "NuGet") }

func ct__parseNuGetLockDependencies(ds map[string]NuGetLockPackage) {
	vs.Prop("C09,C10")
	ks := vs.Keys(ds)
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return acc != nil && vs.Forall(0, i, func(k int) bool {
			return acc[ks[k]+"@"+ds[ks[k]].Resolved].Name + "@" + acc[ks[k]+"@"+ds[ks[k]].Resolved].Version == ks[k]+"@"+ds[ks[k]].Resolved && vs.Has(acc, ks[k]+"@"+ds[ks[k]].Resolved)
		})
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(key string) bool {
			return !vs.Has(acc, key) || vs.Exists(0, i, func(k int) bool { return acc[key] == sp_nuget(ks[k], ds[ks[k]]) && key == ks[k]+"@"+ds[ks[k]].Resolved })
		})
	})
	r := parseNuGetLockDependencies(ds)
	vs.Ensures("usable", r != nil)
	vs.Ensures("every entry is there", vs.ForallKeys(ds, func(k string) bool { return vs.Has(r, k+"@"+ds[k].Resolved) }))
	vs.Ensures("nothing else is there", vs.ForallStr(func(key string) bool {
		return !vs.Has(r, key) || vs.ExistsKey(ds, func(k string) bool { return r[key] == sp_nuget(k, ds[k]) && key == k+"@"+ds[k].Resolved })
	}))
}

// sp_listsAt: every package filed under a key has the name and version in the key.
func sp_keyOf(p PackageDetails) string { return p.Name + "@" + p.Version }

func ct__parseNuGetLock(l NuGetLockfile) {
	vs.Prop("C09,C10")
	fs := vs.Keys(l.Dependencies)
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return acc != nil && vs.Forall(0, i, func(f int) bool {
			return vs.ForallKeys(l.Dependencies[fs[f]], func(k string) bool { return vs.Has(acc, k+"@"+l.Dependencies[fs[f]][k].Resolved) })
		})
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(key string) bool {
			return !vs.Has(acc, key) || sp_keyOf(acc[key]) == key && vs.Exists(0, i, func(f int) bool {
				return vs.ExistsKey(l.Dependencies[fs[f]], func(k string) bool { return acc[key] == sp_nuget(k, l.Dependencies[fs[f]][k]) })
			})
		})
	})
	r, err := parseNuGetLock(l)
	vs.Ensures("never fails", err == nil)
	vs.Ensures("every entry is listed", vs.ForallKeys(l.Dependencies, func(f string) bool {
		return vs.ForallKeys(l.Dependencies[f], func(k string) bool {
			return vs.Exists(0, len(r), func(i int) bool { return sp_keyOf(r[i]) == k+"@"+l.Dependencies[f][k].Resolved })
		})
	}))
	vs.Ensures("nothing else is listed", vs.Forall(0, len(r), func(i int) bool {
		return vs.ExistsKey(l.Dependencies, func(f string) bool {
			return vs.ExistsKey(l.Dependencies[f], func(k string) bool { return r[i] == sp_nuget(k, l.Dependencies[f][k]) })
		})
	}))
}

func ct__ParseNuGetLock(path string) {
	vs.Prop("C09,C10")
	var doc NuGetLockfile
	derr := json.Unmarshal([]byte(vs.FileText(path)), &doc)
	r, err := ParseNuGetLock(path)
	vs.Ensures("an error exactly when the file cannot be read, decoded or is of another version",
		(err != nil) == (vs.FileErr(path) != nil || derr != nil || doc.Version != 1))
	if err == nil {
		vs.Ensures("every entry is listed", vs.ForallKeys(doc.Dependencies, func(f string) bool {
			return vs.ForallKeys(doc.Dependencies[f], func(k string) bool {
				return vs.Exists(0, len(r), func(i int) bool { return sp_keyOf(r[i]) == k+"@"+doc.Dependencies[f][k].Resolved })
			})
		}))
		vs.Ensures("nothing else is listed", vs.Forall(0, len(r), func(i int) bool {
			return vs.ExistsKey(doc.Dependencies, func(f string) bool {
				return vs.ExistsKey(doc.Dependencies[f], func(k string) bool { return r[i] == sp_nuget(k, doc.Dependencies[f][k]) })
			})
		}))
	}
}

// ---- Pipfile.lock

func sp_pipenv(name string, d PipenvPackage) PackageDetails { return sp_pkg(name, d.Version[2:], "", "PyPI") }

func sp_pipenvs(ms map[string]PipenvPackage, p PackageDetails) bool {
	return vs.ExistsKey(ms, func(k string) bool { return len(ms[k].Version) >= 2 && p == sp_pipenv(k, ms[k]) })
}

func ct__ParsePipenvLock(path string) {
	vs.Prop("C09,C10")
	var doc PipenvLock
	derr := json.Unmarshal([]byte(vs.FileText(path)), &doc)
	ks, kd := vs.Keys(doc.Packages), vs.Keys(doc.PackagesDev)
	vs.Inv(func(acc map[string]PackageDetails) bool {
		return acc != nil && vs.ForallStr(func(key string) bool { return !vs.Has(acc, key) || sp_keyOf(acc[key]) == key })
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(key string) bool {
			return !vs.Has(acc, key) || vs.Exists(0, i, func(k int) bool {
				return len(doc.Packages[ks[k]].Version) >= 2 && acc[key] == sp_pipenv(ks[k], doc.Packages[ks[k]])
			})
		})
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.Forall(0, i, func(k int) bool {
			return len(doc.Packages[ks[k]].Version) < 2 || vs.Has(acc, sp_keyOf(sp_pipenv(ks[k], doc.Packages[ks[k]])))
		})
	})
	vs.Inv(func(acc map[string]PackageDetails) bool {
		return vs.Forall(0, len(ks), func(k int) bool {
			return len(doc.Packages[ks[k]].Version) < 2 || vs.Has(acc, sp_keyOf(sp_pipenv(ks[k], doc.Packages[ks[k]])))
		})
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(key string) bool {
			return !vs.Has(acc, key) || sp_pipenvs(doc.Packages, acc[key]) || vs.Exists(0, i, func(k int) bool {
				return len(doc.PackagesDev[kd[k]].Version) >= 2 && acc[key] == sp_pipenv(kd[k], doc.PackagesDev[kd[k]])
			})
		})
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.Forall(0, i, func(k int) bool {
			return len(doc.PackagesDev[kd[k]].Version) < 2 || vs.Has(acc, sp_keyOf(sp_pipenv(kd[k], doc.PackagesDev[kd[k]])))
		})
	})
	r, err := ParsePipenvLock(path)
	vs.Ensures("an error exactly when the file cannot be read or decoded", (err != nil) == (vs.FileErr(path) != nil || derr != nil))
	if err == nil {
		vs.Ensures("every entry is listed", vs.ForallKeys(doc.Packages, func(k string) bool {
			return len(doc.Packages[k].Version) < 2 || vs.Exists(0, len(r), func(i int) bool { return sp_keyOf(r[i]) == sp_keyOf(sp_pipenv(k, doc.Packages[k])) })
		}))
		vs.Ensures("every development entry is listed", vs.ForallKeys(doc.PackagesDev, func(k string) bool {
			return len(doc.PackagesDev[k].Version) < 2 || vs.Exists(0, len(r), func(i int) bool { return sp_keyOf(r[i]) == sp_keyOf(sp_pipenv(k, doc.PackagesDev[k])) })
		}))
		vs.Ensures("nothing else is listed", vs.Forall(0, len(r), func(i int) bool { return sp_pipenvs(doc.Packages, r[i]) || sp_pipenvs(doc.PackagesDev, r[i]) }))
	}
}
