package lockfile

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/vs"
	"gopkg.in/yaml.v3"
)

// ---- pnpm-lock.yaml

const sp_reNameAt = `^(.+)@([\w.+-]+)(?:\(|$)`

func ct__parseNameAtVersion(value string) {
	vs.Prop("C09,C10")
	vs.Option("pure")
	n, v := parseNameAtVersion(value)
	if sp_matches(sp_reNameAt, value) {
		vs.Ensures("the name is what comes before the @", n == sp_group(sp_reNameAt, value))
		vs.Ensures("the version is what comes after it", v == sp_group2(sp_reNameAt, value))
	} else {
		vs.Ensures("no version without the pattern", v == "")
	}
}

func ct__startsWithNumber(s string) {
	vs.Prop("C10")
	r := startsWithNumber(s)
	vs.Ensures("a digit comes first", r == sp_matches(`^\d`, s))
}

// sp_pnpmName, sp_pnpmVersion: what the slash-separated form says, before the version is looked at.
func sp_pnpmName(parts []string) string {
	if strings.HasPrefix(parts[1], "@") && len(parts) > 2 {
		return parts[1] + "/" + parts[2]
	}

	return parts[1]
}

func sp_pnpmVersion(parts []string) string {
	at := 2
	if strings.HasPrefix(parts[1], "@") && len(parts) > 2 {
		at = 3
	}
	if at < len(parts) {
		return parts[at]
	}

	return ""
}

func ct__extractPnpmPackageNameAndVersion(path string, lockfileVersion float64) {
	vs.Prop("C09,C10")
	vs.Option("pure")
	n, v, err := extractPnpmPackageNameAndVersion(path, lockfileVersion)
	if strings.HasPrefix(path, "file:") {
		vs.Ensures("a file path names nothing", n == "" && v == "" && err == nil)
		return
	}
	if lockfileVersion == 9.0 {
		p := strings.Trim(path, "'")
		scope := ""
		if strings.HasPrefix(p, "@") {
			scope = "@"
		}
		name, version, _ := strings.Cut(strings.TrimPrefix(p, "@"), "@")
		vs.Ensures("version 9: name@version, where the name may be scoped", n == scope+name && v == version && err == nil)
		return
	}
	before, _, _ := strings.Cut(path, "(")
	parts := strings.Split(before, "/")
	if len(parts) == 1 {
		vs.Ensures("a path without a slash is an error", err != nil)
		return
	}
	vs.Ensures("a path with a slash is not", err == nil)
	wn, wv := sp_pnpmName(parts), sp_pnpmVersion(parts)
	if wv == "" {
		wn, wv = parseNameAtVersion(wn)
	}
	if wv == "" || !sp_matches(`^\d`, wv) {
		vs.Ensures("no version, no package", n == "" && v == "")
	} else {
		wv, _, _ = strings.Cut(wv, "_")
		vs.Ensures("the name in the path", n == wn)
		vs.Ensures("the version in the path, without peers", v == wv)
	}
}

func sp_pnpmErr(path string, version float64) bool {
	_, _, err := extractPnpmPackageNameAndVersion(path, version)

	return err != nil
}

// sp_pnpm: the recorded name and version win over those in the path.
func sp_pnpm(path string, p PnpmLockPackage, version float64) PackageDetails {
	n, v, _ := extractPnpmPackageNameAndVersion(path, version)
	if p.Name != "" {
		n = p.Name
	}
	if p.Version != "" {
		v = p.Version
	}
	c := p.Resolution.Commit
	if strings.HasPrefix(p.Resolution.Tarball, "https://codeload.github.com") && sp_matches(sp_reCodeload, p.Resolution.Tarball) {
		c = sp_group(sp_reCodeload, p.Resolution.Tarball)
	}

	return sp_pkg(n, v, c, "npm")
}

func sp_pnpmKeeps(path string, p PnpmLockPackage, version float64) bool {
	w := sp_pnpm(path, p, version)

	return w.Name != "" && w.Version != ""
}

func ct__parsePnpmLock(file PnpmLockfile) {
	vs.Prop("C09,C10")
	ks := vs.Keys(file.Packages)
	vs.Inv(func(i int, acc []PackageDetails) bool {
		return vs.Forall(0, i, func(k int) bool { return !sp_pnpmErr(ks[k], file.Version) })
	})
	vs.Inv(func(i int, acc []PackageDetails) bool {
		return vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, acc) == vs.Exists(0, i, func(k int) bool {
				d := file.Packages[ks[k]]
				return sp_pnpmKeeps(ks[k], d, file.Version) && p == sp_pnpm(ks[k], d, file.Version)
			})
		})
	})
	r, err := parsePnpmLock(file)
	vs.Ensures("an error exactly when some path is invalid", (err != nil) == vs.ExistsKey(file.Packages, func(k string) bool { return sp_pnpmErr(k, file.Version) }))
	if err == nil {
		vs.Ensures("exactly the entries with a name and a version", vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, r) == vs.ExistsKey(file.Packages, func(k string) bool {
				d := file.Packages[k]
				return sp_pnpmKeeps(k, d, file.Version) && p == sp_pnpm(k, d, file.Version)
			})
		}))
	}
}

func ct__ParsePnpmLock(path string) {
	vs.Prop("C09,C10")
	var doc *PnpmLockfile
	derr := yaml.Unmarshal([]byte(vs.FileText(path)), &doc)
	r, err := ParsePnpmLock(path)
	if vs.FileErr(path) != nil || derr != nil {
		vs.Ensures("an error when the file cannot be read or decoded", err != nil)
		return
	}
	if doc == nil {
		vs.Ensures("an empty document lists nothing", err == nil && len(r) == 0)
		return
	}
	vs.Ensures("otherwise an error exactly when some path is invalid", (err != nil) == vs.ExistsKey(doc.Packages, func(k string) bool { return sp_pnpmErr(k, doc.Version) }))
	if err == nil {
		vs.Ensures("exactly the entries with a name and a version", vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, r) == vs.ExistsKey(doc.Packages, func(k string) bool {
				d := doc.Packages[k]
				return sp_pnpmKeeps(k, d, doc.Version) && p == sp_pnpm(k, d, doc.Version)
			})
		}))
	}
}
