// Package vflock writes lockfiles of every supported format together with the
// packages they list, from the formats' own rules and not from the parsers.
package vflock

import (
	"encoding/json"
	"fmt"
	"regexp"
	"slices"
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vfh"
)

type P = internal.PackageDetails

// File is a lockfile with the files beside it and what it lists.
type File struct {
	Format string
	Name   string            // the file to parse
	Files  map[string]string // relative paths
	Want   []P
	Dup    bool // the same package may be listed more than once
}

var Structured = []string{"bun.lock", "Cargo.lock", "composer.lock", "go.mod", "package-lock.json", "packages.lock.json", "pdm.lock", "Pipfile.lock", "poetry.lock",
	"pnpm-lock.yaml", "pubspec.lock", "pylock.toml", "renv.lock", "uv.lock", "pom.xml"}

var Lines = []string{"Gemfile.lock", "gradle.lockfile", "buildscript-gradle.lockfile", "mix.lock", "yarn.lock", "requirements.txt"}

// Draw writes a lockfile of the format.
func Draw(h *vfh.H, format string) *File {
	f := &File{Format: format, Name: format, Files: map[string]string{}}
	g := &gen{H: h, f: f, n: h.Size(9)}
	if h.P(2) {
		g.n = 20 + h.Intn(60)
	}
	var text string
	switch format {
	case "bun.lock":
		text = g.bun()
	case "Cargo.lock":
		text = g.cargo()
	case "composer.lock":
		text = g.composer()
	case "go.mod":
		text = g.gomod()
	case "package-lock.json":
		text = g.npm()
	case "packages.lock.json":
		text = g.nuget()
	case "pdm.lock":
		text = g.pdm()
	case "Pipfile.lock":
		text = g.pipenv()
	case "poetry.lock":
		text = g.poetry()
	case "pnpm-lock.yaml":
		text = g.pnpm()
	case "pubspec.lock":
		text = g.pubspec()
	case "pylock.toml":
		text = g.pylock()
	case "renv.lock":
		text = g.renv()
	case "uv.lock":
		text = g.uv()
	case "pom.xml":
		text = g.maven()
	case "Gemfile.lock":
		text = g.gemfile()
	case "gradle.lockfile", "buildscript-gradle.lockfile":
		text = g.gradle()
	case "mix.lock":
		text = g.mix()
	case "yarn.lock":
		text = g.yarn()
	case "requirements.txt":
		text = g.requirements()
	}
	f.Files[f.Name] = text

	return f
}

// Compare returns what is wrong with the packages a parser found.
func (f *File) Compare(got []P) string {
	key := func(p P) string {
		return fmt.Sprintf("%s %q @ %q commit %q compared as %s", p.Ecosystem, p.Name, p.Version, p.Commit, p.CompareAs)
	}
	have, want := map[string]bool{}, map[string]bool{}
	for _, p := range got {
		have[key(p)] = true
	}
	for _, p := range f.Want {
		want[key(p)] = true
	}
	for _, p := range f.Want {
		if !have[key(p)] {
			return "a package is missing: " + key(p)
		}
	}
	for _, p := range got {
		if !want[key(p)] {
			return "a package is reported that the file does not list: " + key(p)
		}
	}
	if len(got) > len(f.Want) {
		return fmt.Sprintf("%d packages reported for %d entries", len(got), len(f.Want))
	}

	return ""
}

type gen struct {
	*vfh.H
	f *File
	n int

	lastName, lastVersion, nextVersion string
}

func (g *gen) want(eco, name, version, commit string) {
	g.f.Want = append(g.f.Want, P{Name: name, Version: version, Commit: commit, Ecosystem: internal.Ecosystem(eco), CompareAs: internal.Ecosystem(eco)})
}

func (g *gen) ok(re, s, other string) string {
	if regexp.MustCompile(`^(?:`+re+`)$`).MatchString(s) && len(s) < 80 {
		return s
	}

	return other
}

// a name of the given characters, now and then one the code mentions
func (g *gen) name(re string, xs ...string) (s string) {
	defer func() { g.lastName = s }()
	g.nextVersion = ""
	if len(g.lastVersion) > 1 && g.lastVersion[1] >= '0' && g.lastVersion[1] <= '9' && g.P(30) {
		// name and version of the last one, put together otherwise
		if s = g.lastName + g.lastVersion[:1]; g.ok(re, s, "") == s {
			g.nextVersion = g.lastVersion[1:]

			return s
		}
	}
	s = g.Str(xs...)
	s = g.ok(re, s, xs[g.Intn(len(xs))])
	if g.P(40) {
		s = g.ok(re, s+fmt.Sprint(g.Intn(20)), s)
	}

	return s
}

func (g *gen) npmName() string {
	if g.P(30) {
		return "@" + g.name(`[a-z0-9._-]+`, "babel", "types", "a", "my-org", "npm", "s.p") + "/" + g.bare()
	}

	return g.bare()
}

func (g *gen) bare() string {
	return g.name(`[a-z0-9-][a-z0-9._-]*`, "wrappy", "left-pad", "a", "b", "lodash.merge", "file", "npm", "version", "node_modules-x", "string-width-cjs", "is_it", "x2", "github", "workspace", "commit", "resolved", "link")
}

func (g *gen) version() (v string) {
	defer func() { g.lastVersion = v }()
	if v = g.nextVersion; v != "" {
		return v
	}
	v = fmt.Sprintf("%d.%d.%d", g.Intn(4), g.Intn(12), g.Intn(20))
	if g.P(15) {
		v = fmt.Sprint(1+g.Intn(3)) + v
	}
	if g.P(15) {
		v += g.ok(`[0-9A-Za-z.+-]*`, g.Str("-beta.1", "-rc1", "+build.5", "-alpha", "-0", "+sha.1a2b", "-next-2"), "-x")
	}

	return v
}

func (g *gen) sha() string {
	const hex = "0123456789abcdef"
	b := make([]byte, vfh.Pick(g.H, 40, 40, 7, 12))
	for i := range b {
		b[i] = hex[g.Intn(16)]
	}
	b[0] = "abcdef"[g.Intn(6)]

	return string(b)
}

func q(s string) string {
	b, _ := json.Marshal(s)
	s = strings.ReplaceAll(string(b), `\u003c`, "<")
	s = strings.ReplaceAll(s, `\u003e`, ">")

	return strings.ReplaceAll(s, `\u0026`, "&")
}

// a JSON object with the members in any order
func (g *gen) obj(kv ...string) string {
	var ms []string
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i+1] != "" {
			ms = append(ms, q(kv[i])+":"+g.sp()+kv[i+1])
		}
	}
	g.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })

	return "{" + g.sp() + strings.Join(ms, ","+g.sp()) + g.sp() + "}"
}

func (g *gen) objm(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	var kv []string
	for _, k := range ks {
		kv = append(kv, k, m[k])
	}

	return g.obj(kv...)
}

func (g *gen) arr(xs []string) string { return "[" + strings.Join(xs, ","+g.sp()) + "]" }

func (g *gen) sp() string { return vfh.Pick(g.H, "", "", " ", "\n  ", "\r\n\t") }

func (g *gen) maybe(p int, s string) string {
	if g.P(p) {
		return s
	}

	return ""
}

func (g *gen) shuffle(xs []string) []string {
	g.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })

	return xs
}

// ---- JSON

func (g *gen) bun() string {
	pk := map[string]string{}
	for i := 0; i < g.n; i++ {
		name := g.npmName()
		key := name
		if _, ok := pk[key]; ok {
			key = g.bare() + "/" + name + fmt.Sprint(i)
		}
		deps := g.obj("dependencies", g.maybe(50, g.obj(g.bare(), q("^"+g.version()))), "peerDependencies", g.maybe(20, g.obj("@x/y", q("*"))))
		switch g.Intn(10) {
		case 0:
			c := g.sha()
			src := vfh.Pick(g.H, "github:user/repo#", "git+ssh://git@github.com/user/repo.git#", "git+https://gitlab.com/u/r#", "bitbucket:u/r#") + c
			pk[key] = g.arr([]string{q(name + "@" + src), deps, q("user-repo-" + c)})
			g.want("npm", name, "", c)
		case 1:
			pk[key] = g.arr([]string{q(name + "@file:" + vfh.Pick(g.H, "../x", "deps/y"))})
			g.want("npm", name, "", "")
		default:
			v := g.version()
			pk[key] = g.arr([]string{q(name + "@" + v), q(vfh.Pick(g.H, "", "https://r.example/")), deps, q("sha512-abc#d@e==")})
			g.want("npm", name, v, "")
		}
	}
	text := g.obj("lockfileVersion", vfh.Pick(g.H, "0", "1"), "workspaces", g.obj("", g.obj("name", q("root"), "dependencies", g.obj(g.bare(), q("^1")))), "packages", g.objm(pk),
		"overrides", g.maybe(20, g.obj("z", q("1.0.0"))))
	if g.P(50) {
		// JSON with comments and trailing commas
		text = "// a comment\n" + strings.TrimSuffix(text, "}") + ",}/* end */"
		if strings.HasSuffix(strings.TrimSpace(strings.TrimSuffix(text, ",}/* end */")), "{") {
			text = "{}"
		}
	}

	return text
}

func (g *gen) composer() string {
	part := func(n int) string {
		var xs []string
		for i := 0; i < n; i++ {
			name := g.name(`[a-z0-9_./-]+`, "sentry/sdk", "a/b", "psr/log", "vendor/pkg", "x/y-z")
			v := vfh.Pick(g.H, "", "v") + g.version()
			if g.P(10) {
				v = vfh.Pick(g.H, "dev-main", "dev-master", "1.x-dev")
			}
			ref, commit := g.sha(), ""
			commit = ref
			if g.P(20) {
				ref, commit = vfh.Pick(g.H, "v1.2.3", "2.0", "9.x.y"), ""
			}
			dist := g.obj("type", q("zip"), "url", q("https://x"), "reference", q(ref), "shasum", q(""))
			if g.P(12) {
				dist, commit = vfh.Pick(g.H, "", g.obj("type", q("path")), "null"), ""
			}
			xs = append(xs, g.obj("name", q(name), "version", q(v), "dist", dist, "source", g.maybe(60, g.obj("type", q("git"), "reference", q(g.sha()))),
				"require", g.maybe(40, g.obj("php", q(">=7")))))
			g.want("Packagist", name, v, commit)
		}

		return g.arr(xs)
	}
	k := g.Intn(g.n + 1)

	return g.obj("_readme", g.arr([]string{q("x")}), "content-hash", q("abc"), "packages", part(k), "packages-dev", part(g.n-k), "aliases", "[]", "platform", vfh.Pick(g.H, "[]", "{}"))
}

func (g *gen) gitURL() (string, string) {
	c := g.sha()
	switch g.Intn(8) {
	case 0:
		return "git+ssh://git@github.com/u/r.git#" + c, c
	case 1:
		return "git+https://github.com/u/r.git#" + c, c
	case 2:
		return "git://github.com/u/r.git#" + c, c
	case 3:
		return "github:u/r#" + c, c
	case 4:
		return "https://codeload.github.com/u/r/tar.gz/" + c, c
	case 5:
		return "https://example.com/u/r.git#" + c, c
	case 6:
		return "gitlab:u/r#" + c, c
	}

	return "ssh://git@bitbucket.org/u/r.git#" + c, c
}

func (g *gen) npm() string {
	if g.P(45) {
		return g.obj("name", q("root"), "version", q("1.0.0"), "lockfileVersion", "1", "requires", "true", "dependencies", g.npmDeps(g.n, 0))
	}
	pk := map[string]string{}
	if g.P(90) {
		pk[""] = g.obj("name", q("root"), "version", q("9.9.9"), "dependencies", g.obj(g.bare(), q("^1")))
	}
	paths := []string{""}
	for i := 0; i < g.n; i++ {
		name := g.npmName()
		base := paths[g.Intn(len(paths))]
		if g.P(60) {
			base = ""
		}
		path := base + "node_modules/" + name
		if _, ok := pk[path]; ok {
			continue
		}
		paths = append(paths, path+"/")
		v := g.version()
		real := ""
		if g.P(15) {
			real = g.npmName()
		}
		resolved, commit := q("https://registry.npmjs.org/"+name+"/-/x-"+v+".tgz"), ""
		if g.P(12) {
			var u string
			u, commit = g.gitURL()
			resolved = q(u)
		} else if g.P(8) {
			resolved = ""
		}
		rn := ""
		shown := name
		if real != "" {
			rn, shown = q(real), real
		}
		pk[path] = g.obj("name", rn, "version", q(v), "resolved", resolved, "integrity", q("sha512-a"), "dev", g.maybe(30, "true"), "optional", g.maybe(10, "true"),
			"dependencies", g.maybe(30, g.obj(g.bare(), q("^2"))), "bundled", g.maybe(5, "true"), "inBundle", g.maybe(5, "true"))
		g.want("npm", shown, v, commit)
	}
	old := ""
	lv := "3"
	if g.P(50) {
		// version 2 also carries the old list, which must not be used
		lv = "2"
		old = g.obj(g.bare(), g.obj("version", q("0.0.0-old")))
	}

	return g.obj("name", q("root"), "lockfileVersion", lv, "requires", "true", "packages", g.objm(pk), "dependencies", old)
}

func (g *gen) npmDeps(n, depth int) string {
	m := map[string]string{}
	for i := 0; i < n; i++ {
		name := g.npmName()
		if _, ok := m[name]; ok {
			continue
		}
		nested := ""
		if depth < 4 && g.P(25) {
			nested = g.npmDeps(g.Intn(3), depth+1)
		}
		v := g.version()
		shown, fin, commit := name, v, ""
		switch g.Intn(12) {
		case 0:
			v = "file:" + vfh.Pick(g.H, "../x", "deps/y.tgz")
			fin = ""
		case 1:
			shown = g.npmName()
			v = "npm:" + shown + "@" + fin
		case 2:
			v, commit = g.gitURL()
			fin = ""
		}
		m[name] = g.obj("version", q(v), "resolved", g.maybe(60, q("https://registry.npmjs.org/x")), "integrity", g.maybe(60, q("sha512-b")), "dev", g.maybe(25, "true"),
			"requires", g.maybe(40, g.obj(g.bare(), q("^1.0.0"))), "dependencies", nested, "bundled", g.maybe(10, "true"))
		g.want("npm", shown, fin, commit)
	}

	return g.objm(m)
}

func (g *gen) nuget() string {
	fw := map[string]string{}
	for _, f := range []string{"net6.0", "net8.0", ".NETStandard,Version=v2.0", "net6.0/win-x64"} {
		if g.P(40) {
			continue
		}
		m := map[string]string{}
		for i := g.Intn(g.n + 1); i > 0; i-- {
			name := g.name(`[A-Za-z0-9._-]+`, "Newtonsoft.Json", "System.Text.Json", "NUnit", "a", "Test.Core")
			if _, ok := m[name]; ok {
				continue
			}
			v := g.version()
			m[name] = g.obj("type", q(vfh.Pick(g.H, "Direct", "Transitive", "CentralTransitive")), "requested", g.maybe(50, q("["+v+", )")), "resolved", q(v), "contentHash", q("x=="),
				"dependencies", g.maybe(30, g.obj("System.X", q("1.0.0"))))
			g.want("NuGet", name, v, "")
		}
		fw[f] = g.objm(m)
	}

	return g.obj("version", "1", "dependencies", g.objm(fw))
}

func (g *gen) pipenv() string {
	part := func(n int) string {
		m := map[string]string{}
		for i := 0; i < n; i++ {
			name := g.name(`[A-Za-z0-9._-]+`, "markupsafe", "flask", "a", "zope.interface", "Jinja2", "typing_extensions")
			if _, ok := m[name]; ok {
				continue
			}
			if g.P(12) {
				m[name] = g.obj("git", q("https://x"), "ref", q(g.sha()), "editable", "true")

				continue
			}
			v := g.version()
			m[name] = g.obj("version", q("=="+v), "hashes", g.arr([]string{q("sha256:a")}), "index", g.maybe(30, q("pypi")), "markers", g.maybe(30, q("python_version >= '3.6'")), "extras", g.maybe(10, g.arr([]string{q("x")})))
			g.want("PyPI", name, v, "")
		}

		return g.objm(m)
	}
	k := g.Intn(g.n + 1)

	return g.obj("_meta", g.obj("hash", g.obj("sha256", q("x")), "sources", "[]"), "default", part(k), "develop", part(g.n-k))
}

func (g *gen) renv() string {
	m := map[string]string{}
	for i := 0; i < g.n; i++ {
		name := g.name(`[A-Za-z][A-Za-z0-9.]*`, "morning", "R6", "data.table", "mime", "CRAN")
		if _, ok := m[name]; ok {
			continue
		}
		v := vfh.Pick(g.H, g.version(), "0.1-2", "1.2-12")
		repo := vfh.Pick(g.H, "CRAN", "CRAN", "CRAN", "", "BioCsoft", "https://cloud.example", "RSPM", "cran")
		r := q(repo)
		if repo == "" {
			r = g.maybe(50, q(""))
		}
		m[name] = g.obj("Package", q(name), "Version", q(v), "Source", q(vfh.Pick(g.H, "Repository", "GitHub")), "Repository", r, "Hash", q("x"), "Requirements", g.maybe(30, g.arr([]string{q("R")})))
		if repo == "CRAN" || repo == "" {
			g.want("CRAN", name, v, "")
		}
	}

	return g.obj("R", g.obj("Version", q("4.2"), "Repositories", g.arr([]string{g.obj("Name", q("CRAN"), "URL", q("https://x"))})), "Packages", g.objm(m))
}

// ---- TOML

func (g *gen) tomlStr(s string) string {
	if g.P(15) && !strings.ContainsAny(s, "'\\") {
		return "'" + s + "'"
	}

	return q(s)
}

func (g *gen) kvs(lines ...string) string {
	var out []string
	for _, l := range lines {
		if l != "" {
			out = append(out, l)
		}
	}
	g.shuffle(out)
	s := strings.Join(out, "\n") + "\n"
	if g.P(10) {
		s += "# name = \"comment\"\n"
	}

	return s
}

func (g *gen) pyName() string {
	return g.name(`[A-Za-z0-9][A-Za-z0-9._-]*`, "numpy", "typing-extensions", "zope.interface", "a", "emoji", "Flask", "git", "virtual", "root_x")
}

func (g *gen) cargo() string {
	s := vfh.Pick(g.H, "# This file is automatically @generated by Cargo.\n", "") + vfh.Pick(g.H, "version = 3\n", "version = 4\n", "") + "\n"
	for i := 0; i < g.n; i++ {
		name := g.name(`[A-Za-z0-9_-]+`, "addr2line", "syn", "serde", "a", "my-crate", "wasi")
		v := g.version()
		s += "[[package]]\n" + g.kvs("name = "+g.tomlStr(name), "version = "+g.tomlStr(v), g.maybe(70, `source = "registry+https://github.com/rust-lang/crates.io-index"`), g.maybe(60, `checksum = "abc"`),
			g.maybe(40, "dependencies = [\n \"x\",\n \"y 1.0.0 (registry+x)\",\n]")) + "\n"
		g.want("crates.io", name, v, "")
	}
	if g.P(10) {
		s += "[metadata]\n\"checksum x 1.0\" = \"abc\"\n"
	}

	return s
}

func (g *gen) pdm() string {
	s := "[metadata]\ngroups = [\"default\"]\nlock_version = \"4.4\"\ncontent_hash = \"sha256:x\"\n\n"
	for i := 0; i < g.n; i++ {
		name, v := g.pyName(), g.version()
		rev, commit := "", ""
		if g.P(15) {
			commit = g.sha()
			rev = "revision = " + g.tomlStr(commit) + "\ngit = \"https://github.com/x/y.git\"\nref = \"main\""
		}
		s += "[[package]]\n" + g.kvs("name = "+g.tomlStr(name), "version = "+g.tomlStr(v), g.maybe(60, `requires_python = ">=3.7"`), g.maybe(50, `groups = ["default", "dev"]`), g.maybe(50, `summary = "version = 1"`), rev,
			g.maybe(50, "files = [\n    {file = \"a.whl\", hash = \"sha256:b\"},\n]")) + "\n"
		g.want("PyPI", name, v, commit)
	}

	return s
}

func (g *gen) poetry() string {
	s := ""
	for i := 0; i < g.n; i++ {
		name, v := g.pyName(), g.version()
		s += "[[package]]\n" + g.kvs("name = "+g.tomlStr(name), "version = "+g.tomlStr(v), g.maybe(60, `description = "x"`), g.maybe(50, "optional = false"), g.maybe(50, `python-versions = ">=3.6"`), g.maybe(40, `category = "dev"`),
			g.maybe(40, "files = [\n    {file = \"a.whl\", hash = \"sha256:b\"},\n]"))
		commit := ""
		if g.P(30) {
			s += "\n[package.dependencies]\nother = \">=1\"\nversion = \"2\"\n"
		}
		if g.P(20) {
			s += "\n[package.extras]\ntest = [\"pytest\"]\n"
		}
		switch g.Intn(6) {
		case 0:
			commit = g.sha()
			s += "\n[package.source]\n" + g.kvs(`type = "git"`, `url = "https://github.com/x/y.git"`, `reference = "main"`, "resolved_reference = "+g.tomlStr(commit))
		case 1:
			s += "\n[package.source]\ntype = \"legacy\"\nurl = \"https://x\"\nreference = \"pypi\"\n"
		}
		s += "\n"
		g.want("PyPI", name, v, commit)
	}

	return s + "[metadata]\nlock-version = \"2.0\"\npython-versions = \"^3.8\"\ncontent-hash = \"x\"\n"
}

func (g *gen) pylock() string {
	s := "lock-version = \"1.0\"\ncreated-by = \"tool\"\n\n"
	for i := 0; i < g.n; i++ {
		name, v := g.pyName(), g.version()
		if g.P(8) {
			s += "[[packages]]\nname = " + g.tomlStr(name) + "\n\n[packages.directory]\npath = \".\"\n\n"

			continue
		}
		commit := ""
		body := g.kvs("name = "+g.tomlStr(name), "version = "+g.tomlStr(v), g.maybe(40, `requires-python = ">=3.7"`), g.maybe(40, `marker = "x"`), g.maybe(30, "wheels = [ {url = \"https://x\", hashes = {sha256 = \"a\"}} ]"))
		switch g.Intn(7) {
		case 0:
			commit = g.sha()
			body += "\n[packages.vcs]\n" + g.kvs(`type = "git"`, `url = "https://x/y.git"`, "commit-id = "+g.tomlStr(commit), g.maybe(50, `requested-revision = "main"`))
		case 1:
			body += "\n[packages.directory]\npath = " + q(vfh.Pick(g.H, "./sub", "..", ".")) + "\neditable = true\n"
		case 2:
			body += "\n[packages.archive]\nurl = \"https://x\"\n"
		}
		s += "[[packages]]\n" + body + "\n"
		g.want("PyPI", name, v, commit)
	}

	return s
}

func (g *gen) uv() string {
	s := "version = 1\nrequires-python = \">=3.9\"\n\n"
	for i := 0; i < g.n; i++ {
		name, v := g.pyName(), g.version()
		src, commit := `source = { registry = "https://pypi.org/simple" }`, ""
		switch g.Intn(7) {
		case 0:
			commit = g.sha()
			src = `source = { git = "https://github.com/x/y.git` + vfh.Pick(g.H, "", "?rev=main", "?tag=v1.0") + "#" + commit + `" }`
		case 1:
			src = `source = { virtual = "` + vfh.Pick(g.H, "sub/dir", "../x", "./y") + `" }`
		case 2:
			src = `source = { url = "https://x/y.whl" }`
		}
		root := g.P(8)
		if root {
			src = `source = { virtual = "." }`
		}
		s += "[[package]]\n" + g.kvs("name = "+g.tomlStr(name), "version = "+g.tomlStr(v), src, g.maybe(40, "dependencies = [\n    { name = \"x\" },\n    { name = \"y\", marker = \"z\" },\n]"), g.maybe(40, `sdist = { url = "https://x", hash = "sha256:a" }`)) + "\n"
		if g.P(15) {
			s += "[package.optional-dependencies]\ndev = [\n    { name = \"pytest\" },\n]\n\n"
		}
		if g.P(10) {
			s += "[package.metadata]\nrequires-dist = [{ name = \"x\" }]\n\n"
		}
		if !root {
			g.want("PyPI", name, v, commit)
		}
	}

	return s
}
