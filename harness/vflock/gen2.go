package vflock

import (
	"fmt"
	"regexp"
	"slices"
	"strings"

	"github.com/g-rath/osv-detector/internal/vfh"
)

// ---- YAML

func (g *gen) yq(s string) string {
	if g.P(30) || strings.ContainsAny(s, ":#{}[],&*!|>'\"%@`+ ") || regexp.MustCompile(`^[0-9.-]|^(true|false|null|yes|no|on|off|y|n|~)$`).MatchString(strings.ToLower(s)) {
		if g.P(50) {
			return "'" + strings.ReplaceAll(s, "'", "''") + "'"
		}

		return q(s)
	}

	return s
}

func (g *gen) pubspec() string {
	var es []string
	used := map[string]bool{}
	for i := 0; i < g.n; i++ {
		name := g.name(`[a-z_][a-z0-9_]*`, "back_button_interceptor", "flutter", "http", "path", "shelf", "name", "version")
		if used[name] {
			continue
		}
		used[name] = true
		v, commit := g.version(), ""
		var desc, src string
		switch g.Intn(6) {
		case 0:
			commit = g.sha()
			desc = "    description:\n      path: \".\"\n      ref: HEAD\n      resolved-ref: " + q(commit) + "\n      url: \"https://github.com/x/y.git\"\n"
			src = "git"
		case 1:
			desc = "    description: flutter\n"
			src = "sdk"
		case 2:
			desc = "    description:\n      path: \"../x\"\n      relative: true\n"
			src = "path"
		default:
			desc = "    description:\n      name: " + g.yq(name) + "\n      url: \"https://pub.dev\"\n" + g.maybe(50, "      sha256: abc\n")
			src = "hosted"
		}
		parts := g.shuffle([]string{"    dependency: " + vfh.Pick(g.H, "\"direct main\"", "transitive", "\"direct dev\"") + "\n", desc, "    source: " + src + "\n", "    version: " + q(v) + "\n"})
		es = append(es, "  "+g.yq(name)+":\n"+strings.Join(parts, ""))
		g.want("Pub", name, v, commit)
	}
	s := "# Generated by pub\n"
	if len(es) > 0 {
		s += "packages:\n" + strings.Join(es, g.maybe(20, "  # a comment\n"))
	} else if g.P(50) {
		s += "packages: {}\n"
	}

	return s + "sdks:\n  dart: \">=2.12.0 <4.0.0\"\n"
}

func (g *gen) pnpm() string {
	lv := vfh.Pick(g.H, "5.3", "5.4", "6.0", "6.0", "6.1", "9.0", "9.0")
	vs := lv
	if lv[0] != '5' {
		vs = "'" + lv + "'"
	}
	s := "lockfileVersion: " + vs + "\n\n" + g.maybe(40, "settings:\n  autoInstallPeers: true\n\n") + g.maybe(40, "importers:\n  .:\n    dependencies:\n      x:\n        specifier: ^1\n        version: 1.0.0\n\n")
	var es []string
	used := map[string]bool{}
	peer := func() string {
		p := g.bare() + "@" + fmt.Sprintf("%d.%d.0", g.Intn(9), g.Intn(9))
		if g.P(40) {
			p = "@" + vfh.Pick(g.H, "babel", "types") + "/" + p
		}

		return p
	}
	for i := 0; i < g.n; i++ {
		name, v := g.npmName(), g.version()
		key := ""
		body := "    resolution: {integrity: sha512-abc==}\n"
		commit := ""
		switch {
		case g.P(8):
			commit = g.sha()
			u := "https://codeload.github.com/my-org/" + g.bare() + "/tar.gz/" + commit
			body = "    resolution: {tarball: " + u + "}\n    version: " + v + "\n"
			if lv[0] == '9' {
				key = name + "@" + u
			} else {
				key = "github.com/my-org/x/" + commit
				if lv[0] == '6' {
					key = "'@github.com/my-org/x/" + commit + "'"
					key = "github.com/my-org/x/" + commit
				}
				body += "    name: " + g.yq(name) + "\n"
			}
		case g.P(6):
			commit = g.sha()
			body = "    resolution: {commit: " + g.yq(commit) + ", repo: https://bitbucket.org/x/y.git, type: git}\n    version: " + v + "\n"
			if lv[0] == '9' {
				key = name + "@git+https://bitbucket.org/x/y.git#" + commit
			} else {
				key = "bitbucket.org/x/y/" + commit
				body += "    name: " + g.yq(name) + "\n"
			}
		case g.P(5):
			body = "    resolution: {directory: ../x, type: directory}\n    name: " + g.yq(name) + "\n    version: " + v + "\n"
			key = "file:../x"
		default:
			switch lv[0] {
			case '5':
				key = "/" + name + "/" + v
				if g.P(25) {
					key += "_" + strings.ReplaceAll(peer(), "/", "+")
				}
			case '6':
				key = "/" + name + "@" + v
				for n := g.Intn(5) - 2; n > 0; n-- {
					key += "(" + peer() + ")"
				}
			case '9':
				key = name + "@" + v
			}
		}
		if used[key] {
			continue
		}
		used[key] = true
		body += g.maybe(40, "    dev: "+vfh.Pick(g.H, "true", "false")+"\n") + g.maybe(30, "    dependencies:\n      version: 1.0.0\n      "+g.bare()+"-z: 2.0.0\n") + g.maybe(20, "    engines: {node: '>=10'}\n") + g.maybe(10, "    hasBin: true\n")
		es = append(es, "  "+g.yq(key)+":\n"+body)
		g.want("npm", name, v, commit)
	}
	if len(es) > 0 {
		s += "packages:\n\n" + strings.Join(es, "\n")
	}
	if lv[0] == '9' && g.P(60) {
		s += "\nsnapshots:\n\n  zzz@0.0.1(" + "a@1.0.0): {}\n"
	}

	return s
}

// ---- XML

func xesc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func (g *gen) maven() string {
	props := map[string]string{}
	var pnames []string
	for i := g.Size(4); i > 0; i-- {
		p := g.name(`[A-Za-z][A-Za-z0-9.-]*`, "mypackageVersion", "my.package.version", "v", "spring.version", "version-range")
		if _, ok := props[p]; ok {
			continue
		}
		v := g.version()
		if len(pnames) > 0 && g.P(25) {
			v = "${" + pnames[g.Intn(len(pnames))] + "}"
		}
		props[p] = v
		pnames = append(pnames, p)
	}
	var value func(s string) (string, bool)
	value = func(s string) (string, bool) {
		ok := true
		out := regexp.MustCompile(`\$\{([^}]+)\}`).ReplaceAllStringFunc(s, func(m string) string {
			v, has := props[m[2:len(m)-1]]
			if !has {
				ok = false

				return m
			}
			v, has = value(v)
			ok = ok && has

			return v
		})

		return out, ok
	}
	managed := map[string]string{}
	var names []string
	dep := func(name, v string) string {
		gr, ar, _ := strings.Cut(name, ":")
		parts := []string{"<groupId>" + gr + "</groupId>", "<artifactId>" + ar + "</artifactId>"}
		if v != "" {
			parts = append(parts, "<version>"+xesc(v)+"</version>")
		}
		if g.P(30) {
			parts = append(parts, "<scope>"+vfh.Pick(g.H, "test", "compile", "provided")+"</scope>")
		}
		if g.P(15) {
			parts = append(parts, "<exclusions><exclusion><groupId>x</groupId><artifactId>y</artifactId></exclusion></exclusions>")
		}
		g.shuffle(parts)

		return "    <dependency>\n      " + strings.Join(parts, "\n      ") + "\n    </dependency>\n" + g.maybe(8, "    <!-- <dependency><groupId>no</groupId><artifactId>no</artifactId><version>1</version></dependency> -->\n")
	}
	// the text of a version and what it stands for
	spec := func() (string, string) {
		v := g.version()
		switch g.Intn(9) {
		case 0:
			return "[" + v + "]", v
		case 1:
			return "[" + v + ",9.9)", v
		case 2:
			return "(" + v + ",]", v
		case 3:
			return "(,9.0]", "0"
		case 4, 5:
			if len(pnames) > 0 {
				p := "${" + pnames[g.Intn(len(pnames))] + "}"
				if g.P(25) {
					p = vfh.Pick(g.H, "1."+p, p+".Final", p+"-"+p)
				}
				x, ok := value(p)
				if !ok {
					x = "0"
				}

				return p, x
			}
		case 6:
			if g.P(40) {
				return "${not.there}", "0"
			}
		}

		return v, v
	}
	newName := func() string {
		for {
			n := g.name(`[a-z.]+`, "io.netty", "org.slf4j", "com.x", "a") + ":" + g.name(`[A-Za-z0-9.-]+`, "netty-all", "slf4j-api", "b", "core")
			if !slices.Contains(names, n) {
				names = append(names, n)

				return n
			}
			g.n++
			if g.n > 500 {
				n += fmt.Sprint(g.n)
				names = append(names, n)

				return n
			}
		}
	}
	var ms, ds string
	n := g.n
	for i := g.Intn(n + 1); i > 0; i-- {
		name := newName()
		t, v := spec()
		ms += dep(name, t)
		managed[name] = v
	}
	direct := map[string]bool{}
	for _, name := range slices.Clone(names) {
		switch g.Intn(4) {
		case 0: // its own version
			t, v := spec()
			ds += dep(name, t)
			g.want("Maven", name, v, "")
			direct[name] = true
		case 1: // the managed version
			ds += dep(name, "")
			g.want("Maven", name, managed[name], "")
			direct[name] = true
		}
	}
	for name, v := range managed {
		if !direct[name] {
			g.want("Maven", name, v, "")
		}
	}
	for i := g.Intn(n + 1); i > 0; i-- {
		name := newName()
		t, v := spec()
		ds += dep(name, t)
		g.want("Maven", name, v, "")
	}
	ptext := ""
	for _, p := range pnames {
		ptext += "    <" + p + ">" + props[p] + "</" + p + ">\n"
	}
	parts := []string{
		"  <properties>\n" + ptext + "  </properties>\n",
		"  <dependencies>\n" + ds + "  </dependencies>\n",
		"  <dependencyManagement>\n  <dependencies>\n" + ms + "  </dependencies>\n  </dependencyManagement>\n",
		g.maybe(20, "  <build><plugins><plugin><groupId>p</groupId><artifactId>q</artifactId><version>1</version></plugin></plugins></build>\n"),
		"  <version>1.0-SNAPSHOT</version>\n",
	}
	g.shuffle(parts)

	return vfh.Pick(g.H, `<?xml version="1.0" encoding="UTF-8"?>`+"\n", "") + "<project" + vfh.Pick(g.H, "", ` xmlns="http://maven.apache.org/POM/4.0.0"`) + ">\n  <modelVersion>4.0.0</modelVersion>\n" + strings.Join(parts, "") + "</project>\n"
}

// ---- go.mod

func (g *gen) gomod() string {
	type mod struct{ p, v string }
	var reqs []mod
	ver := func(path string) string {
		major := g.Intn(2)
		if strings.HasSuffix(path, "/v2") {
			major = 2
		}
		v := fmt.Sprintf("v%d.%d.%d", major, g.Intn(9), g.Intn(9))
		switch g.Intn(8) {
		case 0:
			v += vfh.Pick(g.H, "-beta.1", "-rc1")
		case 1:
			v = fmt.Sprintf("v%d.0.0-20211024170158-b87d35c0b86f", major)
		case 2:
			if major < 2 {
				v = fmt.Sprintf("v%d.%d.0+incompatible", 2+g.Intn(3), g.Intn(9))
			}
		}

		return v
	}
	path := func() string {
		return g.name(`[a-z][a-z0-9./_-]*[a-z0-9]`, "github.com/BurntSushi/toml", "gopkg.in/x", "example.com/a", "example.com/b", "example.com/c", "golang.org/x/mod", "example.com/a/v2", "github.com/x/y")
	}
	fix := func(p string) string {
		if strings.HasPrefix(p, "gopkg.in") || !strings.Contains(p, ".") || !strings.Contains(p, "/") {
			return "example.com/" + strings.ReplaceAll(strings.ReplaceAll(p, "gopkg.in/", ""), ".", "-")
		}
		if regexp.MustCompile(`/v[013-9][0-9]*$|//|/\.|\./|\.$|/v2.+$`).MatchString(p) {
			return "example.com/z"
		}

		return p
	}
	for i := 0; i < g.n; i++ {
		m := mod{p: fix(path())}
		m.v = ver(m.p)
		reqs = append(reqs, m)
	}
	type repl struct{ old, new mod }
	var reps []repl
	seen := map[mod]bool{}
	for i := g.Size(4); i > 0; i-- {
		o := mod{p: fix(path())}
		if len(reqs) > 0 && g.P(75) {
			o = reqs[g.Intn(len(reqs))]
			if g.P(50) {
				o.v = ""
			}
		} else if g.P(50) {
			o.v = ver(o.p)
		}
		if len(reps) > 0 && g.P(25) {
			// replaces what another replacement leads to: no effect on that one
			if p := reps[g.Intn(len(reps))].new; p.v != "" {
				o = mod{p.p, vfh.Pick(g.H, "", p.v)}
			}
		}
		if seen[o] {
			continue
		}
		seen[o] = true
		n := mod{p: fix(path())}
		if g.P(25) {
			n = mod{vfh.Pick(g.H, "./fork/x", "../y"), ""}
		} else {
			n.v = ver(n.p)
			if g.P(20) && !strings.HasSuffix(o.p, "/v2") {
				n = mod{o.p, ver(o.p)}
			}
		}
		reps = append(reps, repl{o, n})
	}
	for _, r := range reqs {
		m := r
		for _, x := range reps {
			if x.old == (mod{r.p, ""}) {
				m = x.new
			}
		}
		for _, x := range reps {
			if x.old == r {
				m = x.new
			}
		}
		g.want("Go", m.p, strings.TrimPrefix(m.v, "v"), "")
	}
	var blocks []string
	if g.P(50) {
		for _, r := range reqs {
			blocks = append(blocks, "require "+r.p+" "+r.v+vfh.Pick(g.H, "", " // indirect", " // a comment"))
		}
	} else if len(reqs) > 0 {
		k := g.Intn(len(reqs) + 1)
		for _, part := range [][]mod{reqs[:k], reqs[k:]} {
			b := "require (\n"
			for _, r := range part {
				b += "\t" + r.p + " " + r.v + vfh.Pick(g.H, "", " // indirect") + "\n" + g.maybe(10, "\n\t// example.com/no v1.0.0\n")
			}
			blocks = append(blocks, b+")")
		}
	}
	arrow := func(x repl) string {
		return strings.TrimSpace(x.old.p+" "+x.old.v) + " => " + strings.TrimSpace(x.new.p+" "+x.new.v)
	}
	if g.P(50) {
		for _, x := range reps {
			blocks = append(blocks, "replace "+arrow(x))
		}
	} else if len(reps) > 0 {
		b := "replace (\n"
		for _, x := range reps {
			b += "\t" + arrow(x) + "\n"
		}
		blocks = append(blocks, b+")")
	}
	blocks = append(blocks, vfh.Pick(g.H, "go 1.20", "go 1.21.3", ""), g.maybe(15, "exclude example.com/b v1.0.0"), g.maybe(10, "retract v0.1.0 // oops"), g.maybe(10, "toolchain go1.22.1"))
	g.shuffle(blocks)

	return "module example.com/root\n\n" + strings.Join(blocks, "\n\n") + "\n"
}

// ---- line-based formats

func (g *gen) eol(s string) string {
	if g.P(12) {
		return strings.ReplaceAll(s, "\n", "\r\n")
	}

	return s
}

func (g *gen) gemName() string {
	return g.name(`[A-Za-z0-9_-][A-Za-z0-9._-]*`, "ast", "rails", "actionpack", "GEM", "GITHUB", "GIT", "PATHspec", "a", "net-http", "DEPENDENCIES", "coffee-script", "x.y", "PLATFORMS", "remote", "revision", "specs")
}

func (g *gen) gemfile() string {
	var secs []string
	left := g.n
	spec := func(commit string) string {
		s := ""
		for i := g.Intn(left + 1); i > 0; i-- {
			left--
			name, v := g.gemName(), fmt.Sprintf("%d.%d.%d", g.Intn(7), g.Intn(9), g.Intn(9))
			v += vfh.Pick(g.H, "", "", "", ".beta1", ".pre")
			s += "    " + name + " (" + v + vfh.Pick(g.H, "", "", "", "-x86_64-linux", "-java", "-arm64-darwin-22") + ")\n"
			g.want("RubyGems", name, v, commit)
			for j := g.Intn(3); j > 0; j-- {
				s += "      " + g.gemName() + vfh.Pick(g.H, "", " (~> 1.0)", " (>= 1.0, < 3)", " (= 2.0.0)", " (>= 1.0.a)") + "\n"
			}
		}

		return s
	}
	for i := 1 + g.Intn(4); i > 0; i-- {
		switch g.Intn(4) {
		case 0:
			c := g.sha()
			secs = append(secs, "GIT\n  remote: https://github.com/x/y.git\n  revision: "+c+"\n"+g.maybe(30, "  branch: main\n")+g.maybe(20, "  glob: x.gemspec\n")+"  specs:\n"+spec(c))
		case 1:
			secs = append(secs, "PATH\n  remote: "+vfh.Pick(g.H, ".", "../x", "engines/revision")+"\n  specs:\n"+spec(""))
		case 2:
			secs = append(secs, "PLUGIN SOURCE\n  remote: x\n  type: y\n  specs:\n"+spec(""))
		default:
			secs = append(secs, "GEM\n"+g.maybe(90, "  remote: https://rubygems.org/\n")+g.maybe(10, "  remote: https://gems.example/\n")+"  specs:\n"+spec(""))
		}
	}
	rest := []string{
		"PLATFORMS\n  ruby\n  x86_64-linux\n",
		"DEPENDENCIES\n  rails (~> 6.0)\n  ast!\n" + g.maybe(30, "    deep (1.0.0)\n"),
		g.maybe(40, "RUBY VERSION\n   ruby 2.7.2p137\n"),
		g.maybe(60, "BUNDLED WITH\n   2.2.3\n"),
		g.maybe(20, "CHECKSUMS\n  ast (2.4.2) sha256=abc\n    odd (9.9.9)\n"),
	}
	if g.P(70) {
		secs = append(secs, g.shuffle(rest)...)
	} else {
		secs = append(append([]string{}, g.shuffle(rest)...), secs...)
	}
	var out []string
	for _, s := range secs {
		if s != "" {
			out = append(out, s)
		}
	}

	return g.eol(strings.Join(out, "\n"))
}

func (g *gen) gradle() string {
	s := g.maybe(80, "# This is a Gradle generated file for dependency locking.\n# Manual edits can break the build and are not advised.\n")
	for i := 0; i < g.n; i++ {
		name := g.name(`[A-Za-z0-9_.-]+`, "org.springframework", "com.x", "a", "emptyx", "io.netty") + ":" + g.name(`[A-Za-z0-9_.-]+`, "core", "b", "spring-web", "x_2.13")
		v := g.version() + vfh.Pick(g.H, "", "", ".RELEASE", ".Final", "-jre")
		s += vfh.Pick(g.H, "", "", "", " ", "\t") + name + ":" + v + "=" + vfh.Pick(g.H, "compileClasspath", "classpath", "compileClasspath,runtimeClasspath", "a:b=c", "") + "\n"
		g.want("Maven", name, v, "")
		s += g.maybe(5, "# com.no:no:1.0=x\n") + g.maybe(5, "\n")
	}
	s += g.maybe(80, "empty="+vfh.Pick(g.H, "", "annotationProcessor,testAnnotationProcessor", "a:b:c"))

	return g.eol(s)
}

func (g *gen) mix() string {
	s := "%{\n"
	for i := 0; i < g.n; i++ {
		name, v := g.name(`[a-z0-9_]+`, "plug", "phoenix_html", "a", "git", "hex", "jason"), g.version()
		if g.P(18) {
			c := g.sha()
			s += fmt.Sprintf("  %q: {:git, \"https://github.com/x/%s.git\", %q, [%s]},\n", name, name, c, vfh.Pick(g.H, "", `branch: "main"`, `tag: "v1", sparse: "x"`))
			g.want("Hex", name, "", c)

			continue
		}
		sum := g.sha()
		s += fmt.Sprintf("  %q: {:hex, :%s, %q, %q, [:mix], [%s], \"hexpm\", \"%s\"},\n", name, name, v, sum, vfh.Pick(g.H, "", `{:mime, "~> 1.0", [hex: :mime, repo: "hexpm", optional: false]}`, `{:a, ">= 1.0", []}, {:git, "x", []}`), g.sha())
		// the parser keeps the checksum of a release where a commit would be
		g.want("Hex", name, v, sum)
	}

	return g.eol(s + "}\n")
}

func (g *gen) yarn() string {
	berry := g.P(45)
	s := "# THIS IS AN AUTOGENERATED FILE. DO NOT EDIT THIS FILE DIRECTLY.\n# yarn lockfile v1\n\n\n"
	if berry {
		s = "# This file is generated by running \"yarn install\".\n\n__metadata:\n  version: 6\n  cacheKey: 8\n\n"
		if g.P(40) {
			s += "\"root@workspace:.\":\n  version: 0.0.0-use.local\n  resolution: \"root@workspace:.\"\n  dependencies:\n    a: ^1.0.0\n  languageName: unknown\n  linkType: soft\n\n"
		}
	}
	var es []string
	for i := 0; i < g.n; i++ {
		name, v := g.npmName(), g.version()
		commit := ""
		key := name // the name it is asked for by
		if g.P(12) {
			key = g.npmName()
		}
		alias := key != name
		rng := func() string {
			return vfh.Pick(g.H, "^"+v, "~1.2.0", v, ">=1.0.0 <2", "^1 || ^2", "*", "latest", "1.x")
		}
		var e string
		deps := ""
		if g.P(40) {
			if berry {
				deps = "  dependencies:\n    version: 0.0.1\n    \"@x/y\": ^2.0.0\n"
			} else {
				deps = "  dependencies:\n    version \"^0.0.1\"\n    \"@x/y\" \"^2.0.0\"\n    resolved \"^1.0.0\"\n"
			}
		}
		if berry {
			d := key + "@npm:" + rng()
			if alias {
				d = key + "@npm:" + name + "@" + vfh.Pick(g.H, "^"+v, v)
			}
			res := name + "@npm:" + v
			if !alias && g.P(12) {
				commit = g.sha()
				d = key + "@" + vfh.Pick(g.H, "https://github.com/x/y.git#commit=", "git@github.com:x/y.git#", "github:x/y#") + commit
				res = name + "@https://github.com/x/y.git#commit=" + commit
			}
			if !alias && commit == "" && g.P(30) {
				d += ", " + key + "@npm:" + rng()
			}
			e = q(d) + ":\n  version: " + v + "\n  resolution: " + q(res) + "\n" + deps + g.maybe(60, "  checksum: abc\n") + "  languageName: node\n  linkType: hard\n"
		} else {
			d := key + "@" + rng()
			if alias {
				d = key + "@npm:" + name + "@" + vfh.Pick(g.H, "^"+v, v)
			} else if g.P(30) {
				d += ", " + key + "@" + rng()
			}
			res := "https://registry.yarnpkg.com/" + name + "/-/x-" + v + ".tgz#" + g.sha()
			if !alias && g.P(12) {
				var u string
				u, commit = g.gitURL()
				for strings.HasPrefix(u, "git") && strings.Contains(u[:7], ":") && !strings.Contains(u, "://") {
					u, commit = g.gitURL()
				}
				d, res = key+"@"+u, u
			}
			if strings.HasPrefix(d, "@") || strings.ContainsAny(d, " |<>:,") {
				parts := strings.Split(d, ", ")
				for j := range parts {
					parts[j] = q(parts[j])
				}
				d = strings.Join(parts, ", ")
			}
			e = d + ":\n  version " + q(v) + "\n  resolved " + q(res) + "\n" + g.maybe(70, "  integrity sha512-abc==\n") + deps
		}
		es = append(es, e+g.maybe(5, "# a comment\n"))
		g.want("npm", name, v, commit)
	}

	return g.eol(s + strings.Join(es, "\n"))
}

func norm(name string) string {
	return strings.ToLower(regexp.MustCompile(`[-_.]+`).ReplaceAllString(name, "-"))
}

func (g *gen) requirements() string {
	files := []string{g.f.Name}
	if g.P(35) {
		for i := 1 + g.Intn(3); i > 0; i-- {
			n := vfh.Pick(g.H, "", "sub/", "deep/er/", "b/") + vfh.Pick(g.H, fmt.Sprintf("other%d.txt", i), "dev.txt", "requirements.txt")
			if !slices.Contains(files, n) && n != g.f.Name {
				files = append(files, n)
			}
		}
	}
	top := ""
	for k, name := range files {
		s := ""
		for i := g.Intn(g.n + 1); i > 0; i-- {
			s += g.requirement()
			switch g.Intn(14) {
			case 0:
				s += vfh.Pick(g.H, "# foo==1.0\n", "    # via x\n", "\n", "   \n", "#\n")
			case 1:
				s += vfh.Pick(g.H, "--index-url https://x\n", "-e .\n", "--no-binary :all:\n", "-c constraints.txt\n", "-i https://pypi.org/simple\n", "--extra-index-url=https://x/y==z\n", "-e git+https://github.com/x/y.git@v1#egg=y\n")
			case 2:
				s += vfh.Pick(g.H, "https://x.example/y-1.0.whl\n", "http://x.example/z.tar.gz\n", "./downloads/numpy-1.9.2.whl\n", "/abs/path-1.0.whl\n", "../up\n", "git+https://github.com/x/y.git@main#egg=y\n", "git+ssh://git@github.com/x/y==1.git\n", "file:///tmp/x==1.whl\n")
			}
		}
		// every file is reached, some more than once
		if k+1 < len(files) {
			s += g.include(name, files[k+1])
			for i := g.Intn(2); i > 0; i-- {
				s += g.include(name, files[g.Intn(len(files))])
			}
		} else if k > 0 && g.P(30) {
			s += g.include(name, files[g.Intn(len(files))])
		}
		if g.P(10) {
			s = strings.TrimSuffix(s, "\n")
		}
		s = g.eol(s)
		if k == 0 {
			top = s
		} else {
			g.f.Files[name] = s
		}
	}

	return top
}

func (g *gen) include(from, to string) string {
	up := strings.Repeat("../", strings.Count(from, "/"))

	return vfh.Pick(g.H, "-r ", "-r ", "--requirement ") + vfh.Pick(g.H, "", "./") + up + to + vfh.Pick(g.H, "", "", "  # more") + "\n"
}

func (g *gen) requirement() string {
	name := g.name(`[A-Za-z0-9](?:[A-Za-z0-9._-]*[A-Za-z0-9])?`, "flask", "Django", "zope.interface", "typing_extensions", "a", "Foo__Bar", "ruamel.yaml", "x-y", "http", "r")
	v := fmt.Sprintf("%d.%d", g.Intn(5), g.Intn(20)) + vfh.Pick(g.H, "", ".1", "rc1", ".post1", ".dev0", "+local")
	want := v
	s := name + vfh.Pick(g.H, "", "", "", "[extra]", "[a,b]", "[socks]")
	sp := vfh.Pick(g.H, "", "", " ")
	cont := ""
	if g.P(8) {
		cont = "\\\n"
	}
	switch g.Intn(15) {
	case 12:
		s += sp + "===" + sp + v
	case 13:
		s += sp + "==" + sp + v + "," + sp + vfh.Pick(g.H, ">=", "~=", "!=") + sp + "0.1"
	case 14:
		s += sp + vfh.Pick(g.H, ">=", "~=", "!=") + sp + "0.1" + sp + "," + sp + "==" + v
	case 0:
		want = "0.0.0"
	case 1:
		s += sp + vfh.Pick(g.H, "!=", "<", "<=") + cont + sp + v
		want = "0.0.0"
	case 2, 3:
		s += sp + ">=" + cont + sp + v
	case 4:
		s += sp + "~=" + cont + sp + v
	case 5:
		s += sp + ">=" + sp + v + sp + "," + sp + vfh.Pick(g.H, "<", "!=", "<=") + sp + "9.0"
	case 6:
		s += sp + vfh.Pick(g.H, "<", "!=") + sp + "9.0" + sp + "," + sp + vfh.Pick(g.H, ">=", "~=") + sp + v
	default:
		s += sp + "==" + cont + sp + v
	}
	s += vfh.Pick(g.H, "", "", "", "", " ; python_version < \"3.8\"", "; sys_platform == 'win32'", ";python_version>='3'", " --hash=sha256:2cf24d", " \\\n    --hash=sha256:abc \\\n    --hash=sha256:def", " # foo==2.0", "  # via a, b>=1", "   ")
	g.want("PyPI", norm(name), want, "")

	return s + "\n"
}
