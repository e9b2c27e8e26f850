package lockfile

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/g-rath/osv-detector/internal/vs"
)

// sp_parsers: the parser that the documentation names for a file, or nil.
func sp_parser(name string) PackageDetailsParser {
	switch name {
	case "bun.lock":
		return ParseBunLock
	case "Cargo.lock":
		return ParseCargoLock
	case "composer.lock":
		return ParseComposerLock
	case "Gemfile.lock":
		return ParseGemfileLock
	case "go.mod":
		return ParseGoLock
	case "mix.lock":
		return ParseMixLock
	case "package-lock.json":
		return ParseNpmLock
	case "packages.lock.json":
		return ParseNuGetLock
	case "pdm.lock":
		return ParsePdmLock
	case "pnpm-lock.yaml":
		return ParsePnpmLock
	case "poetry.lock":
		return ParsePoetryLock
	case "pylock.toml":
		return ParsePylock
	case "Pipfile.lock":
		return ParsePipenvLock
	case "pom.xml":
		return ParseMavenLock
	case "pubspec.lock":
		return ParsePubspecLock
	case "renv.lock":
		return ParseRenvLock
	case "requirements.txt":
		return ParseRequirementsTxt
	case "yarn.lock":
		return ParseYarnLock
	case "uv.lock":
		return ParseUvLock
	case "gradle.lockfile", "buildscript-gradle.lockfile":
		return ParseGradleLock
	}

	return nil
}

func sp_as(path, parseAs string) string {
	if parseAs == "" {
		return filepath.Base(path)
	}

	return parseAs
}

func ct__FindParser(path string, parseAs string) {
	vs.Prop("C13")
	vs.Option("pure")
	p, as := FindParser(path, parseAs)
	vs.Ensures("the name of the file decides unless it is overridden", as == sp_as(path, parseAs))
	vs.Ensures("the documented parser, or none", vs.Same(p, sp_parser(as)))
}

func ct__Parse(path string, parseAs string) {
	vs.Prop("C09,C13")
	vs.Option("pure")
	r, err := Parse(path, parseAs)
	as := sp_as(path, parseAs)
	parser := sp_parser(as)
	if parser == nil {
		vs.Ensures("a file that no parser is for is an error", err != nil && errors.Is(err, ErrParserNotFound))
	} else {
		ps, perr := parser(path)
		vs.Ensures("the error of the parser", err == perr)
		vs.Ensures("the packages of the parser, sorted by name and version", vs.Eq([]PackageDetails(r.Packages), vs.SortBy(ps, sp_before)))
		vs.Ensures("with the path and the parser that was used", r.FilePath == path && r.ParsedAs == as)
	}
}

func sp_pkgLine(p PackageDetails) string {
	eco := p.Ecosystem
	if eco == "" {
		eco = "<unknown>"
	}
	ln := fmt.Sprintf("  %s: %s", eco, p.Name)
	if p.Version != "" {
		ln += "@" + p.Version
	}
	if p.Commit != "" {
		ln += " (" + p.Commit + ")"
	}

	return ln
}

func sp_pkgLines(ps []PackageDetails, n int) []string {
	if n <= 0 || n > len(ps) {
		return []string{}
	}

	return vs.Append(sp_pkgLines(ps, n-1), sp_pkgLine(ps[n-1]))
}

func ct_Lockfile_String(l Lockfile) {
	vs.Prop("C14")
	vs.Inv(func(i int, lines []string) bool { return vs.Eq(lines, sp_pkgLines(l.Packages, i)) })
	s := l.String()
	vs.Ensures("one line for each package, with all that is known of it", s == strings.Join(sp_pkgLines(l.Packages, len(l.Packages)), "\n"))
}
