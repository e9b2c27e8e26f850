package lockfile

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/cachedregexp"
	"github.com/g-rath/osv-detector/internal/vs"
)

// ---- Gemfile.lock: the parser as a state machine over lines

func sp_gemAdd(p gemfileLockfileParser, name, version string) gemfileLockfileParser {
	p.dependencies = vs.Append(p.dependencies, sp_pkg(name, version, p.currentGemCommit, "RubyGems"))

	return p
}

func ct_gemfileLockfileParser_addDependency(parser *gemfileLockfileParser, name string, version string) {
	vs.Prop("C09,C11")
	vs.Requires(parser != nil)
	vs.Modifies(parser)
	old := *parser
	parser.addDependency(name, version)
	vs.Ensures("one more dependency, with the commit of its source", vs.Same(*parser, sp_gemAdd(old, name, version)))
}

const sp_reGem = `^( +)(.*?)(?: \(([^-]*)(?:-(.*))?\))?(!)?$`

func sp_gemSpec(p gemfileLockfileParser, line string) gemfileLockfileParser {
	m := cachedregexp.MustCompile(sp_reGem).FindStringSubmatch(line)
	if m != nil && len(m[1]) == 4 {
		return sp_gemAdd(p, m[2], m[3])
	}

	return p
}

func ct_gemfileLockfileParser_parseSpec(parser *gemfileLockfileParser, line string) {
	vs.Prop("C09,C11")
	vs.Requires(parser != nil)
	vs.Modifies(parser)
	old := *parser
	parser.parseSpec(line)
	vs.Ensures("a gem is what is indented by four spaces", vs.Same(*parser, sp_gemSpec(old, line)))
}

const sp_reGemOption = `(?i)^ {2}([a-z]+): (.*)$`

func sp_gemSource(p gemfileLockfileParser, line string) gemfileLockfileParser {
	if line == "  specs" {
		return p
	}
	m := cachedregexp.MustCompile(sp_reGemOption).FindStringSubmatch(line)
	if m == nil {
		return sp_gemSpec(p, line)
	}
	if strings.HasPrefix(m[0], "  revision: ") {
		p.currentGemCommit = strings.TrimPrefix(m[0], "  revision: ")
	}

	return p
}

func ct_gemfileLockfileParser_parseSource(parser *gemfileLockfileParser, line string) {
	vs.Prop("C09,C11")
	vs.Requires(parser != nil)
	vs.Modifies(parser)
	old := *parser
	parser.parseSource(line)
	vs.Ensures("a revision, another option, or a gem", vs.Same(*parser, sp_gemSource(old, line)))
}

func sp_gemKnown(s parserState) bool {
	return s == parserStateDependency || s == parserStatePlatform || s == parserStateRuby || s == parserStateBundledWith || s == parserStateSource
}

func sp_gemLine(p gemfileLockfileParser, line string) gemfileLockfileParser {
	switch p.state {
	case parserStateRuby:
		p.rubyVersion = strings.TrimSpace(line)
	case parserStateBundledWith:
		p.bundlerVersion = strings.TrimSpace(line)
	case parserStateSource:
		return sp_gemSource(p, line)
	}

	return p
}

func ct_gemfileLockfileParser_parseLineBasedOnState(parser *gemfileLockfileParser, line string) {
	vs.Prop("C09,C11")
	vs.Requires(parser != nil && sp_gemKnown(parser.state))
	vs.Modifies(parser)
	old := *parser
	parser.parseLineBasedOnState(line)
	vs.Ensures("what the section says", vs.Same(*parser, sp_gemLine(old, line)))
}

func sp_gemStep(p gemfileLockfileParser, line string) gemfileLockfileParser {
	if line == "GIT" || line == "GEM" || line == "PATH" || line == "PLUGIN SOURCE" {
		p.currentGemCommit = ""
		p.state = parserStateSource

		return sp_gemSource(p, line)
	}
	switch line {
	case "DEPENDENCIES":
		p.state = parserStateDependency
		return p
	case "PLATFORMS":
		p.state = parserStatePlatform
		return p
	case "RUBY VERSION":
		p.state = parserStateRuby
		return p
	case "BUNDLED WITH":
		p.state = parserStateBundledWith
		return p
	}
	if sp_matches(`^\S`, line) {
		p.state = ""
	}
	if p.state == "" {
		return p
	}

	return sp_gemLine(p, line)
}

func sp_gems(p gemfileLockfileParser, lines []string, n int) gemfileLockfileParser {
	if n <= 0 || n > len(lines) {
		return p
	}

	return sp_gemStep(sp_gems(p, lines, n-1), lines[n-1])
}

func ct_gemfileLockfileParser_parse(parser *gemfileLockfileParser, contents string) {
	vs.Prop("C09,C11")
	vs.Requires(parser != nil && (parser.state == "" || sp_gemKnown(parser.state)))
	vs.Modifies(parser)
	old := *parser
	lines := cachedregexp.MustCompile(`(?:\r?\n)+`).Split(contents, -1)
	vs.Inv(func(i int) bool { return parser.state == "" || sp_gemKnown(parser.state) })
	vs.Inv(func(i int) bool { return vs.Same(*parser, sp_gems(old, lines, i)) })
	parser.parse(contents)
	vs.Ensures("the sections, line by line", vs.Same(*parser, sp_gems(old, lines, len(lines))))
}

func ct__ParseGemfileLock(path string) {
	vs.Prop("C09,C11")
	lines := cachedregexp.MustCompile(`(?:\r?\n)+`).Split(vs.FileText(path), -1)
	var none gemfileLockfileParser
	r, err := ParseGemfileLock(path)
	vs.Ensures("an error exactly when the file cannot be read", (err != nil) == (vs.FileErr(path) != nil))
	if err == nil {
		vs.Ensures("exactly the gems of the source sections", vs.Eq(r, sp_gems(none, lines, len(lines)).dependencies))
	}
}
