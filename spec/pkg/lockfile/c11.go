package lockfile

import (
	"path/filepath"
	"strings"

	"github.com/g-rath/osv-detector/internal/cachedregexp"
	"github.com/g-rath/osv-detector/internal/vs"
)

// ---- gradle.lockfile

func sp_gradleOK(line string) bool { return len(strings.SplitN(line, ":", 3)) == 3 }

// sp_gradle: group:artifact:version=configurations
func sp_gradle(line string) PackageDetails {
	parts := strings.SplitN(line, ":", 3)
	version, _, _ := strings.Cut(parts[2], "=")

	return sp_pkg(parts[0]+":"+parts[1], version, "", "Maven")
}

func ct__parseGradleLine(line string) {
	vs.Prop("C09,C11")
	r, err := parseGradleLine(line)
	vs.Ensures("an error exactly when a part is missing", (err != nil) == !sp_gradleOK(line))
	if err == nil {
		vs.Ensures("the line as it is", r == sp_gradle(line))
	}
}

func sp_gradleSkips(line string) bool {
	return strings.HasPrefix(line, "#") || strings.HasPrefix(line, "empty=") || !sp_gradleOK(line)
}

func sp_gradles(lines []string, n int) []PackageDetails {
	if n <= 0 || n > len(lines) {
		return nil
	}
	line := strings.TrimSpace(lines[n-1])
	if sp_gradleSkips(line) {
		return sp_gradles(lines, n-1)
	}

	return vs.Append(sp_gradles(lines, n-1), sp_gradle(line))
}

func ct__ParseGradleLock(path string) {
	vs.Prop("C09,C11")
	vs.ModifiesOut()
	lines := vs.Lines(path)
	vs.Inv(func(i int, acc []PackageDetails) bool { return vs.Eq(acc, sp_gradles(lines, i)) })
	r, err := ParseGradleLock(path)
	vs.Ensures("an error exactly when the file cannot be read to its end", (err != nil) == (vs.FileErr(path) != nil || vs.ScanErr(path) != nil))
	if err == nil {
		vs.Ensures("exactly the dependency lines, in order", vs.Eq(r, sp_gradles(lines, len(lines))))
	}
}

// ---- mix.lock

const sp_reMix = `^ +"(\w+)": \{.+,$`

func sp_mixFields(line string) []string {
	return strings.FieldsFunc(line, func(r rune) bool { return r == ',' })
}

func sp_unquote(s string) string {
	return strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(s), `"`), `"`)
}

func sp_mixKeeps(line string) bool { return sp_matches(sp_reMix, line) && len(sp_mixFields(line)) >= 4 }

func sp_mix(line string) PackageDetails {
	f := sp_mixFields(line)
	if strings.HasSuffix(f[0], ":git") {
		return sp_pkg(sp_group(sp_reMix, line), "", sp_unquote(f[2]), "Hex")
	}

	return sp_pkg(sp_group(sp_reMix, line), sp_unquote(f[2]), sp_unquote(f[3]), "Hex")
}

func sp_mixes(lines []string, n int) []PackageDetails {
	if n <= 0 || n > len(lines) {
		return nil
	}
	if !sp_mixKeeps(lines[n-1]) {
		return sp_mixes(lines, n-1)
	}

	return vs.Append(sp_mixes(lines, n-1), sp_mix(lines[n-1]))
}

func ct__ParseMixLock(path string) {
	vs.Prop("C09,C11")
	vs.ModifiesOut()
	lines := vs.Lines(path)
	vs.Inv(func(i int, acc []PackageDetails) bool { return vs.Eq(acc, sp_mixes(lines, i)) })
	r, err := ParseMixLock(path)
	vs.Ensures("an error exactly when the file cannot be read to its end", (err != nil) == (vs.FileErr(path) != nil || vs.ScanErr(path) != nil))
	if err == nil {
		vs.Ensures("exactly the dependency lines, in order", vs.Eq(r, sp_mixes(lines, len(lines))))
	}
}

// ---- yarn.lock

func sp_yarnName(s string) string {
	s, _, _ = strings.Cut(strings.TrimPrefix(s, `"`), ",")
	scope := ""
	if strings.HasPrefix(s, "@") {
		scope = "@"
	}
	name, right, _ := strings.Cut(strings.TrimPrefix(s, "@"), "@")
	if strings.HasPrefix(right, "npm:") && strings.Contains(right, "@") {
		return sp_yarnName(strings.TrimPrefix(right, "npm:"))
	}

	return scope + name
}

func ct__extractYarnPackageName(s string) {
	vs.Prop("C09,C11")
	vs.Option("pure")
	r := extractYarnPackageName(s)
	vs.Ensures("the name in the first descriptor, that of the target for an alias", r == sp_yarnName(s))
}

const (
	sp_reYarnVersion    = `^ {2}"?version"?:? "?([\w-.+]+)"?$`
	sp_reYarnResolution = `^ {2}"?(?:resolution:|resolved)"? "([^ '"]+)"$`
)

// sp_first: the group of the first line from i on that matches.
func sp_first(pattern string, lines []string, i int) string {
	if i < 0 || i >= len(lines) {
		return ""
	}
	if sp_matches(pattern, lines[i]) {
		return sp_group(pattern, lines[i])
	}

	return sp_first(pattern, lines, i+1)
}

func ct__determineYarnPackageVersion(group []string) {
	vs.Prop("C09,C11")
	vs.Option("pure")
	vs.Inv(func(i int) bool { return sp_first(sp_reYarnVersion, group, 0) == sp_first(sp_reYarnVersion, group, i) })
	r := determineYarnPackageVersion(group)
	vs.Ensures("the first version line", r == sp_first(sp_reYarnVersion, group, 0))
}

func ct__determineYarnPackageResolution(group []string) {
	vs.Prop("C09,C11")
	vs.Option("pure")
	vs.Inv(func(i int) bool {
		return sp_first(sp_reYarnResolution, group, 0) == sp_first(sp_reYarnResolution, group, i)
	})
	r := determineYarnPackageResolution(group)
	vs.Ensures("the first resolution line", r == sp_first(sp_reYarnResolution, group, 0))
}

func sp_yarn(g []string) PackageDetails {
	return sp_pkg(sp_yarnName(g[0]), sp_first(sp_reYarnVersion, g, 0), tryExtractCommit(sp_first(sp_reYarnResolution, g, 0)), "npm")
}

func ct__parsePackageGroup(group []string) {
	vs.Prop("C09,C11")
	vs.Option("pure")
	vs.ModifiesOut()
	vs.Requires(len(group) > 0)
	r := parsePackageGroup(group)
	vs.Ensures("the block as it is", r == sp_yarn(group))
}

func sp_yarnSkipsLine(l string) bool { return l == "" || strings.HasPrefix(l, "#") }

// sp_open: the block the first n lines end in.
func sp_open(lines []string, n int) []string {
	if n <= 0 || n > len(lines) {
		return []string{}
	}
	l := lines[n-1]
	if sp_yarnSkipsLine(l) {
		return sp_open(lines, n-1)
	}
	if strings.HasPrefix(l, " ") {
		return vs.Append(sp_open(lines, n-1), l)
	}

	return []string{l}
}

// sp_closed: the blocks before it.
func sp_closed(lines []string, n int) [][]string {
	if n <= 0 || n > len(lines) {
		return [][]string{}
	}
	l := lines[n-1]
	if sp_yarnSkipsLine(l) || strings.HasPrefix(l, " ") || len(sp_open(lines, n-1)) == 0 {
		return sp_closed(lines, n-1)
	}

	return vs.Append(sp_closed(lines, n-1), sp_open(lines, n-1))
}

func sp_blocks(lines []string) [][]string {
	n := len(lines)
	if len(sp_open(lines, n)) == 0 {
		return sp_closed(lines, n)
	}

	return vs.Append(sp_closed(lines, n), sp_open(lines, n))
}

func sp_yarnSkips(g []string) bool {
	return g[0] == "__metadata:" || strings.HasSuffix(g[0], `@workspace:.":`)
}

func sp_yarns(gs [][]string, n int) []PackageDetails {
	if n <= 0 || n > len(gs) {
		return nil
	}
	if sp_yarnSkips(gs[n-1]) {
		return sp_yarns(gs, n-1)
	}

	return vs.Append(sp_yarns(gs, n-1), sp_yarn(gs[n-1]))
}

func ct__ParseYarnLock(path string) {
	vs.Prop("C09,C11")
	vs.ModifiesOut()
	lines := vs.Lines(path)
	vs.Inv(func(i int, groups [][]string, group []string) bool { return vs.Eq(group, sp_open(lines, i)) })
	vs.Inv(func(i int, groups [][]string, group []string) bool { return vs.Eq(groups, sp_closed(lines, i)) })
	vs.Inv(func(groups [][]string) bool {
		return vs.Forall(0, len(groups), func(k int) bool { return len(groups[k]) > 0 })
	})
	vs.Inv(func(i int, acc []PackageDetails) bool { return vs.Eq(acc, sp_yarns(sp_blocks(lines), i)) })
	r, err := ParseYarnLock(path)
	vs.Ensures("an error exactly when the file cannot be read to its end", (err != nil) == (vs.FileErr(path) != nil || vs.ScanErr(path) != nil))
	if err == nil {
		vs.Ensures("exactly the blocks but metadata and the root", vs.Eq(r, sp_yarns(sp_blocks(lines), len(sp_blocks(lines)))))
	}
}

// ---- requirements.txt

func sp_version(s string) string {
	v, _, _ := strings.Cut(strings.TrimSpace(s), " ")

	return v
}

// sp_pinned: an exact constraint wins; otherwise the last lower bound.
func sp_pinned(cs []string, i int, v string) string {
	if i < 0 || i >= len(cs) {
		return v
	}
	c := strings.TrimSpace(cs[i])
	if strings.HasPrefix(c, "==") {
		return sp_version(strings.TrimPrefix(strings.TrimPrefix(c, "=="), "="))
	}
	if strings.HasPrefix(c, ">=") || strings.HasPrefix(c, "~=") {
		return sp_pinned(cs, i+1, sp_version(c[2:]))
	}

	return sp_pinned(cs, i+1, v)
}

func sp_pipName(s string) string {
	n, _, _ := strings.Cut(strings.ToLower(cachedregexp.MustCompile(`[-_.]+`).ReplaceAllString(s, "-")), "[")

	return n
}

func ct__normalizedRequirementName(name string) {
	vs.Prop("C09,C11")
	vs.Option("pure")
	r := normalizedRequirementName(name)
	vs.Ensures("the normalised name without extras", r == sp_pipName(name))
}

func sp_pip(line string) PackageDetails {
	line, _, _ = strings.Cut(line, ";")
	name, rest := line, ""
	if i := strings.IndexAny(line, " \t<>=!~@"); i != -1 {
		name, rest = line[:i], line[i:]
	}

	return sp_pkg(sp_pipName(name), sp_pinned(strings.Split(rest, ","), 0, "0.0.0"), "", "PyPI")
}

func ct__parseLine(line string) {
	vs.Prop("C09,C11")
	vs.Option("pure")
	vs.Inv(func(i int, version string, srcCs []string) bool {
		return sp_pinned(srcCs, i, version) == sp_pinned(srcCs, 0, "0.0.0")
	})
	r := parseLine(line)
	vs.Ensures("the requirement as it is", r == sp_pip(line))
}

func ct__removeComments(line string) {
	vs.Prop("C09,C11")
	vs.Option("pure")
	r := removeComments(line)
	vs.Ensures("without a comment and surrounding space", r == strings.TrimSpace(cachedregexp.MustCompile(`(^|\s+)#.*$`).ReplaceAllString(line, "")))
}

func sp_notRequirement(line string) bool {
	return line == "" || strings.HasPrefix(line, "-") || strings.HasPrefix(line, ".") || strings.HasPrefix(line, "/") ||
		cachedregexp.MustCompile(`^[\w+.-]+://`).MatchString(line)
}

func ct__isNotRequirementLine(line string) {
	vs.Prop("C09,C11")
	vs.Option("pure")
	r := isNotRequirementLine(line)
	vs.Ensures("blank lines, options, urls and paths", r == sp_notRequirement(line))
}

func ct__isLineContinuation(line string) {
	vs.Prop("C11")
	vs.Option("pure")
	r := isLineContinuation(line)
	vs.Ensures("an odd number of backslashes ends the line", r == cachedregexp.MustCompile(`([^\\]|^)(\\{2})*\\$`).MatchString(line))
}

// sp_joined, sp_after: a line with those that continue it, and where the next one starts.
func sp_joined(lines []string, line string, i int) string {
	if !isLineContinuation(line) {
		return line
	}
	line = strings.TrimSuffix(line, "\\")
	if i < 0 || i >= len(lines) {
		return sp_joined(lines, line, i)
	}

	return sp_joined(lines, line+lines[i], i+1)
}

func sp_after(lines []string, line string, i int) int {
	if !isLineContinuation(line) {
		return i
	}
	line = strings.TrimSuffix(line, "\\")
	if i < 0 || i >= len(lines) {
		return sp_after(lines, line, i)
	}

	return sp_after(lines, line+lines[i], i+1)
}

func sp_logical(lines []string, i int) string { return removeComments(sp_joined(lines, lines[i], i+1)) }
func sp_next(lines []string, i int) int       { return sp_after(lines, lines[i], i+1) }

func sp_include(line string) bool {
	return strings.HasPrefix(line, "-r ") || strings.HasPrefix(line, "--requirement ")
}

// sp_noIncludes: no line from i on includes another file.
func sp_noIncludes(lines []string, i int) bool {
	if i < 0 || i >= len(lines) {
		return true
	}

	return !sp_include(sp_logical(lines, i)) && sp_noIncludes(lines, sp_next(lines, i))
}

// sp_reqs: acc with the requirements from line i on.
func sp_reqs(lines []string, i int, acc map[string]PackageDetails) map[string]PackageDetails {
	if i < 0 || i >= len(lines) {
		return acc
	}
	if sp_notRequirement(sp_logical(lines, i)) {
		return sp_reqs(lines, sp_next(lines, i), acc)
	}
	p := parseLine(sp_logical(lines, i))

	return sp_reqs(lines, sp_next(lines, i), vs.Put(acc, p.Name+"@"+p.Version, p))
}

// sp_direct: some line from i on is a requirement listed under the key.
func sp_direct(lines []string, i int) map[string]PackageDetails {
	if i < 0 || i >= len(lines) {
		return map[string]PackageDetails{}
	}
	if sp_notRequirement(sp_logical(lines, i)) {
		return sp_direct(lines, sp_next(lines, i))
	}
	p := parseLine(sp_logical(lines, i))

	return vs.Put(sp_direct(lines, sp_next(lines, i)), p.Name+"@"+p.Version, p)
}

// sp_target: the file that the line includes.
func sp_target(path, line string) string {
	if ar, ok := strings.CutPrefix(line, "-r "); ok {
		return filepath.Join(filepath.Dir(path), ar)
	}
	ar, _ := strings.CutPrefix(line, "--requirement ")

	return filepath.Join(filepath.Dir(path), ar)
}

// sp_targets: the files that the lines from i on include.
func sp_targets(path string, lines []string, i int) map[string]struct{} {
	if i < 0 || i >= len(lines) {
		return map[string]struct{}{}
	}
	if !sp_include(sp_logical(lines, i)) {
		return sp_targets(path, lines, sp_next(lines, i))
	}

	return vs.Put(sp_targets(path, lines, sp_next(lines, i)), sp_target(path, sp_logical(lines, i)), struct{}{})
}

// sp_taken: what the file includes has been included.
func sp_taken(f string, seen map[string]struct{}) bool {
	return vs.ForallStr(func(g string) bool { return !vs.Has(sp_targets(f, vs.Lines(f), 0), g) || vs.Has(seen, g) })
}

// sp_listed: some package is listed under the key.
func sp_listed(r []PackageDetails, k string) bool {
	return !vs.ForallAny(func(p PackageDetails) bool { return !(vs.Member(p, r) && p.Name+"@"+p.Version == k) })
}

func ct__parseRequirementsTxt(path string, already map[string]struct{}) {
	vs.Prop("C09,C11")
	vs.Requires(already != nil)
	vs.Modifies(already)
	lines := vs.Lines(path)
	none := map[string]PackageDetails{}
	plain := sp_noIncludes(lines, 0)
	// joining lines
	vs.Inv(func(i int, line string, outI int) bool {
		return sp_joined(lines, line, i) == sp_joined(lines, lines[outI], outI+1)
	})
	vs.Inv(func(i int, line string, outI int) bool {
		return sp_after(lines, line, i) == sp_after(lines, lines[outI], outI+1)
	})
	// going through them
	vs.Inv(func(acc map[string]PackageDetails) bool {
		return acc != nil && vs.ForallStr(func(k string) bool { return !vs.Has(acc, k) || k == acc[k].Name+"@"+acc[k].Version })
	})
	vs.Inv(func(acc map[string]PackageDetails, outAcc map[string]PackageDetails) bool {
		return vs.ForallStr(func(k string) bool { return !vs.Has(outAcc, k) || vs.Has(acc, k) })
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool { return !plain || sp_noIncludes(lines, i) })
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return !plain || vs.Eq(sp_reqs(lines, i, acc), sp_reqs(lines, 0, none))
	})
	vs.Inv(func(i int, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(k string) bool {
			return !vs.Has(sp_direct(lines, 0), k) || vs.Has(acc, k) || vs.Has(sp_direct(lines, i), k)
		})
	})
	before := vs.Clone(already)
	vs.Inv(func(seen map[string]struct{}) bool {
		return vs.ForallStr(func(f string) bool { return !vs.Has(before, f) || vs.Has(seen, f) })
	})
	vs.Inv(func(i int, seen map[string]struct{}) bool {
		return vs.ForallStr(func(g string) bool {
			return !vs.Has(sp_targets(path, lines, 0), g) || vs.Has(seen, g) || vs.Has(sp_targets(path, lines, i), g)
		})
	})
	vs.Inv(func(seen map[string]struct{}) bool {
		return vs.ForallStr(func(f string) bool { return !vs.Has(seen, f) || vs.Has(before, f) || sp_taken(f, seen) })
	})
	vs.Inv(func(seen map[string]struct{}, acc map[string]PackageDetails) bool {
		return vs.ForallStr(func(f string) bool {
			return vs.ForallStr(func(k string) bool {
				return !vs.Has(seen, f) || vs.Has(before, f) || !vs.Has(sp_direct(vs.Lines(f), 0), k) || vs.Has(acc, k)
			})
		})
	})
	vs.Inv(func(i int, acc map[string]PackageDetails, srcDs []PackageDetails) bool {
		return vs.Forall(0, i, func(j int) bool { return vs.Has(acc, srcDs[j].Name+"@"+srcDs[j].Version) })
	})
	r, err := parseRequirementsTxt(path, already)
	after := vs.Clone(already)
	vs.Ensures("no file is forgotten", err != nil || vs.ForallStr(func(f string) bool { return !vs.Has(before, f) || vs.Has(after, f) }))
	vs.Ensures("every file that it includes is taken in", err != nil || sp_taken(path, after))
	vs.Ensures("and those that they include", err != nil || vs.ForallStr(func(f string) bool {
		return !vs.Has(after, f) || vs.Has(before, f) || sp_taken(f, after)
	}))
	vs.Ensures("with every requirement line of theirs", err != nil || vs.ForallStr(func(f string) bool {
		return vs.ForallStr(func(k string) bool {
			return !vs.Has(after, f) || vs.Has(before, f) || !vs.Has(sp_direct(vs.Lines(f), 0), k) || sp_listed(r, k)
		})
	}))
	vs.Ensures("an error when the file cannot be read to its end", err != nil || vs.FileErr(path) == nil && vs.ScanErr(path) == nil)
	if err == nil {
		vs.Ensures("every requirement line of the file is listed", vs.ForallStr(func(k string) bool {
			return !vs.Has(sp_direct(lines, 0), k) || !vs.ForallAny(func(p PackageDetails) bool { return !(vs.Member(p, r) && p.Name+"@"+p.Version == k) })
		}))
	}
	if plain {
		all := sp_reqs(lines, 0, none)
		vs.Ensures("without includes, an error only when the file cannot be read", (err != nil) == (vs.FileErr(path) != nil || vs.ScanErr(path) != nil))
		if err == nil {
			vs.Ensures("without includes, exactly the requirement lines", vs.ForallAny(func(p PackageDetails) bool {
				return vs.Member(p, r) == vs.ExistsKey(all, func(k string) bool { return all[k] == p })
			}))
		}
	}
}

func ct__ParseRequirementsTxt(path string) {
	vs.Prop("C09,C11")
	r, err := ParseRequirementsTxt(path)
	lines := vs.Lines(path)
	vs.Ensures("an error when the file cannot be read to its end", err != nil || vs.FileErr(path) == nil && vs.ScanErr(path) == nil)
	if err == nil && sp_noIncludes(lines, 0) {
		all := sp_reqs(lines, 0, map[string]PackageDetails{})
		vs.Ensures("without includes, exactly the requirement lines", vs.ForallAny(func(p PackageDetails) bool {
			return vs.Member(p, r) == vs.ExistsKey(all, func(k string) bool { return all[k] == p })
		}))
	}
	if err == nil {
		vs.Ensures("every requirement line of the file is listed", vs.ForallStr(func(k string) bool {
			return !vs.Has(sp_direct(lines, 0), k) || !vs.ForallAny(func(p PackageDetails) bool { return !(vs.Member(p, r) && p.Name+"@"+p.Version == k) })
		}))
	}
}
