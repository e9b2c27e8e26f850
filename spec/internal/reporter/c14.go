package reporter

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/fatih/color"
	"github.com/g-rath/osv-detector/internal/vs"
	"github.com/g-rath/osv-detector/pkg/database"
)

func ct__New(stdout io.Writer, stderr io.Writer, outputAsJSON bool) {
	vs.Prop("C14")
	r := New(stdout, stderr, outputAsJSON)
	vs.Ensures("a reporter", r != nil)
	vs.Ensures("on the given streams, in the given mode", r.stdout == stdout && r.stderr == stderr && r.outputAsJSON == outputAsJSON)
	vs.Ensures("with no results and no errors", len(r.results) == 0 && !r.hasErrored)
}

func ct_Reporter_HasErrored(r *Reporter) {
	vs.Prop("C06,C14")
	vs.Requires(r != nil)
	e := r.HasErrored()
	vs.Ensures("whether an error was printed", e == r.hasErrored)
}

func ct_Reporter_PrintErrorf(r *Reporter, msg string, a ...any) {
	vs.Prop("C06,C14")
	vs.Requires(r != nil && r.stderr != nil)
	vs.Modifies(r)
	vs.ModifiesOut()
	old := *r
	before := vs.Written(r.stderr)
	out := vs.Written(r.stdout)
	r.PrintErrorf(msg, a...)
	vs.Ensures("the run is marked as failed", r.hasErrored)
	vs.Ensures("nothing else about the reporter changes", r.stdout == old.stdout && r.stderr == old.stderr && r.outputAsJSON == old.outputAsJSON && vs.Same(r.results, old.results))
	vs.Ensures("the message goes to standard error", vs.Written(r.stderr) == before+fmt.Sprintf(msg, a...))
	vs.Ensures("nothing goes to standard output", r.stdout == r.stderr || vs.Written(r.stdout) == out)
}

func ct_Reporter_PrintTextf(r *Reporter, msg string, a ...any) {
	vs.Prop("C14")
	vs.Requires(r != nil && r.stderr != nil && r.stdout != nil)
	vs.ModifiesOut()
	before, out := vs.Written(r.stderr), vs.Written(r.stdout)
	r.PrintTextf(msg, a...)
	if r.outputAsJSON {
		vs.Ensures("in JSON mode text goes to standard error", vs.Written(r.stderr) == before+fmt.Sprintf(msg, a...))
		vs.Ensures("in JSON mode no text goes to standard output", r.stdout == r.stderr || vs.Written(r.stdout) == out)
	} else {
		vs.Ensures("text goes to standard output", vs.Written(r.stdout) == out+fmt.Sprintf(msg, a...))
		vs.Ensures("and not to standard error", r.stdout == r.stderr || vs.Written(r.stderr) == before)
	}
}

func ct_Reporter_PrintResult(r *Reporter, result Result) {
	vs.Prop("C14")
	vs.Requires(r != nil && r.stdout != nil && result != nil)
	vs.Modifies(r)
	vs.ModifiesOut()
	old := *r
	out, before := vs.Written(r.stdout), vs.Written(r.stderr)
	r.PrintResult(result)
	vs.Ensures("the streams and the state stay", r.stdout == old.stdout && r.stderr == old.stderr && r.outputAsJSON == old.outputAsJSON && r.hasErrored == old.hasErrored)
	if old.outputAsJSON {
		vs.Ensures("in JSON mode the result is collected, in order", vs.Eq(r.results, vs.Append(old.results, result)))
		vs.Ensures("in JSON mode nothing is written", vs.Written(r.stdout) == out && vs.Written(r.stderr) == before)
	} else {
		vs.Ensures("the result is written at once", vs.Written(r.stdout) == out+result.String())
		vs.Ensures("and not collected", vs.Same(r.results, old.results))
	}
}

func sp_json(results []Result) ([]byte, error) {
	return json.Marshal(struct {
		Results any `json:"results"`
	}{Results: results})
}

func ct_Reporter_PrintJSONResults(r *Reporter) {
	vs.Prop("C14")
	vs.Requires(r != nil && r.stdout != nil && r.stderr != nil)
	vs.Modifies(r)
	vs.ModifiesOut()
	old := *r
	out := vs.Written(r.stdout)
	doc, derr := sp_json(r.results)
	r.PrintJSONResults()
	vs.Ensures("the results are as before", vs.Same(r.results, old.results))
	if derr == nil {
		vs.Ensures("one document with the collected results", vs.Written(old.stdout) == out+string(doc))
		vs.Ensures("no error", r.hasErrored == old.hasErrored)
	} else {
		vs.Ensures("an error that cannot be encoded is reported", r.hasErrored)
		vs.Ensures("and nothing is written to standard output", old.stdout == old.stderr || vs.Written(old.stdout) == out)
	}
}

func ct_Reporter_PrintDatabaseLoadErr(r *Reporter, err error) {
	vs.Prop("C06,C14")
	vs.Requires(r != nil && r.stderr != nil && err != nil)
	vs.Modifies(r)
	vs.ModifiesOut()
	old := *r
	out := vs.Written(r.stdout)
	r.PrintDatabaseLoadErr(err)
	vs.Ensures("the run is marked as failed", r.hasErrored)
	vs.Ensures("nothing else about the reporter changes", r.stdout == old.stdout && r.stderr == old.stderr && r.outputAsJSON == old.outputAsJSON && vs.Same(r.results, old.results))
	vs.Ensures("nothing goes to standard output", old.stdout == old.stderr || vs.Written(old.stdout) == out)
}

// ---- reports

func sp_known(ps []PackageDetailsWithVulnerabilities, n int) int {
	if n <= 0 || n > len(ps) {
		return 0
	}

	return sp_known(ps, n-1) + len(ps[n-1].Vulnerabilities)
}

func sp_ignored(ps []PackageDetailsWithVulnerabilities, n int) int {
	if n <= 0 || n > len(ps) {
		return 0
	}

	return sp_ignored(ps, n-1) + len(ps[n-1].Ignored)
}

func ct_Report_countKnownVulnerabilities(r Report) {
	vs.Prop("C06,C14")
	vs.Option("pure")
	vs.Inv(func(i int, acc int) bool { return acc == sp_known(r.Packages, i) })
	vs.Inv(func(i int, acc int) bool {
		return acc >= 0 && (acc > 0) == vs.Exists(0, i, func(k int) bool { return len(r.Packages[k].Vulnerabilities) > 0 })
	})
	n := r.countKnownVulnerabilities()
	vs.Ensures("the total over all packages", n == sp_known(r.Packages, len(r.Packages)))
	vs.Ensures("positive exactly when some package has a vulnerability",
		n >= 0 && (n > 0) == vs.Exists(0, len(r.Packages), func(k int) bool { return len(r.Packages[k].Vulnerabilities) > 0 }))
}

func ct_Report_countIgnoredVulnerabilities(r Report) {
	vs.Prop("C14")
	vs.Option("pure")
	vs.Inv(func(i int, acc int) bool { return acc == sp_ignored(r.Packages, i) })
	n := r.countIgnoredVulnerabilities()
	vs.Ensures("the total over all packages", n == sp_ignored(r.Packages, len(r.Packages)))
}

func ct_Report_HasKnownVulnerabilities(r Report) {
	vs.Prop("C06,C14")
	vs.Option("pure")
	h := r.HasKnownVulnerabilities()
	vs.Ensures("exactly when some package has a vulnerability", h == vs.Exists(0, len(r.Packages), func(k int) bool { return len(r.Packages[k].Vulnerabilities) > 0 }))
}

func sp_head(p PackageDetailsWithVulnerabilities) string {
	return fmt.Sprintf("  %s %s", color.YellowString("%s@%s", p.Name, p.Version), color.RedString("is affected by the following vulnerabilities:"))
}

func sp_vuln(v database.OSV) string {
	return fmt.Sprintf("    %s %s", color.CyanString("%s:", v.ID), v.Describe())
}

// sp_vulns: the lines with one per advisory added.
func sp_vulns(lines []string, vs_ database.Vulnerabilities, n int) []string {
	if n <= 0 || n > len(vs_) {
		return lines
	}

	return vs.Append(sp_vulns(lines, vs_, n-1), sp_vuln(vs_[n-1]))
}

func sp_lines(ps []PackageDetailsWithVulnerabilities, n int) []string {
	if n <= 0 || n > len(ps) {
		return []string{}
	}
	p := ps[n-1]
	if len(p.Vulnerabilities) == 0 {
		return sp_lines(ps, n-1)
	}

	return sp_vulns(vs.Append(sp_lines(ps, n-1), sp_head(p)), p.Vulnerabilities, len(p.Vulnerabilities))
}

func ct_Report_formatLineByLine(r Report) {
	vs.Prop("C14")
	vs.Option("pure")
	vs.Inv(func(i int, lines []string) bool { return vs.Eq(lines, sp_lines(r.Packages, i)) })
	vs.Inv(func(j int, lines []string, outI int) bool {
		p := r.Packages[outI]
		return vs.Eq(lines, sp_vulns(vs.Append(sp_lines(r.Packages, outI), sp_head(p)), p.Vulnerabilities, j))
	})
	s := r.formatLineByLine()
	vs.Ensures("a block for each package with vulnerabilities, naming each of them", s == strings.Join(sp_lines(r.Packages, len(r.Packages)), "\n"))
}

func sp_form(n int, one, many string) string {
	if n == 1 {
		return one
	}

	return many
}

func sp_ignores(n int) string {
	if n == 0 {
		return ""
	}

	return color.YellowString(" (%d %s ignored)", n, sp_form(n, "was", "were"))
}

func ct_Report_describeIgnores(r Report) {
	vs.Prop("C14")
	vs.Option("pure")
	s := r.describeIgnores()
	vs.Ensures("states the total of ignores", s == sp_ignores(sp_ignored(r.Packages, len(r.Packages))))
}

func ct_Report_String(r Report) {
	vs.Prop("C14")
	s := r.String()
	n := sp_known(r.Packages, len(r.Packages))
	ign := sp_ignores(sp_ignored(r.Packages, len(r.Packages)))
	word := "known"
	if ign != "" {
		word = "new"
	}
	if n == 0 {
		vs.Ensures("nothing found", s == fmt.Sprintf("  %s%s\n", color.GreenString("no %s vulnerabilities found", word), ign))
	} else {
		total := color.RedString("%d %s %s found in %s", n, word, sp_form(n, "vulnerability", "vulnerabilities"), r.FilePath)
		vs.Ensures("the list, the total and the ignores", s == strings.Join(sp_lines(r.Packages, len(r.Packages)), "\n")+"\n"+fmt.Sprintf("\n  %s%s\n", total, ign))
	}
}

// ---- what other packages can say about a reporter

func Sp_ready(r *Reporter) bool {
	return r != nil && r.stdout != nil && r.stderr != nil && r.stdout != r.stderr
}

func Sp_out(r *Reporter) string { return vs.Written(r.stdout) }

func Sp_isJSON(r *Reporter) bool { return r.outputAsJSON }

func Sp_results(r *Reporter) []Result { return r.results }

func Sp_failed(r *Reporter) bool { return r.hasErrored }

// Sp_kept: the streams, the mode and the results are those of the old state.
func Sp_kept(r *Reporter, old Reporter) bool {
	return r.stdout == old.stdout && r.stderr == old.stderr && r.outputAsJSON == old.outputAsJSON && vs.Same(r.results, old.results)
}

// Sp_mute: in JSON mode, standard output is as it was.
func Sp_mute(r *Reporter, out string) bool { return !r.outputAsJSON || vs.Written(r.stdout) == out }

// Sp_own: standard output is not the process's standard error, which databases complain to.
func Sp_own(r *Reporter) bool { return r.stdout != os.Stderr }

// Sp_writable: the results can be written as JSON.
func Sp_writable(r *Reporter) bool {
	_, err := sp_json(r.results)

	return err == nil
}
