package vfc14

import (
	"bytes"
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/reporter"
	"github.com/g-rath/osv-detector/internal/vfcli"
	"github.com/g-rath/osv-detector/internal/vfh"
	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

type rep struct {
	reporter.Report
	vulns, ignored int
	affected       map[string][]string
}

func draw(h *vfh.H, n int) rep {
	r := rep{affected: map[string][]string{}}
	r.FilePath = fmt.Sprintf("dir/file%d.lock", n)
	r.ParsedAs = "csv-file"
	osvs := func() (vs database.Vulnerabilities) {
		vs = database.Vulnerabilities{}
		for i := h.Intn(5) - 1; i > 0; i-- {
			vs = append(vs, database.OSV{ID: vfh.Pick(h, "A-1", "A-2", "B-1", "B-2", "C-1"), Aliases: []string{vfh.Pick(h, "A-1", "B-1", "X-1")}, Summary: vfh.Pick(h, "", "short", strings.Repeat("long ", 40), "100% sure", "two\nlines"), Details: vfh.Pick(h, "", "more", "%d and %s")})
		}

		return vs
	}
	for i := h.Size(6); i > 0; i-- {
		d := internal.PackageDetails{Name: fmt.Sprintf("%s%d", vfh.Pick(h, "a", "b%d", "@s/c"), i), Version: vfh.Pick(h, "1", "2.0%v"), Ecosystem: "npm", CompareAs: "npm"}
		p := reporter.PackageDetailsWithVulnerabilities{PackageDetails: d, Vulnerabilities: osvs(), Ignored: osvs()}
		r.Lockfile.Packages = append(r.Lockfile.Packages, d)
		r.Report.Packages = append(r.Report.Packages, p)
		r.vulns += len(p.Vulnerabilities)
		r.ignored += len(p.Ignored)
		for _, v := range p.Vulnerabilities {
			r.affected[d.Name+"@"+d.Version] = append(r.affected[d.Name+"@"+d.Version], v.ID)
		}
	}

	return r
}


// TestReport: what the reporter writes about any sequence of reports, texts and errors.
func TestReport(t *testing.T) {
	h := vfh.New(t, "C14", 0.3)
	for h.Next() {
		var so, se bytes.Buffer
		asJSON := h.P(50)
		rp := reporter.New(&so, &se, asJSON)
		var texts, errs string
		var results []reporter.Result
		var reps []rep
		in := map[string]any{"json": asJSON}
		var log []string
		for i, n := 0, h.Size(8); i < n; i++ {
			before := so.Len()
			switch h.Intn(5) {
			case 0:
				rp.PrintTextf("text %d %s\n", i, "x")
				texts += fmt.Sprintf("text %d x\n", i)
				log = append(log, "text")
			case 1:
				rp.PrintErrorf("error %d %s\n", i, "x")
				errs += fmt.Sprintf("error %d x\n", i)
				log = append(log, "error")
			case 2:
				l := lockfile.Lockfile{FilePath: fmt.Sprintf("list%d", i), ParsedAs: "x", Packages: lockfile.Packages{}}
				for k := h.Intn(3); k > 0; k-- {
					l.Packages = append(l.Packages, internal.PackageDetails{Name: fmt.Sprint("p", k), Version: "1", Ecosystem: "npm"})
				}
				rp.PrintResult(l)
				results = append(results, l)
				log = append(log, "list")
				if !asJSON && so.String()[before:] != l.String() {
					h.Fail("a list of packages is not written as it is", in)
				}
			default:
				r := draw(h, i)
				reps = append(reps, r)
				in["report"] = r.Report
				rp.PrintResult(r.Report)
				results = append(results, r.Report)
				log = append(log, "report")
				if r.HasKnownVulnerabilities() != (r.vulns > 0) {
					h.Fail("HasKnownVulnerabilities is wrong", in)
				}
				if asJSON {
					break
				}
				got := vfcli.Section{Body: strings.Split(so.String()[before:], "\n")}.Text()
				in["text"] = so.String()[before:]
				if !got.Seen || got.Total != r.vulns || got.Ignored != r.ignored {
					h.Fail(fmt.Sprintf("says %d found and %d ignored instead of %d and %d", got.Total, got.Ignored, r.vulns, r.ignored), in)
				}
				for k, ids := range r.affected {
					if !slices.Equal(got.Affected[k], ids) {
						h.Fail(fmt.Sprintf("%s: lists %q instead of %q", k, got.Affected[k], ids), in)
					}
				}
				if len(got.Affected) != len(r.affected) {
					h.Fail("lists packages that are not affected", in)
				}
			}
		}
		in["calls"] = log
		in["stderr"] = se.String()
		if rp.HasErrored() != (errs != "") {
			h.Fail("HasErrored is wrong", in)
		}
		if asJSON {
			if so.Len() != 0 {
				h.Fail("something is on standard output before the document: "+so.String(), in)
			}
			rp.PrintJSONResults()
			var doc struct {
				Results []json.RawMessage `json:"results"`
			}
			if err := json.Unmarshal(so.Bytes(), &doc); err != nil || doc.Results == nil {
				h.Fail(fmt.Sprintf("not a JSON document with results: %v: %.200s", err, so.String()), in)
			}
			if len(doc.Results) != len(results) {
				h.Fail(fmt.Sprintf("%d results instead of %d", len(doc.Results), len(results)), in)
			}
			for i, r := range results {
				want, _ := json.Marshal(r)
				if !bytes.Equal(doc.Results[i], want) {
					h.Fail(fmt.Sprintf("result %d is %.300s instead of %.300s", i, doc.Results[i], want), in)
				}
			}
		}
		for _, l := range strings.SplitAfter(errs, "\n") {
			if !strings.Contains(se.String(), l) {
				h.Fail("an error is missing from standard error: "+l, in)
			}
		}
		if !asJSON && se.String() != errs {
			h.Fail("standard error has other than the errors", in)
		}
		for _, l := range strings.SplitAfter(texts, "\n") {
			if l != "" && strings.Contains(so.String(), l) == asJSON {
				h.Fail("text is on the wrong stream: "+l, in)
			}
		}
		h.Saw(fmt.Sprint(asJSON, log, len(reps)))
	}
}
