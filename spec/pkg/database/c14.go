package database

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/vs"
)

func ct__truncate(str string, limit int) {
	vs.Prop("C14")
	vs.Option("pure")
	vs.Requires(limit >= 0)
	vs.Inv(func(i int, count int, at int) bool { return count <= i && (at == -1 || 0 <= at && at < i) })
	s := truncate(str, limit)
	vs.Ensures("a text that is short enough is left alone", len(str) >= limit || s == str)
	vs.Ensures("otherwise it is a beginning of the text, marked as cut", s == str || strings.HasSuffix(s, "...") && strings.HasPrefix(str, s[:len(s)-3]))
	vs.Ensures("an empty text stays empty", str != "" || s == "")
}

func ct_OSV_Link(osv *OSV) {
	vs.Prop("C14")
	vs.Option("pure")
	vs.Requires(osv != nil)
	s := osv.Link()
	vs.Ensures("a link for advisories of GitHub only", (s != "") == strings.HasPrefix(osv.ID, "GHSA"))
	vs.Ensures("that names the advisory", s == "" || s == "https://github.com/advisories/"+osv.ID)
}

func ct_OSV_Describe(osv *OSV) {
	vs.Prop("C14")
	vs.Option("pure")
	vs.Requires(osv != nil)
	s := osv.Describe()
	vs.Ensures("the summary is stated", osv.Summary == "" || strings.HasPrefix(s, osv.Summary))
	vs.Ensures("never empty", s != "")
	vs.Ensures("the link is given", !strings.HasPrefix(osv.ID, "GHSA") || strings.HasSuffix(s, " ("+"https://github.com/advisories/"+osv.ID+")"))
}
