package vfc01

import (
	"testing"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vfdb"
	"github.com/g-rath/osv-detector/internal/vfh"
	"github.com/g-rath/osv-detector/pkg/database"
)

// One entry, no version list: the answer is the ranges' alone.
func TestC01(t *testing.T) {
	h := vfh.New(t, "C01", 1)
	for h.Next() {
		eco := vfdb.Eco(h)
		p := internal.PackageDetails{Name: "a", Ecosystem: internal.Ecosystem(eco), CompareAs: internal.Ecosystem(eco), Version: vfdb.Version(h, eco)}
		var rs database.Affects
		for i := 1 + h.Size(5); i > 0; i-- {
			rs = append(rs, vfdb.Range(h, eco, p.Version))
		}
		o := database.OSV{ID: "X", Affected: []database.Affected{{Package: database.Package{Name: "a", Ecosystem: p.Ecosystem}, Ranges: rs}}}
		if !vfdb.Comparable(o, p) {
			continue
		}
		want := vfdb.IsAffected(o, p)
		in := map[string]any{"package": p, "ranges": rs, "want": want}
		key := vfh.JSON(in)
		h.Guard(in, func() {
			for k := 0; k < 2; k++ { // asking again gives the same answer
				if got := o.IsAffected(p); got != want {
					in["got"], in["call"] = got, k+1
					h.Fail("the ranges count the version as affected wrongly", in)
				}
			}
		})
		h.Saw(key)
	}
}
