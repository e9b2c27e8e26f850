package vfc02

import (
	"testing"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vfdb"
	"github.com/g-rath/osv-detector/internal/vfh"
)

func TestC02(t *testing.T) {
	h := vfh.New(t, "C02", 1)
	for h.Next() {
		p := vfdb.Pkg(h)
		o := vfdb.OSV(h, vfdb.ID(h), []internal.PackageDetails{p, p, p, vfdb.Pkg(h)})
		if !vfdb.Comparable(o, p) {
			continue
		}
		want := vfdb.IsAffected(o, p)
		in := map[string]any{"package": p, "advisory": o, "want": want}
		key := vfh.JSON(in)
		h.Guard(in, func() {
			if got := o.IsAffected(p); got != want {
				in["got"] = got
				h.Fail("the advisory is reported as affecting the package wrongly", in)
			}
		})
		if len(o.Affected) > 0 {
			h.Saw(key)
		}
	}
}
