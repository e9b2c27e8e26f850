package vfc07

import (
	"testing"

	"github.com/g-rath/osv-detector/internal/vfcli"
)

func TestCLI(t *testing.T) {
	vfcli.Test(t, "C07", 1, func(w *vfcli.World, p vfcli.Pred, o vfcli.Out, r vfcli.Result) string {
		return w.Databases(p, o, r)
	})
}
