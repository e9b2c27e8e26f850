package vfc08

import (
	"testing"

	"github.com/g-rath/osv-detector/internal/vfcli"
)

func TestCLI(t *testing.T) {
	vfcli.Test(t, "C08", 1, func(w *vfcli.World, p vfcli.Pred, o vfcli.Out, r vfcli.Result) string {
		return w.Config(p, o, r)
	})
}
