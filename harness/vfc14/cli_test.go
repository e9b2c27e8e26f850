package vfc14

import (
	"testing"

	"github.com/g-rath/osv-detector/internal/vfcli"
)

func TestCLI(t *testing.T) {
	vfcli.Test(t, "C14", 0.7, func(w *vfcli.World, p vfcli.Pred, o vfcli.Out, r vfcli.Result) string {
		return w.Streams(p, o, r)
	})
}
