package vfc13

import (
	"testing"

	"github.com/g-rath/osv-detector/internal/vfcli"
	"github.com/g-rath/osv-detector/internal/vflock"
)

func TestCLI(t *testing.T) {
	vfcli.Test(t, "C13", 0.7, func(w *vfcli.World, p vfcli.Pred, o vfcli.Out, r vfcli.Result) string {
		return w.Discovery(p, o, r)
	})
}

func TestOrder(t *testing.T) { vflock.TestOrder(t, 0.3) }
