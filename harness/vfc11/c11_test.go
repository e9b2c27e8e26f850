package vfc11

import (
	"testing"

	"github.com/g-rath/osv-detector/internal/vflock"
)

func TestC11(t *testing.T) { vflock.Test(t, "C11", vflock.Lines) }
