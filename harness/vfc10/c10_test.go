package vfc10

import (
	"testing"

	"github.com/g-rath/osv-detector/internal/vflock"
)

func TestC10(t *testing.T) { vflock.Test(t, "C10", vflock.Structured) }
