package vfcli

import (
	"fmt"
	"os"
	"testing"

	"github.com/g-rath/osv-detector/internal/vfh"
)

// Test runs drawn worlds and applies one judgement.
func Test(t *testing.T, prop string, share float64, judge func(w *World, p Pred, o Out, r Result) string) {
	if os.Getenv("VERIF_BIN") == "" {
		t.Skip("no binary")
	}
	h := vfh.New(t, prop, share)
	s, err := NewServer(h.Scratch())
	if err != nil {
		t.Skip(err)
	}
	defer s.Close()
	for h.Next() {
		w := Draw(h, s)
		p := w.Predict()
		r, err := s.Run(w)
		if err != nil {
			h.Fail("the tool cannot be run: "+err.Error(), w.Input(r))
		}
		if r.Code < 0 || r.Code == 2 {
			h.Fail(fmt.Sprintf("the tool crashes (%d)", r.Code), w.Input(r))
		}
		o := w.Read(r)
		if msg := judge(w, p, o, r); msg != "" {
			h.Fail(msg, w.Input(r))
		}
		key := ""
		if p.Early < 0 {
			key = vfh.JSON(map[string]any{"args": w.Args, "files": len(w.texts), "exit": r.Code, "stdout": r.Stdout})
		}
		h.Saw(key)
	}
}
