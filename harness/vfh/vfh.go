// Package vfh is the shared part of the bounded stand-ins: it draws inputs,
// counts what was tried and writes down the first input that fails. It is
// laid over /repo/internal/vfh; nothing of it is in /repo.
package vfh

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// H is one running stand-in.
type H struct {
	*rand.Rand
	T        *testing.T
	prop     string
	deadline time.Time
	mu       sync.Mutex
	evals    int
	distinct map[uint64]struct{}
	samples  []string
	fresh    []string
	lits     []string
	ints     []int
	caseNo   int
	seed     int64
	maxCases int
	scratch  string
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}

	return d
}

func readLines(p string) []string {
	f, err := os.Open(p)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []string
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<24)
	for s.Scan() {
		if v, err := strconv.Unquote(s.Text()); err == nil {
			out = append(out, v)
		}
	}

	return out
}

// New starts a stand-in. share is the part of the time budget it may use.
func New(t *testing.T, prop string, share float64) *H {
	seed := int64(envInt("VERIF_SEED", 1))
	budget := float64(envInt("VERIF_BUDGET_MS", 15000)) * share
	h := &H{T: t, prop: prop, seed: seed, distinct: map[uint64]struct{}{}}
	hh := fnv.New64a()
	hh.Write([]byte(t.Name()))
	h.seed = seed*1000003 + int64(hh.Sum64()%1000000007)
	h.Rand = rand.New(rand.NewSource(h.seed))
	h.deadline = time.Now().Add(time.Duration(budget) * time.Millisecond)
	h.maxCases = envInt("VERIF_MAX_CASES", 1<<30)
	dir := os.Getenv("VERIF_DICT")
	h.fresh = readLines(filepath.Join(dir, "fresh.txt"))
	h.lits = readLines(filepath.Join(dir, "literals.txt"))
	for _, s := range readLines(filepath.Join(dir, "ints.txt")) {
		if n, err := strconv.Atoi(s); err == nil {
			h.ints = append(h.ints, n)
		}
	}
	h.scratch = t.TempDir()
	if q, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = q
	}
	t.Cleanup(h.stats)

	return h
}

func (h *H) Scratch() string { return h.scratch }

// Next says whether there is time for another case; every case has its own seed.
func (h *H) Next() bool {
	if h.T.Failed() || h.caseNo >= h.maxCases || time.Now().After(h.deadline) {
		return false
	}
	h.caseNo++
	h.Rand = rand.New(rand.NewSource(h.seed + int64(h.caseNo)*7919))

	return true
}

func (h *H) Case() int { return h.caseNo }

// Saw counts one evaluated case; key identifies it when it is not trivial.
func (h *H) Saw(key string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.evals++
	if key == "" {
		return
	}
	f := fnv.New64a()
	f.Write([]byte(key))
	if _, ok := h.distinct[f.Sum64()]; !ok {
		h.distinct[f.Sum64()] = struct{}{}
		if len(h.samples) < 3 {
			if len(key) > 600 {
				key = key[:600] + "..."
			}
			h.samples = append(h.samples, key)
		}
	}
}

func (h *H) stats() {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		return
	}
	b, _ := json.Marshal(map[string]any{
		"test": h.T.Name(), "evaluations": h.evals, "distinct": len(h.distinct), "samples": h.samples, "failed": h.T.Failed(),
	})
	_ = os.WriteFile(filepath.Join(out, "stats-"+strings.ReplaceAll(h.T.Name(), "/", "_")+".json"), b, 0o644)
}

// Fail records a failing input and ends the stand-in.
func (h *H) Fail(what string, input any) {
	h.T.Helper()
	h.mu.Lock()
	defer h.mu.Unlock()
	in, err := json.MarshalIndent(input, "", "  ")
	if err != nil {
		in = []byte(strconv.Quote(fmt.Sprintf("%+v", input)))
	}
	if out := os.Getenv("VERIF_OUT"); out != "" {
		b, _ := json.MarshalIndent(map[string]any{
			"property": h.prop, "test": h.T.Name(), "what": what, "input": json.RawMessage(in),
			"seed": os.Getenv("VERIF_SEED"), "case": h.caseNo,
		}, "", "  ")
		_ = os.WriteFile(filepath.Join(out, "fail-"+strings.ReplaceAll(h.T.Name(), "/", "_")+".json"), b, 0o644)
	}
	h.T.Fatalf("%s\ninput: %s", what, in)
}

// Guard turns a panic of the code under test into a failing input.
func (h *H) Guard(input any, f func()) {
	h.T.Helper()
	defer func() {
		if r := recover(); r != nil {
			h.Fail(fmt.Sprintf("panics: %v", r), input)
		}
	}()
	f()
}

func Pick[T any](h *H, xs ...T) T { return xs[h.Intn(len(xs))] }

func (h *H) P(percent int) bool { return h.Intn(100) < percent }

// Lit: a string literal of the code under test; ones that are new in the tree come first.
func (h *H) Lit() string {
	if len(h.fresh) > 0 && h.P(70) {
		return h.fresh[h.Intn(len(h.fresh))]
	}
	if len(h.lits) > 0 {
		return h.lits[h.Intn(len(h.lits))]
	}

	return "lit"
}

// HasFresh says whether the tree has string literals that the reviewed tree has not.
func (h *H) HasFresh() bool { return len(h.fresh) > 0 }

// Str: one of the given strings, now and then a literal of the code or a mix.
func (h *H) Str(xs ...string) string {
	p := 2
	if h.HasFresh() {
		p = 8
	}
	if h.P(p) {
		l := h.Lit()
		switch h.Intn(4) {
		case 0:
			return l
		case 1:
			return l + xs[h.Intn(len(xs))]
		case 2:
			return xs[h.Intn(len(xs))] + l
		}

		return l
	}

	return xs[h.Intn(len(xs))]
}

// Size: a small number, now and then around an integer literal of the code.
func (h *H) Size(max int) int {
	if len(h.ints) > 0 && h.P(4) {
		n := h.ints[h.Intn(len(h.ints))] + h.Intn(3) - 1
		if n >= 0 && n <= max {
			return n
		}
	}
	m := max
	if m > 5 && h.P(85) {
		m = 5
	}

	return h.Intn(m + 1)
}

// Sort helper for oracles.
func JSON(v any) string {
	b, _ := json.Marshal(v)

	return string(b)
}
