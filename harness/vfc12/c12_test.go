package vfc12

import (
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"testing"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vfh"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func quote(h *vfh.H, f string) string {
	if strings.ContainsAny(f, "\",\n\r") || h.P(15) || strings.HasPrefix(f, " ") {
		return `"` + strings.ReplaceAll(f, `"`, `""`) + `"`
	}

	return f
}

func row(h *vfh.H, n int) string {
	fs := []string{
		h.Str("npm", "PyPI", "Maven", "Debian:10", "", "", "a,b", " npm", "NPM", "x y"),
		h.Str("", "", "", "npm", "Packagist", "-", "npm "),
		h.Str("pkg", "@s/p", "com.x:y", "a\"b", "a,b", "p\nq", "", "é", " sp", "pkg", "pkg2", "Pkg", "pkg-10"),
		h.Str("1.0.0", "", "2", "abc123", "1.0.0-beta", "0.10", "0.9", "v1"),
	}
	for len(fs) < n {
		fs = append(fs, h.Str("", "x", "note"))
	}
	fs = fs[:n]
	var out []string
	for _, f := range fs {
		out = append(out, quote(h, f))
	}

	return strings.Join(out, ",")
}

// what a CSV text asks for, or the row that is wrong (-1: malformed, 0: fine)
func expect(text string) (pkgs []internal.PackageDetails, bad int, uneven bool) {
	r := csv.NewReader(strings.NewReader(text))
	r.FieldsPerRecord = -1
	width := 0
	for i := 1; ; i++ {
		rec, err := r.Read()
		if errors.Is(err, io.EOF) {
			return pkgs, 0, uneven
		}
		if err != nil {
			return nil, -1, uneven
		}
		if width == 0 {
			width = len(rec)
		}
		if len(rec) != width {
			uneven = true
		}
		if len(rec) < 4 || rec[2] == "" || rec[0] == "" && rec[3] == "" {
			return nil, i, uneven
		}
		p := internal.PackageDetails{Name: rec[2], Version: rec[3], Ecosystem: internal.Ecosystem(rec[0]), CompareAs: internal.Ecosystem(rec[1])}
		if rec[1] == "" {
			p.CompareAs = p.Ecosystem
		}
		if rec[0] == "" {
			p.Commit, p.Version = rec[3], ""
		}
		pkgs = append(pkgs, p)
	}
}

func cmp(a, b internal.PackageDetails) int {
	return strings.Compare(fmt.Sprintf("%q", a), fmt.Sprintf("%q", b))
}

func TestC12(t *testing.T) {
	h := vfh.New(t, "C12", 1)
	for h.Next() {
		var rows []string
		n := h.Size(12)
		if h.P(2) {
			n = h.Intn(400)
		}
		width := vfh.Pick(h, 4, 4, 4, 4, 4, 5, 6, 3)
		for i := 0; i < n; i++ {
			w := width
			if h.P(3) {
				w = h.Intn(6) + 1
			}
			rows = append(rows, row(h, w))
			if h.P(4) {
				rows = append(rows, vfh.Pick(h, "", " ", "#c", "\"", "a\"b,c,d,e", ",,,", ",,p,", "npm,,,1", "npm,,p"))
			}
		}
		asFile := h.P(50)
		text := strings.Join(rows, "\n")
		if asFile {
			text = strings.Join(rows, vfh.Pick(h, "\n", "\r\n")) + vfh.Pick(h, "", "\n", "\n\n")
		}
		in := map[string]any{"csv": text, "file": asFile}
		var l lockfile.Lockfile
		var err error
		h.Guard(in, func() {
			if asFile {
				p := filepath.Join(h.Scratch(), "x.csv")
				_ = os.WriteFile(p, []byte(text), 0o644)
				l, err = lockfile.FromCSVFile(p, "csv-file")
				if err == nil && l.FilePath != p {
					h.Fail("another file is named: "+l.FilePath, in)
				}
			} else {
				l, err = lockfile.FromCSVRows("-", "csv-row", rows)
			}
		})
		want, bad, uneven := expect(text)
		switch {
		case bad != 0:
			if err == nil {
				in["packages"] = l.Packages
				h.Fail(fmt.Sprintf("no error although row %d is not a package", bad), in)
			}
			if bad > 0 && !uneven && !regexp.MustCompile(fmt.Sprintf(`(^|[^0-9])%d($|[^0-9])`, bad)).MatchString(strings.ReplaceAll(err.Error(), h.Scratch(), "")) {
				h.Fail(fmt.Sprintf("the error does not name row %d: %v", bad, err), in)
			}
			h.Saw("")

			continue
		case uneven && err != nil:
			h.Saw("")

			continue // records of different lengths may be refused
		case err != nil:
			h.Fail("fails on well-formed rows: "+err.Error(), in)
		}
		got := slices.Clone([]internal.PackageDetails(l.Packages))
		slices.SortFunc(got, cmp)
		slices.SortFunc(want, cmp)
		if !slices.Equal(got, want) {
			in["expected"], in["got"] = want, got
			h.Fail("not exactly one package per record", in)
		}
		key := ""
		if len(want) > 0 {
			key = text
		}
		h.Saw(key)
	}
}
