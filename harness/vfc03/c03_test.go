package vfc03

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vfdb"
	"github.com/g-rath/osv-detector/internal/vfh"
	"github.com/g-rath/osv-detector/pkg/database"
)

// Directory and zip databases holding drawn advisories, checked by brute force.
func TestC03(t *testing.T) {
	h := vfh.New(t, "C03", 1)
	t.Setenv("TMPDIR", h.Scratch())
	t.Chdir(h.Scratch())
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { _, _ = rw.Write(served) }))
	defer srv.Close()
	base = srv.URL
	for h.Next() {
		one(h)
	}
}

// the archive the local server hands out
var (
	served []byte
	base   string
)

func one(h *vfh.H) {
	var pkgs []internal.PackageDetails
	for i := 1 + h.Size(6); i > 0; i-- {
		pkgs = append(pkgs, vfdb.Pkg(h))
	}
	pool := pkgs
	if h.P(20) {
		pkgs = append(pkgs, pkgs[h.Intn(len(pkgs))])
	}
	if h.P(5) {
		pkgs = nil
	}
	files := map[string]string{}
	wd := vfh.Pick(h, "", "", "sub", "sub/dir", "su")
	isZip := h.P(50)
	var loaded []database.OSV
	for i := h.Size(14); i > 0; i-- {
		o := vfdb.OSV(h, vfdb.ID(h), pool)
		ok := true
		for _, p := range pool {
			ok = ok && vfdb.Comparable(o, p)
		}
		if !ok {
			continue
		}
		name := fmt.Sprintf("%s%s-%d%s", vfh.Pick(h, "", "", "sub/", "sub/dir/", "other/", "sub/dir/deep/er/"), o.ID, i, vfh.Pick(h, ".json", ".json", ".json", ".json", ".json", ".txt", ".JSON"))
		name = strings.ReplaceAll(name, "%", "_")
		if strings.ContainsAny(o.ID, "/\\\x00") || len(o.ID) > 100 {
			continue
		}
		body, _ := json.Marshal(o)
		if h.P(4) {
			files[name] = vfh.Pick(h, "{", "[]", "\"x\"", "{\"id\": 3}", "")

			continue
		}
		files[name] = string(body)
		in := strings.HasSuffix(name, ".json")
		if isZip {
			in = in && strings.HasPrefix(name, wd)
		} else {
			in = in && (wd == "" || strings.HasPrefix(name, wd+"/"))
		}
		if in {
			loaded = append(loaded, o)
		}
	}
	cfg := database.Config{Name: "db", WorkingDirectory: wd}
	dir := filepath.Join(h.Scratch(), fmt.Sprintf("db%d", h.Case()))
	defer os.RemoveAll(dir)
	_ = os.MkdirAll(dir, 0o755)
	if isZip {
		cfg.Type, cfg.URL = "zip", fmt.Sprintf("%s/%d.zip", base, h.Case())
		var buf bytes.Buffer
		w := zip.NewWriter(&buf)
		for n, c := range files {
			f, _ := w.Create(n)
			_, _ = f.Write([]byte(c))
		}
		_ = w.Close()
		served = buf.Bytes()
		defer func() {
			ps, _ := filepath.Glob(filepath.Join(h.Scratch(), "osv-detector-*"))
			for _, p := range ps {
				_ = os.Remove(p)
			}
		}()
	} else {
		cfg.Type, cfg.URL = "dir", "file:/"+filepath.Base(dir)
		for n, c := range files {
			_ = os.MkdirAll(filepath.Join(dir, filepath.Dir(n)), 0o755)
			_ = os.WriteFile(filepath.Join(dir, n), []byte(c), 0o644)
		}
		_ = os.MkdirAll(filepath.Join(dir, wd), 0o755)
	}
	for _, mode := range []string{"all", "all names", "names and others"} {
		var keep []string
		if mode != "all" {
			for _, p := range pkgs {
				keep = append(keep, p.Name)
			}
			if mode == "names and others" {
				keep = append(keep, "zzz", vfdb.Name(h))
			}
		}
		in := map[string]any{"packages": pkgs, "type": cfg.Type, "working-directory": wd, "files": files, "names to keep": keep}
		h.Guard(in, func() {
			db, err := database.Load(cfg, false, 1, keep)
			if err != nil {
				h.Fail("loading fails: "+err.Error(), in)
			}
			for round := 0; round < 2; round++ {
				res, err := db.Check(pkgs)
				if err != nil || len(res) != len(pkgs) {
					h.Fail(fmt.Sprintf("got %d results, error %v", len(res), err), in)
				}
				for i, p := range pkgs {
					if msg := judge(loaded, p, res[i]); msg != "" {
						in["package"], in["got"] = p, res[i]
						h.Fail(msg, in)
					}
				}
			}
		})
	}
	if len(loaded) > 0 && len(pkgs) > 0 {
		h.Saw(vfh.JSON(map[string]any{"packages": pkgs, "files": files, "type": cfg.Type, "wd": wd}))
	}
}

func judge(loaded []database.OSV, p internal.PackageDetails, got database.Vulnerabilities) string {
	norm := func(o database.OSV) string {
		var back database.OSV
		b, _ := json.Marshal(o)
		_ = json.Unmarshal(b, &back)
		// the events of a range may be put in order while matching
		for i := range back.Affected {
			for j := range back.Affected[i].Ranges {
				back.Affected[i].Ranges[j].Events = nil
			}
		}

		return vfh.JSON(back)
	}
	for i, g := range got {
		found := false
		for _, o := range loaded {
			if norm(o) == norm(g) {
				found = true
			}
		}
		if !found {
			return "lists an advisory that was not loaded: " + g.ID
		}
		if g.Withdrawn != nil {
			return "lists a withdrawn advisory: " + g.ID
		}
		if !vfdb.IsAffected(g, p) {
			return "lists an advisory that does not affect the package: " + g.ID
		}
		for j := 0; j < i; j++ {
			if norm(got[j]) == norm(g) {
				return "lists an advisory twice: " + g.ID
			}
		}
	}
	for _, o := range loaded {
		if o.Withdrawn != nil || !vfdb.IsAffected(o, p) {
			continue
		}
		ok := false
		for _, g := range got {
			ok = ok || vfdb.Related(o, g)
		}
		if !ok {
			return "misses an advisory that affects the package: " + o.ID
		}
	}

	return ""
}
