package vfc05

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"net/http"
	"net/http/httptest"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vfh"
	"github.com/g-rath/osv-detector/pkg/database"
)

type query struct {
	Commit  string `json:"commit,omitempty"`
	Version string `json:"version,omitempty"`
	Package struct {
		Name      string `json:"name"`
		Ecosystem string `json:"ecosystem"`
	} `json:"package"`
}

type world struct {
	Pkgs   []internal.PackageDetails
	Batch  int
	Base   string
	Faults map[int]string    // batch -> fault
	Detail map[string]string // id -> fault
	Delay  bool
	Pool   []string
	Salt   int

	mu      sync.Mutex
	seen    []string
	fetched []string
}

func (w *world) query(p internal.PackageDetails) query {
	var q query
	if p.Name != "" && p.Ecosystem != "" && p.Version != "" {
		q.Package.Name, q.Package.Ecosystem, q.Version = p.Name, string(p.Ecosystem), p.Version
	} else {
		q.Commit = p.Commit
	}

	return q
}

func num(s string) int {
	f := fnv.New32a()
	f.Write([]byte(s))

	return int(f.Sum32() >> 3)
}

// what the server knows about a query
func (w *world) ids(q query) []string {
	n := num(fmt.Sprintf("%+v %d", q, w.Salt))
	out := []string{}
	for i := 0; i < n%4; i++ {
		out = append(out, w.Pool[(n/7+i*5)%len(w.Pool)])
	}

	return out
}

func (w *world) summary(id string) string { return fmt.Sprintf("about %s %d", id, w.Salt) }

func (w *world) chunk(i int) []query {
	qs := []query{}
	for j := i * w.Batch; j < (i+1)*w.Batch && j < len(w.Pkgs); j++ {
		qs = append(qs, w.query(w.Pkgs[j]))
	}

	return qs
}

func (w *world) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	if w.Delay {
		time.Sleep(time.Duration(num(r.URL.Path+fmt.Sprint(r.ContentLength))%1500) * time.Microsecond)
	}
	hangup := func() {
		if hj, ok := rw.(http.Hijacker); ok {
			if c, _, err := hj.Hijack(); err == nil {
				_ = c.Close()
			}
		}
	}
	if id, ok := strings.CutPrefix(r.URL.Path, w.Base+"/vulns/"); ok && r.Method == http.MethodGet {
		w.mu.Lock()
		w.fetched = append(w.fetched, id)
		w.mu.Unlock()
		switch w.Detail[id] {
		case "404":
			rw.WriteHeader(404)
			_, _ = io.WriteString(rw, `{"code":5,"message":"Bug not found."}`)
		case "500":
			rw.WriteHeader(500)
		case "500 doc":
			rw.WriteHeader(500)
			_, _ = io.WriteString(rw, `{"id":"`+id+`-x","summary":"not this"}`)
		case "hangup":
			hangup()
		case "short":
			rw.Header().Set("Content-Length", "4000")
			_, _ = io.WriteString(rw, `{"id":`)
		case "html":
			_, _ = io.WriteString(rw, `<html>`)
		case "other":
			_, _ = io.WriteString(rw, `{"id":"SOMETHING-ELSE","summary":"not this"}`)
		default:
			b, _ := json.Marshal(map[string]any{"id": id, "summary": w.summary(id), "aliases": []string{"CVE-" + fmt.Sprint(num(id)%3)}})
			_, _ = rw.Write(b)
		}

		return
	}
	if r.URL.Path != w.Base+"/querybatch" || r.Method != http.MethodPost {
		w.mu.Lock()
		w.seen = append(w.seen, "unexpected "+r.Method+" "+r.URL.Path)
		w.mu.Unlock()
		rw.WriteHeader(404)

		return
	}
	var body struct {
		Queries []query `json:"queries"`
	}
	raw, _ := io.ReadAll(r.Body)
	if err := json.Unmarshal(raw, &body); err != nil {
		body.Queries = nil
	}
	w.mu.Lock()
	w.seen = append(w.seen, vfh.JSON(body.Queries))
	w.mu.Unlock()
	fault := ""
	for i, f := range w.Faults {
		if vfh.JSON(w.chunk(i)) == vfh.JSON(body.Queries) {
			fault = f
		}
	}
	type res struct {
		Vulns []map[string]string `json:"vulns,omitempty"`
	}
	results := []res{}
	for _, q := range body.Queries {
		var x res
		for _, id := range w.ids(q) {
			x.Vulns = append(x.Vulns, map[string]string{"id": id, "modified": "2021-01-01T00:00:00Z"})
		}
		results = append(results, x)
	}
	switch fault {
	case "one more":
		results = append(results, res{})
	case "one less":
		results = results[:len(results)-1]
	case "none":
		results = nil
	}
	b, _ := json.Marshal(map[string]any{"results": results})
	switch fault {
	case "400", "500", "503", "204", "201", "206":
		code := 0
		_, _ = fmt.Sscan(fault, &code)
		rw.WriteHeader(code)
		if code != 204 {
			_, _ = rw.Write(b)
		}
	case "hangup":
		hangup()
	case "short":
		rw.Header().Set("Content-Length", fmt.Sprint(len(b)+50))
		_, _ = rw.Write(b)
	case "html":
		_, _ = io.WriteString(rw, "<html>")
	case "cut":
		_, _ = rw.Write(b[:len(b)-1])
	case "empty":
		_, _ = io.WriteString(rw, "{}")
	default:
		_, _ = rw.Write(b)
	}
}

func TestC05(t *testing.T) {
	h := vfh.New(t, "C05", 1)
	var cur *world
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { cur.ServeHTTP(rw, r) }))
	srv.Config.ErrorLog = nil
	defer srv.Close()
	for h.Next() {
		w := draw(h)
		cur = w
		cfg := database.Config{Name: "api", Type: "api", URL: srv.URL + w.Base}
		h.Guard(w, func() { one(h, w, cfg) })
	}
}

func draw(h *vfh.H) *world {
	w := &world{Faults: map[int]string{}, Detail: map[string]string{}, Base: vfh.Pick(h, "", "/v1", "/a/b/v1"), Delay: h.P(50), Salt: h.Intn(1000)}
	n := h.Size(12)
	switch {
	case h.P(3):
		n = 20 + h.Intn(300)
	case h.P(30):
		n = h.Intn(40)
	}
	w.Batch = vfh.Pick(h, 1, 1, 2, 3, 4, 5, 7, 10, n, n+1, max(n-1, 1), 1000, 1<<40)
	if w.Batch < 1 {
		w.Batch = 1
	}
	for i := 0; i < n; i++ {
		p := internal.PackageDetails{
			Name:      h.Str("a", "b", "@scope/x", "com.example:lib", "p+q", "é", "-", fmt.Sprintf("n%d", i), fmt.Sprintf("m%d", i)),
			Version:   h.Str("1.0.0", "1.0.0", "2", "0", fmt.Sprintf("1.%d", i)),
			Ecosystem: internal.Ecosystem(h.Str("npm", "PyPI", "Maven", "Debian:10")),
			Commit:    h.Str("", "", "abc123", fmt.Sprintf("c%d", i)),
		}
		if h.P(10) {
			p.Version = ""
		}
		if h.P(6) {
			p.Name = ""
		}
		if h.P(6) {
			p.Ecosystem = ""
		}
		p.CompareAs = p.Ecosystem
		w.Pkgs = append(w.Pkgs, p)
	}
	k := 1 + h.Size(20)
	if h.P(2) {
		k = 230
	}
	for i := 0; i < k; i++ {
		id := fmt.Sprintf("%s-%d", h.Str("GHSA", "OSV", "CVE-2021", "A"), i)
		if strings.ContainsAny(id, "/.\\?#% \t\n\r\x00") || len(id) > 100 {
			id = fmt.Sprintf("Z-%d", i)
		}
		w.Pool = append(w.Pool, id)
		if h.P(12) {
			w.Detail[id] = vfh.Pick(h, "404", "500", "500 doc", "hangup", "short", "html", "other")
		}
	}
	if n > 0 && h.P(25) {
		for i := 1 + h.Intn(2); i > 0; i-- {
			w.Faults[h.Intn((n+w.Batch-1)/w.Batch)] = vfh.Pick(h, "400", "500", "503", "204", "201", "206", "hangup", "short", "html", "cut", "empty", "one more", "one less", "none")
		}
	}

	return w
}

func one(h *vfh.H, w *world, cfg database.Config) {
	in := map[string]any{"packages": w.Pkgs, "batch size": w.Batch, "batch faults": w.Faults, "detail faults": w.Detail, "delays": w.Delay}
	fail := func(f string, a ...any) {
		in["requests"] = w.seen
		h.Fail(fmt.Sprintf(f, a...), in)
	}
	db, err := database.NewAPIDB(cfg, false, w.Batch)
	if err != nil {
		fail("the api database does not load: %v", err)
	}
	before := slices.Clone(w.Pkgs)
	res, err := db.Check(w.Pkgs)
	w.mu.Lock()
	defer w.mu.Unlock()
	if !slices.Equal(before, w.Pkgs) {
		fail("the packages were changed")
	}
	if len(w.Faults) > 0 {
		if err == nil {
			fail("a failing batch does not fail the check: %s", vfh.JSON(res))
		}
		if len(res) > 0 {
			fail("a failing check returns partial results")
		}
		h.Saw("")

		return
	}
	if err != nil {
		fail("the check fails: %v", err)
	}
	var want []string
	for i := 0; len(w.Pkgs) > 0 && i <= (len(w.Pkgs)-1)/w.Batch; i++ {
		want = append(want, vfh.JSON(w.chunk(i)))
	}
	got := slices.Clone(w.seen)
	slices.Sort(got)
	slices.Sort(want)
	if !slices.Equal(got, want) {
		in["expected requests"] = want
		fail("the packages are not queried exactly once each in batches of the given size")
	}
	if len(res) != len(w.Pkgs) {
		fail("%d results for %d packages", len(res), len(w.Pkgs))
	}
	for i, p := range w.Pkgs {
		ids := w.ids(w.query(p))
		g := []string{}
		for _, o := range res[i] {
			g = append(g, o.ID)
		}
		if !slices.Equal(ids, g) {
			fail("package %d is given %v instead of %v", i, g, ids)
		}
		for _, o := range res[i] {
			if f := w.Detail[o.ID]; f == "" && o.Summary != w.summary(o.ID) {
				fail("package %d: the details of %s are %q", i, o.ID, o.Summary)
			} else if f == "other" && o.Summary != "" {
				fail("package %d: %s has the details of another advisory", i, o.ID)
			}
		}
	}
	key := ""
	if len(w.Pkgs) > 1 {
		key = vfh.JSON(in)
	}
	h.Saw(key)
}

// Settings an api database must refuse.
func TestC05Refuses(t *testing.T) {
	h := vfh.New(t, "C05", 0.05)
	for h.Next() {
		size := h.Intn(5) - 3
		off := h.P(50)
		db, err := database.NewAPIDB(database.Config{URL: "http://127.0.0.1:1/v1"}, off, size)
		if (off || size < 1) != (err != nil) || (err == nil) != (db != nil) {
			h.Fail(fmt.Sprintf("batch size %d, offline %v: %v", size, off, err), size)
		}
		h.Saw(fmt.Sprint(size, off))
		if h.Case() > 200 {
			return
		}
	}
}
