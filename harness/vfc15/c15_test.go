package vfc15

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/g-rath/osv-detector/internal/vfh"
	"github.com/g-rath/osv-detector/pkg/database"
)

// Sequences of loads of zip databases: server answers, offline runs, damaged caches.

type entry struct {
	etag, date string
	body       []byte
}

type step struct {
	URL     string
	Offline bool
	Answer  string
	ETag    string
	Date    string
	IDs     []string
	Tamper  string
	Got     string
}

type server struct {
	mu   sync.Mutex
	st   *step
	body []byte
	reqs []*http.Request
}

func (s *server) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reqs = append(s.reqs, r)
	rw.Header()["Date"] = nil
	if s.st.Date != "" {
		rw.Header().Set("Date", s.st.Date)
	}
	if s.st.ETag != "" {
		rw.Header().Set("ETag", s.st.ETag)
	}
	switch s.st.Answer {
	case "200", "200 junk", "200 empty":
		_, _ = rw.Write(s.body)
	case "200 short":
		rw.Header().Set("Content-Length", fmt.Sprint(len(s.body)+100))
		_, _ = rw.Write(s.body)
	case "hangup":
		if hj, ok := rw.(http.Hijacker); ok {
			if c, _, err := hj.Hijack(); err == nil {
				_ = c.Close()
			}
		}
	default:
		code := 0
		_, _ = fmt.Sscan(s.st.Answer, &code)
		rw.WriteHeader(code)
		if code != 304 && code != 204 {
			_, _ = rw.Write(s.body)
		}
	}
}

func archive(ids []string) []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for _, id := range ids {
		f, _ := w.Create(id + ".json")
		_, _ = fmt.Fprintf(f, `{"id":%q,"affected":[{"package":{"name":"p","ecosystem":"npm"},"versions":["1"]}]}`, id)
	}
	_ = w.Close()

	return buf.Bytes()
}

// what the disk holds for a URL
func onDisk(dir, url string) (*entry, string) {
	ps, _ := filepath.Glob(filepath.Join(dir, "*"))
	for _, p := range ps {
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		var c *database.Cache
		if json.Unmarshal(b, &c) == nil && c != nil && c.URL == url {
			return &entry{c.ETag, c.Date, c.Body}, p
		}
	}

	return nil, ""
}

func TestC15(t *testing.T) {
	h := vfh.New(t, "C15", 1)
	s := &server{}
	srv := httptest.NewServer(s)
	defer srv.Close()
	other := httptest.NewServer(s)
	defer other.Close()
	for h.Next() {
		dir := filepath.Join(h.Scratch(), fmt.Sprintf("t%d", h.Case()))
		_ = os.Mkdir(dir, 0o755)
		t.Setenv("TMPDIR", dir)
		one(h, s, []string{srv.URL, other.URL}, dir)
		_ = os.RemoveAll(dir)
	}
}

func one(h *vfh.H, s *server, bases []string, dir string) {
	cache := map[string]*entry{}
	disk := map[string]string{}
	paths := []string{"/npm/all.zip", "/NPM/all.zip", "/PyPI/all.zip", "/npm/all.zip?x=1", "/all.zip", "/npm-all.zip", "/n/pm/all.zip", "/", ""}
	urls := []string{}
	for i := 1 + h.Intn(3); i > 0; i-- {
		u := vfh.Pick(h, bases...) + vfh.Pick(h, paths...)
		urls = append(urls, u)
	}
	var trail []*step
	interesting := false
	for n := 1 + h.Intn(6); n > 0; n-- {
		st := &step{URL: vfh.Pick(h, urls...), Offline: h.P(25)}
		trail = append(trail, st)
		in := map[string]any{"steps": trail}
		fail := func(f string, a ...any) { h.Fail(fmt.Sprintf("step %d: ", len(trail))+fmt.Sprintf(f, a...), in) }
		c := cache[st.URL]
		if p := disk[st.URL]; p != "" && c != nil && h.P(20) {
			st.Tamper = vfh.Pick(h, "gone", "empty", "cut", "junk", "null", "wrong type", "no json at end", "list")
			b, _ := os.ReadFile(p)
			switch st.Tamper {
			case "gone":
				_ = os.Remove(p)
			case "empty":
				_ = os.WriteFile(p, nil, 0o644)
			case "cut":
				_ = os.WriteFile(p, b[:h.Intn(len(b))], 0o644)
			case "junk":
				_ = os.WriteFile(p, []byte("\x00junk"), 0o644)
			case "null":
				_ = os.WriteFile(p, []byte("null"), 0o644)
			case "wrong type":
				_ = os.WriteFile(p, []byte(strings.Replace(string(b), `"body":"`, `"body":5,"x":"`, 1)), 0o644)
			case "no json at end":
				_ = os.WriteFile(p, append(b, '}'), 0o644)
			case "list":
				_ = os.WriteFile(p, []byte("[]"), 0o644)
			}
			cache[st.URL], disk[st.URL] = nil, ""
			c = nil
		}
		for i := h.Size(4); i > 0; i-- {
			id := fmt.Sprintf("A-%d", h.Intn(50))
			if !slices.Contains(st.IDs, id) {
				st.IDs = append(st.IDs, id)
			}
		}
		s.body = archive(st.IDs)
		st.Answer = vfh.Pick(h, "200", "200", "200", "200", "200", "304", "304", "304", "200 junk", "200 empty", "200 short", "404", "500", "503", "403", "204", "206", "203", "201", "hangup", "412")
		switch st.Answer {
		case "200 junk":
			s.body = []byte("not a zip " + fmt.Sprint(st.IDs))
		case "200 empty":
			s.body = nil
		}
		st.ETag = vfh.Pick(h, "", `"e1"`, `"e2"`, `W/"e3"`, fmt.Sprintf(`"x%d"`, h.Intn(100)))
		st.Date = vfh.Pick(h, "", "Mon, 01 Jan 2024 00:00:00 GMT", "Tue, 02 Jan 2024 00:00:00 GMT", "Wed, 03 Jan 2024 00:00:00 GMT")
		s.st, s.reqs = st, nil
		var db *database.ZipDB
		var err error
		h.Guard(in, func() {
			db, err = database.NewZippedDB(database.Config{Name: "z", Type: "zip", URL: st.URL}, st.Offline, nil)
		})
		s.mu.Lock()
		got := ""
		if err != nil {
			got = "error"
		} else {
			var ids []string
			for _, o := range db.Vulnerabilities(true) {
				ids = append(ids, o.ID)
			}
			slices.Sort(ids)
			got = "loads " + strings.Join(ids, " ")
		}
		st.Got = got
		reqs := s.reqs
		s.mu.Unlock()
		load := func(b []byte) string {
			r, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
			if err != nil {
				return "error"
			}
			var ids []string
			for _, f := range r.File {
				ids = append(ids, strings.TrimSuffix(f.Name, ".json"))
			}
			slices.Sort(ids)

			return "loads " + strings.Join(ids, " ")
		}
		want := "error"
		next := c
		lenient := false
		if st.Offline {
			if len(reqs) > 0 {
				fail("a server is contacted in offline mode")
			}
			if c != nil {
				want = load(c.body)
			}
		} else {
			if len(reqs) == 0 {
				fail("the server is not asked")
			}
			rq := reqs[0]
			inm, ims := rq.Header.Get("If-None-Match"), rq.Header.Get("If-Modified-Since")
			if c == nil && (inm != "" || ims != "") {
				fail("asks for changes since %q %q without a cached body", inm, ims)
			}
			if c != nil && (inm != c.etag || ims != c.date) {
				fail("asks for changes since %q %q, but the cached body has %q %q", inm, ims, c.etag, c.date)
			}
			switch st.Answer {
			case "200", "200 junk", "200 empty":
				want = load(s.body)
				if st.ETag != "" || st.Date != "" {
					next = &entry{st.ETag, st.Date, s.body}
				} else {
					lenient = true // nothing is said about the cache without validators
				}
			case "304":
				if c != nil {
					want = load(c.body)
				}
			}
		}
		if got != want {
			if err != nil {
				got = err.Error()
			}
			fail("%s instead of %s", got, want)
		}
		d, p := onDisk(dir, st.URL)
		if lenient && (d == nil || c == nil || !bytes.Equal(d.body, c.body)) {
			if d != nil && !bytes.Equal(d.body, s.body) {
				fail("the cache holds something the server never sent for this URL")
			}
			next = d
		}
		if (d == nil) != (next == nil) || d != nil && (d.etag != next.etag || d.date != next.date || !bytes.Equal(d.body, next.body)) {
			fail("the cache on disk is not what the last accepted answer was")
		}
		// the caches of other URLs stay as they are
		for u, e := range cache {
			if o, _ := onDisk(dir, u); u != st.URL && e != nil && (o == nil || !bytes.Equal(o.body, e.body)) {
				fail("the cache of %s was touched", u)
			}
		}
		if c != nil {
			interesting = true
		}
		cache[st.URL], disk[st.URL] = next, p
	}
	key := ""
	if interesting {
		key = vfh.JSON(trail)
	}
	h.Saw(key)
}
