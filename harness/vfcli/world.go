// Package vfcli runs the real binary in scratch directories filled with drawn
// lockfiles, configs and databases, and states independently what has to come out.
package vfcli

import (
	"archive/zip"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vfdb"
	"github.com/g-rath/osv-detector/internal/vfh"
	"github.com/g-rath/osv-detector/pkg/database"
)

type Pkg = internal.PackageDetails

// DB is one database: what it holds and how it is reached.
type DB struct {
	Name, Type, URL, WD string // as in a config
	OSVs                []database.OSV
	Below               []database.OSV  // of another database, further down in the same place
	NoDetails           map[string]bool // api: details of these cannot be fetched
	FailLoad, FailCheck bool
	BadStatus           int
	Gets                int // zip downloads seen
}

func (d *DB) ID() string {
	id := d.Type + "#" + d.URL
	if d.WD != "" {
		id += "#" + d.WD
	}

	return id
}

// Returns: the advisories the database has for the package.
func (d *DB) Returns(p Pkg) []database.OSV {
	var out []database.OSV
	for _, o := range append(append([]database.OSV{}, d.OSVs...), d.Below...) {
		if o.Withdrawn == nil && d.hits(o, p) {
			out = append(out, o)
		}
	}

	return out
}

func (d *DB) hits(o database.OSV, p Pkg) bool {
	if d.Type == "api" {
		if p.Name == "" || p.Ecosystem == "" || p.Version == "" {
			return p.Commit != "" && o.Details == "commit:"+p.Commit
		}
		if o.Details != "" && strings.HasPrefix(o.Details, "commit:") {
			return false
		}
	}

	return vfdb.IsAffected(o, p)
}

// Seen: the advisory as the tool gets to know it (an api may withhold details).
func (d *DB) Seen(o database.OSV) database.OSV {
	if d.Type == "api" && d.NoDetails[o.ID] {
		return database.OSV{ID: o.ID}
	}

	return o
}

type entry struct { // of a config
	db    *DB
	lines string
	valid bool
}

type Config struct {
	Path    string
	Ignore  []string
	Entries []entry
	Broken  bool
}

type File struct {
	Path   string // relative to the world
	Kind   string // the parser that can read it
	Broken bool
	Pkgs   []Pkg
}

type World struct {
	Dir     string
	Files   []*File
	Configs map[string]*Config // by path
	DBs     []*DB
	Std     map[string]*DB // the databases reached by default, by url
	Args    []string       // flags, then paths
	Paths   []string
	// flags
	ParseAs                             string
	ConfigPath                          string
	NoConfig, Update, NoIgnores, NoDBs  bool
	List, JSON, UseDBs, UseAPI, Offline bool
	Ignores                             []string
	Batch                               int
	texts                               map[string]string
	dirs                                []string
}

// ---- servers

type Server struct {
	mu    sync.Mutex
	w     *World
	Base  string
	Proxy string
	CA    string
	ln    net.Listener
	Log   []string
}

var leafOnce sync.Once
var leaf tls.Certificate
var caPEM []byte

func certs() {
	leafOnce.Do(func() {
		key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "vf"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, DNSNames: []string{"api.osv.dev", "osv-vulnerabilities.storage.googleapis.com"}}
		der, _ := x509.CreateCertificate(crand.Reader, tpl, tpl, &key.PublicKey, key)
		caPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
		leaf = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	})
}

type oneConn struct {
	c    chan net.Conn
	done chan struct{}
}

func (l *oneConn) Accept() (net.Conn, error) {
	c, ok := <-l.c
	if !ok {
		return nil, io.EOF
	}

	return c, nil
}
func (l *oneConn) Close() error   { return nil }
func (l *oneConn) Addr() net.Addr { return &net.TCPAddr{} }

func NewServer(scratch string) (*Server, error) {
	certs()
	s := &Server{CA: filepath.Join(scratch, "ca.pem")}
	_ = os.WriteFile(s.CA, caPEM, 0o644)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s.ln = ln
	s.Base = "http://" + ln.Addr().String()
	s.Proxy = s.Base
	tl := &oneConn{c: make(chan net.Conn, 64)}
	quiet := log.New(io.Discard, "", 0)
	go func() { _ = (&http.Server{Handler: http.HandlerFunc(s.std), ErrorLog: quiet}).Serve(tl) }()
	go func() {
		_ = http.Serve(ln, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			if r.Method == http.MethodConnect {
				hj, _ := rw.(http.Hijacker)
				c, _, err := hj.Hijack()
				if err != nil {
					return
				}
				_, _ = c.Write([]byte("HTTP/1.1 200 OK\r\n\r\n"))
				tl.c <- tls.Server(c, &tls.Config{Certificates: []tls.Certificate{leaf}})

				return
			}
			s.local(rw, r)
		}))
	}()

	return s, nil
}

func (s *Server) Close() { _ = s.ln.Close() }

func (s *Server) std(rw http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	url := "https://" + r.Host
	if strings.HasPrefix(r.Host, "api.osv.dev") {
		s.api(rw, r, s.w.Std[url+"/v1"], "/v1")

		return
	}
	p := r.URL.Path
	s.zip(rw, s.w.Std[url+p], url+p)
}

func (s *Server) local(rw http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	url := s.Base + r.URL.Path
	for _, d := range s.w.DBs {
		if d.URL == url {
			s.zip(rw, d, url)

			return
		}
		if d.Type == "api" && strings.HasPrefix(url, d.URL+"/") {
			s.api(rw, r, d, strings.TrimPrefix(d.URL, s.Base))

			return
		}
	}
	http.Error(rw, "no such database", 404)
}

func (s *Server) zip(rw http.ResponseWriter, d *DB, url string) {
	s.Log = append(s.Log, "GET "+url)
	if d == nil || d.FailLoad {
		http.Error(rw, "no", 500)

		return
	}
	d.Gets++
	rw.Header().Set("ETag", "e1")
	_, _ = rw.Write(s.w.ZipOf(d))
}

// ZipOf: everything that is found at the url.
func (w *World) ZipOf(d *DB) []byte {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	all := []*DB{d}
	for _, e := range w.DBs {
		if e != d && e.URL == d.URL {
			all = append(all, e)
		}
	}
	for _, d := range all {
		for i, o := range d.OSVs {
			f, _ := z.Create(fmt.Sprintf("%s%03d.json", d.WD, i))
			b, _ := json.Marshal(o)
			_, _ = f.Write(b)
		}
	}
	_ = z.Close()

	return buf.Bytes()
}

func (s *Server) api(rw http.ResponseWriter, r *http.Request, d *DB, prefix string) {
	if d == nil {
		http.Error(rw, "no", 404)

		return
	}
	p := strings.TrimPrefix(r.URL.Path, prefix)
	s.Log = append(s.Log, r.Method+" "+d.URL+p)
	if id, ok := strings.CutPrefix(p, "/vulns/"); ok {
		for _, o := range d.OSVs {
			if o.ID == id && !d.NoDetails[id] {
				_ = json.NewEncoder(rw).Encode(o)

				return
			}
		}
		http.Error(rw, "{}", 404)

		return
	}
	if d.FailCheck {
		http.Error(rw, "{\"results\":[]}", d.BadStatus)

		return
	}
	var q struct {
		Queries []struct {
			Commit, Version string
			Package         struct{ Name, Ecosystem string }
		}
	}
	_ = json.NewDecoder(r.Body).Decode(&q)
	type idOnly struct {
		ID string `json:"id"`
	}
	type res struct {
		Vulns []idOnly `json:"vulns,omitempty"`
	}
	out := struct {
		Results []res `json:"results"`
	}{Results: []res{}}
	for _, x := range q.Queries {
		e := internal.Ecosystem(x.Package.Ecosystem)
		var one res
		for _, o := range d.Returns(Pkg{Name: x.Package.Name, Ecosystem: e, CompareAs: e, Version: x.Version, Commit: x.Commit}) {
			one.Vulns = append(one.Vulns, idOnly{o.ID})
		}
		out.Results = append(out.Results, one)
	}
	_ = json.NewEncoder(rw).Encode(out)
}

// ---- running

type Result struct {
	Code           int
	Stdout, Stderr string
	Log            []string
	Configs        map[string]string
}

func CachePath(dir, url string) string {
	return filepath.Join(dir, fmt.Sprintf("osv-detector-%x-db.json", sha256.Sum256([]byte(url))))
}

// Run writes the world to disk, runs the binary in it and reads back what is left.
func (s *Server) Run(w *World) (Result, error) {
	s.mu.Lock()
	s.w = w
	s.Log = nil
	s.mu.Unlock()
	root := filepath.Join(w.Dir, "w")
	tmp := filepath.Join(w.Dir, "tmp")
	for _, d := range append([]string{root, tmp}, w.dirs...) {
		if !filepath.IsAbs(d) {
			d = filepath.Join(root, d)
		}
		_ = os.MkdirAll(d, 0o755)
	}
	for p, t := range w.texts {
		p = filepath.Join(root, p)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			return Result{}, err
		}
	}
	for _, d := range w.DBs {
		if d.Type == "dir" && !d.FailLoad {
			base := filepath.Join(root, strings.TrimPrefix(strings.TrimPrefix(d.URL, "file:"), "/"), d.WD)
			_ = os.MkdirAll(base, 0o755)
			for i, o := range d.OSVs {
				b, _ := json.Marshal(o)
				_ = os.WriteFile(filepath.Join(base, fmt.Sprintf("%03d.json", i)), b, 0o644)
			}
		}
	}
	if w.Offline {
		all := append([]*DB{}, w.DBs...)
		for _, d := range w.Std {
			all = append(all, d)
		}
		for _, d := range all {
			if d.Type == "zip" && !d.FailLoad {
				c, _ := json.Marshal(database.Cache{URL: d.URL, Date: "then", ETag: "e1", Body: w.ZipOf(d)})
				_ = os.WriteFile(CachePath(tmp, d.URL), c, 0o644)
			}
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_BIN"), w.Args...)
	cmd.Dir = root
	cmd.Env = []string{"TMPDIR=" + tmp, "HOME=" + tmp, "SSL_CERT_FILE=" + s.CA, "SSL_CERT_DIR=" + tmp, "HTTPS_PROXY=" + s.Proxy, "NO_COLOR=1", "PATH=/usr/bin:/bin"}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	r := Result{Stdout: so.String(), Stderr: se.String(), Configs: map[string]string{}}
	if ctx.Err() != nil {
		return r, fmt.Errorf("does not end within 30 s")
	}
	if ee, ok := err.(*exec.ExitError); ok {
		r.Code = ee.ExitCode()
	} else if err != nil {
		return r, err
	}
	for p := range w.Configs {
		b, _ := os.ReadFile(filepath.Join(root, p))
		r.Configs[p] = string(b)
	}
	s.mu.Lock()
	r.Log = append(r.Log, s.Log...)
	s.mu.Unlock()
	_ = os.RemoveAll(w.Dir)

	return r, nil
}

func (w *World) Input(r Result) map[string]any {
	dbs := []any{}
	for _, d := range w.DBs {
		dbs = append(dbs, d)
	}

	return map[string]any{"args": w.Args, "files": w.texts, "databases": dbs, "default databases": w.Std, "exit": r.Code, "stdout": r.Stdout, "stderr": r.Stderr, "requests": r.Log, "configs afterwards": r.Configs}
}

// ---- drawing

var pool = []string{"alpha", "beta", "gamma", "delta", "eps-x", "zeta"}
var vers = []string{"1.0.0", "1.2.3", "2.0.0", "3.1.4"}

var Kinds = map[string]string{"package-lock.json": "npm", "Cargo.lock": "crates.io", "composer.lock": "Packagist", "csv-file": ""}

func kindNames() []string {
	return []string{"package-lock.json", "Cargo.lock", "composer.lock", "csv-file"}
}

func render(h *vfh.H, f *File) string {
	var b strings.Builder
	switch f.Kind {
	case "package-lock.json":
		m := map[string]any{"": map[string]string{"name": "root", "version": "9.9.9"}}
		for _, p := range f.Pkgs {
			m["node_modules/"+p.Name] = map[string]string{"version": p.Version}
		}
		b.WriteString(vfh.JSON(map[string]any{"lockfileVersion": 3, "packages": m}))
	case "Cargo.lock":
		b.WriteString("version = 3\n")
		for _, p := range f.Pkgs {
			fmt.Fprintf(&b, "\n[[package]]\nname = %q\nversion = %q\n", p.Name, p.Version)
		}
	case "composer.lock":
		a, c := []any{}, []any{}
		for i, p := range f.Pkgs {
			e := map[string]any{"name": p.Name, "version": p.Version, "dist": map[string]string{"reference": p.Commit}}
			if i%2 == 0 {
				a = append(a, e)
			} else {
				c = append(c, e)
			}
		}
		b.WriteString(vfh.JSON(map[string]any{"packages": a, "packages-dev": c}))
	case "csv-file":
		for _, p := range f.Pkgs {
			v := p.Version
			if p.Ecosystem == "" {
				v = p.Commit
			}
			fmt.Fprintf(&b, "%s,,%s,%s\n", p.Ecosystem, p.Name, v)
		}
	}
	s := b.String()
	if f.Broken {
		s = "{\"broken\n[["
	}

	return s
}

func drawPkgs(h *vfh.H, kind string) []Pkg {
	seen := map[string]bool{}
	var out []Pkg
	for i := h.Size(5); i > 0; i-- {
		eco := internal.Ecosystem(Kinds[kind])
		if kind == "csv-file" {
			eco = vfh.Pick[internal.Ecosystem](h, "npm", "crates.io", "Packagist", "PyPI", "", "npm:9", "crates.io:x", "NPM")
		}
		p := Pkg{Name: h.Str(pool...), Version: vfh.Pick(h, vers...), Ecosystem: eco, CompareAs: eco}
		if strings.ContainsAny(p.Name, "\",\n\r\\'/ :%{}[]#\x00") || p.Name == "" || p.Name == "." || p.Name == ".." || strings.HasPrefix(p.Name, "@") || seen[p.Name+string(eco)] || len(p.Name) > 60 {
			continue
		}
		for _, c := range p.Name {
			if c < 32 || c > 126 {
				p.Name = "odd"
			}
		}
		if seen[p.Name+string(eco)] {
			continue
		}
		seen[p.Name+string(eco)] = true
		if eco == "" {
			p.Version, p.Commit = "", vfh.Pick(h, "c0ffee", "badc0de")
		} else if kind == "composer.lock" && h.P(20) {
			p.Commit = "c0ffee"
		}
		out = append(out, p)
	}

	return out
}

var idPool = []string{"GHSA-a", "GHSA-b", "GHSA-c", "CVE-a", "CVE-b", "CVE-c", "OSV-1", "OSV-2", "OSV-3", "OSV-4"}

func (w *World) drawOSVs(h *vfh.H, d *DB, tag string) {
	d.NoDetails = map[string]bool{}
	n := h.Size(8)
	for i := 0; i < n; i++ {
		o := database.OSV{ID: h.Str(idPool...)}
		if h.P(40) {
			o.ID = fmt.Sprintf("%s-%d", tag, i)
		}
		bad := o.ID == "" || o.ID == "." || o.ID == ".." || len(o.ID) > 40
		for _, c := range o.ID {
			if !(c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
				bad = true
			}
		}
		if bad {
			continue
		}
		for k := h.Intn(4) - 1; k > 0; k-- {
			o.Aliases = append(o.Aliases, vfh.Pick(h, idPool...))
		}
		if d.Type == "api" && h.P(10) {
			o.Details = "commit:c0ffee"
		}
		for k := 1 + h.Intn(3); k > 0; k-- {
			e := vfh.Pick[internal.Ecosystem](h, "npm", "crates.io", "Packagist", "PyPI")
			a := database.Affected{Package: database.Package{Name: vfh.Pick(h, pool...), Ecosystem: e}}
			if h.P(70) {
				a.Ranges = database.Affects{{Type: database.TypeSemver, Events: []database.RangeEvent{{Introduced: "0"}, {Fixed: vfh.Pick(h, "1.1.0", "2.0.0", "3.0.0", "9.0.0")}}}}
			} else {
				a.Versions = database.Versions{vfh.Pick(h, vers...)}
			}
			o.Affected = append(o.Affected, a)
		}
		clash := false
		for _, x := range d.OSVs {
			if x.ID == o.ID || d.Type != "api" && vfdb.Related(x, o) {
				clash = true
			}
		}
		if clash {
			continue
		}
		if d.Type == "api" && h.P(12) {
			d.NoDetails[o.ID] = true
		}
		d.OSVs = append(d.OSVs, o)
	}
}

func (w *World) drawDB(h *vfh.H, s *Server, i int) *DB {
	d := &DB{Type: vfh.Pick(h, "api", "api", "dir", "dir", "zip")}
	switch d.Type {
	case "api":
		d.URL = fmt.Sprintf("%s/api%d", s.Base, i)
	case "dir":
		d.URL = fmt.Sprintf("file:/dbs/d%d", i)
	case "zip":
		d.URL = fmt.Sprintf("%s/z%d.zip", s.Base, i)
	}
	if d.Type != "api" && h.P(25) {
		d.WD = vfh.Pick(h, "sub", "x/y")
		if d.Type == "zip" {
			d.WD += "/"
		}
	}
	if h.P(8) {
		d.FailLoad = d.Type != "api"
		d.FailCheck, d.BadStatus = d.Type == "api", vfh.Pick(h, 500, 404, 201, 400)
	}
	w.drawOSVs(h, d, fmt.Sprintf("DB%d", i))

	return d
}

func yamlList(ids []string) string {
	if len(ids) == 0 {
		return "ignore: []\n"
	}
	s := "ignore:\n"
	for _, x := range ids {
		s += "  - " + x + "\n"
	}

	return s
}

func (w *World) drawConfig(h *vfh.H, path string) {
	c := &Config{Path: path}
	w.Configs[path] = c
	if h.P(6) {
		c.Broken = true
		if h.P(50) && strings.HasSuffix(path, ".yml") {
			w.dirs = append(w.dirs, path)
		} else {
			w.texts[path] = vfh.Pick(h, "ignore: {", "ignore: [a\n", "- x\n", "extra-databases: 3\n")
		}

		return
	}
	for i := h.Intn(4); i > 0; i-- {
		c.Ignore = append(c.Ignore, vfh.Pick(h, idPool...))
	}
	text := yamlList(c.Ignore)
	if h.P(10) && len(c.Ignore) == 0 {
		text = ""
	}
	if n := h.Intn(3); n > 0 && len(w.DBs) > 0 {
		text += "extra-databases:\n"
		for ; n > 0; n-- {
			if h.P(8) {
				e := entry{lines: vfh.Pick(h, "  - url: not a url\n", "  - url: https://x.test/y\n    type: file\n", "  - url: \"\"\n", "  - url: www.x.test/a.zip\n")}
				c.Entries = append(c.Entries, e)
				text += e.lines

				continue
			}
			d := w.DBs[h.Intn(len(w.DBs))]
			l := "  - url: " + d.URL + "\n"
			if h.P(40) {
				l += "    type: " + d.Type + "\n"
			}
			if d.WD != "" {
				l += "    working-directory: " + d.WD + "\n"
			}
			c.Entries = append(c.Entries, entry{db: d, lines: l, valid: true})
			text += l
		}
	}
	w.texts[path] = text
}

// Draw makes up a world and an invocation.
func Draw(h *vfh.H, s *Server) *World {
	w := &World{Dir: filepath.Join(h.Scratch(), fmt.Sprintf("case%d-%s", h.Case(), s.Base[strings.LastIndex(s.Base, ":")+1:])), Configs: map[string]*Config{}, Std: map[string]*DB{}, texts: map[string]string{}}
	for i := h.Intn(4); i >= 0; i-- {
		d := w.drawDB(h, s, i)
		w.DBs = append(w.DBs, d)
		if h.P(30) { // same url, other working directory: another database
			e := *d
			e.WD = vfh.Pick(h, "other", "sub2")
			if d.Type == "zip" {
				e.WD += "/"
			}
			if d.Type != "api" {
				e.OSVs, e.NoDetails = nil, nil
				w.drawOSVs(h, &e, fmt.Sprintf("DB%dw", i))
				if d.WD == "" { // holds both
					e.OSVs = slices.DeleteFunc(e.OSVs, func(x database.OSV) bool {
						return slices.ContainsFunc(d.OSVs, func(o database.OSV) bool { return x.ID == o.ID || vfdb.Related(x, o) })
					})
					d.Below = e.OSVs
				}
			}
			w.DBs = append(w.DBs, &e)
		}
	}
	for _, e := range []string{"npm", "crates.io", "Packagist", "PyPI", "npm:9", "crates.io:x", "NPM"} {
		d := &DB{Name: e, Type: "zip", URL: "https://osv-vulnerabilities.storage.googleapis.com/" + e + "/all.zip", FailLoad: h.P(4)}
		w.drawOSVs(h, d, "STD-"+strings.ReplaceAll(e, ".", ""))
		w.Std[d.URL] = d
	}
	a := &DB{Name: "osv.dev v1 API", Type: "api", URL: "https://api.osv.dev/v1"}
	w.drawOSVs(h, a, "STDAPI")
	if h.P(5) {
		a.FailCheck, a.BadStatus = true, 503
	}
	w.Std[a.URL] = a

	dirs := []string{"p0", "p1", "p2", "p3"}[:1+h.Intn(4)]
	if h.P(20) {
		dirs = append(dirs, "odd:dir")
	}
	for _, d := range dirs {
		w.dirs = append(w.dirs, d)
		for _, k := range kindNames() {
			if !h.P(40) {
				continue
			}
			name := k
			if k == "csv-file" || h.P(20) {
				name = vfh.Pick(h, "list.csv", "my:list.csv", "deps.lock", "x", "package-lock.json.bak")
			}
			p := d + "/" + name
			if _, ok := w.texts[p]; ok {
				continue
			}
			f := &File{Path: p, Kind: k, Broken: h.P(6), Pkgs: drawPkgs(h, k)}
			w.Files = append(w.Files, f)
			w.texts[p] = render(h, f)
		}
		if h.P(25) {
			w.texts[d+"/readme.txt"] = "hi"
		}
		for i := h.Intn(6) - 1; i > 0; i-- { // almost the name of a lockfile
			n := vfh.Pick(h, parserNames...)
			n = vfh.Pick(h, n+".bak", n+"~", "x"+n, "dev-"+n, strings.ToUpper(n), n+".txt", strings.TrimSuffix(n, filepath.Ext(n)), n+"2", "."+n)
			if _, ok := w.texts[d+"/"+n]; !ok && !slices.Contains(parserNames, n) {
				w.texts[d+"/"+n] = "hi"
			}
		}
		if h.P(10) { // directories are not searched further
			w.texts[d+"/sub/"+vfh.Pick(h, "Cargo.lock", "package-lock.json", ".osv-detector.yml")] = ""
		}
		if h.P(10) {
			w.dirs = append(w.dirs, d+"/Gemfile.lock") // a directory named like a lockfile
		}
		if h.P(30) {
			w.drawConfig(h, d+"/.osv-detector.yml")
		}
		if h.P(25) {
			w.drawConfig(h, d+"/.osv-detector.yaml")
		}
	}
	if h.P(30) {
		w.drawConfig(h, "global.yml")
	}
	if h.P(15) {
		w.drawConfig(h, ".osv-detector.yml")
	}
	w.flags(h, dirs)

	return w
}

func (w *World) flags(h *vfh.H, dirs []string) {
	w.Batch = 1000
	var a []string
	on := func(p int, name string, v *bool) {
		if h.P(p) {
			*v = true
			a = append(a, vfh.Pick(h, "--", "-")+name+vfh.Pick(h, "", "=true"))
		}
	}
	on(12, "no-config", &w.NoConfig)
	on(12, "no-config-ignores", &w.NoIgnores)
	on(12, "no-config-databases", &w.NoDBs)
	on(25, "update-config-ignores", &w.Update)
	on(8, "list-packages", &w.List)
	on(75, "json", &w.JSON)
	on(25, "use-api", &w.UseAPI)
	w.UseDBs = h.P(40)
	if !w.UseDBs {
		a = append(a, "--use-dbs=false")
	}
	on(8, "offline", &w.Offline)
	if h.P(25) {
		w.ConfigPath = vfh.Pick(h, "global.yml", "global.yml", "global.yml", "missing.yml")
		a = append(a, "--config", w.ConfigPath)
	}
	for i := h.Intn(5) - 1; i > 0; i-- {
		id := vfh.Pick(h, idPool...)
		w.Ignores = append(w.Ignores, id)
		a = append(a, "--ignore", id)
	}
	if h.P(40) {
		w.Batch = 1 + h.Intn(4)
		a = append(a, "--batch-size", fmt.Sprint(w.Batch))
	}
	switch k := h.Intn(100); {
	case k < 6:
		w.ParseAs = vfh.Pick(h, kindNames()...)
	case k < 8:
		w.ParseAs = "no-such-parser"
	case k < 12:
		w.ParseAs = "csv-row"
	}
	if w.ParseAs != "" {
		a = append(a, "--parse-as", w.ParseAs)
	}
	if w.ParseAs == "csv-row" {
		for i := h.Intn(4); i > 0; i-- {
			p := Pkg{Name: vfh.Pick(h, pool...), Version: vfh.Pick(h, vers...), Ecosystem: vfh.Pick[internal.Ecosystem](h, "npm", "crates.io")}
			w.Paths = append(w.Paths, fmt.Sprintf("%s,,%s,%s", p.Ecosystem, p.Name, p.Version))
		}
	} else {
		for i := h.Intn(4); i >= 0; i-- {
			w.Paths = append(w.Paths, w.drawPath(h, dirs))
		}
		if h.P(2) {
			w.Paths = nil
		}
	}
	w.Args = append(a, w.Paths...)
}

func (w *World) drawPath(h *vfh.H, dirs []string) string {
	p := vfh.Pick(h, dirs...)
	kind := ""
	if len(w.Files) > 0 && h.P(65) {
		f := w.Files[h.Intn(len(w.Files))]
		p, kind = f.Path, f.Kind
		if h.P(10) {
			p = strings.Replace(p, "/", vfh.Pick(h, "//", "/./", "/../"+strings.SplitN(p, "/", 2)[0]+"/"), 1)
		}
	} else if h.P(12) {
		p = vfh.Pick(h, "missing", "p0/missing/Cargo.lock", "p0/nope.lock")
	} else if h.P(10) {
		p += "/"
	}
	switch k := h.Intn(104); {
	case k >= 102:
		return kind + "::" + p
	case k >= 100:
		return ":" + p
	case kind != "" && k < 45:
		return kind + ":" + p
	case k < 50:
		return vfh.Pick(h, kindNames()...) + ":" + p
	case k < 54:
		return "bogus:" + p
	case k < 60 || strings.Contains(p, ":"):
		return ":" + p
	}

	return p
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)

	return ks
}
