package vfcli

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vfdb"
	"github.com/g-rath/osv-detector/pkg/database"
	"gopkg.in/yaml.v3"
)

// LF: what has to become of one requested file.
type LF struct {
	Path, ParsedAs string
	Err            bool
	ConfigErr      bool
	Pkgs           []Pkg
	Config         string // path of the config in use, "" for none
	ConfigIgnore   []string
	Ignores        []string
	DBs            []*DB // configured for it
	Loaded         []*DB // ... and loaded
}

type Pred struct {
	Early    int // exit code when nothing is checked, -1 otherwise
	Files    []LF
	HardErr  bool // unreadable lockfile or config, database that does not load
	SoftErr  bool // any other reported error
	Invalid  int  // invalid database entries reported
	Discover int  // paths that cannot be read
}

var parserNames = []string{"bun.lock", "Cargo.lock", "composer.lock", "Gemfile.lock", "go.mod", "mix.lock", "package-lock.json", "packages.lock.json", "pdm.lock", "pnpm-lock.yaml", "poetry.lock", "pylock.toml", "Pipfile.lock", "pom.xml", "pubspec.lock", "renv.lock", "requirements.txt", "yarn.lock", "uv.lock", "gradle.lockfile", "buildscript-gradle.lockfile"}

func (w *World) lookup(p string) (isFile, isDir bool) {
	c := filepath.Clean(p)
	if _, ok := w.texts[c]; ok {
		return true, false
	}
	for _, d := range w.dirs {
		if d == c || strings.HasPrefix(d, c+"/") {
			return false, true
		}
	}
	for f := range w.texts {
		if strings.HasPrefix(f, c+"/") {
			return false, true
		}
	}

	return false, c == "."
}

// trailing slash or missing parents: what the operating system would say
func (w *World) exists(p string) (isFile, isDir bool) {
	if strings.HasPrefix(p, ":") {
		return false, false // no file is called that
	}
	f, d := w.lookup(p)
	if f && strings.HasSuffix(p, "/") {
		return false, false
	}

	return f, d
}

func (w *World) parse(path, as string) (pkgs []Pkg, parsedAs string, err bool) {
	if as == "" {
		as = filepath.Base(path)
	}
	if as != "csv-file" && !slices.Contains(parserNames, as) {
		return nil, as, true
	}
	if t, ok := w.texts[filepath.Clean(path)]; ok && t == "" && (as == "Cargo.lock" || as == "csv-file") {
		return nil, as, false // an empty document of these formats
	}
	for _, f := range w.Files {
		if f.Path == filepath.Clean(path) {
			if f.Broken || f.Kind != as {
				return nil, as, true
			}
			pkgs = append(pkgs, f.Pkgs...)
			sortPkgs(pkgs)

			return pkgs, as, false
		}
	}

	return nil, as, true
}

func sortPkgs(ps []Pkg) {
	sort.SliceStable(ps, func(i, j int) bool {
		if ps[i].Name != ps[j].Name {
			return ps[i].Name < ps[j].Name
		}

		return ps[i].Version < ps[j].Version
	})
}

func split(p string) (string, string) {
	if a, b, ok := strings.Cut(p, ":"); ok {
		return a, b
	}

	return "", p
}

func (w *World) Predict() Pred {
	pr := Pred{Early: -1}
	if w.ParseAs != "" && w.ParseAs != "csv-file" && w.ParseAs != "csv-row" && !slices.Contains(parserNames, w.ParseAs) {
		pr.Early, pr.SoftErr = 127, true

		return pr
	}
	if w.ParseAs == "csv-row" {
		lf := LF{Path: "-", ParsedAs: "csv-row"}
		for _, row := range w.Paths {
			f := strings.Split(row, ",")
			lf.Pkgs = append(lf.Pkgs, Pkg{Name: f[2], Version: f[3], Ecosystem: internal.Ecosystem(f[0]), CompareAs: internal.Ecosystem(f[0])})
		}
		sortPkgs(lf.Pkgs)
		pr.Files = append(pr.Files, lf)
	} else {
		for _, arg := range w.Paths {
			as, p := split(arg)
			if as == "" {
				as = w.ParseAs
			}
			isFile, isDir := w.exists(p)
			var found []string
			switch {
			case isFile:
				found = []string{p}
			case isDir:
				c := filepath.Clean(p)
				for f := range w.texts {
					if filepath.Dir(f) != c {
						continue
					}
					n := as
					if n == "" {
						n = filepath.Base(f)
					}
					if as == "csv-file" || slices.Contains(parserNames, n) {
						found = append(found, f)
					}
				}
				sort.Strings(found)
			default:
				pr.SoftErr = true
				pr.Discover++
			}
			for _, f := range found {
				pkgs, pa, err := w.parse(f, as)
				pr.Files = append(pr.Files, LF{Path: filepath.Clean(f), ParsedAs: pa, Pkgs: pkgs, Err: err})
			}
		}
	}
	if len(pr.Files) == 0 {
		pr.Early = 127
		if len(w.Paths) > 0 && !pr.SoftErr {
			pr.Early = 128
		}
		pr.SoftErr = true

		return pr
	}
	var global *Config
	local := !w.NoConfig && !w.List
	if local && w.ConfigPath != "" {
		local = false
		global = w.Configs[w.ConfigPath]
		if global == nil || global.Broken {
			pr.Early, pr.SoftErr = 127, true

			return pr
		}
		pr.note(global)
	}
	loads := map[string]bool{}
	for i := range pr.Files {
		lf := &pr.Files[i]
		c := global
		if local {
			dir := filepath.Dir(lf.Path)
			c = w.Configs[filepath.Join(dir, ".osv-detector.yml")]
			if c == nil {
				c = w.Configs[filepath.Join(dir, ".osv-detector.yaml")]
			}
			if c != nil && c.Broken {
				lf.Err, lf.ConfigErr = true, true
			} else {
				pr.note(c)
			}
		}
		if lf.Err {
			pr.HardErr = true

			continue
		}
		if c != nil {
			lf.Config = c.Path
			if !w.NoIgnores {
				lf.ConfigIgnore = c.Ignore
				lf.Ignores = append(lf.Ignores, c.Ignore...)
			}
		}
		lf.Ignores = append(lf.Ignores, w.Ignores...)
		add := func(d *DB) {
			for _, x := range lf.DBs {
				if x.ID() == d.ID() {
					return
				}
			}
			lf.DBs = append(lf.DBs, d)
		}
		if c != nil && !w.NoDBs {
			for _, e := range c.Entries {
				if e.valid {
					add(e.db)
				}
			}
		}
		if w.UseAPI {
			add(w.Std["https://api.osv.dev/v1"])
		}
		if w.UseDBs {
			for _, p := range lf.Pkgs {
				if p.Ecosystem != "" {
					add(w.Std["https://osv-vulnerabilities.storage.googleapis.com/"+string(p.Ecosystem)+"/all.zip"])
				}
			}
		}
		for _, d := range lf.DBs {
			ok := !d.FailLoad && !(w.Offline && d.Type == "api")
			loads[d.ID()] = ok
			if ok {
				lf.Loaded = append(lf.Loaded, d)
				if d.FailCheck && !w.List && len(lf.Pkgs) > 0 {
					pr.SoftErr = true
				}
			} else if !w.List {
				pr.HardErr = true
			}
		}
	}

	return pr
}

func (pr *Pred) note(c *Config) {
	if c == nil {
		return
	}
	for _, e := range c.Entries {
		if !e.valid {
			pr.Invalid++
			pr.SoftErr = true
		}
	}
}

// ---- what came out

type OutPkg struct {
	Pkg
	Vulnerabilities []database.OSV `json:"vulnerabilities"`
	Ignored         []database.OSV `json:"ignored"`
}

type Section struct {
	Path     string
	Count    int
	Config   string
	CfgNote  string
	DBs      []string
	FilePath string   `json:"filePath"`
	ParsedAs string   `json:"parsedAs"`
	Packages []OutPkg `json:"packages"`
	Body     []string // text mode: the lines of the result
}

type Out struct {
	Sections []Section
	BadJSON  string
	Loaded   []string // names listed as loaded
}

var reFound = regexp.MustCompile(`^(.*): found (\d+) packages?$`)
var reCfg = regexp.MustCompile(`^  Using config at (.*) \((.*)\)$`)

func (w *World) Read(r Result) Out {
	var o Out
	text := r.Stdout
	if w.JSON {
		text = r.Stderr
		var doc struct {
			Results []Section `json:"results"`
		}
		dec := json.NewDecoder(strings.NewReader(r.Stdout))
		if err := dec.Decode(&doc); err != nil {
			o.BadJSON = err.Error()
		} else if rest := strings.TrimSpace(r.Stdout[dec.InputOffset():]); rest != "" {
			o.BadJSON = "more than one document: " + rest
		}
		o.Sections = doc.Results
	}
	var secs []Section
	for _, l := range strings.Split(text, "\n") {
		if m := reFound.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[2])
			secs = append(secs, Section{Path: m[1], Count: n})

			continue
		}
		if len(secs) == 0 {
			continue
		}
		s := &secs[len(secs)-1]
		if m := reCfg.FindStringSubmatch(l); m != nil {
			s.Config, s.CfgNote = m[1], m[2]

			continue
		}
		if rest, ok := strings.CutPrefix(l, "  Using db "); ok {
			s.DBs = append(s.DBs, rest)

			continue
		}
		s.Body = append(s.Body, l)
	}
	if !w.JSON {
		o.Sections = secs

		return o
	}
	for i := range secs {
		if i < len(o.Sections) {
			x := &o.Sections[i]
			x.Path, x.Count, x.Config, x.CfgNote, x.DBs = secs[i].Path, secs[i].Count, secs[i].Config, secs[i].CfgNote, secs[i].DBs
		}
	}
	if len(secs) != len(o.Sections) {
		o.BadJSON += fmt.Sprintf(" %d results for %d files", len(o.Sections), len(secs))
	}

	return o
}

var reAffected = regexp.MustCompile(`^  (.*)@(\S*) is affected by the following vulnerabilities:$`)
var reVuln = regexp.MustCompile(`^    (\S+): `)
var reTotal = regexp.MustCompile(`^  (\d+) (known|new) vulnerabilit(?:y|ies) found in (.*?)(?: \((\d+) (?:was|were) ignored\))?$`)
var reNone = regexp.MustCompile(`^  no (known|new) vulnerabilities found(?: \((\d+) (?:was|were) ignored\))?$`)

type TextResult struct {
	Affected map[string][]string // name@version -> ids
	Total    int
	Ignored  int
	Seen     bool
	Ended    bool
}

func (s Section) Text() TextResult {
	t := TextResult{Affected: map[string][]string{}}
	cur := ""
	for _, l := range s.Body {
		if m := reAffected.FindStringSubmatch(l); m != nil {
			cur = m[1] + "@" + m[2]
			if t.Affected[cur] == nil {
				t.Affected[cur] = []string{}
			}
		} else if m := reVuln.FindStringSubmatch(l); m != nil && cur != "" {
			t.Affected[cur] = append(t.Affected[cur], m[1])
		} else if m := reTotal.FindStringSubmatch(l); m != nil {
			t.Total, _ = strconv.Atoi(m[1])
			t.Ignored, _ = strconv.Atoi(m[4])
			t.Seen = true
		} else if m := reNone.FindStringSubmatch(l); m != nil {
			t.Ignored, _ = strconv.Atoi(m[2])
			t.Seen = true
		}
	}

	return t
}

// good files, in order
func (p Pred) ok() []LF {
	var out []LF
	for _, f := range p.Files {
		if !f.Err {
			out = append(out, f)
		}
	}

	return out
}

func (w *World) aligned(p Pred, o Out) bool {
	ok := p.ok()
	if p.Early >= 0 || len(ok) != len(o.Sections) {
		return false
	}
	for i := range ok {
		if o.Sections[i].Path != ok[i].Path {
			return false
		}
	}

	return true
}

func (w *World) returned(lf LF, p Pkg) []database.OSV {
	var out []database.OSV
	for _, d := range lf.Loaded {
		if d.FailCheck {
			continue
		}
		for _, x := range d.Returns(p) {
			out = append(out, d.Seen(x))
		}
	}

	return out
}

func ids(os []database.OSV) []string {
	var out []string
	for _, o := range os {
		out = append(out, o.ID)
	}

	return out
}

// Merge (C04): what each package's lists hold, given what the databases returned.
func (w *World) Merge(p Pred, o Out) string {
	if w.List || !w.aligned(p, o) || o.BadJSON != "" {
		return ""
	}
	for i, lf := range p.ok() {
		s := o.Sections[i]
		if !w.JSON {
			t := s.Text()
			for _, pkg := range lf.Pkgs {
				ret := w.returned(lf, pkg)
				for _, id := range t.Affected[pkg.Name+"@"+pkg.Version] {
					if slices.Contains(lf.Ignores, id) {
						return "an ignored advisory is listed: " + id
					}
					if len(lf.Pkgs) == 1 && !slices.Contains(ids(ret), id) {
						return "nobody returned " + id
					}
				}
			}

			continue
		}
		if len(s.Packages) != len(lf.Pkgs) {
			return fmt.Sprintf("%s: %d packages reported, %d checked", lf.Path, len(s.Packages), len(lf.Pkgs))
		}
		for k, op := range s.Packages {
			pkg := lf.Pkgs[k]
			if op.Pkg != pkg {
				return fmt.Sprintf("%s: package %d is %+v instead of %+v", lf.Path, k, op.Pkg, pkg)
			}
			ret := w.returned(lf, pkg)
			all := append(append([]database.OSV{}, op.Vulnerabilities...), op.Ignored...)
			find := func(id string) *database.OSV {
				for i := range ret {
					if ret[i].ID == id {
						return &ret[i]
					}
				}

				return nil
			}
			for a, x := range all {
				if find(x.ID) == nil {
					return fmt.Sprintf("%s: %s is listed for %s but no database returned it", lf.Path, x.ID, pkg.Name)
				}
				for b := 0; b < a; b++ {
					if vfdb.Related(all[b], x) {
						return fmt.Sprintf("%s: %s and %s are the same for %s", lf.Path, all[b].ID, x.ID, pkg.Name)
					}
				}
			}
			for _, x := range ret {
				rep := false
				for _, y := range all {
					rep = rep || vfdb.Related(x, y)
				}
				if !rep {
					return fmt.Sprintf("%s: %s was returned for %s but is not in the report", lf.Path, x.ID, pkg.Name)
				}
			}
			for _, x := range op.Vulnerabilities {
				if slices.Contains(lf.Ignores, x.ID) {
					return fmt.Sprintf("%s: %s should be ignored", lf.Path, x.ID)
				}
			}
			for _, x := range op.Ignored {
				if !slices.Contains(lf.Ignores, x.ID) {
					return fmt.Sprintf("%s: %s is ignored though nobody asked for it", lf.Path, x.ID)
				}
			}
		}
	}

	return ""
}

func (w *World) vulnerable(p Pred, o Out) (must, mustNot bool) {
	mustNot = true
	if w.List {
		return false, true
	}
	for _, lf := range p.ok() {
		for _, pkg := range lf.Pkgs {
			ret := w.returned(lf, pkg)
			none := true
			for _, x := range ret {
				if slices.Contains(lf.Ignores, x.ID) {
					none = false
				} else {
					mustNot = false
				}
			}
			if len(ret) > 0 && none {
				must = true
			}
		}
	}
	if !must && !mustNot { // which of two related advisories is listed decides
		mustNot = true
		for _, s := range o.Sections {
			for _, q := range s.Packages {
				if len(q.Vulnerabilities) > 0 {
					must, mustNot = true, false
				}
			}
			if !w.JSON && len(s.Text().Affected) > 0 {
				must, mustNot = true, false
			}
		}
	}

	return must, mustNot
}

// Exit (C06).
func (w *World) Exit(p Pred, o Out, r Result) string {
	want := p.Early
	if want < 0 {
		must, mustNot := w.vulnerable(p, o)
		switch {
		case p.HardErr:
			want = 127
		case must:
			want = 1
		case p.SoftErr:
			want = 127
		default:
			want = 0
		}
		if must == mustNot && !p.HardErr {
			return ""
		}
	}
	if r.Code != want {
		return fmt.Sprintf("exits with %d, which should be %d", r.Code, want)
	}

	return ""
}

func dbName(d *DB) string {
	if d.Name != "" {
		return d.Name
	}

	return d.ID()
}

// Databases (C07).
func (w *World) Databases(p Pred, o Out, r Result) string {
	if w.List || !w.aligned(p, o) {
		return ""
	}
	used := map[string]*DB{}
	for i, lf := range p.ok() {
		var want, got []string
		for _, d := range lf.Loaded {
			want = append(want, dbName(d))
		}
		for _, d := range lf.DBs {
			used[d.URL] = d
		}
		for _, l := range o.Sections[i].DBs {
			n := l
			if k := strings.LastIndex(l, " ("); k >= 0 {
				n = l[:k]
			}
			got = append(got, n)
		}
		sort.Strings(want)
		sort.Strings(got)
		if !slices.Equal(want, got) {
			return fmt.Sprintf("%s is checked against %q, which should be %q", lf.Path, got, want)
		}
	}
	gets := map[string]int{}
	for _, l := range r.Log {
		m, url, _ := strings.Cut(l, " ")
		if m == "GET" && strings.HasSuffix(url, ".zip") {
			gets[url]++
		}
		known := false
		for u := range used {
			known = known || url == u || strings.HasPrefix(url, u+"/")
		}
		if !known {
			return "contacts a database no lockfile is configured for: " + url
		}
	}
	for u, n := range gets {
		if n > 1 && !hasWD(w.DBs, u) {
			return fmt.Sprintf("loads %s %d times", u, n)
		}
	}

	return ""
}

func hasWD(ds []*DB, url string) bool {
	n := 0
	for _, d := range ds {
		if d.URL == url {
			n++
		}
	}

	return n > 1
}

// Config (C08).
func (w *World) Config(p Pred, o Out, r Result) string {
	if n := strings.Count(r.Stderr, "contains an invalid database"); p.Early < 0 && n != p.Invalid {
		return fmt.Sprintf("%d invalid database entries are reported, which should be %d", n, p.Invalid)
	}
	if p.Early < 0 && len(o.Sections) == len(p.ok()) && !w.List {
		for i, lf := range p.ok() {
			s := o.Sections[i]
			if s.Path != lf.Path {
				return ""
			}
			if s.Config != lf.Config {
				return fmt.Sprintf("%s uses config %q, which should be %q", lf.Path, s.Config, lf.Config)
			}
			if lf.Config != "" {
				note := fmt.Sprintf("%d ignores", len(lf.ConfigIgnore))
				if len(lf.ConfigIgnore) == 1 {
					note = "1 ignore"
				}
				if w.NoIgnores {
					note = "skipping any ignores"
				}
				if s.CfgNote != note {
					return fmt.Sprintf("%s: config with %q, which should be %q", lf.Path, s.CfgNote, note)
				}
			}
			for _, q := range s.Packages {
				for _, x := range q.Vulnerabilities {
					if slices.Contains(lf.Ignores, x.ID) {
						return fmt.Sprintf("%s: %s should be ignored", lf.Path, x.ID)
					}
				}
				for _, x := range q.Ignored {
					if !slices.Contains(lf.Ignores, x.ID) {
						return fmt.Sprintf("%s: %s is ignored by somebody else's config", lf.Path, x.ID)
					}
				}
			}
		}
	} else if p.Early < 0 && !w.List {
		// a config that cannot be read must keep its lockfile from being checked
		for _, lf := range p.Files {
			if !lf.ConfigErr {
				continue
			}
			for _, s := range o.Sections {
				if s.Path == lf.Path {
					return lf.Path + " is checked though its config cannot be read"
				}
			}
		}
	}

	return w.updates(p, o, r)
}

func (w *World) updates(p Pred, o Out, r Result) string {
	for path, c := range w.Configs {
		before, after := w.texts[path], r.Configs[path]
		var mine []int
		for i, lf := range p.ok() {
			if lf.Config == path {
				mine = append(mine, i)
			}
		}
		if c.Broken || !w.Update || w.List || p.Early >= 0 || len(mine) == 0 {
			if before != after {
				return path + " is changed though nobody asked for it"
			}

			continue
		}
		if !w.JSON || !w.aligned(p, o) {
			continue
		}
		found := map[string]bool{}
		for _, i := range mine {
			for _, q := range o.Sections[i].Packages {
				for _, x := range append(append([]database.OSV{}, q.Vulnerabilities...), q.Ignored...) {
					found[x.ID] = true
				}
			}
		}
		type raw struct {
			Ignore    []string            `yaml:"ignore"`
			Databases []map[string]string `yaml:"extra-databases"`
		}
		var a, b raw
		if err := yaml.Unmarshal([]byte(after), &a); err != nil {
			return path + " is not valid afterwards: " + err.Error()
		}
		_ = yaml.Unmarshal([]byte(before), &b)
		got := append([]string{}, a.Ignore...)
		sort.Strings(got)
		if !slices.Equal(got, sortedKeys(found)) {
			return fmt.Sprintf("%s ignores %q afterwards, which should be %q", path, got, sortedKeys(found))
		}
		if len(a.Databases) != len(b.Databases) {
			return path + " has other databases afterwards"
		}
		for i := range a.Databases {
			for k, v := range b.Databases[i] {
				if a.Databases[i][k] != v {
					return path + " has other databases afterwards"
				}
			}
			for k, v := range a.Databases[i] {
				if v != "" && b.Databases[i][k] != v {
					return path + " has other databases afterwards"
				}
			}
		}
	}

	return ""
}

// Discovery (C13).
func (w *World) Discovery(p Pred, o Out, r Result) string {
	if p.Early >= 0 {
		if len(o.Sections) > 0 {
			return "checks files though there are none to check"
		}
		if len(p.Files) == 0 && strings.Contains("\n"+r.Stderr, "\nError, ") {
			return "tries to read files though there are none to check"
		}

		return ""
	}
	var want, got []string
	for _, lf := range p.ok() {
		want = append(want, lf.Path)
	}
	for _, s := range o.Sections {
		got = append(got, s.Path)
	}
	if !slices.Equal(want, got) {
		return fmt.Sprintf("reads the files %q, which should be %q", got, want)
	}
	for i, lf := range p.ok() {
		s := o.Sections[i]
		if s.Count != len(lf.Pkgs) {
			return fmt.Sprintf("%s: found %d packages, which should be %d", lf.Path, s.Count, len(lf.Pkgs))
		}
		if !w.JSON {
			continue
		}
		if s.FilePath != lf.Path || s.ParsedAs != lf.ParsedAs {
			return fmt.Sprintf("%s is reported as %q, parsed as %q, which should be %q", lf.Path, s.FilePath, s.ParsedAs, lf.ParsedAs)
		}
		for k, q := range s.Packages {
			if q.Pkg != lf.Pkgs[k] {
				return fmt.Sprintf("%s: package %d is %+v instead of %+v", lf.Path, k, q.Pkg, lf.Pkgs[k])
			}
		}
	}
	if n, m := strings.Count("\n"+r.Stderr, "\nError, "), len(p.Files)-len(p.ok()); n != m {
		return fmt.Sprintf("%d files that cannot be read are reported, which should be %d", n, m)
	}
	if n := strings.Count(r.Stderr, "Error reading "); n != p.Discover {
		return fmt.Sprintf("%d unreadable paths are reported, which should be %d", n, p.Discover)
	}

	return ""
}

// Streams (C14).
func (w *World) Streams(p Pred, o Out, r Result) string {
	if w.JSON {
		if o.BadJSON != "" {
			return "standard output is not one JSON document: " + o.BadJSON
		}
		if p.Early < 0 && len(o.Sections) != len(p.ok()) {
			return fmt.Sprintf("%d results for %d files", len(o.Sections), len(p.ok()))
		}

		return ""
	}
	errs := p.SoftErr || p.HardErr
	if !errs && r.Stderr != "" {
		return "writes to standard error though nothing is wrong"
	}
	if errs && r.Stderr == "" {
		return "writes nothing to standard error though something is wrong"
	}
	if strings.Contains(r.Stdout, "Error, ") || strings.Contains(r.Stdout, "Error reading") {
		return "writes errors to standard output"
	}
	if p.Early >= 0 || !w.aligned(p, o) {
		return ""
	}
	for i, lf := range p.ok() {
		s := o.Sections[i]
		if w.List {
			var want, got []string
			for _, q := range lf.Pkgs {
				e := string(q.Ecosystem)
				if e == "" {
					e = "<unknown>"
				}
				l := "  " + e + ": " + q.Name
				if q.Version != "" {
					l += "@" + q.Version
				}
				if q.Commit != "" {
					l += " (" + q.Commit + ")"
				}
				want = append(want, l)
			}
			for _, l := range s.Body {
				if l != "" {
					got = append(got, l)
				}
			}
			if !slices.Equal(want, got) {
				return fmt.Sprintf("%s: lists %q, which should be %q", lf.Path, got, want)
			}

			continue
		}
		t := s.Text()
		if !t.Seen {
			return lf.Path + ": the result is not written"
		}
		total := 0
		for _, x := range t.Affected {
			total += len(x)
		}
		if total != t.Total {
			return fmt.Sprintf("%s: says %d vulnerabilities but lists %d", lf.Path, t.Total, total)
		}
		for k, x := range t.Affected {
			if len(x) == 0 {
				return fmt.Sprintf("%s: %s has no vulnerability but is listed", lf.Path, k)
			}
		}
		// which databases return nothing related to each other: exact numbers
		exact := true
		vul, ign := 0, 0
		for _, pkg := range lf.Pkgs {
			ret := w.returned(lf, pkg)
			for a := range ret {
				for b := 0; b < a; b++ {
					if vfdb.Related(ret[a], ret[b]) {
						exact = false
					}
				}
				if slices.Contains(lf.Ignores, ret[a].ID) {
					ign++
				} else {
					vul++
				}
			}
		}
		if exact && (t.Total != vul || t.Ignored != ign) {
			return fmt.Sprintf("%s: says %d vulnerabilities and %d ignored, which should be %d and %d", lf.Path, t.Total, t.Ignored, vul, ign)
		}
	}

	return ""
}
