package vfc09

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/g-rath/osv-detector/internal/configer"
	"github.com/g-rath/osv-detector/internal/reporter"
	"github.com/g-rath/osv-detector/internal/vfh"
	"github.com/g-rath/osv-detector/internal/vflock"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

type job struct {
	Dir, Path, As string
	Rows          []string
	Files         map[string]string
}

// one parse; in the child
func do(j job) string {
	r := reporter.New(io.Discard, io.Discard, false)
	switch j.As {
	case "config":
		_, _ = configer.Load(r, j.Path)
		_, _ = configer.Find(r, j.Dir)
		_ = configer.UpdateWithIgnores(j.Path, []string{"X-1"})
	case "csv-file":
		_, _ = lockfile.FromCSVFile(j.Path, "csv-file")
	case "csv-row":
		_, _ = lockfile.FromCSVRows("-", "-", j.Rows)
	default:
		l, err := lockfile.Parse(j.Path, j.As)
		if err == nil {
			_ = l.String()
			_ = l.Packages.Ecosystems()
		}
		if p, _ := lockfile.FindParser(j.Path, j.As); p != nil {
			if ps, perr := p(j.Path); (perr == nil) != (err == nil) && j.As != "requirements.txt" {
				return fmt.Sprintf("the parser says %v (%d packages) but Parse says %v", perr, len(ps), err)
			}
		}
	}

	return ""
}

// the child process: parses every job of a list and says which one it is at
func TestMain(m *testing.M) {
	if p := os.Getenv("VERIF_C09_JOBS"); p != "" {
		b, _ := os.ReadFile(p)
		var js []job
		if err := json.Unmarshal(b, &js); err != nil {
			os.Exit(9)
		}
		out := os.NewFile(3, "out")
		for i, j := range js {
			fmt.Fprintf(out, "at %d\n", i)
			if msg := do(j); msg != "" {
				fmt.Fprintf(out, "bad %d %s\n", i, strings.ReplaceAll(msg, "\n", " "))
			}
		}
		fmt.Fprintln(out, "end")
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// runs the jobs in a child; -1: all fine
func batch(h *vfh.H, js []job) (int, string) {
	p := filepath.Join(h.Scratch(), "jobs.json")
	b, _ := json.Marshal(js)
	_ = os.WriteFile(p, b, 0o644)
	pr, pw, err := os.Pipe()
	if err != nil {
		return -1, ""
	}
	defer pr.Close()
	var errb strings.Builder
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "VERIF_C09_JOBS="+p, "GOMEMLIMIT=2GiB", "GOTRACEBACK=single")
	c.ExtraFiles = []*os.File{pw}
	c.Stderr = &errb
	c.Dir = h.Scratch()
	if err := c.Start(); err != nil {
		pw.Close()

		return -1, ""
	}
	pw.Close()
	lines := make(chan string, 16)
	go func() {
		s := bufio.NewScanner(pr)
		s.Buffer(make([]byte, 1<<16), 1<<24)
		for s.Scan() {
			lines <- s.Text()
		}
		close(lines)
	}()
	at, why := 0, ""
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				werr := c.Wait()
				tail := errb.String()
				if len(tail) > 1500 {
					tail = tail[:1500]
				}

				return at, fmt.Sprintf("the process ended while parsing (%v): %s", werr, tail)
			}
			switch {
			case l == "end":
				_ = c.Wait()
				if why != "" {
					return at, why
				}

				return -1, ""
			case strings.HasPrefix(l, "bad "):
				n := 0
				_, _ = fmt.Sscanf(l, "bad %d", &n)
				if why == "" {
					_ = c.Process.Kill()
					_ = c.Wait()

					return n, l
				}
			default:
				_, _ = fmt.Sscanf(l, "at %d", &at)
			}
		case <-time.After(60 * time.Second):
			_ = c.Process.Kill()
			_ = c.Wait()

			return at, "the parser does not return (60 s)"
		}
	}
}

var odd = []string{
	"", "null", "{}", "[]", "\"\"", "0", "true", "~", "- ", "a", "\n", "\x00", "\ufeff", "{", "[null]", "---\n", "---\n---\n", "--- []\n", " ", "  \n", "\t",
	"<a/>", "<project/>", "<project>", "[[package]]\n", "[[packages]]\n", "[package]\n", "package = 1\n", "[metadata]\n", "packages:\n", "packages: null\n",
	"packages: []\n", "packages:\n  a:\n", "packages:\n  /a:\n", "packages:\n  '': {}\n", "packages:\n  /: {}\n", "lockfileVersion: x\npackages: {a: {}}\n", "{\"packages\":null}", "{\"packages\":{\"\":null}}",
	"{\"packages\":{\"a\":null}}", "{\"packages\":{\"a\":[]}}", "{\"packages\":{\"a\":[null]}}", "{\"packages\":{\"a\":[\"\"]}}", "{\"packages\":{\"a\":[\"@\"]}}", "{\"packages\":{\"a\":[1]}}", "{\"packages\":[null]}",
	"{\"dependencies\":{\"a\":null}}", "{\"dependencies\":{\"a\":{\"version\":null}}}", "{\"version\":1,\"dependencies\":{\"\":{\"\":null}}}", "{\"lockfileVersion\":null}", "{\"default\":null}", "{\"Packages\":null}",
	"module", "require (", "require a", "replace a => b", "go 1", "GEM", "GEM\n", "GIT\n    a (1)\n", "    a (1)\n", "GEM\n  specs:\n    \n", "a:b:c=", "a:b=", ":", "::=", "=", "# \n", "\\", "a\\", "-r", "-r ", "-r requirements.txt\n",
	"-c requirements.txt\n", "@ ", "a @ ", "a==", "==1", ">=", "~=", "a~=", "a[", "a]", "a[b", ";", " ;", "a;b", "%{", "%{\n  \"a\":", "  \"a\": {:hex", "  \"a\": {},", "  \"a\": {:git, \"x\", \"y\"},", "a@1:\n", "\"a@1\":\n", "a@1:\n  version \"1\"\n",
	"  version \"1\"\n", "\"\":\n  version \"\"\n", "@:\n  version \"1\"\n", "a:\n  version:", "a@\n", "ignore:\n", "ignore: 1\n", "extra-databases:\n", "extra-databases: [null]\n", "extra-databases:\n  - url: ':'\n", "extra-databases: {}\n", "*a", "&a [*a]", "a: &a\n  <<: *a\n",
	"${a}", "<project><dependencies><dependency/></dependencies></project>", "<project><properties><a>${b}</a><b>${a}</b></properties><dependencies><dependency><groupId>g</groupId><artifactId>a</artifactId><version>${a}</version></dependency></dependencies></project>",
	"<project><properties><a>${a}</a></properties><dependencies><dependency><version>${a}-${}-${</version></dependency></dependencies></project>",
	"{\"R\":null}", "{\"Packages\":{\"a\":null}}", ",,,", "a,b,c,d\n,,", "\"", "a,\"b", ",,x,\n", "lock-version = \"x\"", "[[package]]\nname = 1", "[[package]]\nsource = {}", "[[package]]\n[package.source]\n", "sdks: 1", "packages:\n  a: 1\n", "packages:\n  a: {description: x}\n", "packages:\n  a: {description: null, version: null}\n", "packages:\n  a: {description: []}\n",
	"packages:\n  a: {description: {resolved-ref: 1}}\n",
}

// tokens that turn up where the formats have structure
var tokens = []string{
	"null", "{}", "[]", "\"\"", "0", "-1", "1e999", "true", ":", ",", "@", "/", "#", "=", "==", "(", ")", "[", "]", "{", "}", "\"", "'", "\\", "\n", "\r", "\t", " ", "  ", "    ", "\x00", "\xff", "é", "%", "%{", "${", "${}", "}", "-", "_", ".", "..", "~", "*", "&a", "!", "|", ">", "<", "</", "<!--", "-->", "file:", "link:", "workspace:",
	"git+", "git+https://", "git+ssh://git@h/a.git#", "https://x/a#b", "https://x/%zz", "npm:", "npm:@", "version", "\n\n", "  version \"\"\n", "-r ", "-r requirements.txt\n", "--hash=", ";", " ; ", ":git", ":hex", "=>", " => ", "//", "require ", "replace ", "v", "+", "_", "(", "GIT\n", "  revision: ", "  specs:\n", "\ufeff", "\u2028",
}

// JSON-level damage: any node becomes something else
func hurt(h *vfh.H, v any, left *int) any {
	if h.Intn(100) < 6 && *left > 0 {
		*left--

		return vfh.Pick[any](h, nil, nil, map[string]any{}, []any{}, []any{nil}, "", 0, -1.5, true, "x", "@", "a@", "@a", "a@b@c", map[string]any{"": nil}, []any{[]any{}}, "npm:", "file:", 1e300)
	}
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			if h.Intn(100) < 3 {
				k = vfh.Pick(h, "", "/", "@", "@/", "node_modules/", "node_modules", "a", "\x00", "name", "version")
			}
			if h.Intn(100) < 3 {
				continue
			}
			out[k] = hurt(h, e, left)
		}

		return out
	case []any:
		var out []any
		for _, e := range x {
			if h.Intn(100) < 6 {
				continue
			}
			out = append(out, hurt(h, e, left))
		}
		if out == nil {
			out = []any{}
		}

		return out
	}

	return v
}

func mutate(h *vfh.H, s string) string {
	if h.P(35) {
		var v any
		if json.Unmarshal([]byte(s), &v) == nil {
			left := 1 + h.Intn(4)
			b, _ := json.Marshal(hurt(h, v, &left))
			s = string(b)
			if h.P(60) {
				return s
			}
		}
	}
	for i, n := 0, 1+h.Intn(4); i < n; i++ {
		if len(s) == 0 {
			s = vfh.Pick(h, tokens...)

			continue
		}
		a := h.Intn(len(s))
		b := a + h.Intn(min(len(s)-a, 12)+1)
		switch h.Intn(9) {
		case 0:
			s = s[:a] + s[b:]
		case 1:
			s = s[:a] + vfh.Pick(h, tokens...) + s[a:]
		case 2:
			s = s[:a] + vfh.Pick(h, tokens...) + s[b:]
		case 3:
			s = s[:a]
		case 4: // lines
			ls := strings.Split(s, "\n")
			k := h.Intn(len(ls))
			switch h.Intn(5) {
			case 0:
				ls = append(ls[:k:k], ls[k+1:]...)
			case 1:
				ls[k] = ""
			case 2:
				ls[k] = strings.TrimSpace(ls[k])
			case 3:
				ls[k] += vfh.Pick(h, tokens...)
			case 4:
				m := h.Intn(len(ls))
				ls[k], ls[m] = ls[m], ls[k]
			}
			s = strings.Join(ls, "\n")
		case 5: // the text between two quotes
			q := strings.IndexAny(s[a:], "\"'")
			if q >= 0 {
				if e := strings.IndexAny(s[a+q+1:], "\"'"); e >= 0 {
					s = s[:a+q+1] + vfh.Pick(h, "", "", vfh.Pick(h, tokens...), h.Lit()) + s[a+q+1+e:]
				}
			}
		case 6: // around structure
			q := strings.IndexAny(s[a:], ":@/#(=[{},<>")
			if q >= 0 {
				s = s[:a+q] + vfh.Pick(h, "", vfh.Pick(h, tokens...)) + s[a+q+1:]
			}
		case 7:
			s = s[:a] + h.Lit() + s[a:]
		case 8:
			s = s[:b] + s[a:b] + s[b:]
		}
	}

	return s
}

var names = []string{".osv-detector.yml", "osv.yaml"}

func TestC09(t *testing.T) {
	h := vfh.New(t, "C09", 1)
	formats := append(append([]string{}, vflock.Structured...), vflock.Lines...)
	formats = append(formats, "config", "csv-file", "csv-row")
	oddAt := 0
	for h.Next() {
		var js []job
		base := filepath.Join(h.Scratch(), fmt.Sprintf("b%d", h.Case()))
		for i := range 250 {
			k := formats[(h.Case()*7+i)%len(formats)]
			dir := filepath.Join(base, fmt.Sprint(i))
			j := job{Dir: dir, As: k, Files: map[string]string{}}
			content := ""
			name := k
			switch k {
			case "config":
				name = vfh.Pick(h, names...)
				content = "ignore:\n  - GHSA-1\nextra-databases:\n  - url: https://example.com/x.zip\n    type: zip\n  - url: file:/a\n    working-directory: b\n"
			case "csv-file", "csv-row":
				name = "f.csv"
				content = "npm,,a,1.0.0\nPyPI,npm,b,\n,,c,abcdef\n\"x,y\",,\"q\"\"r\",1\n"
			default:
				f := vflock.Draw(h, k)
				name = f.Name
				for n, c := range f.Files {
					j.Files[n] = c
					if h.P(20) {
						j.Files[n] = mutate(h, c)
					}
				}
				content = f.Files[f.Name]
			}
			switch {
			case h.Case() <= 26 && i%2 == 0 || h.P(3):
				// every format with every odd content first, then at random
				content = odd[(oddAt/len(formats))%len(odd)]
				oddAt++
				if h.Case() > 26 {
					content = odd[h.Intn(len(odd))]
				}
			case h.P(1):
				content = vfh.Pick(h, strings.Repeat(vfh.Pick(h, "a", " ", "\n", "@", "\""), 70000), strings.Repeat(vfh.Pick(h, "[", "{\"a\":", "- ", "<a>", "a==1\\\n", "("), 2000))
			default:
				content = mutate(h, content)
			}
			j.Files[name] = content
			j.Path = filepath.Join(dir, name)
			j.Rows = strings.Split(content, "\n")
			for n, c := range j.Files {
				p := filepath.Join(dir, n)
				_ = os.MkdirAll(filepath.Dir(p), 0o755)
				_ = os.WriteFile(p, []byte(c), 0o644)
			}
			js = append(js, j)
		}
		if at, why := batch(h, js); at >= 0 {
			j := js[at]
			// alone, to be sure that it is this one
			if at2, why2 := batch(h, []job{j}); at2 >= 0 {
				h.Fail(why2, map[string]any{"parser": j.As, "path": j.Path, "files": j.Files})
			} else {
				h.Fail("only after other files: "+why, js[:at+1])
			}
		}
		_ = os.RemoveAll(base)
		for _, j := range js {
			h.Saw(j.As + "\n" + j.Files[filepath.Base(j.Path)])
		}
	}
}
