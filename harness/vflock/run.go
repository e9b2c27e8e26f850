package vflock

import (
	"cmp"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	"github.com/g-rath/osv-detector/internal/vfh"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

// Write puts the files into a new directory and returns the lockfile's path.
func (f *File) Write(dir string) string {
	for n, c := range f.Files {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		_ = os.WriteFile(p, []byte(c), 0o644)
	}

	return filepath.Join(dir, f.Name)
}

// Test parses drawn lockfiles of the formats and compares.
func Test(t *testing.T, prop string, formats []string) {
	h := vfh.New(t, prop, 1)
	for h.Next() {
		f := Draw(h, formats[h.Case()%len(formats)])
		dir := filepath.Join(h.Scratch(), fmt.Sprintf("l%d", h.Case()))
		p := f.Write(dir)
		in := map[string]any{"format": f.Format, "files": f.Files, "expected": f.Want}
		h.Guard(in, func() {
			l, err := lockfile.Parse(p, f.Format)
			if err != nil {
				h.Fail("the parser refuses a well-formed file: "+err.Error(), in)
			}
			in["got"] = l.Packages
			if msg := f.Compare(l.Packages); msg != "" {
				h.Fail(msg, in)
			}
			// the same file again gives the same list
			l2, err := lockfile.Parse(p, "")
			if err != nil || f.Compare(l2.Packages) != "" || len(l2.Packages) != len(l.Packages) {
				h.Fail("parsing again gives another answer", in)
			}
		})
		_ = os.RemoveAll(dir)
		key := ""
		if len(f.Want) > 0 {
			key = f.Format + "\n" + f.Files[f.Name]
		}
		h.Saw(key)
	}
}

func cmpP(a, b P) int {
	return cmp.Or(cmp.Compare(a.Name, b.Name), cmp.Compare(a.Version, b.Version))
}

func cmpAll(a, b P) int {
	return cmp.Or(cmpP(a, b), cmp.Compare(a.Commit, b.Commit), cmp.Compare(a.Ecosystem, b.Ecosystem), cmp.Compare(a.CompareAs, b.CompareAs))
}

// TestOrder: lockfile.Parse picks the parser by setting or exact file name,
// and lists what that parser found, sorted, with nothing added or dropped.
func TestOrder(t *testing.T, share float64) {
	h := vfh.New(t, "C13", share)
	all := append(append([]string{}, Structured...), Lines...)
	for h.Next() {
		f := Draw(h, all[h.Case()%len(all)])
		as := ""
		if h.P(50) {
			as = f.Format
			if h.P(50) {
				old := f.Name
				f.Name = vfh.Pick(h, "x", all[h.Intn(len(all))], "a.lock", strings.ToUpper(old), "x"+old, old+".bak", "-r", "a b:c")
				f.Files[f.Name] = f.Files[old]
				if f.Name != old && f.Format != "requirements.txt" {
					delete(f.Files, old)
				}
			}
		}
		dir := filepath.Join(h.Scratch(), fmt.Sprintf("l%d", h.Case()))
		p := f.Write(dir)
		in := map[string]any{"format": f.Format, "as": as, "name": f.Name, "files": f.Files}
		h.Guard(in, func() {
			l, err := lockfile.Parse(p, as)
			if err != nil {
				h.Fail("a readable lockfile is refused: "+err.Error(), in)
			}
			if l.FilePath != p || l.ParsedAs != f.Format {
				h.Fail(fmt.Sprintf("says it parsed %q as %q", l.FilePath, l.ParsedAs), in)
			}
			in["got"] = l.Packages
			if !slices.IsSortedFunc(l.Packages, cmpP) {
				h.Fail("the packages are not in order", in)
			}
			ref := f.Format
			parse, name := lockfile.FindParser(ref, "")
			if parse == nil || name != ref {
				h.Fail("no parser for "+ref, in)
			}
			direct, err := parse(p)
			if err != nil {
				h.Fail("the parser by itself refuses the file: "+err.Error(), in)
			}
			a, b := slices.Clone(l.Packages), slices.Clone(direct)
			slices.SortFunc(a, cmpAll)
			slices.SortFunc(b, cmpAll)
			if !slices.Equal(a, b) {
				in["direct"] = direct
				h.Fail("Parse adds or drops packages", in)
			}
			bad := vfh.Pick(h, "x", strings.ToUpper(f.Format), f.Format+" ", " "+f.Format, "."+f.Format, f.Format[1:], f.Format+".yml", h.Lit())
			if !slices.Contains(all, bad) && bad != "" {
				if p2, _ := lockfile.FindParser(filepath.Join(dir, f.Format), bad); p2 != nil {
					in["bad"] = bad
					h.Fail("an unknown parser name has a parser", in)
				}
				if p2, _ := lockfile.FindParser(filepath.Join(dir, bad), ""); p2 != nil && !strings.Contains(bad, "/") {
					in["bad"] = bad
					h.Fail("a file of another name has a parser", in)
				}
				if _, err := lockfile.Parse(p, bad); !errors.Is(err, lockfile.ErrParserNotFound) {
					in["bad"] = bad
					h.Fail("an unknown parser name is not refused", in)
				}
			}
		})
		_ = os.RemoveAll(dir)
		key := ""
		if len(f.Want) > 1 {
			key = f.Format + "\n" + f.Name + "\n" + as
		}
		h.Saw(key + fmt.Sprint(len(f.Want)))
	}
}
