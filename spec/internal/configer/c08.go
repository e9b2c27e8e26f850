package configer

import (
	"errors"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"github.com/g-rath/osv-detector/internal/reporter"
	"github.com/g-rath/osv-detector/internal/vs"
	"github.com/g-rath/osv-detector/pkg/database"
	"gopkg.in/yaml.v3"
)

func sp_type(d rawDatabaseConfig) string {
	if d.Type != "" {
		return d.Type
	}
	if strings.HasPrefix(d.URL, "file:/") {
		return "dir"
	}
	if strings.HasSuffix(d.URL, ".zip") {
		return "zip"
	}

	return "api"
}

func ct_rawDatabaseConfig_inferDBType(d rawDatabaseConfig) {
	vs.Prop("C08")
	vs.Option("pure")
	r := d.inferDBType()
	vs.Ensures("the type that is given, otherwise by the url", r == sp_type(d))
}

func sp_valid(d rawDatabaseConfig) bool {
	_, err := url.ParseRequestURI(d.URL)
	t := sp_type(d)

	return err == nil && (t == "zip" || t == "api" || t == "dir")
}

func sp_config(d rawDatabaseConfig) database.Config {
	c := database.Config{Name: d.Name, Type: sp_type(d), URL: d.URL, WorkingDirectory: d.WorkingDirectory}
	if c.Name == "" {
		c.Name = c.Identifier()
	}

	return c
}

func ct_rawDatabaseConfig_toConfig(d rawDatabaseConfig) {
	vs.Prop("C08")
	vs.Option("pure")
	c, err := d.toConfig()
	vs.Ensures("an error exactly for a bad url or an unknown type", (err == nil) == sp_valid(d))
	if err == nil {
		vs.Ensures("otherwise the database that is described", c == sp_config(d))
	}
}

// sp_databases: the valid ones of the first n databases.
func sp_databases(ds []rawDatabaseConfig, n int) []database.Config {
	if n <= 0 || n > len(ds) {
		return []database.Config{}
	}
	if !sp_valid(ds[n-1]) {
		return sp_databases(ds, n-1)
	}

	return vs.Append(sp_databases(ds, n-1), sp_config(ds[n-1]))
}

func sp_invalid(ds []rawDatabaseConfig, n int) bool {
	return vs.Exists(0, n, func(k int) bool { return !sp_valid(ds[k]) })
}

func ct__newConfig(r *reporter.Reporter, raw rawConfig) {
	vs.Prop("C06,C08,C14")
	vs.Requires(reporter.Sp_ready(r))
	vs.Modifies(r)
	vs.ModifiesOut()
	old, out := *r, reporter.Sp_out(r)
	vs.Inv(func(i int, acc []database.Config) bool { return vs.Same(acc, sp_databases(raw.Databases, i)) })
	vs.Inv(func(i int) bool { return reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || sp_invalid(raw.Databases, i)) })
	vs.Inv(func() bool { return reporter.Sp_kept(r, old) && reporter.Sp_mute(r, out) })
	c, err := newConfig(r, raw)
	vs.Ensures("the config can be used", err == nil)
	vs.Ensures("with its path and ignores", c.FilePath == raw.FilePath && vs.Same(c.Ignore, raw.Ignore))
	vs.Ensures("and its valid databases, in order", vs.Same(c.Databases, sp_databases(raw.Databases, len(raw.Databases))))
	vs.Ensures("an invalid database is an error of the run", reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || sp_invalid(raw.Databases, len(raw.Databases))))
	vs.Ensures("the reporter is otherwise as before", reporter.Sp_kept(r, old))
	vs.Ensures("in JSON mode nothing is written to standard output", reporter.Sp_mute(r, out))
}

func sp_doc(path string) rawConfig {
	var raw rawConfig
	b, _ := os.ReadFile(filepath.Clean(path))
	_ = yaml.Unmarshal(b, &raw)

	return raw
}

func sp_readable(path string) bool {
	_, err := os.ReadFile(filepath.Clean(path))

	return err == nil
}

func sp_parses(path string) bool {
	var raw rawConfig
	b, _ := os.ReadFile(filepath.Clean(path))

	return yaml.Unmarshal(b, &raw) == nil
}

func ct__load(path string) {
	vs.Prop("C08")
	vs.Option("pure")
	raw, err := load(path)
	_, rerr := os.ReadFile(filepath.Clean(path))
	vs.Ensures("the config knows its path", raw.FilePath == filepath.Clean(path))
	vs.Ensures("an error exactly when the file cannot be read or parsed", (err == nil) == (sp_readable(path) && sp_parses(path)))
	if err == nil {
		vs.Ensures("otherwise what the file says", vs.Same(raw.Ignore, sp_doc(path).Ignore) && vs.Same(raw.Databases, sp_doc(path).Databases))
	}
	vs.Ensures("a file that can be read is not missing", rerr != nil || !errors.Is(err, os.ErrNotExist))
	if rerr != nil {
		vs.Ensures("whether the file is missing can be told", errors.Is(err, os.ErrNotExist) == errors.Is(rerr, os.ErrNotExist))
	}
}

// Sp_loads: the config can be used.
func Sp_loads(path string) bool { return sp_readable(path) && sp_parses(path) }

// Sp_config: the config in the file.
func Sp_config(path string) Config {
	d := sp_doc(path)

	return Config{FilePath: filepath.Clean(path), Ignore: d.Ignore, Databases: sp_databases(d.Databases, len(d.Databases))}
}

// Sp_invalid: the config has a database that cannot be used.
func Sp_invalid(path string) bool { return sp_invalid(sp_doc(path).Databases, len(sp_doc(path).Databases)) }

func sp_missing(path string) bool {
	_, err := os.ReadFile(filepath.Clean(path))

	return err != nil && errors.Is(err, os.ErrNotExist)
}

func sp_sameConfig(a, b Config) bool {
	return a.FilePath == b.FilePath && vs.Same(a.Ignore, b.Ignore) && vs.Same(a.Databases, b.Databases)
}

func ct__Load(r *reporter.Reporter, path string) {
	vs.Prop("C06,C08,C14")
	vs.Requires(reporter.Sp_ready(r))
	vs.Modifies(r)
	vs.ModifiesOut()
	old, out := *r, reporter.Sp_out(r)
	c, err := Load(r, path)
	vs.Ensures("an error exactly when the file cannot be read or parsed", (err == nil) == Sp_loads(path))
	if err == nil {
		vs.Ensures("otherwise the config in the file", sp_sameConfig(c, Sp_config(path)))
		vs.Ensures("an invalid database is an error of the run", reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || Sp_invalid(path)))
	} else {
		vs.Ensures("only a missing file can be passed over", !sp_readable(path) || !errors.Is(err, os.ErrNotExist))
		vs.Ensures("and it can be told", sp_readable(path) || errors.Is(err, os.ErrNotExist) == sp_missing(path))
		vs.Ensures("nothing is reported yet", reporter.Sp_failed(r) == reporter.Sp_failed(&old))
	}
	vs.Ensures("the reporter is otherwise as before", reporter.Sp_kept(r, old))
	vs.Ensures("in JSON mode nothing is written to standard output", reporter.Sp_mute(r, out))
}

// Sp_place: where the config for a directory is, empty when there is none.
func Sp_place(dir string) string {
	if !sp_missing(dir + "/.osv-detector.yml") {
		return dir + "/.osv-detector.yml"
	}
	if !sp_missing(dir + "/.osv-detector.yaml") {
		return dir + "/.osv-detector.yaml"
	}

	return ""
}

func ct__Find(r *reporter.Reporter, dir string) {
	vs.Prop("C06,C08,C14")
	vs.Requires(reporter.Sp_ready(r))
	vs.Modifies(r)
	vs.ModifiesOut()
	old, out := *r, reporter.Sp_out(r)
	c, err := Find(r, dir)
	p := Sp_place(dir)
	if p == "" {
		vs.Ensures("no config, which is no error", err == nil && c.FilePath == "" && len(c.Ignore) == 0 && len(c.Databases) == 0)
		vs.Ensures("without a config nothing is reported", reporter.Sp_failed(r) == reporter.Sp_failed(&old))
	} else {
		vs.Ensures("a config that cannot be read or parsed is an error", (err == nil) == Sp_loads(p))
		if err == nil {
			vs.Ensures("otherwise the config that is there, .yml first", sp_sameConfig(c, Sp_config(p)))
			vs.Ensures("an invalid database is an error of the run", reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || Sp_invalid(p)))
		} else {
			vs.Ensures("an unusable config is not yet reported", reporter.Sp_failed(r) == reporter.Sp_failed(&old))
		}
	}
	vs.Ensures("the reporter is otherwise as before", reporter.Sp_kept(r, old))
	vs.Ensures("in JSON mode nothing is written to standard output", reporter.Sp_mute(r, out))
}

// Sp_updated: the document with these ignores and the databases that the file has.
func Sp_updated(path string, ignores []string) string {
	return vs.YAML(rawConfig{Ignore: ignores, Databases: sp_doc(path).Databases})
}

func ct__UpdateWithIgnores(path string, ignores []string) {
	vs.Prop("C06,C08")
	vs.ModifiesFiles()
	old := vs.WrittenFiles()
	err := UpdateWithIgnores(path, ignores)
	now := vs.WrittenFiles()
	if !Sp_loads(path) {
		vs.Ensures("a config that cannot be read is left alone", err != nil && vs.Same(now, old))
	} else {
		vs.Ensures("an error exactly when writing fails", (err == nil) == (vs.LastWriteErr() == nil))
		vs.Ensures("otherwise the ignores are exactly these and the databases are kept", err != nil || vs.Has(now, path) && now[path] == Sp_updated(path, ignores))
		vs.Ensures("no other file is written", vs.ForallStr(func(k string) bool {
			return k == path || vs.Has(now, k) == vs.Has(old, k) && now[k] == old[k]
		}))
	}
}
