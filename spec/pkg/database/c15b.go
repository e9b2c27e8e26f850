package database

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/json"
	"io"
	"net/http"
	"strings"

	"github.com/g-rath/osv-detector/internal/vs"
)

// sp_entry: the advisory held by an entry of an archive.
func sp_entry(f *zip.File) (OSV, bool) {
	var osv OSV
	r, err := f.Open()
	if err != nil {
		return osv, false
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return osv, false
	}

	err = json.Unmarshal(b, &osv)

	return osv, err == nil
}

// sp_kept: advisories are kept when no names are given or one of their packages has one.
func sp_kept(osv OSV, names []string) bool { return len(names) == 0 || sp_might(osv.Affected, 0, names) }

// sp_loads: the entry is one that puts x under the key.
func sp_loads(f *zip.File, dir string, names []string, key string, x OSV) bool {
	osv, ok := sp_entry(f)

	return strings.HasPrefix(f.Name, dir) && strings.HasSuffix(f.Name, ".json") && ok && sp_puts(osv, names, key, x)
}

func sp_puts(osv OSV, names []string, key string, x OSV) bool {
	return sp_kept(osv, names) && vs.Same(x, osv) && sp_keyed(osv.Affected, len(osv.Affected), key)
}

func ct_ZipDB_loadZipFile(db *ZipDB, f *zip.File, names []string) {
	vs.Prop("C03,C15")
	vs.Requires(db != nil && f != nil && db.vulnerabilities != nil)
	vs.Modifies(db)
	vs.ModifiesOut()
	old, streams := *db, vs.Streams()
	before := vs.Clone(db.vulnerabilities)
	db.loadZipFile(f, names)
	now := db.vulnerabilities
	osv, ok := sp_entry(f)
	vs.Ensures("the index stays usable", now != nil)
	vs.Ensures("the database is otherwise as before", sp_sameZipInfo(*db, old))
	vs.Ensures("only standard error is written to", sp_quiet(streams))
	vs.Ensures("the advisory of the entry is indexed and nothing else changes",
		vs.ForallStr(func(key string) bool {
			return vs.ForallAny(func(x OSV) bool {
				return vs.Member(x, now[key]) == (vs.Member(x, before[key]) || ok && sp_puts(osv, names, key, x))
			})
		}))
}

func sp_sameZipInfo(a, b ZipDB) bool {
	return a.name == b.name && a.identifier == b.identifier && a.ArchiveURL == b.ArchiveURL && a.WorkingDirectory == b.WorkingDirectory && a.Offline == b.Offline
}

func sp_archive(body []byte) ([]*zip.File, bool) {
	r, err := zip.NewReader(bytes.NewReader(body), int64(len(body)))
	if err != nil {
		return nil, false
	}

	return r.File, true
}

// sp_sent: the archive the last answer stands for, given what is cached.
func sp_sent(cached bool, cache Cache) ([]byte, bool) {
	resp := vs.LastResponse()
	if vs.LastHTTPErr() != nil {
		return nil, false
	}
	if resp.StatusCode == 304 && cached {
		return cache.Body, true
	}
	if resp.StatusCode != 200 {
		return nil, false
	}
	b, err := io.ReadAll(resp.Body)

	return b, err == nil
}

// sp_fetched: the archive a database with this address has been given.
func sp_fetched(db ZipDB, cached bool, cache Cache) ([]byte, bool) {
	if db.Offline {
		return cache.Body, cached
	}
	if _, err := http.NewRequestWithContext(context.Background(), "GET", db.ArchiveURL, nil); err != nil {
		return nil, false
	}

	return sp_sent(cached, cache)
}

// sp_within: one of the first n entries puts x under the key.
func sp_within(fs []*zip.File, n int, dir string, names []string, key string, x OSV) bool {
	return vs.Exists(0, n, func(k int) bool { return sp_loads(fs[k], dir, names, key, x) })
}

func ct_ZipDB_load(db *ZipDB, names []string) {
	vs.Prop("C03,C15")
	vs.Requires(db != nil)
	vs.Modifies(db)
	vs.ModifiesOut()
	vs.ModifiesNet()
	vs.ModifiesFiles()
	old, calls, streams := *db, vs.NetCalls(), vs.Streams()
	vs.Inv(func() bool { return sp_quiet(streams) })
	cached, cache := sp_cached(db.cachePath()), sp_cache(db.cachePath())
	vs.Inv(func() bool { return db.vulnerabilities != nil && sp_sameZipInfo(*db, old) })
	vs.Inv(func(i int, srcFiles []*zip.File) bool {
		return vs.ForallStr(func(key string) bool {
			return vs.ForallAny(func(x OSV) bool {
				return vs.Member(x, db.vulnerabilities[key]) == sp_within(srcFiles, i, old.WorkingDirectory, names, key, x)
			})
		})
	})
	err := db.load(names)
	body, ok := sp_fetched(old, cached, cache)
	files, readable := sp_archive(body)
	now := db.vulnerabilities
	vs.Ensures("the database is otherwise as before", sp_sameZipInfo(*db, old))
	vs.Ensures("offline, no server is contacted", !old.Offline || vs.NetCalls() == calls)
	vs.Ensures("an error exactly when there is no archive or it cannot be read", (err == nil) == (ok && readable))
	vs.Ensures("only standard error is written to", sp_quiet(streams))
	vs.Ensures("the index can be used", err != nil || now != nil)
	vs.Ensures("exactly the advisories of the archive are loaded", err != nil ||
		vs.ForallStr(func(key string) bool {
			return vs.ForallAny(func(x OSV) bool {
				return vs.Member(x, now[key]) == sp_within(files, len(files), old.WorkingDirectory, names, key, x)
			})
		}))
}
