package database

import (
	"context"
	"encoding/json"
	"io"
	"net/http"
	"os"

	"github.com/g-rath/osv-detector/internal/vs"
)

// sp_cached: there is a cache that can be read.
func sp_cached(path string) bool {
	var c *Cache
	b, err := os.ReadFile(path)

	return err == nil && json.Unmarshal(b, &c) == nil && c != nil
}

func sp_cache(path string) Cache {
	var c *Cache
	b, _ := os.ReadFile(path)
	_ = json.Unmarshal(b, &c)

	return *c
}

// sp_quiet: only standard error may have been written to.
func sp_quiet(before map[io.Writer]string) bool {
	now := vs.Streams()

	return vs.ForallAny(func(w io.Writer) bool { return w == os.Stderr || vs.On(now, w) == vs.On(before, w) })
}

// lem_cachePaths: databases with different archives have different caches.
func lem_cachePaths(a, b ZipDB) {
	vs.Prop("C15")
	vs.Ensures("one cache for each archive", a.cachePath() != b.cachePath() || a.ArchiveURL == b.ArchiveURL)
}

func ct_ZipDB_fetchZip(db *ZipDB) {
	vs.Prop("C15")
	vs.Requires(db != nil)
	vs.Modifies(db)
	vs.ModifiesOut()
	vs.ModifiesNet()
	vs.ModifiesFiles()
	old, calls, files, streams := *db, vs.NetCalls(), vs.WrittenFiles(), vs.Streams()
	path := db.cachePath()
	cached := sp_cached(path)
	want, rerr := http.NewRequestWithContext(context.Background(), "GET", db.ArchiveURL, nil)
	body, err := db.fetchZip()
	now := vs.WrittenFiles()
	vs.Ensures("the database is otherwise as before", sp_sameZip(*db, old))
	vs.Ensures("only standard error is written to", sp_quiet(streams))
	vs.Ensures("no other file is written", vs.ForallStr(func(k string) bool {
		return k == path || vs.Has(now, k) == vs.Has(files, k) && now[k] == files[k]
	}))
	if old.Offline {
		vs.Ensures("offline, no server is contacted", vs.NetCalls() == calls)
		vs.Ensures("offline, the cache is left alone", vs.Same(now, files))
		vs.Ensures("offline, an error exactly when there is no cache", (err == nil) == cached)
		vs.Ensures("offline, the cached archive", err != nil || string(body) == string(sp_cache(path).Body))
	} else if rerr != nil {
		vs.Ensures("what cannot be asked for is an error", err != nil && vs.Same(now, files))
	} else {
		resp := vs.LastResponse()
		vs.Ensures("one request for the archive", vs.NetCalls() == calls+1 && vs.LastRequest() == want)
		if cached {
			vs.Ensures("the server is told what is cached", vs.SentHeader("If-None-Match") == sp_cache(path).ETag && vs.SentHeader("If-Modified-Since") == sp_cache(path).Date)
		} else {
			vs.Ensures("without a cache the server is told nothing", vs.SentHeader("If-None-Match") == "" && vs.SentHeader("If-Modified-Since") == "")
		}
		if vs.LastHTTPErr() != nil {
			vs.Ensures("a failed request is an error", err != nil && vs.Same(now, files))
		} else if resp.StatusCode == 304 && cached {
			vs.Ensures("not modified: the cached archive", err == nil && string(body) == string(sp_cache(path).Body) && vs.Same(now, files))
		} else if resp.StatusCode != 200 {
			vs.Ensures("any other status is an error", err != nil && vs.Same(now, files))
		} else {
			got, berr := io.ReadAll(resp.Body)
			vs.Ensures("an error exactly when the body cannot be read", (err == nil) == (berr == nil))
			vs.Ensures("what cannot be read is not cached", berr == nil || vs.Same(now, files))
			vs.Ensures("otherwise the body that was sent", err != nil || string(body) == string(got))
			etag, date := resp.Header.Get("ETag"), resp.Header.Get("Date")
			if berr == nil && (etag != "" || date != "") {
				doc, jerr := json.Marshal(Cache{URL: old.ArchiveURL, ETag: etag, Date: date, Body: got})
				vs.Ensures("which is cached with its validators and its address", jerr != nil || vs.LastWriteErr() != nil || vs.Has(now, path) && now[path] == string(doc))
			}
		}
	}
}

func sp_sameZip(a, b ZipDB) bool {
	return vs.Same(a.vulnerabilities, b.vulnerabilities) && a.VulnerabilitiesCount == b.VulnerabilitiesCount && a.name == b.name && a.identifier == b.identifier &&
		a.ArchiveURL == b.ArchiveURL && a.WorkingDirectory == b.WorkingDirectory && a.Offline == b.Offline
}
