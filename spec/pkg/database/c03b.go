package database

import (
	"encoding/json"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"github.com/g-rath/osv-detector/internal/vs"
)

// sp_file: the advisory held by a file.
func sp_file(path string) (OSV, bool) {
	var osv OSV
	b, err := os.ReadFile(path)
	if err != nil {
		return osv, false
	}
	err = json.Unmarshal(b, &osv)

	return osv, err == nil
}

// sp_visitLoads: the file visited is one that puts x under the key.
func sp_visitLoads(v vs.Visit, names []string, key string, x OSV) bool {
	osv, ok := sp_file(v.Path)

	return v.Info != nil && v.Err == nil && strings.HasSuffix(v.Info.Name(), ".json") && ok && sp_puts(osv, names, key, x)
}

// sp_among: one of the first n files visited puts x under the key.
func sp_among(v []vs.Visit, n int, names []string, key string, x OSV) bool {
	return vs.Exists(0, n, func(k int) bool { return sp_visitLoads(v[k], names, key, x) })
}

// sp_unseen: something could not even be looked at.
func sp_unseen(v vs.Visit) bool { return v.Info == nil && v.Err != nil }

// sp_root: the directory named by the url and the working directory.
func sp_root(db DirDB) (string, bool) {
	u, err := url.ParseRequestURI(db.LocalPath)
	if err != nil || !strings.HasPrefix(db.LocalPath, "file:") {
		return "", false
	}

	return filepath.Join(strings.TrimPrefix(u.Path, "/"), db.WorkingDirectory), true
}

func sp_sameDirInfo(a, b DirDB) bool {
	return a.name == b.name && a.identifier == b.identifier && a.LocalPath == b.LocalPath && a.WorkingDirectory == b.WorkingDirectory && a.Offline == b.Offline
}

func ct_DirDB_load(db *DirDB, names []string) {
	vs.Prop("C03")
	vs.Requires(db != nil)
	vs.Modifies(db)
	vs.ModifiesOut()
	old, streams := *db, vs.Streams()
	vs.Inv(func() bool { return sp_quiet(streams) })
	root, ok := sp_root(old)
	visits := vs.Visits(root)
	vs.Inv(func() bool { return db.vulnerabilities != nil && sp_sameDirInfo(*db, old) })
	vs.Inv(func(i int) bool { return vs.Forall(0, i, func(k int) bool { return !sp_unseen(visits[k]) }) })
	vs.Inv(func(i int) bool {
		return vs.ForallStr(func(key string) bool {
			return vs.ForallAny(func(x OSV) bool {
				return vs.Member(x, db.vulnerabilities[key]) == sp_among(visits, i, names, key, x)
			})
		})
	})
	err := db.load(names)
	now := db.vulnerabilities
	vs.Ensures("the database is otherwise as before", sp_sameDirInfo(*db, old))
	vs.Ensures("an error exactly when there is no such directory or it cannot be walked", (err == nil) ==
		(ok && vs.Forall(0, len(visits), func(k int) bool { return !sp_unseen(visits[k]) })))
	vs.Ensures("only standard error is written to", sp_quiet(streams))
	vs.Ensures("the index can be used", err != nil || now != nil)
	vs.Ensures("exactly the advisories of the directory are loaded", err != nil ||
		vs.ForallStr(func(key string) bool {
			return vs.ForallAny(func(x OSV) bool {
				return vs.Member(x, now[key]) == sp_among(visits, len(visits), names, key, x)
			})
		}))
}
