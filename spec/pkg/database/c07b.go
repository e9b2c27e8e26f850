package database

import (
	"github.com/g-rath/osv-detector/internal/vs"
)

func ct__NewZippedDB(c Config, offline bool, names []string) {
	vs.Prop("C03,C07,C15")
	vs.Allocates()
	vs.ModifiesOut()
	vs.ModifiesNet()
	vs.ModifiesFiles()
	like := ZipDB{name: c.Name, identifier: c.Identifier(), ArchiveURL: c.URL, WorkingDirectory: c.WorkingDirectory, Offline: offline}
	path, calls := like.cachePath(), vs.NetCalls()
	cached, cache := sp_cached(path), sp_cache(path)
	streams := vs.Streams()
	db, err := NewZippedDB(c, offline, names)
	body, ok := sp_fetched(like, cached, cache)
	files, readable := sp_archive(body)
	vs.Ensures("offline, no server is contacted", !offline || vs.NetCalls() == calls)
	vs.Ensures("an error exactly when there is no archive or it cannot be read", (err == nil) == (ok && readable))
	vs.Ensures("only standard error is written to", sp_quiet(streams))
	if err == nil {
		vs.Ensures("otherwise a new database that is known by its setting", db != nil && vs.Fresh(db) && sp_sameZipInfo(*db, like) && db.vulnerabilities != nil)
		vs.Ensures("exactly the advisories of the archive are loaded",
			vs.ForallStr(func(key string) bool {
				return vs.ForallAny(func(x OSV) bool {
					return vs.Member(x, db.vulnerabilities[key]) == sp_within(files, len(files), c.WorkingDirectory, names, key, x)
				})
			}))
	}
}

func ct__NewDirDB(c Config, offline bool, names []string) {
	vs.Prop("C03,C07")
	vs.Allocates()
	vs.ModifiesOut()
	like := DirDB{name: c.Name, identifier: c.Identifier(), LocalPath: c.URL, WorkingDirectory: c.WorkingDirectory, Offline: offline}
	root, ok := sp_root(like)
	visits := vs.Visits(root)
	streams := vs.Streams()
	db, err := NewDirDB(c, offline, names)
	vs.Ensures("an error exactly when there is no such directory or it cannot be walked", (err == nil) ==
		(ok && vs.Forall(0, len(visits), func(k int) bool { return !sp_unseen(visits[k]) })))
	vs.Ensures("only standard error is written to", sp_quiet(streams))
	if err == nil {
		vs.Ensures("otherwise a new database that is known by its setting", db != nil && vs.Fresh(db) && sp_sameDirInfo(*db, like) && db.vulnerabilities != nil)
		vs.Ensures("exactly the advisories of the directory are loaded",
			vs.ForallStr(func(key string) bool {
				return vs.ForallAny(func(x OSV) bool {
					return vs.Member(x, db.vulnerabilities[key]) == sp_among(visits, len(visits), names, key, x)
				})
			}))
	}
}

func ct__Load(c Config, offline bool, size int, names []string) {
	vs.Prop("C03,C05,C06,C07,C15")
	vs.Allocates()
	vs.ModifiesOut()
	vs.ModifiesNet()
	vs.ModifiesFiles()
	calls := vs.NetCalls()
	streams := vs.Streams()
	db, err := Load(c, offline, size, names)
	vs.Ensures("offline, no server is contacted", !offline || vs.NetCalls() == calls)
	vs.Ensures("another type is an error", c.Type == "zip" || c.Type == "api" || c.Type == "dir" || err != nil)
	vs.Ensures("only standard error is written to", sp_quiet(streams))
	if err == nil {
		z, isZip := db.(*ZipDB)
		a, isAPI := db.(*APIDB)
		d, isDir := db.(*DirDB)
		vs.Assume("a database always answers with the identifier it was made with", (!isZip || z == nil || db.Identifier() == z.identifier) &&
			(!isAPI || a == nil || db.Identifier() == a.identifier) && (!isDir || d == nil || db.Identifier() == d.identifier))
		vs.Ensures("otherwise a database that is known by its setting", db != nil && db.Identifier() == c.Identifier())
		vs.Ensures("of the type that is asked for", isZip == (c.Type == "zip") && isAPI == (c.Type == "api") && isDir == (c.Type == "dir"))
		vs.Ensures("there is one", !(isZip && z == nil) && !(isAPI && a == nil) && !(isDir && d == nil))
		vs.Ensures("with the settings it is given", (!isZip || z.ArchiveURL == c.URL && z.WorkingDirectory == c.WorkingDirectory && z.Offline == offline) &&
			(!isAPI || a.BatchSize == size && !offline) && (!isDir || d.LocalPath == c.URL && d.WorkingDirectory == c.WorkingDirectory))
	}
}
