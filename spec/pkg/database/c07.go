package database

import (
	"net/url"

	"github.com/g-rath/osv-detector/internal/vs"
)

func ct_Config_Identifier(c Config) {
	vs.Prop("C07")
	vs.Option("pure")
	id := c.Identifier()
	if c.WorkingDirectory == "" {
		vs.Ensures("the type and the url", id == c.Type+"#"+c.URL)
	} else {
		vs.Ensures("the type, the url and the directory", id == c.Type+"#"+c.URL+"#"+c.WorkingDirectory)
	}
}

func ct__NewAPIDB(c Config, offline bool, size int) {
	vs.Prop("C05,C06,C07")
	u, uerr := url.ParseRequestURI(c.URL)
	db, err := NewAPIDB(c, offline, size)
	vs.Ensures("an error exactly when offline, or for a batch size below one or a bad url", (err == nil) == (!offline && size >= 1 && uerr == nil))
	if err == nil {
		vs.Ensures("otherwise a database for that url", db != nil && db.BaseURL == u && db.BatchSize == size)
		vs.Ensures("that is known by its setting", db.identifier == c.Identifier() && db.name == c.Name)
	}
}

func ct_APIDB_Identifier(db *APIDB) {
	vs.Prop("C07")
	vs.Requires(db != nil)
	r := db.Identifier()
	vs.Ensures("its identifier", r == db.identifier)
}

func ct_ZipDB_Identifier(db *ZipDB) {
	vs.Prop("C07")
	vs.Requires(db != nil)
	r := db.Identifier()
	vs.Ensures("its identifier", r == db.identifier)
}

func ct_DirDB_Identifier(db *DirDB) {
	vs.Prop("C07")
	vs.Requires(db != nil)
	r := db.Identifier()
	vs.Ensures("its identifier", r == db.identifier)
}
