package database

import (
	"bytes"
	"context"
	"encoding/json"
	"io"
	"net/http"
	"path"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/vs"
)

// ---- the requests

func sp_query(pkg internal.PackageDetails) apiQuery {
	var q apiQuery
	if pkg.Name != "" && pkg.Ecosystem != "" && pkg.Version != "" {
		q.Package.Name, q.Package.Ecosystem, q.Version = pkg.Name, pkg.Ecosystem, pkg.Version
	} else if pkg.Commit != "" {
		q.Commit = pkg.Commit
	}

	return q
}

func ct_APIDB_buildAPIPayload(db APIDB, pkg internal.PackageDetails) {
	vs.Prop("C05")
	q := db.buildAPIPayload(pkg)
	vs.Ensures("name, ecosystem and version when all are known, otherwise the commit", q == sp_query(pkg))
}

func sp_queries(pkgs []internal.PackageDetails, n int) []apiQuery {
	if n <= 0 || n > len(pkgs) {
		return []apiQuery{}
	}

	return vs.Append(sp_queries(pkgs, n-1), sp_query(pkgs[n-1]))
}

func sp_payload(pkgs []internal.PackageDetails) ([]byte, error) {
	return json.Marshal(struct {
		Queries []apiQuery `json:"queries"`
	}{sp_queries(pkgs, len(pkgs))})
}

func sp_bulk(db APIDB) string {
	u := *db.BaseURL
	u.Path = path.Join(u.Path, "querybatch")

	return u.String()
}

func ct_APIDB_bulkEndpoint(db APIDB) {
	vs.Prop("C05")
	vs.Requires(db.BaseURL != nil)
	s := db.bulkEndpoint()
	vs.Ensures("querybatch under the base url", s == sp_bulk(db))
}

func sp_osvURL(db APIDB, id string) string {
	u := *db.BaseURL
	u.Path = path.Join(u.Path, "vulns", id)

	return u.String()
}

func ct_APIDB_osvEndpoint(db APIDB, id string) {
	vs.Prop("C05")
	vs.Requires(db.BaseURL != nil)
	s := db.osvEndpoint(id)
	vs.Ensures("vulns/id under the base url", s == sp_osvURL(db, id))
}

// ---- one batch

type sp_batchAnswer struct {
	Results []struct {
		Vulns []ObjectWithID `json:"vulns"`
	} `json:"results"`
}

func sp_lists(rs []struct {
	Vulns []ObjectWithID `json:"vulns"`
}, n int) [][]ObjectWithID {
	if n <= 0 || n > len(rs) {
		return [][]ObjectWithID{}
	}

	return vs.Append(sp_lists(rs, n-1), rs[n-1].Vulns)
}

func ct_APIDB_checkBatch(db APIDB, pkgs []internal.PackageDetails) {
	vs.Prop("C05")
	vs.Option("pure")
	vs.Requires(db.BaseURL != nil)
	vs.ModifiesNet()
	vs.Inv(func(i int, acc []apiQuery) bool { return vs.Eq(acc, sp_queries(pkgs, i)) })
	vs.Inv(func(i int, acc [][]ObjectWithID, srcRs []struct {
		Vulns []ObjectWithID `json:"vulns"`
	}) bool {
		return vs.Eq(acc, sp_lists(srcRs, i))
	})
	payload, perr := sp_payload(pkgs)
	want, rerr := http.NewRequestWithContext(context.Background(), "POST", sp_bulk(db), bytes.NewBuffer(payload))
	calls := vs.NetCalls()
	r, err := db.checkBatch(pkgs)
	vs.Ensures("one list for each package, or an error", err != nil || len(r) == len(pkgs))
	if perr != nil || rerr != nil {
		vs.Ensures("what cannot be asked is an error", err != nil)
	} else {
		vs.Ensures("one request", vs.NetCalls() == calls+1)
		vs.Ensures("that asks for exactly these packages in order", vs.LastRequest() == want)
		resp, derr := vs.LastResponse(), vs.LastHTTPErr()
		if derr != nil {
			vs.Ensures("a failed request is an error", err != nil)
		} else {
			body, berr := io.ReadAll(resp.Body)
			var parsed struct {
				Results []struct {
					Vulns []ObjectWithID `json:"vulns"`
				} `json:"results"`
			}
			jerr := json.Unmarshal(body, &parsed)
			ok := resp.StatusCode == 200 && berr == nil && jerr == nil && len(parsed.Results) == len(pkgs)
			vs.Ensures("an error exactly for a bad status, an unreadable or undecodable body or a count that does not match", (err == nil) == ok)
			if err == nil {
				vs.Ensures("what the API returned, in its order", vs.Eq(r, sp_lists(parsed.Results, len(parsed.Results))))
			}
		}
	}
}

// ---- batches

// sp_end: where the batch that starts at i ends.
func sp_end(i, size, n int) int {
	if i+size < n {
		return i + size
	}

	return n
}

// sp_batched: batch k holds the packages from k*size on, for the first n batches.
func sp_batched(bs [][]internal.PackageDetails, pkgs []internal.PackageDetails, size, n int) bool {
	return vs.Forall(0, n, func(k int) bool {
		return k*size < len(pkgs) && vs.Eq(bs[k], vs.Sub(pkgs, k*size, sp_end(k*size, size, len(pkgs))))
	})
}

func ct__batchPkgs(pkgs []internal.PackageDetails, size int) {
	vs.Prop("C05")
	vs.Option("pure")
	vs.Requires(size >= 1)
	vs.Inv(func(i int, bs [][]internal.PackageDetails) bool { return i >= 0 && i == len(bs)*size })
	vs.Inv(func(bs [][]internal.PackageDetails) bool { return sp_batched(bs, pkgs, size, len(bs)) })
	bs := batchPkgs(pkgs, size)
	vs.Ensures("batch k holds the packages from k*size on, in order", sp_batched(bs, pkgs, size, len(bs)))
	vs.Ensures("and the batches cover all of them", len(bs)*size >= len(pkgs))
}

// ---- details

func ct_APIDB_Fetch(db APIDB, id string) {
	vs.Prop("C05")
	vs.Option("pure")
	vs.Requires(db.BaseURL != nil)
	vs.ModifiesNet()
	want, rerr := http.NewRequestWithContext(context.Background(), "GET", sp_osvURL(db, id), http.NoBody)
	osv, err := db.Fetch(id)
	if rerr == nil {
		vs.Ensures("the advisory is asked for", vs.LastRequest() == want)
		resp, derr := vs.LastResponse(), vs.LastHTTPErr()
		if derr != nil {
			vs.Ensures("a failed request is an error", err != nil)
		} else {
			body, berr := io.ReadAll(resp.Body)
			var parsed OSV
			jerr := json.Unmarshal(body, &parsed)
			vs.Ensures("an error exactly for a bad status or an unreadable or undecodable body", (err == nil) == (resp.StatusCode == 200 && berr == nil && jerr == nil))
			if err == nil {
				vs.Ensures("the advisory that the API returned", vs.Eq(osv, parsed))
			}
		}
	}
}

func ct__findOrDefault(vulns Vulnerabilities, def OSV) {
	vs.Prop("C05")
	vs.Option("pure")
	vs.Inv(func(i int) bool { return vs.Forall(0, i, func(k int) bool { return vulns[k].ID != def.ID }) })
	r := findOrDefault(vulns, def)
	vs.Ensures("for the same identifier", r.ID == def.ID)
	vs.Ensures("the details when there are any, otherwise what was known", vs.Eq(r, def) || vs.Member(r, vulns))
	vs.Ensures("details are used when there are any", vs.Member(r, vulns) || vs.Forall(0, len(vulns), func(k int) bool { return vulns[k].ID != def.ID }))
}

func sp_fetch(db APIDB, id string) OSV {
	osv, _ := db.Fetch(id)

	return osv
}

func ct_APIDB_FetchAll(db APIDB, ids []string) {
	vs.Prop("C05")
	vs.Option("pure")
	vs.Requires(db.BaseURL != nil)
	vs.ModifiesNet()
	vs.Inv(func(i int, osvs Vulnerabilities) bool {
		return len(osvs) == len(ids) && vs.Forall(0, i, func(k int) bool { return vs.Same(osvs[k], sp_fetch(db, ids[k])) })
	})
	r := db.FetchAll(ids)
	vs.Ensures("as many as were asked for", len(r) == len(ids))
	vs.Ensures("every advisory is fetched", vs.Forall(0, len(ids), func(k int) bool { return vs.Member(sp_fetch(db, ids[k]), r) }))
	vs.Ensures("nothing else", vs.Forall(0, len(r), func(j int) bool {
		return vs.Exists(0, len(ids), func(k int) bool { return vs.Same(r[j], sp_fetch(db, ids[k])) })
	}))
}

// ---- the whole check

func sp_reply(db APIDB, batch []internal.PackageDetails) [][]ObjectWithID {
	r, _ := db.checkBatch(batch)

	return r
}

func sp_fails(db APIDB, batch []internal.PackageDetails) bool {
	_, err := db.checkBatch(batch)

	return err != nil
}

// sp_stubs: an advisory for each identifier, in order.
func sp_stubs(ids []ObjectWithID, n int) Vulnerabilities {
	if n <= 0 || n > len(ids) {
		return Vulnerabilities{}
	}

	return vs.Append(sp_stubs(ids, n-1), OSV{ID: ids[n-1].ID})
}

// sp_more: acc with the lists of the first n results added.
func sp_more(acc []Vulnerabilities, rs [][]ObjectWithID, n int) []Vulnerabilities {
	if n <= 0 || n > len(rs) {
		return acc
	}

	return vs.Append(sp_more(acc, rs, n-1), sp_stubs(rs[n-1], len(rs[n-1])))
}

// sp_base: what the API returned for the first n batches, one list for each package.
func sp_base(db APIDB, bs [][]internal.PackageDetails, n int) []Vulnerabilities {
	if n <= 0 || n > len(bs) {
		return []Vulnerabilities{}
	}

	return sp_more(sp_base(db, bs, n-1), sp_reply(db, bs[n-1]), len(sp_reply(db, bs[n-1])))
}

func sp_sameIDs(a, b Vulnerabilities) bool {
	return len(a) == len(b) && vs.Forall(0, len(b), func(i int) bool { return a[i].ID == b[i].ID })
}

func ct_APIDB_Check(db APIDB, pkgs []internal.PackageDetails) {
	vs.Prop("C05")
	vs.Requires(db.BaseURL != nil && db.BatchSize >= 1)
	vs.ModifiesNet()
	bs := batchPkgs(pkgs, db.BatchSize)
	// asking
	vs.Inv(func(i int, rs [][][]ObjectWithID) bool {
		return len(rs) == len(bs) && vs.Forall(0, i, func(k int) bool {
			return sp_fails(db, bs[k]) || vs.Same(rs[k], sp_reply(db, bs[k])) && len(rs[k]) == len(bs[k])
		})
	})
	vs.Inv(func(i int, rs [][][]ObjectWithID) bool {
		return (vs.GroupErr() != nil) == vs.Exists(0, i, func(k int) bool { return sp_fails(db, bs[k]) })
	})
	// collecting
	vs.Inv(func(n int, acc []Vulnerabilities) bool { return vs.Eq(acc, sp_base(db, bs, n)) })
	vs.Inv(func(j int, acc []Vulnerabilities, outAcc []Vulnerabilities, srcRs [][]ObjectWithID) bool {
		return vs.Eq(acc, sp_more(outAcc, srcRs, j))
	})
	vs.Inv(func(j int, acc Vulnerabilities, srcIDs []ObjectWithID) bool { return vs.Eq(acc, sp_stubs(srcIDs, j)) })
	vs.Inv(func(n int, acc []Vulnerabilities) bool { return len(acc) == sp_end((n-1)*db.BatchSize, db.BatchSize, len(pkgs)) || n == 0 && len(acc) == 0 })
	base := sp_base(db, bs, len(bs))
	// filling in the details
	vs.Inv(func(cur Vulnerabilities, v []Vulnerabilities, outN int) bool { return vs.Same(v[outN], cur) })
	vs.Inv(func(cur Vulnerabilities, v []Vulnerabilities, outV []Vulnerabilities, outN int) bool {
		return len(v) == len(outV) && vs.Forall(0, len(v), func(p int) bool { return p == outN || vs.Same(v[p], outV[p]) })
	})
	vs.Inv(func(cur Vulnerabilities, outN int) bool { return sp_sameIDs(cur, base[outN]) })
	vs.Inv(func(v []Vulnerabilities) bool {
		return len(v) == len(base) && vs.Forall(0, len(base), func(p int) bool { return sp_sameIDs(v[p], base[p]) })
	})
	r, err := db.Check(pkgs)
	vs.Ensures("an error exactly when a batch fails", (err != nil) == vs.Exists(0, len(bs), func(k int) bool { return sp_fails(db, bs[k]) }))
	if err == nil {
		vs.Ensures("one list for each package", len(r) == len(pkgs) && len(r) == len(base))
		vs.Ensures("with an advisory for exactly the identifiers that the API returned for it, in order", vs.Forall(0, len(base), func(p int) bool { return sp_sameIDs(r[p], base[p]) }))
	}
}
