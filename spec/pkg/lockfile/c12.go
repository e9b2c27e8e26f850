package lockfile

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/g-rath/osv-detector/internal/vs"
)

// sp_csvBad: too few fields, no name, or neither ecosystem nor commit.
func sp_csvBad(row []string) bool {
	return len(row) < 4 || row[2] == "" || row[0] == "" && row[3] == ""
}

func sp_csv(row []string) PackageDetails {
	p := PackageDetails{Name: row[2], Version: row[3], Ecosystem: Ecosystem(row[0]), CompareAs: Ecosystem(row[1])}
	if row[1] == "" {
		p.CompareAs = Ecosystem(row[0])
	}
	if row[0] == "" {
		p.Version, p.Commit = "", row[3]
	}

	return p
}

func ct__fromCSVRecord(row []string) {
	vs.Prop("C09,C12")
	r, err := fromCSVRecord(row)
	vs.Ensures("an error exactly for an incomplete record", (err != nil) == sp_csvBad(row))
	if err == nil {
		vs.Ensures("the columns as they are", r == sp_csv(row))
	}
}

func sp_csvs(rows [][]string, n int) []PackageDetails {
	if n <= 0 || n > len(rows) {
		return nil
	}

	return vs.Append(sp_csvs(rows, n-1), sp_csv(rows[n-1]))
}

func sp_before(a, b PackageDetails) bool {
	if a.Name == b.Name {
		return a.Version < b.Version
	}

	return a.Name < b.Name
}

func ct__fromCSV(reader io.Reader) {
	vs.Prop("C09,C12")
	rows, end := vs.CSVRows(reader), vs.CSVEnd(reader)
	vs.Inv(func(i int, acc []PackageDetails) bool { return vs.Eq(acc, sp_csvs(rows, i)) })
	vs.Inv(func(acc []PackageDetails) bool {
		return vs.Forall(0, len(acc), func(k int) bool { return !sp_csvBad(rows[k]) })
	})
	vs.Inv(func(i int, acc []PackageDetails) bool { return len(acc) == i && i <= len(rows) })
	r, err := fromCSV(reader)
	anyBad := vs.Exists(0, len(rows), func(k int) bool { return sp_csvBad(rows[k]) })
	vs.Ensures("no error exactly when all records are complete and the input ends properly", (err == nil) == (!anyBad && errors.Is(end, io.EOF)))
	vs.Ensures("the error names the first incomplete row", vs.Forall(0, len(rows), func(k int) bool {
		first := sp_csvBad(rows[k]) && vs.Forall(0, k, func(j int) bool { return !sp_csvBad(rows[j]) })
		return !first || strings.HasPrefix(err.Error(), fmt.Sprintf("row %d:", k+1))
	}))
	if err == nil {
		vs.Ensures("one package per record, sorted", vs.Eq(r, vs.SortBy(sp_csvs(rows, len(rows)), sp_before)))
		vs.Ensures("as many as there are records", len(r) == len(rows))
	}
}

func ct__FromCSVRows(filePath string, parseAs string, args []string) {
	vs.Prop("C09,C12")
	vs.Option("pure")
	rd := strings.NewReader(strings.Join(args, "\n"))
	rows, end := vs.CSVRows(rd), vs.CSVEnd(rd)
	r, err := FromCSVRows(filePath, parseAs, args)
	anyBad := vs.Exists(0, len(rows), func(k int) bool { return sp_csvBad(rows[k]) })
	vs.Ensures("no error exactly when all records are complete and the input ends properly", (err == nil) == (!anyBad && errors.Is(end, io.EOF)))
	if err == nil {
		vs.Ensures("one package per record, sorted", vs.Eq([]PackageDetails(r.Packages), vs.SortBy(sp_csvs(rows, len(rows)), sp_before)))
		vs.Ensures("named as asked", r.FilePath == filePath && r.ParsedAs == parseAs)
	}
}

func ct__FromCSVFile(path string, parseAs string) {
	vs.Prop("C09,C12")
	vs.Option("pure")
	file, ferr := os.Open(path)
	rows, end := vs.CSVRows(file), vs.CSVEnd(file)
	r, err := FromCSVFile(path, parseAs)
	anyBad := vs.Exists(0, len(rows), func(k int) bool { return sp_csvBad(rows[k]) })
	vs.Ensures("no error exactly when the file can be read, all records are complete and the input ends properly",
		(err == nil) == (ferr == nil && !anyBad && errors.Is(end, io.EOF)))
	if err == nil {
		vs.Ensures("one package per record, sorted", vs.Eq([]PackageDetails(r.Packages), vs.SortBy(sp_csvs(rows, len(rows)), sp_before)))
		vs.Ensures("named as asked", r.FilePath == path && r.ParsedAs == parseAs)
	}
}
