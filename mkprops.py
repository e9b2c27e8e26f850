#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the wording stays in one reviewable place)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"meaning":x,"where":files[0]} for x in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A version is affected exactly when replaying the range's events says so",
"For every package version and every advisory range of the semver or ecosystem kind, the range counts the version as affected exactly when replaying its events in version order opens at some introduced event at or below the version (\"0\" is below everything) and is not closed again by a later fixed event at or below it or a last-affected event below it, whatever order the advisory lists the events in (for event lists that name each version at most once). A list of ranges affects a version exactly when at least one of them does: ranges of other kinds (git) and empty ranges neither match by themselves nor hide their neighbours.",
["inputs"],"all packages, all lists of ranges, all event lists in any order",
"Tests sample a few dozen event lists for a few ecosystems; the rule has to hold for every event list, ordering and mix of range kinds.",
["pkg/database/osv.go"],[("range replay","pkg/database/osv.go: AffectsRange.containsVersion, RangeEvent.version"),("any-range rule","pkg/database/osv.go: Affects.affectsVersion")],observe=["result of OSV.IsAffected","vulnerabilities listed in the report"])
p("C02","An advisory applies to a package exactly when one of its affected entries does",
"For every advisory and every package, the advisory is reported as affecting the package exactly when some affected entry has the same ecosystem (release suffixes are compared only when both sides have one), the same package name (PyPI names compared in normalised form: lower case, runs of '-', '_' and '.' equal to a single '-'), is not devoid of both versions and ranges, and either lists the exact version, or has a range affecting it, or the package has no known version. Entries for other packages or ecosystems never influence the answer.",
["inputs"],"all advisories (any number of affected entries) and all packages",
"The combination of entry order, ecosystems with suffixes, name spellings and blank versions is unbounded; tests pin a handful.",
["pkg/database/osv.go","pkg/lockfile/parse-requirements-txt.go"],[("entry matching","pkg/database/osv.go: OSV.IsAffected, areEcosystemsEqual"),("normalisation","pkg/database/osv.go: Package.NormalizedEcosystem, Package.NormalizedName")],observe=["result of OSV.IsAffected"])
p("C03","A local database lookup misses no applicable advisory and invents none",
"For every collection of advisories in a directory or zip database and every list of packages, checking the packages yields one result list per package in the same order, and each list holds only loaded, non-withdrawn advisories that affect that package and leaves out such an advisory only when an alias of it (or itself) is already listed. Loading with a list of package names to keep never changes the answer for a package in that list.",
["inputs","histories"],"all sets and orders of loaded advisories, all package lists, with and without the package-name filter",
"An index keyed by derived strings can lose an advisory only for particular name/ecosystem spellings, alias patterns or load orders, which samples do not hit.",
["pkg/database/mem-check.go","pkg/database/zip.go","pkg/database/dir.go"],[("index insert","pkg/database/mem-check.go: memDB.addVulnerability"),("index lookup","pkg/database/mem-check.go: memDB.VulnerabilitiesAffectingPackage, memDB.Check"),("prefilter","pkg/database/zip.go: mightAffectPackages"),("loading","pkg/database/zip.go: ZipDB.load, loadZipFile; pkg/database/dir.go: DirDB.load")],state=["the in-memory map from ecosystem and name to advisories"],observe=["result of DB.Check on a dir or zip database"])
p("C04","Merging database results loses nothing, repeats nothing and honours ignores",
"For every package and every set of per-database results, each advisory any successful database returned for that package is represented in the package's report: either by itself or by one listed before it that shares an identifier or alias, and no two listed advisories share one. A listed advisory is filed under ignored exactly when its identifier is in the list of ignores, otherwise under vulnerabilities; a failing database contributes nothing and shifts nothing, and nothing is attributed to a package that no database returned for it.",
["inputs","histories"],"all numbers of databases, all result lists, alias graphs and ignore lists, any subset of databases failing",
"Alias graphs, database order and ignore sets combine without bound; one wrong index or a missed alias direction shows only for particular combinations.",
["main.go","pkg/database/vulnerabilities.go","pkg/database/osv.go"],[("merge","main.go: OSVDatabases.transposePkgResults, OSVDatabases.check"),("alias equivalence","pkg/database/vulnerabilities.go: Vulnerabilities.Includes, Unique; pkg/database/osv.go: OSV.isAliasOf")],observe=["report per lockfile (text and JSON)"])
p("C05","API batching keeps every package aligned with its own results",
"For every package list, every batch size of at least one and every order in which the requests complete, each package is queried exactly once, in order, and result list i belongs to package i and holds an advisory for exactly the identifiers the API returned for it, in the API's order; an advisory whose details could not be fetched is still reported by identifier. A failed batch (transport error, bad status, unreadable body or a result count that does not match) makes the whole check fail instead of returning partial results.",
["inputs","schedules","fault_sequences"],"all package lists, batch sizes, response contents, completion orders and failing requests",
"Concurrent batches and fetches complete in arbitrary order and any one can fail; tests run a few lists against an in-process server.",
["pkg/database/api-check.go","pkg/database/api-fetch-all.go","pkg/database/api-fetch.go","pkg/database/api.go"],[("batching","pkg/database/api-check.go: batchPkgs, APIDB.Check, APIDB.checkBatch, buildAPIPayload"),("detail fetch","pkg/database/api-fetch-all.go: APIDB.FetchAll; api-check.go: findOrDefault")],observe=["result of DB.Check on an api database, requests received by the server"])
p("C06","The exit code never calls a vulnerable or failed run clean",
"For every invocation, the process exits 0 only if everything it was asked to check was read and checked without any reported error and no package has a vulnerability that is not ignored. It exits 1 only if such a vulnerability was reported; an unreadable lockfile or config or a database that fails to load gives 127 even when vulnerabilities were found, any other reported error (a path that cannot be opened, a database that fails to answer) gives 127 when none was found, and finding nothing to parse in readable inputs gives 128.",
["inputs","fault_sequences"],"all sets of paths, flags, lockfile contents, configs and database outcomes",
"The exit code folds over any number of lockfiles, errors and reports; particular orders (vulnerable then broken file, ignored-only findings) are what go wrong.",
["main.go","internal/reporter/reporter.go","internal/reporter/report.go"],[("exit code fold","main.go: run"),("finding counts","internal/reporter/report.go: Report.HasKnownVulnerabilities"),("error flag","internal/reporter/reporter.go: Reporter.PrintErrorf, HasErrored")],observe=["process exit code"])
p("C07","Every lockfile is checked against all of its databases and only those",
"For every set of lockfiles and configs, each lockfile is checked against exactly the loaded databases that are configured for it: the extra databases of its own config (unless disabled), the API when requested, and the database of every ecosystem among its packages when requested. Settings that differ in type, URL or working directory are distinct databases and equal ones are loaded once; one lockfile's databases never disappear or leak because of another lockfile in the same run.",
["inputs","histories"],"all sequences of lockfiles, configs, ecosystems and database flags",
"Interference between lockfiles depends on how many there are, their order and which configs they share; tests cannot reach the real databases offline.",
["main.go","pkg/database/config.go","pkg/lockfile/parse.go"],[("database selection","main.go: adjustExtraDatabases, uniqueDBConfigs, forConfigs, loadDatabases, getConfigs, collectEcosystems"),("database identity","pkg/database/config.go: Config.Identifier, Load"),("ecosystems","pkg/lockfile/parse.go: Packages.Ecosystems")],state=["the config object held per lockfile"],observe=["'Using db' lines and the report per lockfile"])
p("C08","Each lockfile is judged under its own configuration and ignores",
"For every set of lockfiles, each one is checked under the config given on the command line if there is one, otherwise the one next to it (.yml before .yaml), otherwise none; config ignores apply only to lockfiles using that config and only when not disabled, and command-line ignores apply to all. A config that exists but cannot be read or parsed is an error for its lockfile, invalid database entries are reported and skipped, database types are inferred from the URL when not given, and updating a config rewrites its ignore list to exactly the identifiers found for its lockfiles while keeping its databases.",
["inputs","histories"],"all lockfile sets, config contents and flags",
"Which ignores reach which lockfile depends on the whole sequence of files and configs in one run.",
["main.go","internal/configer/load.go","internal/configer/update.go"],[("config lookup","main.go: readAllLockfiles; internal/configer/load.go: Find, Load, newConfig, toConfig, inferDBType"),("ignores","main.go: run"),("update","main.go: writeUpdatedConfigs; internal/configer/update.go: UpdateWithIgnores")],observe=["report per lockfile, config file on disk after an update"])
p("C09","No lockfile, config or CSV content crashes the tool",
"For every file content given to any of the supported parsers, the parser returns packages or an error: it never panics, indexes out of range, dereferences a missing document or terminates the process.",
["inputs"],"all byte contents for each of the supported lockfile formats",
"Crashes come from contents nobody writes in a fixture: null documents, empty tuples, truncated or oddly shaped values.",
["pkg/lockfile"],[("parsers","pkg/lockfile/parse-*.go, pkg/lockfile/csv.go"),("dispatch","pkg/lockfile/parse.go: Parse")],observe=["lockfile.Parse, FromCSVFile, FromCSVRows return normally"])
p("C10","Structured lockfiles yield exactly the packages they list",
"For every well-formed JSON, TOML, YAML, XML or go.mod lockfile of a supported format, parsing reports every package the file locks (production and development, nested and replaced ones alike) exactly as named, with its version, source commit and the format's ecosystem, and nothing else. Only entries the format marks as not being third-party packages (the root project, other repositories, entries without name or version) are left out, and entries are merged only when they are the same package at the same version (in pom.xml a dependency's own version replaces the managed one, and without one the managed version is used).",
["inputs"],"all well-formed documents of each structured format",
"The packages may come in any number, nesting and combination of fields; fixtures show one shape each.",
["pkg/lockfile"],[("structured parsers","pkg/lockfile/parse-{bun,cargo,composer,go,maven,npm,nuget,pdm,pipenv,pnpm,poetry,pubspec,pylock,renv,uv}-lock.go"),("commit extraction","pkg/lockfile/parse-yarn-lock.go: tryExtractCommit")],observe=["packages returned by lockfile.Parse, --list-packages output"])
p("C11","Line-based lockfiles yield exactly the packages they list",
"For every Gemfile.lock, gradle.lockfile, mix.lock, yarn.lock or requirements.txt, parsing reports every dependency entry of the file, and of files it includes, with its name (requirements in normalised form without extras), version or lower bound (in requirements.txt that of ==, otherwise of >= or ~=, otherwise 0.0.0), commit and ecosystem, whatever order, grouping, comments or line continuations surround it. Comments, section headers, options, URLs and paths yield no package, and no entry's name, version or commit comes from another entry.",
["inputs"],"all sequences of lines",
"State carried from line to line goes wrong only for particular sequences of sections, groups, includes and continuations.",
["pkg/lockfile"],[("line parsers","pkg/lockfile/parse-{gemfile,gradle,mix,yarn}-lock.go, parse-requirements-txt.go")],state=["current section and commit while scanning a Gemfile.lock","current group while scanning a yarn.lock","files already included"],observe=["packages returned by lockfile.Parse"])
p("C12","CSV input yields one package per row, or an error naming the row",
"For every CSV file or list of rows, parsing yields exactly one package per record with its ecosystem, name and version taken from the record's columns, the ecosystem to compare as defaulting to the package's ecosystem, and a record without an ecosystem being a commit with no version. A record with fewer than four fields, no package name, or neither ecosystem nor commit is an error that names its row, never a silently dropped package.",
["inputs"],"all sequences of records",
"Rows combine blank and filled columns in any order and number.",
["pkg/lockfile/csv.go"],[("record parsing","pkg/lockfile/csv.go: fromCSVRecord"),("row loop","pkg/lockfile/csv.go: fromCSV, FromCSVRows, FromCSVFile")],observe=["packages and errors returned by FromCSVRows and FromCSVFile"])
p("C13","Every requested file is parsed once, by the right parser, in a stable order",
"For every list of paths, a file is parsed by the parser named by its path prefix, else by the global parse-as setting, else by its exact file name; an unknown parser name is an error and a directory contributes exactly the files directly in it that the chosen parser accepts, sorted. The path is kept intact whatever characters follow the first colon, an unreadable path is reported without affecting the others, and the packages of a parsed file are listed sorted by name and then version with none added or dropped.",
["inputs"],"all path lists, directory contents and parse-as values",
"Paths, prefixes and directory contents are arbitrary; tests use a handful of fixtures.",
["main.go","pkg/lockfile/parse.go"],[("discovery","main.go: findLockfiles, findAllLockfiles, parseLockfilePathWithParseAs, parseLockfile"),("parser table and ordering","pkg/lockfile/parse.go: FindParser, Parse, ListParsers")],observe=["files reported per run, Lockfile returned by lockfile.Parse"])
p("C14","Output goes to the right stream and the report says what was found",
"For every run, errors go only to standard error and mark the run as failed; in JSON mode standard output carries nothing but one JSON document holding one entry per printed result in order, and in text mode each result is written to standard output as it is produced. A report lists each package with at least one vulnerability and every one of its vulnerabilities and no ignored one, and the stated numbers of vulnerabilities and ignores equal the totals over all packages.",
["inputs","histories"],"all reports and all sequences of reporter calls in both modes",
"Counts and streams depend on every combination of packages, vulnerabilities, ignores and calls.",
["internal/reporter/reporter.go","internal/reporter/report.go","pkg/lockfile/parse.go"],[("stream routing","internal/reporter/reporter.go: PrintErrorf, PrintTextf, PrintResult, PrintJSONResults"),("report text","internal/reporter/report.go: Report.String, formatLineByLine, describeIgnores; pkg/lockfile/parse.go: Lockfile.String")],state=["results collected so far, error flag"],observe=["bytes written to stdout and stderr"])
p("C15","Zip databases use the cache only when it is right to",
"For every sequence of runs and server responses, a zip database loads the body the server sent when it answers 200, the cached body for the same URL when it answers not-modified, and in offline mode only the cached body without contacting any server, failing when there is none. Any other status, transport error or unreadable archive is an error and never loads stale or partial data, and after a 200 answer with validators the cache holds exactly that body, validators and URL.",
["histories","fault_sequences"],"all prior cache contents, server answers and offline settings, over sequences of runs",
"The outcome depends on what earlier runs left on disk and how the server answers now.",
["pkg/database/zip.go"],[("cache protocol","pkg/database/zip.go: ZipDB.fetchZip, cachePath"),("archive load","pkg/database/zip.go: ZipDB.load, NewZippedDB")],state=["the cache file per archive URL"],observe=["advisories loaded, requests received, cache file contents"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
