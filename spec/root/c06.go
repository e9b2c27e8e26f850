package main

import (
	"io"
	"os"

	"github.com/g-rath/osv-detector/internal/configer"
	"github.com/g-rath/osv-detector/internal/reporter"
	"github.com/g-rath/osv-detector/internal/vs"
	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

// sp_fs: those of the first n files that were read.
func sp_fs(files lockfileAndConfigOrErrs, n int) lockfileAndConfigOrErrs {
	if n <= 0 || n > len(files) {
		return nil
	}
	if files[n-1].err != nil {
		return sp_fs(files, n-1)
	}

	return vs.Append(sp_fs(files, n-1), files[n-1])
}

// sp_ignored: the ignores of the config, unless they are disabled, and those of the command line.
func sp_ignored(igs []string, c configer.Config, disabled bool, ignore []string) bool {
	return vs.ForallStr(func(id string) bool {
		return vs.Member(id, igs) == (vs.Member(id, ignore) || !disabled && c.FilePath != "" && vs.Member(id, c.Ignore))
	})
}

// sp_chosen: those databases that are configured.
func sp_chosen(r, dbs OSVDatabases, cs []database.Config) bool {
	return vs.Forall(0, len(r), func(j int) bool { return vs.Member(r[j], dbs) && spo_listed(cs, r[j].Identifier()) }) &&
		vs.Forall(0, len(dbs), func(k int) bool { return !spo_listed(cs, dbs[k].Identifier()) || vs.Member(dbs[k], r) })
}

// sp_named: the names of all packages are there.
func sp_named(l lockfile.Lockfile, s map[string]struct{}) bool {
	return vs.Forall(0, len(l.Packages), func(p int) bool { return vs.Has(s, l.Packages[p].Name) })
}

func sp_bad(rs []reporter.Report) bool {
	return vs.Exists(0, len(rs), func(k int) bool { return rs[k].HasKnownVulnerabilities() })
}

func sp_unread(files lockfileAndConfigOrErrs, n int) bool {
	return vs.Exists(0, n, func(k int) bool { return files[k].err != nil })
}

func ct__run(args []string, stdout, stderr io.Writer) {
	vs.Prop("C06,C07,C08,C14")
	vs.Option("use ct__findAllLockfiles: a failure is; the reporter is")
	vs.Option("use ct__readAllLockfiles: which no other; the reporter is; an invalid")
	vs.Option("use ct_lockfileAndConfigOrErrs_adjustExtraDatabases: none")
	vs.Option("use ct__loadDatabases: no database; only those; an error marks; the reporter is")
	vs.Option("use ct__uniqueDBConfigs: none")
	vs.Option("use ct_lockfileAndConfigOrErrs_getConfigs: and no other")
	vs.Option("use ct_OSVDatabases_check: the reporter is; a database that fails")
	vs.Option("use ct_OSVDatabases_forConfigs: only; all")
	vs.Option("use ct_Reporter_PrintTextf: none")
	vs.Option("use ct_Reporter_PrintErrorf: the run; nothing else")
	vs.Option("range loops")
	vs.Option("use ct__describeDB: none")
	vs.Option("use ct__writeUpdatedConfigs: the reporter is; a failed run")
	vs.Requires(len(os.Args) > 0 && stdout != nil && stderr != nil && stdout != stderr && stdout != os.Stderr)
	vs.ModifiesOut()
	vs.ModifiesNet()
	vs.ModifiesFiles()
	vs.Allocates()
	vs.ModifiesAll((*reporter.Reporter)(nil))
	vs.ModifiesAll((*configer.Config)(nil))
	vs.Got[*reporter.Reporter](reporter.New, 0)
	vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)
	vs.Got[bool](findAllLockfiles, 1)
	vs.Got[OSVDatabases](loadDatabases, 0)
	vs.Got[[]string](findAllLockfiles, 0)
	vs.Got[configer.Config](configer.Load, 0)
	vs.Got[[]*configer.Config](lockfileAndConfigOrErrs.getConfigs, 0)
	vs.Got[[]database.Config](uniqueDBConfigs, 0)
	vs.Got[bool](loadDatabases, 1)
	vs.Got[reporter.Report](OSVDatabases.check, 0)
	vs.Log[lockfile.Lockfile](OSVDatabases.check, 2)
	vs.Log[[]string](OSVDatabases.check, 3)
	vs.Log[OSVDatabases](OSVDatabases.check, 0)
	vs.Log[reporter.Result]((*reporter.Reporter).PrintResult, 1)
	list, noIgnores, ignore := vs.Flag[bool]("list-packages"), vs.Flag[bool]("no-config-ignores"), []string(vs.Flag[stringsFlag]("ignore"))

	vs.Inv(func(code int) bool { return code == 0 || code == 1 || code == 127 })
	vs.Inv(func(n, code int) bool {
		return (code == 127) == (vs.Got[bool](loadDatabases, 1)[0] || sp_unread(vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0], n))
	})
	vs.Inv(func(code int) bool {
		return code == 127 || (code == 1) == sp_bad(vs.Got[reporter.Report](OSVDatabases.check, 0))
	})
	vs.Inv(func(code int) bool {
		return code != 127 || reporter.Sp_failed(vs.Got[*reporter.Reporter](reporter.New, 0)[0])
	})
	vs.Inv(func() bool {
		r := vs.Got[*reporter.Reporter](reporter.New, 0)[0]
		return reporter.Sp_ready(r) && reporter.Sp_own(r)
	})
	vs.Inv(func(m map[string]map[string]struct{}) bool {
		return m != nil && vs.ForallStr(func(f string) bool { return !vs.Has(m, f) || m[f] != nil })
	})
	vs.Inv(func(m map[string]map[string]struct{}, srcC *configer.Config) bool { return vs.Has(m, srcC.FilePath) })
	vs.Inv(func(n, code int) bool {
		fs, at := sp_fs(vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0], n), vs.Log[lockfile.Lockfile](OSVDatabases.check, 2)
		return list || len(at) == len(fs)
	})
	vs.Inv(func(n, code int) bool {
		fs, at := sp_fs(vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0], n), vs.Log[lockfile.Lockfile](OSVDatabases.check, 2)
		return list || vs.Forall(0, len(at), func(j int) bool { return vs.Same(at[j], fs[j].lockf) })
	})
	// what each of them is checked with
	vs.Inv(func(n, code int) bool {
		fs, at := sp_fs(vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0], n), vs.Log[[]string](OSVDatabases.check, 3)
		return list || len(at) == len(fs) && vs.Forall(0, len(at), func(j int) bool { return sp_ignored(at[j], *fs[j].config, noIgnores, ignore) })
	})
	vs.Inv(func(n, code int) bool {
		fs, at := sp_fs(vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0], n), vs.Log[OSVDatabases](OSVDatabases.check, 0)
		return list || len(at) == len(fs) && vs.Forall(0, len(at), func(j int) bool {
			return sp_chosen(at[j], vs.Got[OSVDatabases](loadDatabases, 0)[0], fs[j].config.Databases)
		})
	})
	// what is printed
	vs.Inv(func(n, code int) bool {
		fs, at := sp_fs(vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0], n), vs.Log[reporter.Result]((*reporter.Reporter).PrintResult, 1)
		return !list || len(at) == len(fs) && vs.Forall(0, len(at), func(j int) bool { return vs.Same(at[j], reporter.Result(fs[j].lockf)) })
	})
	vs.Inv(func(code int) bool {
		found, at := vs.Got[reporter.Report](OSVDatabases.check, 0), vs.Log[reporter.Result]((*reporter.Reporter).PrintResult, 1)
		return list || len(at) == len(found) && vs.Forall(0, len(at), func(j int) bool { return vs.Same(at[j], reporter.Result(found[j])) })
	})
	// the names that the databases are searched for
	vs.Inv(func(n int, s map[string]struct{}) bool {
		files := vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0]
		return vs.Forall(0, n, func(k int) bool { return sp_named(files[k].lockf, s) })
	})
	vs.Inv(func(outN int, s map[string]struct{}) bool {
		files := vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0]
		return vs.Forall(0, outN, func(k int) bool { return sp_named(files[k].lockf, s) })
	})
	vs.Inv(func(i int, s map[string]struct{}, srcPs lockfile.Packages) bool {
		return vs.Forall(0, i, func(p int) bool { return vs.Has(s, srcPs[p].Name) })
	})
	vs.Inv(func(at int, acc []string, srcS map[string]struct{}) bool {
		return vs.Forall(0, at, func(k int) bool { return vs.Member(vs.Keys(srcS)[k], acc) })
	})
	// the steps are given what the flags say and what the steps before them found
	vs.AtCall("files are looked for at the given paths", findAllLockfiles, func(r *reporter.Reporter, args []string, as string) bool {
		return vs.Same(args, vs.FlagArgs()) && as == vs.Flag[string]("parse-as")
	})
	vs.AtCall("the config is read from the given path", configer.Load, func(r *reporter.Reporter, path string) bool {
		return path == vs.Flag[string]("config") && !vs.Flag[bool]("no-config")
	})
	vs.AtCall("the files that were found are read, with local configs unless they are not wanted", readAllLockfiles, func(r *reporter.Reporter, ins, args []string, local bool, c *configer.Config) bool {
		return vs.Same(ins, vs.Got[[]string](findAllLockfiles, 0)[0]) && vs.Same(args, vs.FlagArgs()) &&
			local == (!list && !vs.Flag[bool]("no-config") && vs.Flag[string]("config") == "")
	})
	vs.AtCall("under the given config, if there is one", readAllLockfiles, func(r *reporter.Reporter, ins, args []string, local bool, c *configer.Config) bool {
		loaded := vs.Got[configer.Config](configer.Load, 0)
		if list || vs.Flag[bool]("no-config") || vs.Flag[string]("config") == "" {
			return c.FilePath == "" && len(c.Ignore) == 0 && len(c.Databases) == 0
		}
		return len(loaded) == 1 && vs.Same(*c, loaded[0])
	})
	vs.AtCall("databases are added as the flags say", lockfileAndConfigOrErrs.adjustExtraDatabases, func(fs lockfileAndConfigOrErrs, remove, api, ecosystems bool) bool {
		return vs.Same(fs, vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0]) &&
			remove == vs.Flag[bool]("no-config-databases") && api == vs.Flag[bool]("use-api") && ecosystems == vs.Flag[bool]("use-dbs")
	})
	vs.AtCall("the configs of all files are taken", lockfileAndConfigOrErrs.getConfigs, func(fs lockfileAndConfigOrErrs) bool {
		return vs.Same(fs, vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0])
	})
	vs.AtCall("all their databases are taken", uniqueDBConfigs, func(cs []*configer.Config) bool {
		return vs.Same(cs, vs.Got[[]*configer.Config](lockfileAndConfigOrErrs.getConfigs, 0)[0])
	})
	vs.AtCall("and loaded as the flags say", loadDatabases, func(r *reporter.Reporter, cs []database.Config, none, offline bool, size int, names []string) bool {
		return vs.Same(cs, vs.Got[[]database.Config](uniqueDBConfigs, 0)[0]) && none == list &&
			offline == vs.Flag[bool]("offline") && size == vs.Flag[int]("batch-size")
	})
	vs.AtCall("with the advisories about any package", loadDatabases, func(r *reporter.Reporter, cs []database.Config, none, offline bool, size int, names []string) bool {
		files := vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)[0]
		return vs.Forall(0, len(files), func(k int) bool {
			return vs.Forall(0, len(files[k].lockf.Packages), func(p int) bool { return vs.Member(files[k].lockf.Packages[p].Name, names) })
		})
	})
	code := run(args, stdout, stderr)
	r := vs.Got[*reporter.Reporter](reporter.New, 0)[0]
	found := vs.Got[reporter.Report](OSVDatabases.check, 0)
	vs.Assume("the results can be written as JSON", reporter.Sp_writable(r))
	files := vs.Got[lockfileAndConfigOrErrs](readAllLockfiles, 0)
	vs.Ensures("the exit code", code == 0 || code == 1 || code == 127 || code == 128)
	vs.Ensures("0 only if there was no error", code != 0 || !reporter.Sp_failed(r))
	vs.Ensures("0 only if no vulnerability was reported", code != 0 || !sp_bad(found))
	vs.Ensures("1 only if some was", code != 1 || sp_bad(found))
	vs.Ensures("a file that cannot be read, or a database that cannot be loaded, gives 127", len(files) == 0 || len(vs.Got[bool](loadDatabases, 1)) == 1 &&
		(code == 127 || !vs.Got[bool](loadDatabases, 1)[0] && !sp_unread(files[0], len(files[0]))))
	vs.Ensures("which comes with an error", code != 127 || reporter.Sp_failed(r))
	vs.Ensures("128 only if all paths were readable", code != 128 || len(files) == 0 && !vs.Got[bool](findAllLockfiles, 1)[0] && len(vs.FlagArgs()) > 0)
	vs.Ensures("a run that looks for files reads those that it finds, or ends with 127 or 128", len(vs.Got[bool](findAllLockfiles, 1)) == 0 || len(files) == 1 || code == 127 || code == 128)
	if len(files) == 1 && !list {
		fs, at := sp_fs(files[0], len(files[0])), vs.Log[lockfile.Lockfile](OSVDatabases.check, 2)
		vs.Ensures("every file that was read is checked, in order", len(at) == len(fs) && vs.Forall(0, len(at), func(j int) bool { return vs.Same(at[j], fs[j].lockf) }))
		igs, dbs := vs.Log[[]string](OSVDatabases.check, 3), vs.Log[OSVDatabases](OSVDatabases.check, 0)
		vs.Ensures("with the ignores of its config and of the command line", len(igs) == len(fs) && vs.Forall(0, len(igs), func(j int) bool { return sp_ignored(igs[j], *fs[j].config, noIgnores, ignore) }))
		vs.Ensures("against the loaded databases that its config lists", len(dbs) == len(fs) && vs.Forall(0, len(dbs), func(j int) bool {
			return sp_chosen(dbs[j], vs.Got[OSVDatabases](loadDatabases, 0)[0], fs[j].config.Databases)
		}))
		printed := vs.Log[reporter.Result]((*reporter.Reporter).PrintResult, 1)
		vs.Ensures("and its report is printed", len(printed) == len(found) && vs.Forall(0, len(found), func(j int) bool { return vs.Same(printed[j], reporter.Result(found[j])) }))
	}
	if len(files) == 1 && list {
		fs, printed := sp_fs(files[0], len(files[0])), vs.Log[reporter.Result]((*reporter.Reporter).PrintResult, 1)
		vs.Ensures("every file that was read is listed, in order", len(printed) == len(fs) && vs.Forall(0, len(fs), func(j int) bool { return vs.Same(printed[j], reporter.Result(fs[j].lockf)) }))
	}
	_ = database.OSV{}
}
