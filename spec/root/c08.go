package main

import (
	"path/filepath"

	"github.com/g-rath/osv-detector/internal/configer"
	"github.com/g-rath/osv-detector/internal/reporter"
	"github.com/g-rath/osv-detector/internal/vs"
)

// sp_place: where the config of the lockfile is, empty when there is none.
func sp_place(in string) string { return configer.Sp_place(filepath.Dir(sp_path(in))) }

// sp_broken: the lockfile has a config that cannot be used.
func sp_broken(in string, local bool) bool {
	return local && sp_place(in) != "" && !configer.Sp_loads(sp_place(in))
}

// sp_odd: the lockfile has a config with an invalid database.
func sp_odd(in string, local bool) bool {
	return local && sp_place(in) != "" && configer.Sp_loads(sp_place(in)) && configer.Sp_invalid(sp_place(in))
}

func sp_same(a, b configer.Config) bool {
	return a.FilePath == b.FilePath && vs.Same(a.Ignore, b.Ignore) && vs.Same(a.Databases, b.Databases)
}

// sp_isConfig: c is the config to use for the lockfile.
func sp_isConfig(c configer.Config, in string, local bool, global configer.Config) bool {
	if !local {
		return sp_same(c, global)
	}
	if sp_place(in) == "" {
		return c.FilePath == "" && len(c.Ignore) == 0 && len(c.Databases) == 0
	}

	return sp_same(c, configer.Sp_config(sp_place(in)))
}

func sp_unreadable(in string, args []string) bool {
	_, err := parseLockfile(in, args)

	return err != nil
}

func sp_isRead(f lockfileAndConfigOrErr, in string, args []string) bool {
	l, _ := parseLockfile(in, args)

	return vs.Same(f.lockf, l)
}

func ct__readAllLockfiles(r *reporter.Reporter, ins []string, args []string, local bool, config *configer.Config) {
	vs.Prop("C06,C07,C08")
	vs.Requires(reporter.Sp_ready(r) && config != nil && vs.Known(config))
	vs.Modifies(r)
	vs.ModifiesOut()
	vs.Allocates()
	old, out := *r, reporter.Sp_out(r)
	vs.Inv(func(i int, acc lockfileAndConfigOrErrs) bool {
		return vs.Forall(0, i, func(k int) bool { return (acc[k].err != nil) == (sp_broken(ins[k], local) || sp_unreadable(ins[k], args)) })
	})
	vs.Inv(func(i int, acc lockfileAndConfigOrErrs) bool {
		return vs.Forall(0, i, func(k int) bool { return acc[k].err != nil || sp_isRead(acc[k], ins[k], args) })
	})
	vs.Inv(func(i int, acc lockfileAndConfigOrErrs) bool {
		return vs.Forall(0, i, func(k int) bool { return acc[k].err != nil || sp_isConfig(*acc[k].config, ins[k], local, vs.Old(config)) })
	})
	vs.Inv(func(acc lockfileAndConfigOrErrs) bool { return sp_apart(acc) })
	vs.Inv(func(c *configer.Config) bool { return c != nil && vs.Known(c) && (local || sp_same(*c, vs.Old(config))) })
	vs.Inv(func(i int) bool {
		return reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || vs.Exists(0, i, func(k int) bool { return sp_odd(ins[k], local) }))
	})
	vs.Inv(func() bool { return reporter.Sp_kept(r, old) && reporter.Sp_mute(r, out) })
	files := readAllLockfiles(r, ins, args, local, config)
	vs.Ensures("one entry for each file, in order", len(files) == len(ins))
	vs.Ensures("an error exactly when the config or the file cannot be read", vs.Forall(0, len(files), func(k int) bool {
		return (files[k].err != nil) == (sp_broken(ins[k], local) || sp_unreadable(ins[k], args))
	}))
	vs.Ensures("otherwise what the file says", vs.Forall(0, len(files), func(k int) bool { return files[k].err != nil || sp_isRead(files[k], ins[k], args) }))
	vs.Ensures("with the config for this file", vs.Forall(0, len(files), func(k int) bool {
		return files[k].err != nil || sp_isConfig(*files[k].config, ins[k], local, vs.Old(config))
	}))
	vs.Ensures("which no other file shares", sp_apart(files))
	vs.Ensures("an invalid database in a config is an error of the run", reporter.Sp_failed(r) == (reporter.Sp_failed(&old) || vs.Exists(0, len(ins), func(k int) bool { return sp_odd(ins[k], local) })))
	vs.Ensures("the reporter is otherwise as before", reporter.Sp_kept(r, old))
	vs.Ensures("in JSON mode nothing is written to standard output", reporter.Sp_mute(r, out))
}
