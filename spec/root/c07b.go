package main

import (
	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/configer"
	"github.com/g-rath/osv-detector/internal/vs"
	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func sp_configs(files lockfileAndConfigOrErrs, n int) []*configer.Config {
	if n <= 0 || n > len(files) {
		return []*configer.Config{}
	}
	if files[n-1].err != nil {
		return sp_configs(files, n-1)
	}

	return vs.Append(sp_configs(files, n-1), files[n-1].config)
}

func ct_lockfileAndConfigOrErrs_getConfigs(files lockfileAndConfigOrErrs) {
	vs.Prop("C07")
	vs.Inv(func(i int, acc []*configer.Config) bool { return vs.Same(acc, sp_configs(files, i)) })
	vs.Inv(func(n int, acc []*configer.Config) bool {
		return vs.Forall(0, n, func(k int) bool { return files[k].err != nil || vs.Member(files[k].config, acc) })
	})
	vs.Inv(func(n int, acc []*configer.Config) bool {
		return vs.Forall(0, len(acc), func(j int) bool {
			return vs.Exists(0, n, func(k int) bool { return files[k].err == nil && files[k].config == acc[j] })
		})
	})
	r := files.getConfigs()
	vs.Ensures("the config of every file that was read", vs.Forall(0, len(files), func(k int) bool { return files[k].err != nil || vs.Member(files[k].config, r) }))
	vs.Ensures("and no other", vs.Forall(0, len(r), func(j int) bool {
		return vs.Exists(0, len(files), func(k int) bool { return files[k].err == nil && files[k].config == r[j] })
	}))
}

func sp_has(l lockfile.Lockfile, e internal.Ecosystem) bool {
	return vs.Exists(0, len(l.Packages), func(j int) bool { return l.Packages[j].Ecosystem == e })
}

func ct__collectEcosystems(files []lockfileAndConfigOrErr) {
	vs.Prop("C07")
	vs.Inv(func(acc []internal.Ecosystem) bool {
		return vs.Forall(0, len(acc), func(j int) bool {
			return acc[j] != "" && vs.Exists(0, len(files), func(k int) bool { return files[k].err == nil && sp_has(files[k].lockf, acc[j]) })
		})
	})
	vs.Inv(func(n int, acc []internal.Ecosystem) bool {
		return vs.Forall(0, n, func(k int) bool {
			return files[k].err != nil || vs.Forall(0, len(files[k].lockf.Packages), func(j int) bool {
				return files[k].lockf.Packages[j].Ecosystem == "" || vs.In(files[k].lockf.Packages[j].Ecosystem, acc)
			})
		})
	})
	vs.Inv(func(outN int, acc []internal.Ecosystem) bool {
		return vs.Forall(0, outN, func(k int) bool {
			return files[k].err != nil || vs.Forall(0, len(files[k].lockf.Packages), func(j int) bool {
				return files[k].lockf.Packages[j].Ecosystem == "" || vs.In(files[k].lockf.Packages[j].Ecosystem, acc)
			})
		})
	})
	vs.Inv(func(m int, acc []internal.Ecosystem, srcEs []internal.Ecosystem) bool {
		return vs.Forall(0, m, func(j int) bool { return vs.In(srcEs[j], acc) })
	})
	vs.Inv(func(m int, found bool, srcAcc []internal.Ecosystem, srcE internal.Ecosystem) bool {
		return found == vs.Exists(0, m, func(j int) bool { return srcAcc[j] == srcE })
	})
	r := collectEcosystems(files)
	vs.Ensures("the ecosystem of every package of the files", vs.Forall(0, len(files), func(k int) bool {
		return files[k].err != nil || vs.Forall(0, len(files[k].lockf.Packages), func(j int) bool {
			return files[k].lockf.Packages[j].Ecosystem == "" || vs.In(files[k].lockf.Packages[j].Ecosystem, r)
		})
	}))
	vs.Ensures("and no other", vs.Forall(0, len(r), func(j int) bool {
		return r[j] != "" && vs.Exists(0, len(files), func(k int) bool { return files[k].err == nil && sp_has(files[k].lockf, r[j]) })
	}))
}

// sp_apart: no config is used by two files.
func sp_apart(files lockfileAndConfigOrErrs) bool {
	return vs.Forall(0, len(files), func(j int) bool {
		return files[j].err != nil || files[j].config != nil && vs.Known(files[j].config) && vs.Forall(0, j, func(k int) bool { return files[k].err != nil || files[k].config != files[j].config })
	})
}

// sp_extra: a database that the settings ask for besides those of the config.
func sp_extra(c database.Config, l lockfile.Lockfile, api, ecosystems bool) bool {
	return api && c == makeAPIDBConfig() ||
		ecosystems && vs.Exists(0, len(l.Packages), func(j int) bool {
			return l.Packages[j].Ecosystem != "" && c == makeEcosystemDBConfig(l.Packages[j].Ecosystem)
		})
}

// sp_own, sp_api, sp_ecosystems: the databases that a file has to be checked with are there.
func sp_own(f lockfileAndConfigOrErr, remove bool) bool {
	return vs.Forall(0, len(vs.Old(f.config).Databases), func(j int) bool {
		return f.err != nil || remove || spo_listed(f.config.Databases, vs.Old(f.config).Databases[j].Identifier())
	})
}

func sp_api(ds []database.Config, api bool) bool {
	return !api || spo_listed(ds, makeAPIDBConfig().Identifier())
}

func sp_ecosystems(f lockfileAndConfigOrErr, ecosystems bool) bool {
	return vs.Forall(0, len(f.lockf.Packages), func(j int) bool {
		return f.err != nil || !ecosystems || f.lockf.Packages[j].Ecosystem == "" || spo_listed(f.config.Databases, makeEcosystemDBConfig(f.lockf.Packages[j].Ecosystem).Identifier())
	})
}

// sp_only: no others are.
func sp_only(ds []database.Config, old configer.Config, l lockfile.Lockfile, remove, api, ecosystems bool) bool {
	return vs.Forall(0, len(ds), func(j int) bool {
		return !remove && vs.Member(ds[j], old.Databases) || sp_extra(ds[j], l, api, ecosystems)
	})
}

func ct_lockfileAndConfigOrErrs_adjustExtraDatabases(files lockfileAndConfigOrErrs, remove, api, ecosystems bool) {
	vs.Prop("C07,C08")
	vs.Requires(sp_apart(files))
	vs.ModifiesAll((*configer.Config)(nil))
	vs.Inv(func(n int) bool {
		return vs.Forall(0, n, func(k int) bool { return sp_own(files[k], remove) })
	})
	vs.Inv(func(n int) bool {
		return vs.Forall(0, n, func(k int) bool { return files[k].err != nil || sp_api(files[k].config.Databases, api) })
	})
	vs.Inv(func(n int) bool {
		return vs.Forall(0, n, func(k int) bool { return sp_ecosystems(files[k], ecosystems) })
	})
	vs.Inv(func(n int) bool {
		return vs.Forall(0, n, func(k int) bool {
			return files[k].err != nil || sp_only(files[k].config.Databases, vs.Old(files[k].config), files[k].lockf, remove, api, ecosystems)
		})
	})
	vs.Inv(func(n int) bool {
		return vs.Forall(0, len(files), func(k int) bool {
			return files[k].err != nil || files[k].config.FilePath == vs.Old(files[k].config).FilePath && vs.Same(files[k].config.Ignore, vs.Old(files[k].config).Ignore)
		})
	})
	vs.Inv(func(n int) bool {
		return vs.Forall(n, len(files), func(k int) bool {
			return files[k].err != nil || vs.Same(*files[k].config, vs.Old(files[k].config))
		})
	})
	vs.Inv(func(outN int, acc []database.Config) bool {
		return vs.Forall(0, len(acc), func(j int) bool { return sp_extra(acc[j], files[outN].lockf, api, ecosystems) })
	})
	vs.Inv(func(m int, acc []database.Config, srcEs []internal.Ecosystem) bool {
		return (!api || vs.Member(makeAPIDBConfig(), acc)) && vs.Forall(0, m, func(j int) bool { return vs.Member(makeEcosystemDBConfig(srcEs[j]), acc) })
	})
	files.adjustExtraDatabases(remove, api, ecosystems)
	vs.Ensures("every file is checked with the databases of its config", vs.Forall(0, len(files), func(k int) bool { return sp_own(files[k], remove) }))
	vs.Ensures("with the API, if asked for", vs.Forall(0, len(files), func(k int) bool { return files[k].err != nil || sp_api(files[k].config.Databases, api) }))
	vs.Ensures("with the databases of its ecosystems, if asked for", vs.Forall(0, len(files), func(k int) bool { return sp_ecosystems(files[k], ecosystems) }))
	vs.Ensures("and with no others", vs.Forall(0, len(files), func(k int) bool {
		return files[k].err != nil || sp_only(files[k].config.Databases, vs.Old(files[k].config), files[k].lockf, remove, api, ecosystems)
	}))
	vs.Ensures("its config is otherwise as before", vs.Forall(0, len(files), func(k int) bool {
		return files[k].err != nil || files[k].config.FilePath == vs.Old(files[k].config).FilePath && vs.Same(files[k].config.Ignore, vs.Old(files[k].config).Ignore)
	}))
}
