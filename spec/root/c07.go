package main

import (
	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/configer"
	"github.com/g-rath/osv-detector/internal/vs"
	"github.com/g-rath/osv-detector/pkg/database"
)

func ct__makeAPIDBConfig() {
	vs.Prop("C07")
	vs.Option("pure")
	c := makeAPIDBConfig()
	vs.Ensures("the API of osv.dev", c.Type == "api" && c.URL == "https://api.osv.dev/v1" && c.WorkingDirectory == "")
}

func ct__makeEcosystemDBConfig(e internal.Ecosystem) {
	vs.Prop("C07")
	vs.Option("pure")
	c := makeEcosystemDBConfig(e)
	vs.Ensures("the archive of the ecosystem", c.Type == "zip" && c.URL == "https://osv-vulnerabilities.storage.googleapis.com/"+string(e)+"/all.zip" && c.WorkingDirectory == "")
}

// spo_listed: some setting is for the database with the identifier.
func spo_listed(cs []database.Config, id string) bool {
	return vs.Exists(0, len(cs), func(k int) bool { return cs[k].Identifier() == id })
}

func ct_OSVDatabases_forConfigs(dbs OSVDatabases, cs []database.Config) {
	vs.Prop("C07")
	vs.Option("reveal spo_listed")
	vs.Requires(vs.Forall(0, len(dbs), func(k int) bool { return dbs[k] != nil }))
	vs.Inv(func(acc OSVDatabases) bool {
		return vs.Forall(0, len(acc), func(j int) bool { return vs.Member(acc[j], dbs) && spo_listed(cs, acc[j].Identifier()) })
	})
	vs.Inv(func(n int, acc OSVDatabases) bool {
		return vs.Forall(0, n, func(k int) bool { return !spo_listed(cs, dbs[k].Identifier()) || vs.Member(dbs[k], acc) })
	})
	vs.Inv(func(outN int, acc OSVDatabases) bool {
		return vs.Forall(0, outN, func(k int) bool { return !spo_listed(cs, dbs[k].Identifier()) || vs.Member(dbs[k], acc) })
	})
	vs.Inv(func(m, outN int, acc OSVDatabases) bool {
		return vs.Forall(0, m, func(j int) bool { return cs[j].Identifier() != dbs[outN].Identifier() || vs.Member(dbs[outN], acc) })
	})
	r := dbs.forConfigs(cs)
	vs.Ensures("only databases that are configured", vs.Forall(0, len(r), func(j int) bool { return vs.Member(r[j], dbs) && spo_listed(cs, r[j].Identifier()) }))
	vs.Ensures("all databases that are configured", vs.Forall(0, len(dbs), func(k int) bool { return !spo_listed(cs, dbs[k].Identifier()) || vs.Member(dbs[k], r) }))
}

// sp_oneOf: the setting is one of the config's.
func sp_from(c database.Config, configs []*configer.Config) bool {
	return vs.Exists(0, len(configs), func(k int) bool { return vs.Member(c, configs[k].Databases) })
}

func sp_distinct(cs []database.Config) bool {
	return vs.Forall(0, len(cs), func(j int) bool { return vs.Forall(0, j, func(k int) bool { return cs[k].Identifier() != cs[j].Identifier() }) })
}

func ct__uniqueDBConfigs(configs []*configer.Config) {
	vs.Prop("C07")
	vs.Option("reveal spo_listed")
	vs.Requires(vs.Forall(0, len(configs), func(k int) bool { return configs[k] != nil }))
	vs.Inv(func(acc []database.Config) bool {
		return vs.Forall(0, len(acc), func(j int) bool { return sp_from(acc[j], configs) })
	})
	vs.Inv(func(acc []database.Config) bool { return sp_distinct(acc) })
	vs.Inv(func(n int, acc []database.Config) bool {
		return vs.Forall(0, n, func(k int) bool {
			return vs.Forall(0, len(configs[k].Databases), func(j int) bool { return spo_listed(acc, configs[k].Databases[j].Identifier()) })
		})
	})
	vs.Inv(func(outN int, acc []database.Config) bool {
		return vs.Forall(0, outN, func(k int) bool {
			return vs.Forall(0, len(configs[k].Databases), func(j int) bool { return spo_listed(acc, configs[k].Databases[j].Identifier()) })
		})
	})
	vs.Inv(func(m int, acc []database.Config, srcDs []database.Config) bool {
		return vs.Forall(0, m, func(j int) bool { return spo_listed(acc, srcDs[j].Identifier()) })
	})
	vs.Inv(func(m int, found bool, srcAcc []database.Config, srcC database.Config) bool {
		return found == vs.Exists(0, m, func(j int) bool { return srcAcc[j].Identifier() == srcC.Identifier() })
	})
	r := uniqueDBConfigs(configs)
	vs.Ensures("only settings of these configs", vs.Forall(0, len(r), func(j int) bool { return sp_from(r[j], configs) }))
	vs.Ensures("every database that is configured", vs.Forall(0, len(configs), func(k int) bool {
		return vs.Forall(0, len(configs[k].Databases), func(j int) bool { return spo_listed(r, configs[k].Databases[j].Identifier()) })
	}))
	vs.Ensures("each one once", sp_distinct(r))
}
