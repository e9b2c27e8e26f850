package lockfile

import "github.com/g-rath/osv-detector/internal/vs"

func ct__toSliceOfEcosystems(m map[Ecosystem]struct{}) {
	vs.Prop("C07")
	vs.Inv(func(n int, acc []Ecosystem) bool {
		return vs.Forall(0, n, func(k int) bool { return vs.Keys(m)[k] == "" || vs.In(vs.Keys(m)[k], acc) })
	})
	vs.Inv(func(acc []Ecosystem) bool {
		return vs.Forall(0, len(acc), func(j int) bool { return acc[j] != "" && vs.Has(m, acc[j]) })
	})
	r := toSliceOfEcosystems(m)
	vs.Ensures("every ecosystem", vs.ForallKeys(m, func(e Ecosystem) bool { return e == "" || vs.In(e, r) }))
	vs.Ensures("and nothing else", vs.Forall(0, len(r), func(j int) bool { return r[j] != "" && vs.Has(m, r[j]) }))
}

func ct_Packages_Ecosystems(ps Packages) {
	vs.Prop("C07")
	vs.Inv(func(n int, m map[Ecosystem]struct{}) bool {
		return vs.Forall(0, n, func(k int) bool { return vs.Has(m, ps[k].Ecosystem) })
	})
	vs.Inv(func(n int, m map[Ecosystem]struct{}) bool {
		return vs.ForallKeys(m, func(e Ecosystem) bool {
			return vs.Exists(0, n, func(k int) bool { return ps[k].Ecosystem == e })
		})
	})
	r := ps.Ecosystems()
	vs.Ensures("the ecosystem of every package", vs.Forall(0, len(ps), func(k int) bool { return ps[k].Ecosystem == "" || vs.In(ps[k].Ecosystem, r) }))
	vs.Ensures("and nothing else", vs.Forall(0, len(r), func(j int) bool {
		return r[j] != "" && vs.Exists(0, len(ps), func(k int) bool { return ps[k].Ecosystem == r[j] })
	}))
}
