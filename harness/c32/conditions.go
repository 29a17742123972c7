package c32

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

// H_conditions: several responses at one server, each with its own values of
// the two attributes of the predicate.
func H_conditions() {
	sym.RandForks(0)
	preds := []struct {
		text string
		keep func(a, b bool) bool
	}{
		{"v0 == v1 && v2 == v3", func(a, b bool) bool { return a && b }},
		{"v0 == v1 || v2 == v3", func(a, b bool) bool { return a || b }},
		{"v0 == v1 && v2 != v3", func(a, b bool) bool { return a && !b }},
		{"v0 != v1", func(a, b bool) bool { return !a }},
	}
	p := preds[sym.Choice("predicate", len(preds))]
	conds := [][]int64{{0, 1}, {1, 1}}[sym.Choice("conditions", 2)]
	q := sx.Query{Sum: []string{"s1"}, GroupBy: []string{"g1"}, Where: []string{"w1", "w2"}, Conds: conds, Predicate: p.text}
	enc := sym.Choice("enc", 2) == 1
	net := sx.Network(2)
	sv := sx.Create(net, 0, q, 1, 1)
	pairs := [][2]int64{{0, 1}, {1, 0}, {0, 0}, {1, 1}}
	first := sym.Choice("first", len(pairs))
	var groups [2]sx.Row
	var kept [2]bool
	for srv := 0; srv < 2; srv++ {
		var rs []libunlynx.DpClearResponse
		for i := 0; i < 4-2*srv; i++ {
			w := pairs[(first+i)%len(pairs)]
			g := int64(i % 2)
			v := sx.Value()
			gs, ws, ss := map[string]int64{"g1": g}, map[string]int64{"w1": w[0], "w2": w[1]}, map[string]int64{"s1": v}
			r := libunlynx.DpClearResponse{GroupByClear: gs, WhereClear: ws, AggregatingAttributesClear: ss}
			if enc {
				r = libunlynx.DpClearResponse{GroupByEnc: gs, WhereEnc: ws, AggregatingAttributesEnc: ss}
			}
			rs = append(rs, r)
			if p.keep(w[0] == conds[0], w[1] == conds[1]) {
				if !kept[g] {
					kept[g], groups[g] = true, sx.Row{Group: []int64{g}, Aggr: []int64{0}}
				}
				groups[g].Aggr[0] += v
			}
		}
		sym.Assert(sv.Submit(srv, sv.Encrypt(rs)) == nil, "a submission is rejected")
	}
	var rows []sx.Row
	for g := range groups {
		if kept[g] {
			rows = append(rows, groups[g])
		}
	}
	sv.Result(rows...)
	sym.Reach("result")
}
