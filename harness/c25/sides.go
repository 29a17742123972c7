package c25

import (
	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

func sideMap(vs []int64, first string, start int) map[string]int64 {
	if len(vs) == 0 && sym.Choice("nil", 2) == 1 {
		return nil
	}
	return toMap(vs, first, start)
}

// H_expectedSides: reference results when attributes are on one side only, clear or encrypted, for groups and values.
func H_expectedSides() {
	gc, ac, wc := sym.Choice("gc", 3), sym.Choice("ac", 3), sym.Choice("wc", 3)
	if gc != 1 && wc != 1 {
		sym.Assume(gc == wc)
	}
	n := hx.Len("n", 1, 2)
	var rows []row
	var rs []libunlynx.DpClearResponse
	for i := 0; i < n; i++ {
		r := row{[]int64{4, []int64{5, 6}[sym.Choice("g", 2)]}, []int64{1, 1},
			[]int64{sym.Int64("a", -1<<40, 1<<40), sym.Int64("a", -1<<40, 1<<40)}}
		rows = append(rows, r)
		rs = append(rs, libunlynx.DpClearResponse{
			GroupByClear: sideMap(r.g[:gc], "g", 0), GroupByEnc: sideMap(r.g[gc:], "g", gc),
			WhereClear: sideMap(r.w[:wc], "w", 0), WhereEnc: sideMap(r.w[wc:], "w", wc),
			AggregatingAttributesClear: sideMap(r.a[:ac], "s", 0), AggregatingAttributesEnc: sideMap(r.a[ac:], "s", ac),
		})
	}
	rep := 1 + sym.Choice("rep", 3)
	exp := expected(rows, int64(rep))
	cl := sym.Choice("clear", 2) == 1
	res := dataunlynx.ComputeExpectedResult(map[string][]libunlynx.DpClearResponse{"0": rs}, rep, cl)
	sym.Assert(len(res) == len(exp), "another number of groups")
	for _, e := range exp {
		found := false
		for _, r := range res {
			if cl && sameCleared(r, e) {
				found = true
			}
			if !cl && sameMap(r.GroupByClear, e.g[:gc], "g", 0) && sameMap(r.GroupByEnc, e.g[gc:], "g", gc) &&
				sameMap(r.AggregatingAttributesClear, e.a[:ac], "s", 0) && sameMap(r.AggregatingAttributesEnc, e.a[ac:], "s", ac) {
				found = true
			}
		}
		sym.Assert(found, "a group is missing or has another sum")
	}
}
