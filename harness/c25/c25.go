// Package c25: reference results and data generation.
package c25

import (
	"strconv"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

type row struct{ g, w, a []int64 }

func toMap(vs []int64, first string, start int) map[string]int64 {
	m := make(map[string]int64)
	for i, v := range vs {
		m[first+strconv.Itoa(start+i)] = v
	}
	return m
}

// response has one clear and one encrypted-side attribute of each kind.
func response(r row) libunlynx.DpClearResponse {
	return libunlynx.DpClearResponse{
		GroupByClear: toMap(r.g[:1], "g", 0), GroupByEnc: toMap(r.g[1:], "g", 1),
		WhereClear: toMap(r.w[:1], "w", 0), WhereEnc: toMap(r.w[1:], "w", 1),
		AggregatingAttributesClear: toMap(r.a[:1], "s", 0), AggregatingAttributesEnc: toMap(r.a[1:], "s", 1),
	}
}

func sameMap(m map[string]int64, vs []int64, first string, start int) bool {
	if len(m) != len(vs) {
		return false
	}
	for i, v := range vs {
		got, ok := m[first+strconv.Itoa(start+i)]
		if !ok || got != v {
			return false
		}
	}
	return true
}

func same(r libunlynx.DpClearResponse, e row) bool {
	return sameMap(r.GroupByClear, e.g[:1], "g", 0) && sameMap(r.GroupByEnc, e.g[1:], "g", 1) &&
		sameMap(r.WhereClear, e.w[:1], "w", 0) && sameMap(r.WhereEnc, e.w[1:], "w", 1) &&
		sameMap(r.AggregatingAttributesClear, e.a[:1], "s", 0) && sameMap(r.AggregatingAttributesEnc, e.a[1:], "s", 1)
}

func sameCleared(r libunlynx.DpClearResponse, e row) bool {
	return sameMap(r.GroupByClear, e.g, "g", 0) && len(r.GroupByEnc) == 0 && len(r.WhereClear) == 0 && len(r.WhereEnc) == 0 &&
		sameMap(r.AggregatingAttributesClear, e.a, "s", 0) && len(r.AggregatingAttributesEnc) == 0
}

func eq(a, b []int64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// expected is the reference: per group, the sums over the selected responses.
func expected(rows []row, rep int64) []row {
	var out []row
next:
	for _, r := range rows {
		if r.w[0] == 0 || r.w[1] == 0 {
			continue
		}
		for i := range out {
			if eq(out[i].g, r.g) {
				for j := range r.a {
					out[i].a[j] += rep * r.a[j]
				}
				continue next
			}
		}
		a := make([]int64, len(r.a))
		for j := range r.a {
			a[j] = rep * r.a[j]
		}
		out = append(out, row{r.g, r.w, a})
	}
	return out
}

// H_expected: reference results, twice over the same data set.
func H_expected() {
	dps := sym.Choice("dps", 3)
	data := map[string][]libunlynx.DpClearResponse{}
	var rows []row
	for i := 0; i < dps; i++ {
		n := 1
		if i == 0 {
			n = sym.Choice("n", 3)
		}
		rs := []libunlynx.DpClearResponse{}
		for j := 0; j < n; j++ {
			w := int64(1)
			if j == 1 {
				w = int64(sym.Choice("w", 2))
			}
			r := row{[]int64{4, []int64{5, 6}[sym.Choice("g", 2)]}, []int64{w, w}, []int64{sym.Int64("a", -1<<40, 1<<40), sym.Int64("a", -1<<40, 1<<40)}}
			rows = append(rows, r)
			rs = append(rs, response(r))
		}
		data["dp"+strconv.Itoa(i)] = rs
	}
	rep := 1 + sym.Choice("rep", 3)
	exp := expected(rows, int64(rep))
	for round := 0; round < 2; round++ {
		cl := sym.Choice("clear", 2) == 1
		res := dataunlynx.ComputeExpectedResult(data, rep, cl)
		sym.Assert(len(res) == len(exp), "another number of groups")
		for _, e := range exp {
			found := false
			for _, r := range res {
				if cl && sameCleared(r, e) || !cl && same(r, e) {
					found = true
				}
			}
			sym.Assert(found, "a group is missing or has another sum")
		}
		k := 0
		for i := 0; i < dps; i++ {
			for _, r := range data["dp"+strconv.Itoa(i)] {
				sym.Assert(same(r, rows[k]), "the data set changed")
				k++
			}
		}
	}
}

// H_cleared: moving all attributes of expected results to the clear side leaves the given results alone.
func H_cleared() {
	n := sym.Choice("n", 4)
	var in []libunlynx.DpClearResponse
	var rows []row
	for i := 0; i < n; i++ {
		r := row{[]int64{sym.Int64("g", -1<<40, 1<<40), 5}, []int64{1, 1}, []int64{sym.Int64("a", -1<<40, 1<<40), sym.Int64("a", -1<<40, 1<<40)}}
		rows = append(rows, r)
		in = append(in, response(r))
	}
	for round := 0; round < 2; round++ {
		res := dataunlynx.ClearExpectedResult(in)
		sym.Assert(len(res) == n, "another number of results")
		for i := range rows {
			sym.Assert(sameCleared(res[i], rows[i]), "a cleared result has other attributes or values")
			sym.Assert(same(in[i], rows[i]), "clearing changed the given results")
		}
	}
}

// H_expectedLarge: many data providers, responses and groups.
func H_expectedLarge() {
	dps := hx.Len("dps", 1, 33)
	n := hx.Len("n", 1, 129)
	m := []int64{1, 3, 11, 65}[sym.Choice("groups", 4)]
	sym.Assume(dps < 3 || n < 3 || dps == 11 && n == 12)
	x := sym.Int64("a", -1<<40, 1<<40)
	data := map[string][]libunlynx.DpClearResponse{}
	var rows []row
	for i := 0; i < dps; i++ {
		for j := 0; j < n; j++ {
			k := int64(i*n + j)
			w := int64(1)
			if k == 4 || k == 9 {
				w = 0
			}
			r := row{[]int64{4, k % m}, []int64{1, w}, []int64{k, k + x}}
			rows = append(rows, r)
			data["dp"+strconv.Itoa(i)] = append(data["dp"+strconv.Itoa(i)], response(r))
		}
	}
	rep := []int{1, 2, 11}[sym.Choice("rep", 3)]
	exp := expected(rows, int64(rep))
	res := dataunlynx.ComputeExpectedResult(data, rep, false)
	sym.Assert(len(res) == len(exp), "another number of groups")
	for _, e := range exp {
		found := false
		for _, r := range res {
			if g, ok := r.GroupByEnc["g1"]; ok && g == e.g[1] {
				found = same(r, e)
			}
		}
		sym.Assert(found, "a group is missing or has another sum")
	}
}

// H_compareLarge: long lists of results in opposite orders that differ in at most one value.
func H_compareLarge() {
	n := hx.Len("n", 4, 101)
	at := hx.Pos("at", n)
	x, y := make([]libunlynx.DpClearResponse, n), make([]libunlynx.DpClearResponse, n)
	var v int64
	for i := range x {
		r := row{[]int64{1, int64(i)}, []int64{1, 1}, []int64{0, int64(i)}}
		x[i] = response(r)
		if i == at {
			v = sym.Int64("v", 0, 1<<40)
			r.a[1] = v
		}
		y[n-1-i] = response(r)
	}
	sym.Assert(dataunlynx.CompareClearResponses(x, y) == (v == int64(at)), "the comparison is wrong")
	sym.Assert(dataunlynx.CompareClearResponses(y, x) == (v == int64(at)), "the comparison is wrong")
}

// H_compareWide: results with many attributes that differ in at most one value.
func H_compareWide() {
	n := hx.Len("n", 4, 129)
	kind := sym.Choice("kind", 6)
	mk := func() (libunlynx.DpClearResponse, map[string]int64) {
		m := map[string]int64{}
		for i := 0; i < n; i++ {
			m["x"+strconv.Itoa(i)] = int64(i)
		}
		r := libunlynx.DpClearResponse{}
		*[]*map[string]int64{&r.GroupByClear, &r.GroupByEnc, &r.WhereClear, &r.WhereEnc, &r.AggregatingAttributesClear, &r.AggregatingAttributesEnc}[kind] = m
		return r, m
	}
	x, _ := mk()
	y, m := mk()
	at := hx.Pos("at", n)
	v := sym.Int64("v", 0, 1<<40)
	m["x"+strconv.Itoa(at)] = v
	sym.Assert(dataunlynx.CompareClearResponses([]libunlynx.DpClearResponse{x}, []libunlynx.DpClearResponse{y}) == (v == int64(at)), "the comparison is wrong")
}

// H_generateLarge: many data providers, responses and attributes.
func H_generateLarge() {
	k := hx.Len("k", 1, 33)
	dps, types, wide := 2, 3, 1
	switch sym.Choice("kind", 3) {
	case 0:
		dps = k
	case 1:
		types = k
	case 2:
		wide = k
	}
	filtered := []int64{0, 1, int64(types), int64(types) * 2}[sym.Choice("filtered", 4)]
	w := int64(wide)
	data, err := dataunlynx.GenerateData(int64(dps), int64(types)*2, filtered, 1, 1, w, w, w, w, []int64{2, int64(types)}, false)
	sym.Assert(err == nil, "GenerateData failed")
	sym.Assert(len(data) == dps, "another number of data providers")
	for i := 0; i < dps; i++ {
		rs := data[strconv.Itoa(i)]
		sym.Assert(len(rs) == types*2, "another number of responses")
		seen := make([]bool, types*2)
		for j, r := range rs {
			g0, ok0 := r.GroupByClear["g0"]
			g1, ok1 := r.GroupByEnc["g1"]
			sym.Assert(ok0 && ok1 && g0 >= 0 && g0 < 2 && g1 >= 0 && g1 < int64(types) && !seen[int(g0)*types+int(g1)], "a group is missing, out of range or there twice")
			seen[int(g0)*types+int(g1)] = true
			want := int64(0)
			if int64(j) < filtered {
				want = 1
			}
			sym.Assert(len(r.WhereClear) == wide && len(r.WhereEnc) == wide && len(r.AggregatingAttributesClear) == wide && len(r.AggregatingAttributesEnc) == wide, "another number of attributes")
			for l := 0; l < wide; l++ {
				a, oka := r.WhereClear["w"+strconv.Itoa(l)]
				b, okb := r.WhereEnc["w"+strconv.Itoa(wide+l)]
				sym.Assert(oka && okb && a == want && b == want, "a where attribute is missing or wrong")
				_, oka = r.AggregatingAttributesClear["s"+strconv.Itoa(l)]
				_, okb = r.AggregatingAttributesEnc["s"+strconv.Itoa(wide+l)]
				sym.Assert(oka && okb, "an aggregating attribute is missing")
			}
		}
	}
}

// H_compare: comparison is equality of multisets.
func H_compare() {
	n, m := sym.Choice("n", 4), sym.Choice("m", 4)
	mk := func(k int) ([]row, []libunlynx.DpClearResponse) {
		var rs []row
		var out []libunlynx.DpClearResponse
		for i := 0; i < k; i++ {
			r := row{[]int64{1, 2}, []int64{1, 1}, []int64{0, sym.Int64("a", 0, 1<<40)}}
			rs = append(rs, r)
			out = append(out, response(r))
		}
		return rs, out
	}
	xr, x := mk(n)
	yr, y := mk(m)
	count := func(rs []row, v int64) int {
		c := 0
		for _, r := range rs {
			if r.a[1] == v {
				c++
			}
		}
		return c
	}
	want := n == m
	for _, r := range append(append([]row{}, xr...), yr...) {
		if count(xr, r.a[1]) != count(yr, r.a[1]) {
			want = false
		}
	}
	sym.Assert(dataunlynx.CompareClearResponses(x, y) == want, "the comparison is wrong")
	for i := range x {
		sym.Assert(same(x[i], xr[i]), "the comparison changed its input")
	}
}

// H_compareFields: every field counts, nil and empty maps are alike.
func H_compareFields() {
	base := row{[]int64{1, 2}, []int64{1, 1}, []int64{5, 6}}
	x, y := response(base), response(base)
	how := sym.Choice("how", 26)
	var m map[string]int64
	f := []*map[string]int64{&y.GroupByClear, &y.GroupByEnc, &y.WhereClear, &y.WhereEnc, &y.AggregatingAttributesClear, &y.AggregatingAttributesEnc}
	fx := []*map[string]int64{&x.GroupByClear, &x.GroupByEnc, &x.WhereClear, &x.WhereEnc, &x.AggregatingAttributesClear, &x.AggregatingAttributesEnc}
	want := true
	switch {
	case how < 6: // a value differs
		for k, v := range *f[how] {
			(*f[how])[k] = sym.Int64("v", -1<<40, 1<<40)
			want = (*f[how])[k] == v
		}
	case how < 12: // nil against empty
		*fx[how-6] = map[string]int64{}
		*f[how-6] = m
	case how >= 14: // only one of them has such attributes
		want = false
		if how < 20 {
			*f[how-14] = m
		} else {
			*fx[how-20] = map[string]int64{}
		}
	case how == 12: // an attribute moves to the other side
		y.GroupByClear["g1"] = y.GroupByEnc["g1"]
		delete(y.GroupByEnc, "g1")
		want = false
	case how == 13:
		y.AggregatingAttributesClear["s9"] = 0
		want = false
	}
	sym.Assert(dataunlynx.CompareClearResponses([]libunlynx.DpClearResponse{x}, []libunlynx.DpClearResponse{y}) == want, "the comparison is wrong")
	sym.Assert(dataunlynx.CompareClearResponses([]libunlynx.DpClearResponse{y}, []libunlynx.DpClearResponse{x}) == want, "the comparison is wrong")
}

// H_groups: every combination once.
func H_groups() {
	d := sym.Choice("dims", 4)
	var num []int64
	total := 1
	for i := 0; i < d; i++ {
		k := sym.Choice("types", 4)
		num = append(num, int64(k))
		total *= k
	}
	var groups [][]int64
	dataunlynx.AllPossibleGroups(num, []int64{}, 0, &groups)
	sym.Assert(len(groups) == total, "another number of combinations")
	seen := make([]bool, total)
	for _, g := range groups {
		sym.Assert(len(g) == d, "a combination of another size")
		idx := int64(0)
		for i, v := range g {
			sym.Assert(v >= 0 && v < num[i], "a value outside of its range")
			idx = idx*num[i] + v
		}
		sym.Assert(!seen[idx], "a combination twice")
		seen[idx] = true
	}
}

// H_generate: the shape of generated data.
func H_generate() {
	dps := int64(sym.Choice("dps", 3))
	random := sym.Choice("random", 2) == 1
	gc := int64(sym.Choice("gc", 3))
	num := [][]int64{{2, 3}, {3, 2}}[sym.Choice("num", 2)]
	entries := int64(6)
	if random {
		entries = int64(sym.Choice("entries", 3))
	}
	filtered := int64(sym.Choice("filtered", 3))
	wc, we := int64(sym.Choice("wc", 2)), int64(1)
	ac, ae := int64(1), int64(sym.Choice("ae", 2))
	data, err := dataunlynx.GenerateData(dps, entries, filtered, gc, 2-gc, wc, we, ac, ae, num, random)
	sym.Assert(err == nil, "GenerateData failed")
	sym.Assert(int64(len(data)) == dps, "another number of data providers")
	for i := int64(0); i < dps; i++ {
		rs := data[strconv.Itoa(int(i))]
		sym.Assert(int64(len(rs)) == entries, "another number of responses")
		seen := make([]bool, 6)
		for j, r := range rs {
			var g []int64
			for k := int64(0); k < 2; k++ {
				m := r.GroupByClear
				if k >= gc {
					m = r.GroupByEnc
				}
				v, ok := m["g"+strconv.Itoa(int(k))]
				sym.Assert(ok && v >= 0 && v < num[k], "a grouping attribute is missing or out of range")
				g = append(g, v)
			}
			sym.Assert(int64(len(r.GroupByClear)) == gc && int64(len(r.GroupByEnc)) == 2-gc, "another number of grouping attributes")
			if !random {
				sym.Assert(!seen[g[0]*num[1]+g[1]], "a group twice")
				seen[g[0]*num[1]+g[1]] = true
			}
			sym.Assert(int64(len(r.WhereClear)) == wc && int64(len(r.WhereEnc)) == we, "another number of where attributes")
			want := int64(0)
			if int64(j) < filtered {
				want = 1
			}
			for _, m := range []map[string]int64{r.WhereClear, r.WhereEnc} {
				for _, v := range m {
					sym.Assert(v == want, "a where attribute is wrong")
				}
			}
			sym.Assert(int64(len(r.AggregatingAttributesClear)) == ac && int64(len(r.AggregatingAttributesEnc)) == ae, "another number of aggregating attributes")
			for k := int64(0); k < ac+ae; k++ {
				m := r.AggregatingAttributesClear
				if k >= ac {
					m = r.AggregatingAttributesEnc
				}
				v, ok := m["s"+strconv.Itoa(int(k))]
				sym.Assert(ok && v >= 0 && v < 2, "an aggregating attribute is missing or out of range")
			}
		}
	}
}

// H_generateErrors: impossible requests are errors.
func H_generateErrors() {
	n := sym.Choice("types", 4)
	num := make([]int64, n)
	for i := range num {
		num[i] = 2
	}
	entries := int64(sym.Choice("entries", 6))
	_, err := dataunlynx.GenerateData(1, entries, 0, 1, 1, 0, 0, 0, 0, num, false)
	sym.Assert((err == nil) == (n == 2 && entries == 4), "the request is wrongly accepted or rejected")
}
