// Package c18: clear-text aggregation.
package c18

import (
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

// shape is how many attributes of each kind the responses have.
type shape struct{ gc, ge, wc, we, ac, ae int }

type row struct{ g, w, a []int64 }

func toMap(vs []int64, first string, start int) map[string]int64 {
	m := make(map[string]int64)
	for i, v := range vs {
		m[first+strconv.Itoa(start+i)] = v
	}
	return m
}

func (s shape) response(r row) libunlynx.DpClearResponse {
	return libunlynx.DpClearResponse{
		GroupByClear:               toMap(r.g[:s.gc], "g", 0),
		GroupByEnc:                 toMap(r.g[s.gc:], "g", s.gc),
		WhereClear:                 toMap(r.w[:s.wc], "w", 0),
		WhereEnc:                   toMap(r.w[s.wc:], "w", s.wc),
		AggregatingAttributesClear: toMap(r.a[:s.ac], "s", 0),
		AggregatingAttributesEnc:   toMap(r.a[s.ac:], "s", s.ac),
	}
}

func sameMap(m map[string]int64, vs []int64, first string, start int) bool {
	if len(m) != len(vs) {
		return false
	}
	for i, v := range vs {
		got, ok := m[first+strconv.Itoa(start+i)]
		if !ok || got != v {
			return false
		}
	}
	return true
}

func (s shape) same(r libunlynx.DpClearResponse, w row) bool {
	return sameMap(r.GroupByClear, w.g[:s.gc], "g", 0) && sameMap(r.GroupByEnc, w.g[s.gc:], "g", s.gc) &&
		sameMap(r.WhereClear, w.w[:s.wc], "w", 0) && sameMap(r.WhereEnc, w.w[s.wc:], "w", s.wc) &&
		sameMap(r.AggregatingAttributesClear, w.a[:s.ac], "s", 0) && sameMap(r.AggregatingAttributesEnc, w.a[s.ac:], "s", s.ac)
}

func equal(a, b []int64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// expected sums the selected rows of each group, in order of appearance.
func expected(rows []row) []row {
	var out []row
	for _, r := range rows {
		keep := true
		for _, v := range r.w {
			if v == 0 {
				keep = false
			}
		}
		if !keep {
			continue
		}
		found := false
		for i := range out {
			if equal(out[i].g, r.g) && equal(out[i].w, r.w) {
				for j := range r.a {
					out[i].a[j] += r.a[j]
				}
				found = true
				break
			}
		}
		if !found {
			out = append(out, row{r.g, r.w, append([]int64{}, r.a...)})
		}
	}
	return out
}

func (s shape) check(res []libunlynx.DpClearResponse, rows []row) {
	exp := expected(rows)
	sym.Assert(len(res) == len(exp), "another number of groups")
	for _, e := range exp {
		found := false
		for _, r := range res {
			if s.same(r, e) {
				found = true
			}
		}
		sym.Assert(found, "a group is missing or has another sum")
	}
}

func (s shape) run(rows []row) {
	var in []libunlynx.DpClearResponse
	for _, r := range rows {
		in = append(in, s.response(r))
	}
	res := libunlynxstore.AddInClear(in)
	s.check(res, rows)
	for i, r := range rows {
		sym.Assert(s.same(in[i], r), "a response of the caller changed")
	}
	// what was returned does not belong to the caller's data either
	for _, r := range res {
		for k := range r.AggregatingAttributesEnc {
			r.AggregatingAttributesEnc[k] = 77
		}
		for k := range r.AggregatingAttributesClear {
			r.AggregatingAttributesClear[k] = 78
		}
	}
	for i, r := range rows {
		sym.Assert(s.same(in[i], r), "a result shares memory with a response")
	}
}

func aggr(n int) []int64 {
	a := make([]int64, n)
	for i := range a {
		a[i] = sym.Int64("a", -1<<40, 1<<40)
	}
	return a
}

// H_values: one grouping value of any size, which alone decides the group.
func H_values() {
	s := []shape{{1, 0, 0, 0, 1, 0}, {0, 1, 0, 0, 0, 1}}[sym.Choice("shape", 2)]
	full := sym.Choice("full", 2) == 1
	var rows []row
	if full {
		rows = append(rows, row{[]int64{sym.Int64("g", -1<<63, 1<<63-1)}, nil, aggr(1)})
		rows = append(rows, row{rows[0].g, nil, aggr(1)})
	} else {
		for i := 0; i < 2; i++ {
			rows = append(rows, row{[]int64{sym.Int64("g", -120, 120)}, nil, aggr(1)})
		}
	}
	s.run(rows)
}

// pick is a value of one of few classes: the pairs (1,12) and (11,2) and the like must not merge.
func pick() int64 { return []int64{1, -1, 12, 2}[sym.Choice("v", 4)] }

// H_groups: several grouping values, several responses.
func H_groups() {
	shapes := []shape{{2, 0, 0, 0, 2, 0}, {1, 1, 0, 0, 1, 1}, {0, 2, 0, 0, 0, 2}}
	s := shapes[sym.Choice("shape", len(shapes))]
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	var rows []row
	for i := 0; i < n; i++ {
		g := []int64{pick(), pick()}
		if i == 2 {
			g[1] = 1
		}
		rows = append(rows, row{g, nil, aggr(2)})
	}
	s.run(rows)
}

// H_three: three responses in two groups, every assignment, more than one batch of attributes.
func H_three() {
	n := sym.Choice("n", 4)
	if sym.Tier() > 0 {
		n = sym.Choice("n", 5)
	}
	ac := []int{0, 1, 2, 11, 65, 101}[sym.Choice("attributes", 6)]
	s := shape{1, 0, 0, 0, ac - ac/2, ac / 2}
	var rows []row
	for i := 0; i < n; i++ {
		rows = append(rows, row{[]int64{[]int64{7, 10}[sym.Choice("g", 2)]}, nil, aggr(ac)})
	}
	s.run(rows)
}

// H_large: many responses in many groups, with more than ten attributes.
func H_large() {
	n := hx.Len("n", 4, 201)
	m := []int{1, 2, 7, 11, 33}[sym.Choice("groups", 5)]
	s := []shape{{6, 6, 0, 0, 6, 6}, {1, 0, 0, 0, 1, 0}, {0, 12, 0, 0, 12, 0}}[sym.Choice("shape", 3)]
	x := sym.Int64("a", -1<<40, 1<<40)
	var rows []row
	for i := 0; i < n; i++ {
		r := row{make([]int64, s.gc+s.ge), nil, make([]int64, s.ac+s.ae)}
		r.g[len(r.g)-1] = int64(i % m)
		for j := range r.a {
			r.a[j] = int64(i*j) + x
		}
		rows = append(rows, r)
	}
	s.run(rows)
}

// H_wherelong: a where attribute among more than ten.
func H_wherelong() {
	s := shape{1, 0, 6, 6, 1, 0}
	var rows []row
	for i := 0; i < 2; i++ {
		w := make([]int64, 12)
		for j := range w {
			w[j] = 1
		}
		w[sym.Choice("pos", 12)] = sym.Int64("w", 0, 1)
		rows = append(rows, row{[]int64{3}, w, aggr(1)})
	}
	s.run(rows)
}

// H_none: no grouping attribute at all: one global sum.
func H_none() {
	n := sym.Choice("n", 3)
	s := shape{0, 0, 0, 0, 1, 1}
	var rows []row
	for i := 0; i < n; i++ {
		rows = append(rows, row{nil, nil, aggr(2)})
	}
	s.run(rows)
}

// H_where: responses are selected when none of their where attributes is 0.
func H_where() {
	shapes := []shape{{1, 0, 1, 1, 1, 0}, {1, 0, 2, 0, 0, 1}, {0, 1, 0, 2, 1, 0}, {0, 0, 1, 1, 1, 0}}
	s := shapes[sym.Choice("shape", len(shapes))]
	vals := []int64{0, 1, 1 << 32}
	var rows []row
	for i := 0; i < 2; i++ {
		g := make([]int64, s.gc+s.ge)
		for j := range g {
			g[j] = 3
		}
		rows = append(rows, row{g, []int64{vals[sym.Choice("w", 3)], vals[sym.Choice("w", 3)]}, aggr(1)})
	}
	s.run(rows)
}

// H_protocol: the local protocol delivers the same.
func H_protocol() {
	s := shape{1, 0, 0, 0, 1, 1}
	var rows []row
	n := sym.Choice("n", 4)
	var in []libunlynx.DpClearResponse
	for i := 0; i < n; i++ {
		rows = append(rows, row{[]int64{[]int64{7, 10}[sym.Choice("g", 2)]}, nil, aggr(2)})
		in = append(in, s.response(rows[i]))
	}
	p := px.Node(protocolsunlynxutils.LocalClearAggregationProtocolName).(*protocolsunlynxutils.LocalClearAggregationProtocol)
	p.TargetOfAggregation = in
	var err error
	go func() { err = p.Start() }()
	var res []libunlynx.DpClearResponse
	got := false
	for i := 0; i < 3 && !got; i++ {
		sym.WaitQuiescent(1)
		select {
		case res = <-p.FeedbackChannel:
			got = true
		default:
		}
	}
	sym.Assert(err == nil, "the protocol failed")
	sym.Assert(got, "the protocol delivers no result")
	s.check(res, rows)
}
