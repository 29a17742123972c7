package main

import (
	"os"
	"strconv"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/onet/v3"
)

const (
	zzFile = "unlynx_test_data.txt"
	zzGob  = "pre_compute_multiplications.gob"
)

type zzRecord struct{ g, w, s int64 }

// zzKind says which attributes of the data are encrypted.
type zzKind struct{ grp, whr, sum bool }

func (k zzKind) response(r zzRecord) libunlynx.DpClearResponse {
	var out libunlynx.DpClearResponse
	g, w, s := map[string]int64{"g0": r.g}, map[string]int64{"w0": r.w}, map[string]int64{"s0": r.s}
	if k.grp {
		out.GroupByEnc = g
	} else {
		out.GroupByClear = g
	}
	if k.whr {
		out.WhereEnc = w
	} else {
		out.WhereClear = w
	}
	if k.sum {
		out.AggregatingAttributesEnc = s
	} else {
		out.AggregatingAttributesClear = s
	}
	return out
}

// zzWrite writes the records of every server; a server with nil has no entry.
func zzWrite(k zzKind, rs [][]zzRecord) {
	data := map[string][]libunlynx.DpClearResponse{}
	for i, l := range rs {
		if l == nil {
			continue
		}
		d := []libunlynx.DpClearResponse{}
		for _, r := range l {
			d = append(d, k.response(r))
		}
		data[strconv.Itoa(i)] = d
	}
	sym.Assert(dataunlynx.WriteDataToFile(zzFile, data) == nil, "the data could not be written")
}

type zzQuery struct {
	proofs, count, filter, group bool
	only                         bool // the sum of the records is not asked for
}

// zzAsk runs a survey of the application and compares its result.
func zzAsk(net *onet.Net, root int, q zzQuery, rs [][]zzRecord) {
	sum, groupBy := []string{"s0"}, []string{}
	if q.count {
		sum = []string{"count", "s0"}
	}
	if q.only {
		sum = sum[:1]
	}
	var where []libunlynx.WhereQueryAttribute
	pred := ""
	if q.filter {
		where = []libunlynx.WhereQueryAttribute{{Name: "w0", Value: *libunlynx.EncryptInt(net.Roster.Aggregate, 1)}}
		pred = "v0 == v1"
	}
	if q.group {
		groupBy = []string{"g0"}
	}
	nbr := map[string]int64{}
	for _, s := range net.Roster.List {
		nbr[s.String()] = 1
	}
	c := servicesunlynx.NewUnLynxClient(net.Roster.List[root], "0")
	var id *servicesunlynx.SurveyID
	sym.Assert(sx.Call(net, func() (err error) {
		id, err = c.SendSurveyCreationQuery(net.Roster, "", nil, nbr, q.proofs, true, sum, q.count, where, pred, groupBy)
		return
	}) == nil, "the survey could not be created")
	var grp, aggr *[][]int64
	sym.Assert(sx.Call(net, func() (err error) {
		grp, aggr, err = c.SendSurveyResultsQuery(*id)
		return
	}) == nil, "the survey failed")

	want := map[int64][2]int64{}
	for _, l := range rs {
		for _, r := range l {
			if q.filter && r.w != 1 {
				continue
			}
			g := int64(0)
			if q.group {
				g = r.g
			}
			o := want[g]
			want[g] = [2]int64{o[0] + r.s, o[1] + 1}
		}
	}
	sym.Assert(len(*grp) == len(want) && len(*aggr) == len(want), "the result has another number of groups")
	for i := range *grp {
		g := int64(0)
		if q.group {
			sym.Assert(len((*grp)[i]) == 1, "a group with another number of attributes")
			g = (*grp)[i][0]
		} else {
			sym.Assert(len((*grp)[i]) == 0, "a group with another number of attributes")
		}
		e, ok := want[g]
		sym.Assert(ok, "a result for an unknown group or two for one")
		delete(want, g)
		a := (*aggr)[i]
		sym.Assert(len(a) == len(sum), "a result with another number of attributes")
		if q.count && q.only {
			sym.Assert(a[0] == e[1], "a wrong result")
		} else if q.count {
			sym.Assert(a[0] == e[1] && a[1] == e[0], "a wrong result")
		} else {
			sym.Assert(a[0] == e[0], "a wrong result")
		}
	}
	sym.Reach("answered")
}

// zzData: every server has two records, except for one that has no entry, an
// empty one or a single record.
func zzData(n int) [][]zzRecord {
	rs := make([][]zzRecord, n)
	for i := range rs {
		rs[i] = []zzRecord{{3, 1, 2}, {1, int64((i + 1) % 2), int64(1 + i)}}
	}
	rs[0][1].s = sym.Int64("s", 0, 2)
	rs[n-1][0].w = int64(sym.Choice("w", 2))
	if k := sym.Choice("special", n+1); k < n {
		rs[k] = [][]zzRecord{nil, {}, {{1, 1, sym.Int64("s", 0, 1)}}}[sym.Choice("entry", 3)]
	}
	return rs
}

func zzChooseQuery() zzQuery {
	return []zzQuery{{}, {filter: true, group: true}, {count: true, group: true}, {proofs: true, count: true, filter: true, group: true}}[sym.Choice("query", 4)]
}

// H_app: a survey over the data file.
func H_app() {
	sym.RandForks(0)
	n := 1 + sym.Choice("servers", 3)
	net := sx.Network(n)
	k := []zzKind{{false, false, false}, {true, true, true}, {false, false, true}, {true, false, true}}[sym.Choice("kind", 4)]
	rs := zzData(n)
	zzWrite(k, rs)
	zzAsk(net, sym.Choice("root", 2)*(n-1), zzChooseQuery(), rs)
}

// H_again: a second survey on the same files.
func H_again() {
	sym.RandForks(0)
	n := 1 + sym.Choice("servers", 2)
	k := zzKind{true, true, true}
	rs := zzData(n)
	zzWrite(k, rs)
	net := sx.Network(n)
	zzAsk(net, 0, zzChooseQuery(), rs)
	if sym.Choice("restart", 2) == 1 {
		// other servers with other keys find the files of the first ones
		net = sx.Network(n)
	}
	if sym.Choice("rewrite", 2) == 1 {
		rs = append([][]zzRecord{{{3, 1, 2}}}, rs[1:]...)
		zzWrite(k, rs)
	}
	zzAsk(net, n-1, zzChooseQuery(), rs)
}

// H_missing: without the data file, a survey is not created.
func H_missing() {
	sym.RandForks(0)
	n := 1 + sym.Choice("servers", 3)
	net := sx.Network(n)
	os.Remove(zzFile)
	nbr := map[string]int64{}
	for _, s := range net.Roster.List {
		nbr[s.String()] = 1
	}
	c := servicesunlynx.NewUnLynxClient(net.Roster.List[sym.Choice("root", n)], "0")
	err := sx.Call(net, func() error {
		_, err := c.SendSurveyCreationQuery(net.Roster, "", nil, nbr, false, true, []string{"s0"}, false, nil, "", []string{"g0"})
		return err
	})
	sym.Assert(err != nil, "a survey is created without data")
	sym.Reach("refused")
	rs := make([][]zzRecord, n)
	rs[0] = []zzRecord{{3, 1, sym.Int64("s", 0, 2)}}
	zzWrite(zzKind{true, true, true}, rs)
	zzAsk(net, 0, zzQuery{group: true}, rs)
}

// H_client: the command-line client sends the query it was given and waits for the result.
func H_client() {
	sym.RandForks(0)
	n := 1 + sym.Choice("servers", 3)
	net := sx.Network(n)
	rs := make([][]zzRecord, n)
	for i := range rs {
		rs[i] = []zzRecord{{1, 1, 1}}
	}
	zzWrite(zzKind{true, true, true}, rs)
	net.Watch = true
	sum := [][]string{{"s0"}, {"count", "s0"}, {"s1", "s0"}}[sym.Choice("sum", 3)]
	count, proofs := sym.Choice("count", 2) == 1, sym.Choice("proofs", 2) == 1
	groupBy := [][]string{{}, {"g0"}, {"g1", "g0"}}[sym.Choice("groupBy", 3)]
	var where []libunlynx.WhereQueryAttribute
	pred := ""
	if sym.Choice("where", 2) == 1 {
		for _, w := range []string{"w0", "w1"} {
			where = append(where, libunlynx.WhereQueryAttribute{Name: w, Value: *libunlynx.EncryptInt(net.Roster.Aggregate, 1)})
		}
		pred = "v0 == v1 || v2 == v3"
	}
	sym.Assert(sx.Call(net, func() error { return startQuery(net.Roster, proofs, sum, count, where, pred, groupBy) }) == nil, "the query failed")
	created, asked := 0, 0
	for i := 0; i < n; i++ {
		for _, m := range net.Seen(-1, i) {
			switch q := m.(type) {
			case *servicesunlynx.SurveyCreationQuery:
				created++
				sym.Assert(i == 0, "another server is asked")
				sym.Assert(q.AppFlag && q.Proofs == proofs && q.Count == count && q.Predicate == pred && zzSame(q.Sum, sum) && zzSame(q.GroupBy, groupBy), "another query is sent")
				sym.Assert(len(q.Where) == len(where) && len(q.MapDPs) == n && len(q.Roster.List) == n, "another query is sent")
				for j, w := range where {
					sym.Assert(q.Where[j].Name == w.Name && q.Where[j].Value.Equal(&w.Value), "another condition is sent")
				}
				for _, s := range net.Roster.List {
					sym.Assert(q.MapDPs[s.String()] == 1, "another number of data providers")
				}
			case *servicesunlynx.SurveyResultsQuery:
				asked++
			}
		}
	}
	sym.Assert(created == 1 && asked == 1, "not one survey and one request for its result")
	sym.Reach("sent")
}

func zzSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// H_countOnly: a survey that only counts.
func H_countOnly() {
	sym.RandForks(0)
	n := 1 + sym.Choice("servers", 3)
	net := sx.Network(n)
	k := []zzKind{{false, false, false}, {true, true, true}, {true, false, false}}[sym.Choice("kind", 3)]
	rs := zzData(n)
	zzWrite(k, rs)
	zzAsk(net, n-1, zzQuery{count: true, only: true, group: sym.Choice("group", 2) == 1, filter: sym.Choice("filter", 2) == 1}, rs)
}
