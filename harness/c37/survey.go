package c37

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

type record struct{ group, where, value int64 }

// request runs a request of a client.
func request(net *onet.Net, f func() error) {
	var err error
	fin := false
	go func() {
		err = f()
		fin = true
	}()
	net.Deliver()
	sym.Assert(fin && err == nil, "a request failed")
}

// survey runs a survey over encrypted records, with or without a condition
// and proofs, and returns the value of the condition and the result.
func survey(v *view, root int, recs []record, where, proofs, count bool, X kyber.Point) (int64, servicesunlynx.ServiceResult) {
	net := v.net
	net.Bounded = true
	net.Deviations = 0
	sym.Assert(net.StartService(servicesunlynx.ServiceName) == nil, "the service could not be started")
	K := net.Roster.Aggregate
	entry := net.Roster.List[root]
	querier := servicesunlynx.NewUnLynxClient(entry, "querier")
	nbr := map[string]int64{}
	for i := range recs {
		nbr[net.Roster.List[i%len(net.Roster.List)].String()]++
	}
	sum := []string{"s1"}
	if count {
		sum = append(sum, "count")
	}
	var conds []libunlynx.WhereQueryAttribute
	predicate := ""
	cond := int64(0)
	if where {
		cond = sym.Int64("condition", 0, 1000)
		predicate = "v0 == v1"
		conds = append(conds, libunlynx.WhereQueryAttribute{Name: "w1", Value: *libunlynx.EncryptInt(K, cond)})
	}
	var id servicesunlynx.SurveyID
	request(net, func() error {
		i, err := querier.SendSurveyCreationQuery(net.Roster, servicesunlynx.SurveyID(""), nil, nbr, proofs, false, sum, count, conds, predicate, []string{"g1"})
		if err == nil {
			id = *i
		}
		return err
	})
	for i, r := range recs {
		dp := servicesunlynx.NewUnLynxClient(net.Roster.List[i%len(net.Roster.List)], "dp")
		c := libunlynx.DpClearResponse{GroupByEnc: map[string]int64{"g1": r.group}, AggregatingAttributesEnc: map[string]int64{"s1": r.value}}
		if where {
			c.WhereEnc = map[string]int64{"w1": r.where}
		}
		request(net, func() error { return dp.SendSurveyResponseQuery(id, []libunlynx.DpClearResponse{c}, K, 1, count) })
	}
	var res servicesunlynx.ServiceResult
	request(net, func() error {
		return onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName).SendProtobuf(entry, &servicesunlynx.SurveyResultsQuery{SurveyID: id, ClientPublic: X}, &res)
	})
	return cond, res
}

func records(n int, where bool) []record {
	rs := make([]record, n)
	for i := range rs {
		rs[i] = record{group: sym.Int64("group", 0, 1000), value: sym.Int64("value", -1<<40, 1<<40)}
		if where {
			rs[i].where = sym.Int64("where", 0, 1000)
		}
	}
	return rs
}

// H_survey: a whole survey reveals nothing of the data to an observer of all
// messages, also between clients and servers, without the querier's key.
func H_survey() {
	sym.RandForks(0)
	n := 1 + sym.Choice("servers", maxServers()-1)
	v, h := network(n)
	where := sym.Choice("where", 2) == 1
	recs := records(2, where)
	_, X := hx.Key()
	v.known = append(v.known, X)
	proofs := sym.Choice("proofs", 2) == 1
	cond, _ := survey(v, (h+sym.Choice("entry", n))%n, recs, where, proofs, sym.Choice("count", 2) == 1, X)
	v.messages(true)
	data := []int64{}
	for _, r := range recs {
		data = append(data, r.group, r.value)
		if where {
			data = append(data, r.where)
		}
	}
	if where {
		data = append(data, cond)
	}
	v.check(pts(data))
	sym.Reach("hidden")
}

// H_answer: the querier, together with all servers but one, learns of the data
// the groups and the sum of each group only.
func H_answer() {
	sym.RandForks(0)
	n := 1 + sym.Choice("servers", maxServers()-1)
	v, h := network(n)
	where := sym.Choice("where", 2) == 1
	m := 3
	if where {
		m = 2
	}
	recs := records(m, where)
	X := libunlynx.SuiTe.Point().Mul(colluder(50), nil)
	cond, _ := survey(v, (h+sym.Choice("entry", n))%n, recs, where, false, sym.Choice("count", 2) == 1, X)
	v.messages(true)
	var data []kyber.Point
	// the first selected record of a group stands for the sum of the group
	sums := map[int]int64{}
	var heads []int
	for i, r := range recs {
		if where {
			data = append(data, hx.Pt(r.where))
			if r.where != cond {
				data = append(data, hx.Pt(r.group), hx.Pt(r.value))
				continue
			}
		}
		first := true
		for _, j := range heads {
			if recs[j].group == r.group {
				sums[j] += r.value
				data = append(data, hx.Pt(r.value))
				first = false
				break
			}
		}
		if first {
			heads = append(heads, i)
			sums[i] = r.value
		}
	}
	for _, j := range heads {
		v.known = append(v.known, hx.Pt(sums[j]), hx.Pt(recs[j].group))
	}
	if where {
		data = append(data, hx.Pt(cond))
	}
	v.check(data)
	sym.Reach("hidden")
}
