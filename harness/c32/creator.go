package c32

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

// H_creator: the survey may be created without a key, with the key of the
// client that asks for the result, or with another one; the result is for the
// client that asks for it.
func H_creator() {
	sym.RandForks(0)
	n := 1 + sym.Choice("servers", 3)
	root := sym.Choice("root", n)
	net := sx.Network(n)
	nbr := make([]int64, n)
	nbr[n-1] = 1
	sv, m := sx.Draft(net, root, sx.Query{Sum: []string{"s1"}, GroupBy: []string{"g1"}}, nbr...)
	switch sym.Choice("creator", 3) {
	case 1:
		m.ClientPubKey = sv.X
	case 2:
		_, m.ClientPubKey = hx.Key()
	}
	var reply servicesunlynx.ServiceState
	sym.Assert(sx.Send(net, root, m, &reply) == nil, "the survey could not be created")
	sv.ID = reply.SurveyID
	v, w := sx.Value(), sx.Value()
	rs := []libunlynx.DpClearResponse{
		{GroupByEnc: map[string]int64{"g1": 1}, AggregatingAttributesEnc: map[string]int64{"s1": v}},
		{GroupByEnc: map[string]int64{"g1": 1}, AggregatingAttributesEnc: map[string]int64{"s1": w}},
	}
	sym.Assert(sv.Submit(n-1, sv.Encrypt(rs)) == nil, "a submission is rejected")
	sv.Result(sx.Row{Group: []int64{1}, Aggr: []int64{v + w}})
	sym.Reach("result")
}
