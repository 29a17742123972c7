package c32

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

// H_immediately: as soon as the survey is created every server takes responses,
// and as soon as they are accepted the querier can ask, with nothing in between,
// whatever is still under way.
func H_immediately() {
	sym.RandForks(0)
	n := 2 + sym.Choice("servers", 2)
	root := sym.Choice("root", n)
	net := sx.Network(n)
	net.Deviations = 2 - (n - 2)
	nbr := make([]int64, n)
	for i := range nbr {
		nbr[i] = 1
	}
	s, query := sx.Draft(net, root, sx.Plain, nbr...)
	first := sym.Choice("first", n)
	var total int64
	vs := make([]int64, n)
	for i := range vs {
		vs[i] = sx.Value()
		total += vs[i]
	}
	res := servicesunlynx.ServiceResult{}
	err := sx.Call(net, func() error {
		var created servicesunlynx.ServiceState
		if err := sx.Direct(net, root, query, &created); err != nil {
			return err
		}
		s.ID = created.SurveyID
		for k := 0; k < n; k++ {
			i := (first + k) % n
			m := s.Encrypt([]libunlynx.DpClearResponse{sx.Response(i%2 == 0, 7, 1, vs[i])})
			if err := sx.Direct(net, i, m, &servicesunlynx.ServiceState{}); err != nil {
				return err
			}
		}
		return sx.Direct(net, root, &servicesunlynx.SurveyResultsQuery{SurveyID: s.ID, ClientPublic: s.X}, &res)
	})
	sym.Assert(err == nil, "a request of a good client failed")
	s.Compare(res, sx.Row{Group: []int64{7}, Aggr: []int64{total}})
}
