// Package c32: whole surveys through the services.
package c32

import (
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// record is one response of a data provider.
type record struct {
	group, where, where2 int64
	value                int64
}

// provider sends records to a server.
type provider struct {
	server  int
	records []record
}

type opts struct {
	servers, root         int
	grpEnc, whEnc, sumEnc bool
	nogroup               bool
	count, proofs         bool
	predicate             string
	wheres                int // number of where attributes
	conds                 []int64
	deviations            int
	mixed                 bool // every other response clear where the others are encrypted
}

func (o opts) selects(r record) bool {
	eq0 := o.wheres > 0 && r.where == o.conds[0]
	eq1 := o.wheres > 1 && r.where2 == o.conds[1]
	switch o.predicate {
	case "v0 == v1":
		return eq0
	case "v0 != v1":
		return !eq0
	case "v0 == v1 && v2 == v3":
		return eq0 && eq1
	case "v0 == v1 || v2 == v3":
		return eq0 || eq1
	}
	return true
}

// call runs a request of a client and delivers messages until it has a reply.
func call(net *onet.Net, f func() error) error {
	var err error
	fin := false
	go func() {
		err = f()
		fin = true
	}()
	net.Deliver()
	sym.Assert(fin, "a request gets no answer")
	return err
}

// run is one survey on a network.
type run struct {
	o       opts
	dps     []provider
	net     *onet.Net
	K       kyber.Point
	entry   *network.ServerIdentity
	querier *servicesunlynx.API
	id      servicesunlynx.SurveyID
	x       kyber.Scalar
	X       kyber.Point
	res     servicesunlynx.ServiceResult
}

func network1(o opts) *onet.Net {
	net, _ := px.Net(o.servers)
	net.Bounded = true
	net.Deviations = o.deviations
	sym.Assert(net.StartService(servicesunlynx.ServiceName) == nil, "the service could not be started")
	return net
}

func create(net *onet.Net, o opts, dps []provider) *run {
	r := &run{o: o, dps: dps, net: net, K: net.Roster.Aggregate, entry: net.Roster.List[o.root]}
	r.querier = servicesunlynx.NewUnLynxClient(r.entry, "querier")
	r.x, r.X = hx.Key()

	groupBy := []string{"g1"}
	if o.nogroup {
		groupBy = []string{}
	}
	sum := []string{"s1"}
	if o.count {
		sum = append(sum, "count")
	}
	var where []libunlynx.WhereQueryAttribute
	for i := 0; i < o.wheres; i++ {
		where = append(where, libunlynx.WhereQueryAttribute{Name: "w" + strconv.Itoa(i+1), Value: *libunlynx.EncryptInt(r.K, o.conds[i])})
	}
	nbr := map[string]int64{}
	for _, d := range dps {
		nbr[net.Roster.List[d.server].String()]++
	}
	var id *servicesunlynx.SurveyID
	err := call(net, func() (err error) {
		id, err = r.querier.SendSurveyCreationQuery(net.Roster, servicesunlynx.SurveyID(""), nil, nbr, o.proofs, false, sum, o.count, where, o.predicate, groupBy)
		return
	})
	sym.Assert(err == nil, "the survey could not be created")
	sym.Assert(*id != "", "the survey has no identifier")
	r.id = *id
	return r
}

// prepare is what provider i sends.
func (r *run) prepare(i int) (rs []libunlynx.DpClearResponse) {
	for j, rec := range r.dps[i].records {
		g := map[string]int64{"g1": rec.group}
		w := map[string]int64{}
		if r.o.wheres > 0 {
			w["w1"] = rec.where
		}
		if r.o.wheres > 1 {
			w["w2"] = rec.where2
		}
		s := map[string]int64{"s1": rec.value}
		c := libunlynx.DpClearResponse{}
		enc := func(e bool) bool { return e != (r.o.mixed && (i+j)%2 == 1) }
		if enc(r.o.grpEnc) {
			c.GroupByEnc = g
		} else {
			c.GroupByClear = g
		}
		if enc(r.o.whEnc) {
			c.WhereEnc = w
		} else {
			c.WhereClear = w
		}
		if enc(r.o.sumEnc) {
			c.AggregatingAttributesEnc = s
		} else {
			c.AggregatingAttributesClear = s
		}
		rs = append(rs, c)
	}
	return rs
}

func (r *run) send(i int) error {
	dp := servicesunlynx.NewUnLynxClient(r.net.Roster.List[r.dps[i].server], "dp"+strconv.Itoa(i))
	return dp.SendSurveyResponseQuery(r.id, r.prepare(i), r.K, 1, r.o.count)
}

func (r *run) ask() error {
	return onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName).SendProtobuf(r.entry, &servicesunlynx.SurveyResultsQuery{SurveyID: r.id, ClientPublic: r.X}, &r.res)
}

func (r *run) sendAll() {
	for i := range r.dps {
		i := i
		sym.Assert(call(r.net, func() error { return r.send(i) }) == nil, "a data provider could not send its data")
	}
}

func (r *run) check() { check(r.o, r.dps, r.x, r.res) }

// together issues requests concurrently.
func together(net *onet.Net, start func(i int), reqs ...func() error) {
	errs := make([]error, len(reqs))
	fin := 0
	for i := range reqs {
		i := i
		if start != nil {
			start(i)
		}
		go func() {
			errs[i] = reqs[i]()
			fin++
		}()
	}
	net.Deliver()
	sym.Assert(fin == len(reqs), "a request gets no answer")
	for _, e := range errs {
		sym.Assert(e == nil, "a request failed")
	}
}

func survey(o opts, dps []provider) {
	r := create(network1(o), o, dps)
	r.sendAll()
	sym.Assert(call(r.net, r.ask) == nil, "the survey failed")
	r.check()
}

// check compares the decrypted result with the responses.
func check(o opts, dps []provider, x kyber.Scalar, res servicesunlynx.ServiceResult) {
	var groups, sums, counts []int64
	for _, d := range dps {
		for _, r := range d.records {
			if !o.selects(r) {
				continue
			}
			g := r.group
			if o.nogroup {
				g = 0
			}
			at := -1
			for i := range groups {
				if groups[i] == g {
					at = i
				}
			}
			if at < 0 {
				groups, sums, counts = append(groups, g), append(sums, 0), append(counts, 0)
				at = len(groups) - 1
			}
			sums[at] += r.value
			counts[at]++
		}
	}
	sym.Assert(len(res.Results) == len(groups), "the result has another number of groups")
	seen := make([]bool, len(groups))
	for _, fr := range res.Results {
		at := -1
		if o.nogroup {
			sym.Assert(len(fr.GroupByEnc) == 0, "a result with grouping attributes")
			at = 0
		} else {
			sym.Assert(len(fr.GroupByEnc) == 1, "a result with another number of grouping attributes")
			for i := range groups {
				if hx.Decrypts(x, fr.GroupByEnc[0], groups[i]) {
					at = i
				}
			}
		}
		sym.Assert(at >= 0 && !seen[at], "a result for an unknown group or two for one")
		seen[at] = true
		n := 1
		if o.count {
			n = 2
		}
		sym.Assert(len(fr.AggregatingAttributes) == n, "a result with another number of attributes")
		sym.Assert(hx.Decrypts(x, fr.AggregatingAttributes[0], sums[at]), "a wrong sum")
		if o.count {
			sym.Assert(hx.Decrypts(x, fr.AggregatingAttributes[1], counts[at]), "a wrong count")
		}
	}
}

func value() int64 { return sym.Int64("value", -1<<40, 1<<40) }

// H_shapes: clear and encrypted grouping, conditions and attributes, every
// predicate, with and without counting.
func H_shapes() {
	sym.RandForks(0)
	o := opts{servers: 1 + sym.Choice("servers", 2), grpEnc: sym.Choice("grpEnc", 2) == 1, whEnc: sym.Choice("whEnc", 2) == 1, sumEnc: sym.Choice("sumEnc", 2) == 1}
	o.predicate = []string{"", "v0 == v1", "v0 != v1", "v0 == v1 && v2 == v3", "v0 == v1 || v2 == v3"}[sym.Choice("predicate", 5)]
	switch len(o.predicate) {
	case 0:
		o.wheres = sym.Choice("conditions", 2)
	case len("v0 == v1"):
		o.wheres = 1
	default:
		o.wheres = 2
	}
	o.conds = []int64{1, 1}
	o.count = sym.Choice("count", 2) == 1
	o.nogroup = sym.Choice("nogroup", 2) == 1
	o.root = o.servers - 1
	rs := []record{{group: 0, where: 1, where2: 0}, {group: 1, where: 0, where2: 1}, {group: 0, where: 1, where2: 1}}
	w := sym.Choice("where", 3)
	rs[2].where, rs[2].where2 = int64(w%2), int64(w/2)
	for i := range rs {
		rs[i].value = value()
	}
	dps := []provider{{0, rs[:2]}, {o.servers - 1, rs[2:]}}
	survey(o, dps)
	sym.Reach("answered")
}

// H_placement: records of any group on any of the servers, any entry server.
func H_placement() {
	sym.RandForks(0)
	o := opts{servers: 2 + sym.Choice("servers", 2), grpEnc: true, sumEnc: true}
	o.root = sym.Choice("root", o.servers)
	n := sym.Choice("records", 4)
	var dps []provider
	for i := 0; i < n; i++ {
		srv := sym.Choice("server", o.servers)
		dps = append(dps, provider{srv, []record{{group: int64(sym.Choice("group", 2)), value: value()}}})
	}
	survey(o, dps)
	sym.Reach("answered")
}

// H_proofs: surveys with proofs, also with a single response.
func H_proofs() {
	sym.RandForks(0)
	o := opts{servers: 1 + sym.Choice("servers", 3), grpEnc: sym.Choice("grpEnc", 2) == 1, sumEnc: true, count: true, proofs: true}
	o.predicate = "v0 == v1"
	o.wheres = 1
	o.conds = []int64{1}
	n := 1 + sym.Choice("responses", 2)
	var dps []provider
	for i := 0; i < o.servers; i++ {
		dps = append(dps, provider{i, []record{{group: 0, where: 1, value: value()}, {group: 1, where: int64(i % 2), value: value()}}[:n]})
	}
	survey(o, dps)
	sym.Reach("answered")
}

// H_mixed: responses in clear and encrypted ones in the same survey.
func H_mixed() {
	sym.RandForks(0)
	o := opts{servers: 2, mixed: true, grpEnc: sym.Choice("grpEnc", 2) == 1, whEnc: sym.Choice("whEnc", 2) == 1, sumEnc: sym.Choice("sumEnc", 2) == 1, count: sym.Choice("count", 2) == 1}
	o.predicate = []string{"", "v0 == v1"}[sym.Choice("predicate", 2)]
	o.wheres = 1
	o.conds = []int64{1}
	rs := []record{{group: 0, where: 1, value: value()}, {group: 0, where: 1, value: value()}, {group: 1, where: 1, value: value()}, {group: 1, where: 0, value: value()}}
	o.root = sym.Choice("root", 2)
	survey(o, []provider{{0, rs[:3]}, {sym.Choice("server", 2), rs[3:]}})
	sym.Reach("answered")
}

// H_orders: other orders of arrival of the messages.
func H_orders() {
	sym.RandForks(0)
	o := opts{servers: 3, grpEnc: true, sumEnc: true, deviations: 2}
	if sym.Tier() > 0 {
		o.deviations = 3
	}
	dps := []provider{{0, []record{{group: 0, value: value()}}}, {1, []record{{group: 1, value: value()}}}, {2, []record{{group: 0, value: value()}}}}
	survey(o, dps)
	sym.Reach("answered")
}

// H_during: the querier asks before, among and after the data.
func H_during() {
	sym.RandForks(0)
	o := opts{servers: 2, grpEnc: true, sumEnc: true}
	dps := []provider{{0, []record{{group: 0, value: value()}}}, {1, []record{{group: 1, value: value()}}}, {1, []record{{group: 0, value: value()}}}}
	r := create(network1(o), o, dps)
	at := sym.Choice("asked", len(dps)+1)
	var reqs []func() error
	for i := 0; i <= len(dps); i++ {
		i := i
		if i == at {
			reqs = append(reqs, r.ask)
		}
		if i < len(dps) {
			reqs = append(reqs, func() error { return r.send(i) })
		}
	}
	together(r.net, func(i int) { r.net.Deliver() }, reqs...)
	r.check()
	sym.Reach("answered")
}

// H_concurrent: the data providers and the querier contact the servers at the
// same time.
func H_concurrent() {
	sym.RandForks(0)
	o := opts{servers: 1 + sym.Choice("servers", 2), grpEnc: true, sumEnc: true}
	dps := []provider{{0, []record{{group: 0, value: value()}}}, {0, []record{{group: 0, value: value()}}}}
	r := create(network1(o), o, dps)
	n, sent := len(dps), 0
	msgs := make([]*servicesunlynx.SurveyResponseQuery, n)
	for i := range dps {
		msg, err := servicesunlynx.EncryptDataToSurvey("dp", r.id, r.prepare(i), r.K, 1, o.count)
		sym.Assert(err == nil, "the data of a provider could not be encrypted")
		msgs[i] = msg
	}
	var reqs []func() error
	first := sym.Choice("first", n+1)
	for j := 0; j <= n; j++ {
		i := (first + j) % (n + 1)
		if i == n {
			reqs = append(reqs, r.ask)
			continue
		}
		reqs = append(reqs, func() error {
			err := onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName).SendProtobuf(r.net.Roster.List[dps[i].server], msgs[i], &servicesunlynx.ServiceState{})
			sent++
			if sent == n {
				sym.Preempt(0)
			}
			return err
		})
	}
	sym.Preempt(1 + sym.Tier())
	together(r.net, nil, reqs...)
	r.check()
	sym.Reach("answered")
}

// H_two: two surveys, of different shape, on the same servers at the same time.
func H_two() {
	sym.RandForks(0)
	o1 := opts{servers: 2, grpEnc: true, sumEnc: true, proofs: sym.Choice("proofs", 2) == 1}
	o2 := opts{servers: 2, root: sym.Choice("root", 2), whEnc: true, predicate: "v0 == v1", wheres: 1, conds: []int64{1}, sumEnc: sym.Choice("sumEnc", 2) == 1, count: true}
	net := network1(o1)
	net.Deviations = sym.Tier()
	r1 := create(net, o1, []provider{{0, []record{{group: 0, value: value()}}}, {1, []record{{group: 0, value: value()}}}})
	r2 := create(net, o2, []provider{{1, []record{{group: 0, where: 1, value: value()}, {group: 1, where: 1, value: value()}}}, {0, []record{{group: 0, where: 0, value: value()}}}})
	sym.Assert(r1.id != r2.id, "two surveys with the same identifier")
	switch sym.Choice("order", 3) {
	case 0:
		r1.sendAll()
		r2.sendAll()
		together(net, nil, r1.ask, r2.ask)
	case 1:
		r2.sendAll()
		together(net, nil, r1.ask, r2.ask, func() error { return r1.send(0) }, func() error { return r1.send(1) })
	case 2:
		together(net, nil, func() error { return r1.send(0) }, func() error { return r2.send(0) }, r2.ask, func() error { return r2.send(1) }, func() error { return r1.send(1) }, r1.ask)
	}
	r1.check()
	r2.check()
	sym.Reach("answered")
}

// H_client: the decryption of the result by the client of the querier.
func H_client() {
	sym.RandForks(0)
	o := opts{servers: 1 + sym.Choice("servers", 2), grpEnc: sym.Choice("grpEnc", 2) == 1, sumEnc: sym.Choice("sumEnc", 2) == 1, count: true}
	v := []int64{sym.Int64("a", 0, 2), sym.Int64("b", 0, 2), sym.Int64("c", 0, 2)}
	r := create(network1(o), o, []provider{{0, []record{{group: 1, value: v[0]}, {group: 3, value: v[1]}}}, {o.servers - 1, []record{{group: 3, value: v[2]}}}})
	r.sendAll()
	var grp, aggr *[][]int64
	sym.Assert(call(r.net, func() (err error) {
		grp, aggr, err = r.querier.SendSurveyResultsQuery(r.id)
		return
	}) == nil, "the survey failed")
	sym.Assert(len(*grp) == 2 && len(*aggr) == 2, "the result has another number of groups")
	seen := map[int64]bool{}
	for i, g := range *grp {
		sym.Assert(len(g) == 1 && (g[0] == 1 || g[0] == 3) && !seen[g[0]], "a result for an unknown group or two for one")
		seen[g[0]] = true
		a := (*aggr)[i]
		sym.Assert(len(a) == 2, "a result with another number of attributes")
		if g[0] == 1 {
			sym.Assert(a[0] == v[0] && a[1] == 1, "a wrong result for the first group")
		} else {
			sym.Assert(a[0] == v[1]+v[2] && a[1] == 2, "a wrong result for the second group")
		}
	}
	sym.Reach("answered")
}

// H_permuted: the result does not depend on how the servers permute.
func H_permuted() {
	sym.RandForks(0)
	o := opts{servers: 2, grpEnc: true, sumEnc: true, proofs: true, whEnc: true, predicate: "v0 == v1", wheres: 1, conds: []int64{1}}
	r := create(network1(o), o, []provider{{0, []record{{group: 0, where: 1, value: value()}, {group: 1, where: 1, value: value()}}}, {1, []record{{group: 0, where: 1, value: value()}, {group: 1, where: 0, value: value()}}}})
	r.sendAll()
	sym.RandMin(1000)
	sym.RandForks(2 + 2*sym.Tier())
	sym.Assert(call(r.net, r.ask) == nil, "the survey failed")
	r.check()
	sym.Reach("answered")
}
