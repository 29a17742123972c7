// Package c38: requests the services cannot serve.
package c38

import (
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/onet/v3"
)

// malformed returns bytes that are no ciphertext.
func malformed(good []byte) []byte {
	n := len(good)
	none := make([]byte, n/2)
	none[0] = 2 // no point has this encoding
	switch sym.Choice("malformation", 7) {
	case 0:
		return nil
	case 1:
		return good[:n-1]
	case 2:
		return append(append([]byte{}, good...), 0)
	case 3:
		return good[:n/2]
	case 4:
		return append(append([]byte{}, good...), good...)
	case 5:
		return append(append([]byte{}, good[:n/2]...), none...)
	}
	return append(append([]byte{}, none...), good[n/2:]...)
}

// H_malformed: a submission with a malformed ciphertext is rejected as a
// whole; the corrected one is counted once.
func H_malformed() {
	sym.RandForks(0)
	servers := 1 + sym.Choice("servers", 2)
	s := sx.Create(sx.Network(servers), sym.Choice("root", servers), sx.Plain, []int64{1, 1}[:servers]...)
	n := 1 + sym.Choice("responses", 3)
	enc := make([]bool, n)
	vs := make([]int64, n)
	var rs []libunlynx.DpClearResponse
	for i := range enc {
		enc[i] = sym.Choice("encrypted", 2) == 1
		vs[i] = sx.Value()
		rs = append(rs, sx.Response(enc[i], int64(i%2), 1, vs[i]))
	}
	bad := sym.Choice("bad", n)
	msg := s.Encrypt(rs)
	broken := *msg
	broken.Responses = append([]libunlynx.DpResponseToSend{}, msg.Responses...)
	b := &broken.Responses[bad]
	kind := "s1"
	if enc[bad] {
		kind = []string{"s1", "g1", "w1"}[sym.Choice("attribute", 3)]
	}
	m := b.AggregatingAttributesEnc
	if kind == "g1" {
		m = b.GroupByEnc
	} else if kind == "w1" {
		m = b.WhereEnc
	}
	with := map[string][]byte{}
	for k, v := range m {
		with[k] = v
	}
	with[kind] = malformed(m[kind])
	switch kind {
	case "s1":
		b.AggregatingAttributesEnc = with
	case "g1":
		b.GroupByEnc = with
	default:
		b.WhereEnc = with
	}
	sym.Assert(s.Submit(0, &broken) != nil, "a malformed submission is accepted")
	sym.Reach("rejected")
	early := n == 1 && sym.Choice("early", 2) == 1
	answered := false
	var res servicesunlynx.ServiceResult
	var failed error
	if early {
		go func() {
			failed = onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName).SendProtobuf(s.Net.Roster.List[s.Root], &servicesunlynx.SurveyResultsQuery{SurveyID: s.ID, ClientPublic: s.X}, &res)
			answered = true
		}()
		s.Net.Deliver()
		sym.Assert(!answered, "the survey is answered before the data is there")
	}
	if servers == 2 {
		sym.Assert(s.Submit(1, s.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 0, 1, 7)})) == nil, "a submission is rejected")
	}
	sym.Assert(s.Submit(0, msg) == nil, "the corrected submission is rejected")
	sum := []int64{0, 0}
	for i := range vs {
		sum[i%2] += vs[i]
	}
	if servers == 2 {
		sum[0] += 7
	}
	rows := []sx.Row{{[]int64{0}, sum[:1]}, {[]int64{1}, sum[1:]}}
	if n == 1 {
		rows = rows[:1]
	}
	if early {
		sym.Assert(answered, "a request gets no answer")
		sym.Assert(failed == nil, "the survey failed")
		s.Compare(res, rows...)
	} else {
		s.Result(rows...)
	}
	sym.Reach("answered")
}

// H_unknown: requests for surveys the server does not know are answered with
// an error and leave the others alone.
func H_unknown() {
	sym.RandForks(0)
	net := sx.Network(2)
	s := sx.Create(net, 0, sx.Plain, 1, 0)
	v := sx.Value()
	msg := s.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 0, 1, v)})
	stray := func() {
		id := servicesunlynx.SurveyID([]string{"", "other", string(s.ID) + " ", string(s.ID[:len(s.ID)-1])}[sym.Choice("id", 4)])
		at := sym.Choice("server", 2)
		var err error
		switch sym.Choice("request", 5) {
		case 0:
			err = sx.Send(net, at, &servicesunlynx.SurveyResponseQuery{SurveyID: id, Responses: msg.Responses}, &servicesunlynx.ServiceState{})
		case 1:
			err = sx.Send(net, at, &servicesunlynx.SurveyResultsQuery{SurveyID: id, ClientPublic: s.X}, &servicesunlynx.ServiceResult{})
		case 2:
			err = sx.Send(net, at, &servicesunlynx.SurveyResultsQuery{SurveyID: id, ClientPublic: s.X, IntraMessage: true}, &servicesunlynx.ServiceResult{})
		case 3:
			err = sx.Send(net, at, &servicesunlynx.DDTfinished{SurveyID: id}, &servicesunlynx.ServiceState{})
		case 4:
			err = sx.Send(net, at, &servicesunlynx.QueryBroadcastFinished{SurveyID: id}, &servicesunlynx.ServiceState{})
		}
		sym.Assert(err != nil, "a request for an unknown survey is not rejected")
	}
	when := sym.Choice("when", 3)
	if when == 0 {
		stray()
	}
	sym.Assert(s.Submit(0, msg) == nil, "a submission is rejected")
	if when == 1 {
		stray()
	}
	s.Result(sx.Row{[]int64{0}, []int64{v}})
	if when == 2 {
		stray()
	}
	sym.Reach("answered")
}

// H_attributes: responses that lack attributes of the query count as 0 there,
// and attributes the query does not name are ignored.
func H_attributes() {
	sym.RandForks(0)
	s := sx.Create(sx.Network(1), 0, sx.Query{Sum: []string{"s1", "s2"}, GroupBy: []string{"g1", "g2"}, Where: sx.Plain.Where, Conds: []int64{0}, Predicate: sx.Plain.Predicate}, 2)
	full := sym.Choice("full", 2) == 1
	enc := sym.Choice("encrypted", 2) == 1
	has := func(name string) bool { return sym.Choice(name, 2) == 1 }
	g, w, a := map[string]int64{}, map[string]int64{}, map[string]int64{}
	exp := sx.Row{Group: []int64{0, 0}, Aggr: []int64{0, 0}}
	for i, n := range []string{"g1", "g2"} {
		if has(n) {
			g[n] = int64(i + 1)
			exp.Group[i] = int64(i + 1)
		}
	}
	for i, n := range []string{"s1", "s2"} {
		if has(n) {
			a[n] = sx.Value()
			exp.Aggr[i] = a[n]
		}
	}
	keep := true
	if has("w1") {
		w["w1"] = 1
		keep = false
	}
	if has("more") {
		g["g3"], w["w2"], a["s3"] = 4, 5, 6
	}
	r := libunlynx.DpClearResponse{AggregatingAttributesEnc: a}
	if enc {
		r.GroupByEnc, r.WhereEnc = g, w
	} else {
		r.GroupByClear, r.WhereClear = g, w
	}
	if sym.Choice("clear sums", 2) == 1 {
		r.AggregatingAttributesEnc, r.AggregatingAttributesClear = nil, a
	}
	sym.Assert(s.Submit(0, s.Encrypt([]libunlynx.DpClearResponse{r})) == nil, "a submission is rejected")
	v := sx.Value()
	other := []libunlynx.DpClearResponse{}
	if full {
		other = append(other, libunlynx.DpClearResponse{GroupByEnc: map[string]int64{"g1": 8, "g2": 9}, WhereEnc: map[string]int64{"w1": 0}, AggregatingAttributesEnc: map[string]int64{"s1": v, "s2": v}})
	}
	sym.Assert(s.Submit(0, s.Encrypt(other)) == nil, "a submission is rejected")
	var rows []sx.Row
	if keep {
		rows = append(rows, exp)
	}
	if full {
		rows = append(rows, sx.Row{[]int64{8, 9}, []int64{v, v}})
	}
	s.Result(rows...)
	sym.Reach("answered")
}

// H_predicates: predicates that cannot be parsed or evaluated, or are no
// condition, select nothing; the service survives them.
func H_predicates() {
	sym.RandForks(0)
	net := sx.Network(1)
	q := sx.Plain
	q.Predicate = []string{"v0 ==", "v0 == v1 &&", ")", "v7 == v8", "v0", "1 + 1", "v0 < 3"}[sym.Choice("predicate", 7)]
	s := sx.Create(net, 0, q, 1)
	sym.Assert(s.Submit(0, s.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 0, 1, sx.Value()), sx.Response(sym.Choice("encrypted", 2) == 1, 1, 1, sx.Value())})) == nil, "a submission is rejected")
	res := servicesunlynx.ServiceResult{}
	err := sx.Send(net, 0, &servicesunlynx.SurveyResultsQuery{SurveyID: s.ID, ClientPublic: s.X}, &res)
	sym.Assert(err != nil || len(res.Results) == 0, "responses are selected by something that is no condition")
	v := sx.Value()
	t := sx.Create(net, 0, sx.Plain, 1)
	sym.Assert(t.Submit(0, t.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 1, 1, v)})) == nil, "a submission is rejected")
	t.Result(sx.Row{[]int64{1}, []int64{v}})
	sym.Reach("answered")
}

// H_protocols: the services start no protocol they do not know, and none for
// an unknown survey.
func H_protocols() {
	sym.RandForks(0)
	net := sx.Network(1)
	s := sx.Create(net, 0, sx.Plain, 1)
	svc := net.Host(0).Service(servicesunlynx.ServiceName).(*servicesunlynx.Service)
	names := []string{protocolsunlynx.ShufflingProtocolName, protocolsunlynx.DeterministicTaggingProtocolName, protocolsunlynx.CollectiveAggregationProtocolName, protocolsunlynx.KeySwitchingProtocolName, "other", ""}
	i := sym.Choice("protocol", len(names))
	id := s.ID
	if sym.Choice("known", 2) == 0 || i >= 4 {
		if i < 4 {
			id = servicesunlynx.SurveyID("x" + strconv.Itoa(i))
		}
		_, err := svc.StartProtocol(names[i], id)
		sym.Assert(err != nil, "a protocol starts that cannot")
		sym.Reach("refused")
	}
	v := sx.Value()
	sym.Assert(s.Submit(0, s.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 1, 1, v)})) == nil, "a submission is rejected")
	s.Result(sx.Row{[]int64{1}, []int64{v}})
}

// H_created: as soon as the creation of a survey is confirmed, every server
// accepts submissions for it.
func H_created() {
	sym.RandForks(0)
	n := 2 + sym.Choice("servers", 2+sym.Tier())
	net := sx.Network(n)
	net.Deviations = 2
	root, at := sym.Choice("root", n), sym.Choice("at", n)
	v := sx.Value()
	s := &sx.Survey{Net: net, Root: root, Q: sx.Query{Sum: []string{"s1"}, GroupBy: []string{"g1"}}, K: net.Roster.Aggregate}
	s.Priv, s.X = hx.Key()
	var created, submitted error
	fin := false
	go func() {
		c := onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName)
		var reply servicesunlynx.ServiceState
		created = c.SendProtobuf(net.Roster.List[root], &servicesunlynx.SurveyCreationQuery{Roster: *net.Roster, MapDPs: map[string]int64{net.Roster.List[at].String(): 1}, Sum: s.Q.Sum, GroupBy: s.Q.GroupBy}, &reply)
		if created == nil {
			s.ID = reply.SurveyID
			submitted = c.SendProtobuf(net.Roster.List[at], s.Encrypt([]libunlynx.DpClearResponse{{GroupByClear: map[string]int64{"g1": 4}, AggregatingAttributesEnc: map[string]int64{"s1": v}}}), &servicesunlynx.ServiceState{})
		}
		fin = true
	}()
	net.Deliver()
	sym.Assert(fin, "a request gets no answer")
	sym.Assert(created == nil, "the survey could not be created")
	sym.Assert(submitted == nil, "a server does not know the survey yet")
	net.Deviations = 0
	s.Result(sx.Row{Group: []int64{4}, Aggr: []int64{v}})
	sym.Reach("answered")
}
