// Package sx runs surveys on the services.
package sx

import (
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// Call runs a request of a client and delivers messages until it has a reply.
func Call(net *onet.Net, f func() error) error {
	var err error
	fin := false
	go func() {
		err = f()
		fin = true
	}()
	net.Deliver()
	sym.Assert(fin, "a request gets no answer")
	return err
}

func Send(net *onet.Net, server int, msg, reply interface{}) error {
	return Call(net, func() error { return Direct(net, server, msg, reply) })
}

// Slowly is like Call, but waits for timeouts.
func Slowly(net *onet.Net, timeout time.Duration, f func() error) error {
	var err error
	fin := false
	go func() {
		err = f()
		fin = true
	}()
	net.Deliver()
	for i := 0; i < 4 && !fin; i++ {
		time.Sleep(timeout + timeout/3)
		net.Deliver()
	}
	sym.Assert(fin, "a request gets no answer")
	return err
}

type Query struct {
	Sum, GroupBy []string
	Where        []string
	Conds        []int64
	Predicate    string
	Count        bool
}

// Survey is one survey on a network.
type Survey struct {
	Net  *onet.Net
	Root int
	Q    Query
	K, X kyber.Point
	Priv kyber.Scalar
	ID   servicesunlynx.SurveyID
}

func Network(servers int) *onet.Net {
	net, _ := px.Net(servers)
	net.Bounded = true
	net.Deviations = 0
	sym.Assert(net.StartService(servicesunlynx.ServiceName) == nil, "the service could not be started")
	return net
}

// Create makes a survey that waits for nbr[i] submissions at server i.
func Create(net *onet.Net, root int, q Query, nbr ...int64) *Survey {
	s, m := Draft(net, root, q, nbr...)
	var reply servicesunlynx.ServiceState
	err := Send(net, root, m, &reply)
	sym.Assert(err == nil, "the survey could not be created")
	s.ID = reply.SurveyID
	return s
}

// Direct is a request of a client that is already in a goroutine of its own.
func Direct(net *onet.Net, server int, msg, reply interface{}) error {
	return onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName).SendProtobuf(net.Roster.List[server], msg, reply)
}

// Draft prepares a survey that is not sent yet.
func Draft(net *onet.Net, root int, q Query, nbr ...int64) (*Survey, *servicesunlynx.SurveyCreationQuery) {
	s := &Survey{Net: net, Root: root, Q: q, K: net.Roster.Aggregate}
	s.Priv, s.X = hx.Key()
	sum := q.Sum
	if q.Count {
		sum = append(append([]string{}, sum...), "count")
	}
	var where []libunlynx.WhereQueryAttribute
	for i, w := range q.Where {
		where = append(where, libunlynx.WhereQueryAttribute{Name: w, Value: *libunlynx.EncryptInt(s.K, q.Conds[i])})
	}
	m := map[string]int64{}
	for i, n := range nbr {
		m[net.Roster.List[i].String()] = n
	}
	return s, &servicesunlynx.SurveyCreationQuery{Roster: *net.Roster, MapDPs: m, Sum: sum, Count: q.Count, Where: where, Predicate: q.Predicate, GroupBy: q.GroupBy}
}

func (s *Survey) Encrypt(rs []libunlynx.DpClearResponse) *servicesunlynx.SurveyResponseQuery {
	msg, err := servicesunlynx.EncryptDataToSurvey("dp", s.ID, rs, s.K, 1, s.Q.Count)
	sym.Assert(err == nil, "a response could not be encrypted")
	return msg
}

func (s *Survey) Submit(server int, msg *servicesunlynx.SurveyResponseQuery) error {
	return Send(s.Net, server, msg, &servicesunlynx.ServiceState{})
}

// Row is an expected line of the result.
type Row struct{ Group, Aggr []int64 }

// Result asks for the result and compares it.
func (s *Survey) Result(rows ...Row) {
	res := servicesunlynx.ServiceResult{}
	err := Send(s.Net, s.Root, &servicesunlynx.SurveyResultsQuery{SurveyID: s.ID, ClientPublic: s.X}, &res)
	sym.Assert(err == nil, "the survey failed")
	s.Compare(res, rows...)
}

func (s *Survey) Compare(res servicesunlynx.ServiceResult, rows ...Row) {
	sym.Assert(len(res.Results) == len(rows), "the result has another number of groups")
	used := make([]bool, len(rows))
	for _, fr := range res.Results {
		at := -1
		for i, r := range rows {
			if at < 0 && !used[i] && equal(s.Priv, fr.GroupByEnc, r.Group) {
				at = i
			}
		}
		sym.Assert(at >= 0, "a result for an unknown group or two for one")
		used[at] = true
		sym.Assert(equal(s.Priv, fr.AggregatingAttributes, rows[at].Aggr), "a wrong result")
	}
}

func equal(x kyber.Scalar, cv libunlynx.CipherVector, vs []int64) bool {
	if len(cv) != len(vs) {
		return false
	}
	for i := range cv {
		if !hx.Decrypts(x, cv[i], vs[i]) {
			return false
		}
	}
	return true
}

func Value() int64 { return sym.Int64("value", -1<<40, 1<<40) }

// Response is a response to the query g1, w1, s1.
func Response(enc bool, g, w, v int64) libunlynx.DpClearResponse {
	gs, ws, ss := map[string]int64{"g1": g}, map[string]int64{"w1": w}, map[string]int64{"s1": v}
	if enc {
		return libunlynx.DpClearResponse{GroupByEnc: gs, WhereEnc: ws, AggregatingAttributesEnc: ss}
	}
	return libunlynx.DpClearResponse{GroupByClear: gs, WhereClear: ws, AggregatingAttributesEnc: ss}
}

var Plain = Query{Sum: []string{"s1"}, GroupBy: []string{"g1"}, Where: []string{"w1"}, Conds: []int64{1}, Predicate: "v0 == v1"}
