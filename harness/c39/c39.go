// Package c39: protocols when messages are lost.
package c39

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"github.com/ldsec/unlynx/zz_verif/tx"
	"go.dedis.ch/onet/v3"
)

// faults decides what happens to each message.
type faults struct {
	n     int // messages so far
	kinds int // 1 none, 2 also loss, 3 also failing to send, 4 also delay
	most  int // at most so many faults
	hit   int
}

func (f *faults) decide(m onet.Sending) int {
	f.n++
	if m.From == m.To || f.hit >= f.most {
		return 0
	}
	k := sym.Choice("fault", f.kinds)
	if k > 0 {
		f.hit++
	}
	return k
}

func run(t tx.Trial, f *faults) {
	if t.Run(f.decide, func() bool { return f.hit > 0 }) {
		sym.Reach("result")
	} else {
		sym.Reach("no result")
	}
}

// H_lost: any subset of the messages is lost.
func H_lost() {
	sym.RandForks(1)
	kind := sym.Choice("protocol", 5)
	run(tx.Protocol(kind, 2+sym.Choice("servers", 3)), &faults{kinds: 2, most: 99})
}

// H_broken: messages that are lost, cannot be sent or arrive too late.
func H_broken() {
	sym.RandForks(1)
	kind := sym.Choice("protocol", 5)
	run(tx.Protocol(kind, 2+sym.Choice("servers", 3)), &faults{kinds: 4, most: 2 + sym.Tier()})
}

// survey is a survey in which messages of runs of some server are lost.
func survey(root int, faulty func(m onet.Sending) bool) {
	sym.RandForks(0)
	libunlynx.TIMEOUT = tx.Timeout
	net := sx.Network(2)
	s := sx.Create(net, root, sx.Plain, 1, 1)
	v, w := sx.Value(), sx.Value()
	sym.Assert(s.Submit(root, s.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 0, 1, v), sx.Response(true, 1, 1, w)})) == nil, "a submission is rejected")
	sym.Assert(s.Submit(1-root, s.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 0, 1, v), sx.Response(true, 1, 0, w)})) == nil, "a submission is rejected")
	f := &faults{kinds: 4, most: 1}
	net.Fault = func(m onet.Sending) int {
		if !faulty(m) {
			return 0
		}
		return f.decide(m)
	}
	res := servicesunlynx.ServiceResult{}
	err := sx.Slowly(net, tx.Timeout, func() error {
		return onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName).SendProtobuf(net.Roster.List[root], &servicesunlynx.SurveyResultsQuery{SurveyID: s.ID, ClientPublic: s.X}, &res)
	})
	sym.Assert(err == nil || f.hit > 0, "the survey failed although nothing was lost")
	if err == nil {
		s.Compare(res, sx.Row{Group: []int64{0}, Aggr: []int64{v + v}}, sx.Row{Group: []int64{1}, Aggr: []int64{w}})
		sym.Reach("result")
	} else {
		sym.Reach("error")
	}
	net.Fault = nil
	net.Release()
	t := sx.Create(net, sym.Choice("next", 2), sx.Plain, 1, 0)
	sym.Assert(t.Submit(0, t.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 3, 1, v)})) == nil, "a submission is rejected")
	t.Result(sx.Row{Group: []int64{3}, Aggr: []int64{v}})
}

// H_survey: messages of the runs of the server asked for the result are lost:
// the querier gets an error, and the next survey its result.
func H_survey() {
	root := sym.Choice("root", 2)
	survey(root, func(m onet.Sending) bool { return m.Root == root })
}

// H_surveyOthers: messages of the runs of another server are lost.
func H_surveyOthers() {
	root := sym.Choice("root", 2)
	survey(root, func(m onet.Sending) bool { return m.Root != root })
}
