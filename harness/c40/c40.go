// Package c40: malformed messages of the protocols.
package c40

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"github.com/ldsec/unlynx/zz_verif/tx"
	"go.dedis.ch/onet/v3"
)

// spoil changes the bytes of a message: it empties, shortens or extends them,
// by a byte or an element, or makes one element undecodable.
func spoil(b []byte, element int) []byte {
	out := append([]byte{}, b...)
	switch sym.Choice("change", 6) {
	case 0:
		return nil
	case 1:
		if len(out) > 0 {
			out = out[:len(out)-1]
		}
	case 2:
		if len(out) >= element {
			out = out[:len(out)-element]
		}
	case 3:
		out = append(out, 0)
	case 4:
		if len(out) >= element {
			out = append(out, out[:element]...)
		}
	case 5:
		// y = 2 belongs to no point
		if at := 32 * sym.Choice("at", 2); len(out) >= at+32 {
			for i := 0; i < 32; i++ {
				out[at+i] = 0
			}
			out[at] = 2
		}
	}
	return out
}

// number is a length other than the announced one.
func number(n int) int {
	return []int{-1, 0, n - 1, n + 1, 1 << 31, 1 << 58, 1<<63 - 1, -1 << 63}[sym.Choice("length", 8)]
}

// numbers are announced lengths that are not the right ones.
func numbers(b []byte) []byte {
	out := append([]byte{}, b...)
	if len(out) < 4 {
		return append(out, 1)
	}
	switch k := sym.Choice("lengths", 7); k {
	case 0:
		return nil
	case 1:
		return out[:len(out)-1]
	case 2:
		return out[:len(out)-4]
	case 3:
		return append(out, 0)
	case 4:
		return append(out, out[:4]...)
	case 5:
		out[len(out)-1]++
	case 6:
		out[0] = 255
	}
	return out
}

// malform changes a message.
func malform(msg interface{}) bool {
	switch m := msg.(type) {
	case *protocolsunlynx.DownMessageBytes:
		m.Data = spoil(m.Data, 32)
	case *protocolsunlynx.UpBytesMessage:
		m.Data = spoil(m.Data, 64)
	case *protocolsunlynx.LengthMessage:
		m.Length = numbers(m.Length)
	case *protocolsunlynx.ChildAggregatedDataBytesMessage:
		m.Data = spoil(m.Data, 129)
	case *protocolsunlynx.CADBLengthMessage:
		switch sym.Choice("part", 3) {
		case 0:
			m.GacbLength = number(m.GacbLength)
		case 1:
			m.AabLength = number(m.AabLength)
		case 2:
			m.DtbLength = number(m.DtbLength)
		}
	case *protocolsunlynx.DeterministicTaggingBytesMessage:
		m.Data = spoil(m.Data, 64)
	case *protocolsunlynx.ShufflingBytesMessage:
		m.Data = spoil(m.Data, 64)
	case *protocolsunlynx.ShufflingBytesMessageLength:
		m.CVLengths = numbers(m.CVLengths)
	case *protocolsunlynx.ShufflingPlusDDTBytesMessage:
		if sym.Choice("part", 2) == 0 {
			m.Data = spoil(m.Data, 64)
		} else {
			m.ShuffKey = spoil(m.ShuffKey, 32)
		}
	case *protocolsunlynx.ShufflingPlusDDTBytesLength:
		m.CVLengths = numbers(m.CVLengths)
	default:
		return false
	}
	return true
}

// faults malforms messages.
type faults struct {
	from  int // the first message that may be malformed
	most  int // at most so many
	n     int
	count int
	of    func(m onet.Sending) bool
}

func (f *faults) decide(m onet.Sending) int {
	if m.From == m.To || f.of != nil && !f.of(m) {
		return 0
	}
	if f.n >= f.from && f.count < f.most && (f.n == f.from || sym.Choice("again", 2) == 1) && malform(m.Msg) {
		f.count++
	}
	f.n++
	return 0
}

func (f *faults) hit() bool { return f.count > 0 }

func run(t tx.Trial, f *faults) {
	if t.Shape(f.decide, f.hit) {
		sym.Reach("result")
	} else {
		sym.Reach("no result")
	}
}

// H_message: any one message of a protocol arrives malformed.
func H_message() {
	sym.RandForks(1)
	kind := sym.Choice("protocol", 5)
	n := 2 + sym.Choice("servers", 2)
	run(tx.Protocol(kind, n), &faults{from: sym.Choice("message", 4*n-2), most: 1})
}

// H_messageTwice: two messages of a protocol arrive malformed.
func H_messageTwice() {
	sym.RandForks(0)
	kind := sym.Choice("protocol", 5)
	run(tx.Protocol(kind, 2+sym.Tier()), &faults{from: sym.Choice("message", 5+sym.Tier()), most: 2})
}

// H_survey: a message of a run of the entry server is malformed: the querier
// gets an answer, and the next survey its result.
func H_survey() {
	sym.RandForks(0)
	root := sym.Choice("root", 2)
	libunlynx.TIMEOUT = tx.Timeout
	net := sx.Network(2)
	s := sx.Create(net, root, sx.Plain, 1, 1)
	v, w := sx.Value(), sx.Value()
	sym.Assert(s.Submit(root, s.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 0, 1, v), sx.Response(true, 1, 1, w)})) == nil, "a submission is rejected")
	sym.Assert(s.Submit(1-root, s.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 0, 1, v), sx.Response(true, 1, 0, w)})) == nil, "a submission is rejected")
	f := &faults{from: sym.Choice("message", 12), most: 1, of: func(m onet.Sending) bool { return m.Root == root }}
	net.Fault = f.decide
	res := servicesunlynx.ServiceResult{}
	err := sx.Slowly(net, tx.Timeout, func() error {
		return onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName).SendProtobuf(net.Roster.List[root], &servicesunlynx.SurveyResultsQuery{SurveyID: s.ID, ClientPublic: s.X}, &res)
	})
	sym.Assert(err == nil || f.hit(), "the survey failed although nothing was malformed")
	if !f.hit() {
		s.Compare(res, sx.Row{Group: []int64{0}, Aggr: []int64{v + v}}, sx.Row{Group: []int64{1}, Aggr: []int64{w}})
	} else if err == nil {
		for _, r := range res.Results {
			sym.Assert(len(r.GroupByEnc) == 1 && len(r.AggregatingAttributes) == 1, "a result of another shape")
		}
		sym.Reach("result")
	} else {
		sym.Reach("error")
	}
	net.Fault = nil
	t := sx.Create(net, sym.Choice("next", 2), sx.Plain, 1, 0)
	sym.Assert(t.Submit(0, t.Encrypt([]libunlynx.DpClearResponse{sx.Response(true, 3, 1, v)})) == nil, "a submission is rejected")
	t.Result(sx.Row{Group: []int64{3}, Aggr: []int64{v}})
}
