// Package c44: tags of different surveys.
package c44

import (
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

type servers struct {
	net     *onet.Net
	tree    *onet.Tree
	secrets map[string]kyber.Scalar
}

func setup(n int) *servers {
	net, _ := px.Net(n)
	s := &servers{net, px.Trees(net, n), map[string]kyber.Scalar{}}
	for _, si := range net.Roster.List {
		s.secrets[si.Address.String()] = hx.Rand()
	}
	return s
}

// renew gives one server, or all of them, another secret.
func (s *servers) renew(who int) {
	for i, si := range s.net.Roster.List {
		if i == who || who == len(s.net.Roster.List) {
			s.secrets[si.Address.String()] = hx.Rand()
		}
	}
}

func (s *servers) tag(cv libunlynx.CipherVector, shuffle bool) []libunlynx.DeterministCipherText {
	in := []libunlynx.CipherVector{}
	for i := range cv {
		in = append(in, cv[i:i+1])
	}
	s.net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		secret := s.secrets[tni.Name()]
		if shuffle {
			pi, err := protocolsunlynx.NewShufflingPlusDDTProtocol(tni)
			if err != nil {
				return nil, err
			}
			p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
			p.SurveySecretKey = &secret
			if tni.IsRoot() {
				p.TargetData = &in
			}
			return p, nil
		}
		pi, err := protocolsunlynx.NewDeterministicTaggingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
		p.SurveySecretKey = &secret
		if tni.IsRoot() {
			p.TargetOfSwitch = &cv
		}
		return p, nil
	}
	name := protocolsunlynx.DeterministicTaggingProtocolName
	if shuffle {
		name = protocolsunlynx.ShufflingPlusDDTProtocolName
	}
	pi, err := s.net.Create(name, s.tree)
	sym.Assert(err == nil, "the protocol could not be created")
	serr := px.Start(pi)
	s.net.Deliver()
	sym.Assert(*serr == nil, "the protocol could not be started")
	var out []libunlynx.DeterministCipherText
	if shuffle {
		select {
		case rows := <-pi.(*protocolsunlynx.ShufflingPlusDDTProtocol).FeedbackChannel:
			for _, r := range rows {
				out = append(out, r...)
			}
		default:
		}
	} else {
		select {
		case out = <-pi.(*protocolsunlynx.DeterministicTaggingProtocol).FeedbackChannel:
		default:
		}
	}
	sym.WaitQuiescent(1)
	sym.Assert(len(out) == len(cv), "the protocol delivers no result")
	return out
}

// apart runs the protocol before and after a change of secrets.
func (s *servers) apart(who int, shuffle bool) {
	va := []int64{sym.Int64("v", -1<<40, 1<<40), sym.Int64("v", -1<<40, 1<<40)}
	a := hx.EncVec(s.net.Roster.Aggregate, va)
	b := a
	switch sym.Choice("again", 3) {
	case 0: // the same ciphertexts
		b = hx.CopyV(a)
	case 1: // the same values
		b = hx.EncVec(s.net.Roster.Aggregate, va)
	case 2:
		b = hx.EncVec(s.net.Roster.Aggregate, []int64{sym.Int64("w", -1<<40, 1<<40), 1})
	}
	ta := s.tag(a, shuffle)
	s.renew(who)
	tb := s.tag(b, shuffle)
	for i := range ta {
		for j := range tb {
			sym.Assert(!ta[i].Equal(&tb[j]), "tags made with different secrets coincide")
			sym.Assert(ta[i].String() != tb[j].String(), "textual tags made with different secrets coincide")
		}
	}
	// nor do the differences of two tags of different values
	diff := func(t []libunlynx.DeterministCipherText, i, j int) kyber.Point {
		return libunlynx.SuiTe.Point().Sub(t[i].Point, t[j].Point)
	}
	if d := diff(ta, 0, 1); !d.Equal(hx.Pt(0)) {
		for i := range tb {
			for j := range tb {
				sym.Assert(!d.Equal(diff(tb, i, j)), "differences of tags made with different secrets coincide")
			}
		}
	}
	sym.Reach("apart")
}

// H_tagging: two runs of the tagging protocol, between which any one server or all change their secret.
func H_tagging() {
	n := 1 + sym.Choice("servers", 4+sym.Tier())
	if n > 3 {
		s := setup(n)
		s.net.Deviations = 0
		s.apart(sym.Choice("who", n+1), false)
		return
	}
	setup(n).apart(sym.Choice("who", n+1), false)
}

// H_shuffled: two runs of the combined shuffling and tagging protocol.
func H_shuffled() {
	sym.RandForks(2)
	n := 1 + sym.Choice("servers", 3+sym.Tier())
	s := setup(n)
	s.net.Deviations = 0
	s.apart(sym.Choice("who", n+1), true)
}

// H_many: many servers, of which one changes its secret.
func H_many() {
	n := hx.Len("servers", 7, 33)
	setup(n).apart(hx.Pos("who", n), false)
}

// tags lists the group tags that servers sent each other in aggregations, and
// the ciphertexts exchanged in tagging rounds.
func tags(net *onet.Net) ([]string, []libunlynx.CipherText) {
	var out []string
	var cts []libunlynx.CipherText
	n := len(net.Roster.List)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			var l *protocolsunlynx.CADBLengthMessage
			for _, m := range net.Seen(i, j) {
				switch q := m.(type) {
				case *protocolsunlynx.CADBLengthMessage:
					l = q
				case *protocolsunlynx.ChildAggregatedDataBytesMessage:
					sym.Assert(l != nil, "data without lengths")
					var d protocolsunlynx.ChildAggregatedDataMessage
					sym.Assert(d.FromBytes(q.Data, l.GacbLength, l.AabLength, l.DtbLength) == nil, "undecodable data")
					for _, r := range d.ChildData {
						out = append(out, string(r.DetTagGroupBy))
					}
				case *protocolsunlynx.DeterministicTaggingBytesMessage:
					var d protocolsunlynx.DeterministicTaggingMessage
					sym.Assert(d.FromBytes(q.Data) == nil, "undecodable data")
					cts = append(cts, d.Data...)
				}
			}
		}
	}
	return out, cts
}

// H_surveys: two surveys with the same query and data on the same servers.
func H_surveys() {
	sym.RandForks(0)
	n := 2 + sym.Choice("servers", 3)
	net := sx.Network(n)
	net.Watch = true
	enc := sym.Choice("enc", 2) == 1
	v := sx.Value()
	nbr := make([]int64, n)
	for i := range nbr {
		nbr[i] = 1
	}
	q := sx.Plain
	more := 0
	if n == 2 {
		more = 2 * sym.Choice("conditions", 2)
	}
	for i := 2; i <= 1+more; i++ {
		name := "w" + strconv.Itoa(i)
		q.Where, q.Conds, q.Predicate = append(q.Where[:i-1:i-1], name), append(q.Conds[:i-1:i-1], int64(i)), q.Predicate+" && v"+strconv.Itoa(2*i-2)+" == v"+strconv.Itoa(2*i-1)
	}
	response := func(g, v int64) libunlynx.DpClearResponse {
		r := sx.Response(enc, g, 1, v)
		for i := 1; i < len(q.Where); i++ {
			if enc {
				r.WhereEnc[q.Where[i]] = q.Conds[i]
			} else {
				r.WhereClear[q.Where[i]] = q.Conds[i]
			}
		}
		return r
	}
	one := func(root int) {
		s := sx.Create(net, root, q, nbr...)
		for i := range nbr {
			rs := []libunlynx.DpClearResponse{response(0, v), response(1, 2)}
			sym.Assert(s.Submit(i, s.Encrypt(rs)) == nil, "a submission is rejected")
		}
		s.Result(sx.Row{Group: []int64{0}, Aggr: []int64{v * int64(n)}}, sx.Row{Group: []int64{1}, Aggr: []int64{int64(2 * n)}})
	}
	root := sym.Choice("root", n)
	one(root)
	g1, c1 := tags(net)
	if sym.Choice("other", 2) == 1 {
		root = (root + 1) % n
	}
	one(root)
	g2, c2 := tags(net)
	sym.Assert(len(g1) > 0 && len(g2) > len(g1) && len(c2) > len(c1), "no tags were exchanged")
	// Seen lists the messages of both surveys: each tag of the first one appears as often as before
	count := func(l []string, t string) (k int) {
		for _, x := range l {
			if x == t {
				k++
			}
		}
		return
	}
	for _, t := range g1 {
		sym.Assert(t != "", "an empty tag")
		sym.Assert(count(g1, t) == count(g2, t), "a group has the same tag in two surveys")
	}
	same := 0
	for _, a := range c1 {
		for _, b := range c2 {
			if a.C.Equal(b.C) || a.K.Equal(b.K) {
				same++
			}
		}
	}
	for _, a := range c1 {
		for _, b := range c1 {
			if a.C.Equal(b.C) || a.K.Equal(b.K) {
				same--
			}
		}
	}
	sym.Assert(same == 0, "a ciphertext reappears in the tagging of another survey")
	sym.Reach("apart")
}
