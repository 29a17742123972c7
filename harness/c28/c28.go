// Package c28: the deterministic tagging protocol.
package c28

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

type servers struct {
	net     *onet.Net
	tree    *onet.Tree
	secrets map[string]kyber.Scalar
}

func setup(n int) *servers {
	net, _ := px.Net(n)
	s := &servers{net, px.Trees(net, n), map[string]kyber.Scalar{}}
	for _, si := range net.Roster.List {
		s.secrets[si.Address.String()] = hx.Rand()
	}
	return s
}

// tag runs the protocol on encryptions of the values.
func (s *servers) tag(vals []int64, proofs bool) []libunlynx.DeterministCipherText {
	cv := hx.EncVec(s.net.Roster.Aggregate, vals)
	orig := hx.CopyV(cv)
	s.net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewDeterministicTaggingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
		secret := s.secrets[tni.Name()]
		p.SurveySecretKey = &secret
		p.Proofs = proofs
		if tni.IsRoot() {
			p.TargetOfSwitch = &cv
		}
		return p, nil
	}
	before := len(s.net.Instances())
	pi, err := s.net.Create(protocolsunlynx.DeterministicTaggingProtocolName, s.tree)
	sym.Assert(err == nil, "the protocol could not be created")
	serr := px.Start(pi)
	s.net.Deliver()
	sym.Assert(*serr == nil, "the protocol could not be started")
	p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
	var out []libunlynx.DeterministCipherText
	select {
	case out = <-p.FeedbackChannel:
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	sym.WaitQuiescent(1)
	sym.Assert(len(out) == len(vals), "another number of tags")
	sym.Assert(hx.SameV(cv, orig), "the protocol changed its input")
	inst := s.net.Instances()
	sym.Assert(len(inst)-before == len(s.net.Roster.List), "a server did not take part")
	for _, t := range inst {
		sym.Assert(t.IsDone(), "a server did not finish")
	}
	return out
}

func values(n int) []int64 {
	vs := make([]int64, n)
	for i := range vs {
		vs[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	return vs
}

// compare checks that tags are equal exactly when the plaintexts are.
func compare(a []libunlynx.DeterministCipherText, va []int64, b []libunlynx.DeterministCipherText, vb []int64) {
	for i := range a {
		for j := range b {
			sym.Assert(a[i].Equal(&b[j]) == (va[i] == vb[j]), "tags are equal although the plaintexts differ, or the reverse")
			sym.Assert((a[i].String() == b[j].String()) == (va[i] == vb[j]), "textual tags are equal although the plaintexts differ, or the reverse")
		}
	}
}

// H_servers: any number of servers and order of arrival.
func H_servers() {
	ms := 4
	if sym.Tier() > 0 {
		ms = 5
	}
	s := setup(1 + sym.Choice("servers", ms))
	vals := values(2)
	t := s.tag(vals, sym.Choice("proofs", 2) == 1)
	compare(t, vals, t, vals)
}

// H_runs: tags of several runs with the same secrets are comparable.
func H_runs() {
	s := setup(1 + sym.Choice("servers", 3))
	a := 3
	if sym.Tier() > 0 {
		a = 4
	}
	va, vb := values(sym.Choice("n", a+1)), values(1+sym.Choice("m", 2))
	ta := s.tag(va, false)
	tb := s.tag(vb, false)
	compare(ta, va, ta, va)
	compare(ta, va, tb, vb)
}

// H_long: more than one parallel batch.
func H_long() {
	s := setup(1 + sym.Choice("servers", 2))
	l := hx.Len("length", 4, 257)
	vals := make([]int64, l)
	for i := range vals {
		vals[i] = int64(i % 70)
	}
	vals[l-1] = sym.Int64("v", -1<<40, 1<<40)
	t := s.tag(vals, false)
	for _, i := range []int{0, 1, l / 2, l - 2, l - 1} {
		compare(t[i:i+1], vals[i:i+1], t, vals)
	}
}

// H_many: many servers.
func H_many() {
	s := setup(hx.Len("servers", 7, 33))
	vals := values(2)
	t := s.tag(vals, sym.Choice("proofs", 2) == 1)
	compare(t, vals, t, vals)
}

// H_special: ciphertexts with unusual randomness, in several runs.
func H_special() {
	s := setup(1 + sym.Choice("servers", 3))
	hx.Special()
	va, vb := values(2), values(1)
	ta := s.tag(va, sym.Choice("proofs", 2) == 1)
	tb := s.tag(vb, false)
	compare(ta, va, ta, va)
	compare(ta, va, tb, vb)
}
