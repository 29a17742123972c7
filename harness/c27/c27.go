// Package c27: the key-switching protocol.
package c27

import (
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// run switches a vector on a network and checks what the root obtains.
func run(net *onet.Net, tree *onet.Tree, values []int64, proofs bool) {
	K := net.Roster.Aggregate
	y, Y := hx.Key()
	cv := hx.EncVec(K, values)
	orig := hx.CopyV(cv)
	calls := map[string]int{}
	net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewKeySwitchingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.KeySwitchingProtocol)
		p.Proofs = proofs
		p.ProofFunc = func(pub, target kyber.Point, priv kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
			calls[tni.Name()]++
			sym.Assert(pub.Equal(tni.Public()) && target.Equal(Y) && priv.Equal(tni.Private()), "a server proves with other keys")
			l, err := libunlynxkeyswitch.KeySwitchListProofCreation(pub, target, priv, ks2s, rBNegs, vis)
			sym.Assert(err == nil && len(l.List) == len(values), "a server cannot prove its contribution")
			sym.Assert(libunlynxkeyswitch.KeySwitchListProofVerification(l, 1.0), "the proof of a server's contribution is rejected")
			return &l
		}
		if tni.IsRoot() {
			p.TargetOfSwitch = &cv
			p.TargetPublicKey = &Y
		}
		return p, nil
	}
	pi, err := net.Create(protocolsunlynx.KeySwitchingProtocolName, tree)
	sym.Assert(err == nil, "the protocol could not be created")
	serr := px.Start(pi)
	net.Deliver()
	sym.Assert(*serr == nil, "the protocol could not be started")
	p := pi.(*protocolsunlynx.KeySwitchingProtocol)
	select {
	case out := <-p.FeedbackChannel:
		sym.Assert(len(out) == len(values), "another number of ciphertexts")
		for i, v := range values {
			sym.Assert(hx.Decrypts(y, out[i], v), "a ciphertext does not decrypt to its value under the target key")
		}
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	sym.WaitQuiescent(1)
	sym.Assert(hx.SameV(cv, orig), "the protocol changed its input")
	for _, t := range net.Instances() {
		sym.Assert(t.IsDone(), "a server did not finish")
	}
	sym.Assert(len(net.Instances()) == len(net.Roster.List), "a server did not take part")
	if proofs {
		for _, si := range net.Roster.List {
			sym.Assert(calls[si.Address.String()] == 1, "a server did not prove its contribution exactly once")
		}
	}
}

func values(n int) []int64 {
	vs := make([]int64, n)
	for i := range vs {
		vs[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	return vs
}

// H_trees: every tree, root and order of arrival.
func H_trees() {
	ms := 4
	if sym.Tier() > 0 {
		ms = 5
	}
	n := 1 + sym.Choice("servers", ms)
	net, _ := px.Net(n)
	run(net, px.Trees(net, n), values(1+n%2), sym.Choice("proofs", 2) == 1)
}

// H_roots: other servers than the first as root.
func H_roots() {
	n := 2 + sym.Choice("servers", 2)
	net, _ := px.Net(n)
	run(net, net.Roster.GenerateNaryTreeWithRoot(1+sym.Choice("arity", n-1), net.Roster.List[1+sym.Choice("root", n-1)]), values(2), false)
}

// H_many: many servers.
func H_many() {
	n := hx.Len("servers", 7, 33)
	net, _ := px.Net(n)
	run(net, px.Trees(net, n), values(2), sym.Choice("proofs", 2) == 1)
}

// H_lengths: every length.
func H_lengths() {
	n := 1 + sym.Choice("servers", 2)
	l := hx.Len("length", 0, 257)
	net, _ := px.Net(n)
	run(net, px.Trees(net, n), values(l), l < 100 && sym.Choice("proofs", 2) == 1)
}

// H_special: ciphertexts with unusual randomness.
func H_special() {
	n := 1 + sym.Choice("servers", 3)
	net, _ := px.Net(n)
	hx.Special()
	run(net, px.Trees(net, n), values(1+sym.Choice("length", 3)), sym.Choice("proofs", 2) == 1)
}
