// Package c29: the shuffling protocol.
package c29

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

type opts struct {
	proofs, otherKey bool
	pre              int // 0: no precomputation; else additional elements + 1
}

// run shuffles rows of arbitrary ciphertexts on n servers and checks the result.
func run(n, rows, cols int, o opts) {
	net, privs := px.Net(n)
	tree := px.Trees(net, n)
	x := libunlynx.SuiTe.Scalar().Zero()
	for _, p := range privs {
		x.Add(x, p)
	}
	K := net.Roster.Aggregate
	if o.otherKey {
		x, K = hx.Key()
	}
	in := make([]libunlynx.CipherVector, rows)
	orig := make([]libunlynx.CipherVector, rows)
	for i := range in {
		in[i] = hx.RandCV(cols)
		orig[i] = hx.CopyV(in[i])
	}
	calls := map[string]int{}
	net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewShufflingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.ShufflingProtocol)
		p.Proofs = o.proofs
		p.ProofFunc = func(before, after []libunlynx.CipherVector, key kyber.Point, beta [][]kyber.Scalar, perm []int) *libunlynxshuffle.PublishedShufflingProof {
			calls[tni.Name()]++
			sym.Assert(key.Equal(K), "a server proves for another key")
			pr, err := libunlynxshuffle.ShuffleProofCreation(before, after, hx.Pt(1), key, beta, perm)
			sym.Assert(err == nil, "a server cannot prove its shuffle")
			sym.Assert(libunlynxshuffle.ShuffleProofVerification(pr, key), "the proof of a server's shuffle is rejected")
			return &pr
		}
		if o.otherKey {
			p.CollectiveKey = K
		}
		if o.pre > 0 {
			p.Precomputed = libunlynxshuffle.CreatePrecomputedRandomize(hx.Pt(1), K, libunlynx.SuiTe.RandomStream(), cols+o.pre-1, 2)
		}
		if tni.IsRoot() {
			p.ShuffleTarget = &in
		}
		return p, nil
	}
	pi, err := net.Create(protocolsunlynx.ShufflingProtocolName, tree)
	sym.Assert(err == nil, "the protocol could not be created")
	serr := px.Start(pi)
	net.Deliver()
	sym.Assert(*serr == nil, "the protocol could not be started")
	p := pi.(*protocolsunlynx.ShufflingProtocol)
	var out []libunlynx.CipherVector
	select {
	case out = <-p.FeedbackChannel:
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	sym.WaitQuiescent(1)
	sym.Assert(len(out) == rows, "another number of rows")
	used := make([]bool, rows)
	for _, r := range out {
		sym.Assert(len(r) == cols, "a row of another length")
		if cols == 0 {
			continue
		}
		hit := -1
		for i := range orig {
			if !used[i] && hx.Plain(x, r[0]).Equal(hx.Plain(x, orig[i][0])) {
				hit = i
				break
			}
		}
		sym.Assert(hit >= 0, "a row is lost or there twice")
		used[hit] = true
		for j := range r {
			sym.Assert(hx.Plain(x, r[j]).Equal(hx.Plain(x, orig[hit][j])), "a row is not intact")
			sym.Assert(!r[j].K.Equal(orig[hit][j].K), "a ciphertext was not re-randomised")
		}
	}
	for i := range in {
		sym.Assert(hx.SameV(in[i], orig[i]), "the protocol changed its input")
	}
	inst := net.Instances()
	sym.Assert(len(inst) == n, "a server did not take part")
	for _, t := range inst {
		sym.Assert(t.IsDone(), "a server did not finish")
	}
	if o.proofs {
		for _, si := range net.Roster.List {
			sym.Assert(calls[si.Address.String()] == 1, "a server did not prove its shuffle exactly once")
		}
	}
}

// H_servers: any number of servers.
func H_servers() {
	ms := 3
	if sym.Tier() > 0 {
		ms = 4
	}
	n := 1 + sym.Choice("servers", ms)
	run(n, 2, 1+sym.Choice("columns", 2), opts{proofs: sym.Choice("proofs", 2) == 1, otherKey: sym.Choice("otherKey", 2) == 1})
}

// H_shapes: any number of rows and columns.
func H_shapes() {
	n := 1 + sym.Choice("servers", 2)
	ms := 4
	if n == 1 && sym.Tier() > 0 {
		ms = 5
	}
	rows, cols := sym.Choice("rows", ms), sym.Choice("columns", 4)
	run(n, rows, cols, opts{proofs: rows >= 2 && cols > 0 && sym.Choice("proofs", 2) == 1})
}

// H_precomputed: with precomputation.
func H_precomputed() {
	n := 1 + sym.Choice("servers", 2)
	rows := []int{0, 1, 2, 3}[sym.Choice("rows", 5-n)]
	run(n, rows, sym.Choice("columns", 3), opts{pre: 1 + sym.Choice("more", 2), proofs: false})
}

// H_wide: more than one parallel batch of columns.
func H_wide() {
	run(1, 2, hx.Len("columns", 4, 257), opts{pre: sym.Choice("pre", 2)})
}

// H_many: many servers or rows, with some permutations.
func H_many() {
	sym.RandForks(0)
	o := opts{proofs: sym.Choice("proofs", 2) == 1, pre: sym.Choice("pre", 2)}
	if sym.Choice("kind", 2) == 0 {
		run(hx.Len("servers", 4, 33), 3, 1, o)
	} else {
		run(2, hx.Len("rows", 4, 101), 2, o)
	}
}

// H_special: rows of unusual ciphertexts: null or equal ones, known or repeated components.
func H_special() {
	sym.RandForks(1)
	hx.Special()
	run(1+sym.Choice("servers", 2), 2+sym.Choice("rows", 2), 1+sym.Choice("columns", 2), opts{proofs: sym.Choice("proofs", 2) == 1, pre: sym.Choice("pre", 2)})
}
