// Package tx runs the protocols on networks with faults.
package tx

import (
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

const Timeout = 300 * time.Millisecond

// Trial is a run of a protocol and what to do with its result.
type Trial struct {
	net  *onet.Net
	tree *onet.Tree
	name string
	make func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error)
	// whether there is a result; checks it, or only its shape
	result func(pi onet.ProtocolInstance, exact bool) bool
	// is told what Start returned
	started func(err error)
}

// Run runs a protocol with faults: the protocol ends everywhere, and what
// comes out, if anything, is right. It tells whether there is a result.
func (t Trial) Run(fault func(m onet.Sending) int, hit func() bool) bool {
	return t.run(fault, hit, true)
}

// Shape is like Run, except that a result needs only have the right shape.
func (t Trial) Shape(fault func(m onet.Sending) int, hit func() bool) bool {
	return t.run(fault, hit, false)
}

// Without runs a protocol of which some instances were changed (their inputs
// taken away): the protocol ends everywhere. It tells whether there is a
// result, and what Start returned.
func (t Trial) Without(change func(root bool, name string, pi onet.ProtocolInstance)) (bool, error) {
	make := t.make
	t.make = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := make(tni)
		if err == nil {
			change(tni.IsRoot(), tni.Name(), pi)
		}
		return pi, err
	}
	var serr error
	t.started = func(err error) { serr = err }
	got := t.run(nil, func() bool { return true }, false)
	return got, serr
}

func (t Trial) run(fault func(m onet.Sending) int, hit func() bool, exact bool) bool {
	libunlynx.TIMEOUT = Timeout
	t.net.Bounded = true
	t.net.Deviations = 0
	t.net.Fault = fault
	t.net.NewProt = t.make
	pi, err := t.net.Create(t.name, t.tree)
	sym.Assert(err == nil, "the protocol could not be created")
	serr := px.Start(pi)
	t.net.Deliver()
	got := t.result(pi, exact)
	if !hit() {
		sym.Assert(got && *serr == nil, "the protocol delivers no result although nothing failed")
	}
	for i := 0; i < 5; i++ {
		time.Sleep(Timeout + Timeout/3)
		if i == 2 {
			t.net.Fault = nil
			t.net.Release()
		}
		t.net.Deliver()
		got = t.result(pi, exact) || got
	}
	for _, i := range t.net.Instances() {
		sym.Assert(i.IsDone(), "a server waits forever")
	}
	if t.started != nil {
		t.started(*serr)
	}
	return got
}

func value() int64 { return sym.Int64("v", -1<<40, 1<<40) }

func keySwitching(n int, tree *onet.Tree, net *onet.Net) Trial {
	K := net.Roster.Aggregate
	y, Y := hx.Key()
	vals := []int64{value(), value()}
	cv := hx.EncVec(K, vals)
	return Trial{net: net, tree: tree, name: protocolsunlynx.KeySwitchingProtocolName, make: func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewKeySwitchingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.KeySwitchingProtocol)
		p.ProofFunc = func(kyber.Point, kyber.Point, kyber.Scalar, []kyber.Point, []kyber.Point, []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
			return nil
		}
		if tni.IsRoot() {
			p.TargetOfSwitch = &cv
			p.TargetPublicKey = &Y
		}
		return p, nil
	}, result: func(pi onet.ProtocolInstance, exact bool) bool {
		select {
		case out := <-pi.(*protocolsunlynx.KeySwitchingProtocol).FeedbackChannel:
			sym.Assert(len(out) == len(vals), "a wrong result")
			if !exact {
				return true
			}
			for i, v := range vals {
				sym.Assert(hx.Decrypts(y, out[i], v), "a wrong result")
			}
			return true
		default:
			return false
		}
	}}
}

func aggregation(n int, tree *onet.Tree, net *onet.Net, x kyber.Scalar) Trial {
	K := net.Roster.Aggregate
	sum := int64(0)
	data := map[string]*map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for _, si := range net.Roster.List {
		v := value()
		sum += v
		data[si.Address.String()] = &map[libunlynx.GroupingKey]libunlynx.FilteredResponse{"g": {GroupByEnc: hx.EncVec(K, []int64{1}), AggregatingAttributes: hx.EncVec(K, []int64{v})}}
	}
	return Trial{net: net, tree: tree, name: protocolsunlynx.CollectiveAggregationProtocolName, make: func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewCollectiveAggregationProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
		p.GroupedData = data[tni.Name()]
		p.ProofFunc = func([]libunlynx.CipherVector, libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
			return nil
		}
		return p, nil
	}, result: func(pi onet.ProtocolInstance, exact bool) bool {
		select {
		case out := <-pi.(*protocolsunlynx.CollectiveAggregationProtocol).FeedbackChannel:
			if !exact {
				return true
			}
			fr, ok := out.GroupedData["g"]
			sym.Assert(ok && len(out.GroupedData) == 1 && len(fr.AggregatingAttributes) == 1, "a wrong result")
			sym.Assert(hx.Decrypts(x, fr.AggregatingAttributes[0], sum), "a wrong result")
			return true
		default:
			return false
		}
	}}
}

func tagging(n int, tree *onet.Tree, net *onet.Net) Trial {
	K := net.Roster.Aggregate
	vals := []int64{value(), value(), value()}
	cv := hx.EncVec(K, vals)
	secrets := map[string]kyber.Scalar{}
	s := libunlynx.SuiTe.Scalar().Zero()
	prod := libunlynx.SuiTe.Scalar().One()
	for _, si := range net.Roster.List {
		k := hx.Rand()
		secrets[si.Address.String()] = k
		s.Add(s, k)
		prod.Mul(prod, k)
	}
	return Trial{net: net, tree: tree, name: protocolsunlynx.DeterministicTaggingProtocolName, make: func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewDeterministicTaggingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
		secret := secrets[tni.Name()]
		p.SurveySecretKey = &secret
		if tni.IsRoot() {
			p.TargetOfSwitch = &cv
		}
		return p, nil
	}, result: func(pi onet.ProtocolInstance, exact bool) bool {
		select {
		case out := <-pi.(*protocolsunlynx.DeterministicTaggingProtocol).FeedbackChannel:
			sym.Assert(len(out) == len(vals), "a wrong result")
			if !exact {
				return true
			}
			for i, v := range vals {
				// (value + the sum of the secrets) times their product
				e := hx.Pt(v)
				e.Add(e, libunlynx.SuiTe.Point().Mul(s, nil))
				e.Mul(prod, e)
				sym.Assert(out[i].Point.Equal(e), "a wrong result")
			}
			return true
		default:
			return false
		}
	}}
}

// rows checks that the plaintexts are those of the rows in some order.
func rows(got [][]kyber.Point, vals [][]int64, of func(v int64) kyber.Point) {
	sym.Assert(len(got) == len(vals), "a wrong result")
	used := make([]bool, len(vals))
	for _, r := range got {
		hit := -1
		for i, v := range vals {
			if hit < 0 && !used[i] && len(r) == len(v) && r[0].Equal(of(v[0])) && r[1].Equal(of(v[1])) {
				hit = i
			}
		}
		sym.Assert(hit >= 0, "a wrong result")
		used[hit] = true
	}
}

func shuffling(n int, tree *onet.Tree, net *onet.Net, x kyber.Scalar) Trial {
	K := net.Roster.Aggregate
	vals := [][]int64{{value(), value()}, {value(), value()}}
	in := []libunlynx.CipherVector{hx.EncVec(K, vals[0]), hx.EncVec(K, vals[1])}
	return Trial{net: net, tree: tree, name: protocolsunlynx.ShufflingProtocolName, make: func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewShufflingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.ShufflingProtocol)
		if tni.IsRoot() {
			p.ShuffleTarget = &in
		}
		return p, nil
	}, result: func(pi onet.ProtocolInstance, exact bool) bool {
		select {
		case out := <-pi.(*protocolsunlynx.ShufflingProtocol).FeedbackChannel:
			sym.Assert(len(out) == len(vals), "a wrong result")
			for _, r := range out {
				sym.Assert(len(r) == len(vals[0]), "a wrong result")
			}
			if !exact {
				return true
			}
			var got [][]kyber.Point
			for _, r := range out {
				var ps []kyber.Point
				for _, c := range r {
					ps = append(ps, hx.Plain(x, c))
				}
				got = append(got, ps)
			}
			rows(got, vals, hx.Pt)
			return true
		default:
			return false
		}
	}}
}

func shufflingPlusDDT(n int, tree *onet.Tree, net *onet.Net) Trial {
	K := net.Roster.Aggregate
	vals := [][]int64{{value(), value()}, {value(), value()}}
	in := []libunlynx.CipherVector{hx.EncVec(K, vals[0]), hx.EncVec(K, vals[1])}
	secrets := map[string]kyber.Scalar{}
	for _, si := range net.Roster.List {
		secrets[si.Address.String()] = hx.Rand()
	}
	return Trial{net: net, tree: tree, name: protocolsunlynx.ShufflingPlusDDTProtocolName, make: func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewShufflingPlusDDTProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
		secret := secrets[tni.Name()]
		p.SurveySecretKey = &secret
		if tni.IsRoot() {
			p.TargetData = &in
		}
		return p, nil
	}, result: func(pi onet.ProtocolInstance, exact bool) bool {
		select {
		case out := <-pi.(*protocolsunlynx.ShufflingPlusDDTProtocol).FeedbackChannel:
			// in the order of the tree, starting after the root, a server
			// adds its secret to the plaintext and multiplies with it
			of := func(v int64) kyber.Point {
				e := hx.Pt(v)
				list := tree.List()
				for i := range list {
					k := secrets[list[(i+1)%len(list)].ServerIdentity.Address.String()]
					e.Mul(k, e.Add(e, libunlynx.SuiTe.Point().Mul(k, nil)))
				}
				return e
			}
			sym.Assert(len(out) == len(vals), "a wrong result")
			for _, r := range out {
				sym.Assert(len(r) == len(vals[0]), "a wrong result")
			}
			if !exact {
				return true
			}
			var got [][]kyber.Point
			for _, r := range out {
				var ps []kyber.Point
				for _, c := range r {
					ps = append(ps, c.Point)
				}
				got = append(got, ps)
			}
			rows(got, vals, of)
			return true
		default:
			return false
		}
	}}
}

// Protocol makes a trial of one of the protocols.
func Protocol(kind, n int) Trial {
	net, privs := px.Net(n)
	x := libunlynx.SuiTe.Scalar().Zero()
	for _, p := range privs {
		x.Add(x, p)
	}
	tree := px.Trees(net, n)
	switch kind {
	case 0:
		return keySwitching(n, tree, net)
	case 1:
		return aggregation(n, tree, net, x)
	case 2:
		return tagging(n, tree, net)
	case 3:
		return shuffling(n, tree, net, x)
	}
	return shufflingPlusDDT(n, tree, net)
}
