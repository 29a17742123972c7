package c33

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	utils "github.com/ldsec/unlynx/protocols/utils"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// start starts a protocol and delivers all messages.
func start(net *onet.Net, pi onet.ProtocolInstance) {
	errs := make(chan error, 1)
	go func() { errs <- pi.Start() }()
	net.Deliver()
	sym.Assert(<-errs == nil, "the protocol could not be started")
}

// H_tagMessage: tagging messages to bytes and back.
func H_tagMessage() {
	n := size()
	m := protocolsunlynx.DeterministicTaggingMessage{Data: vec(n)}
	o := hx.CopyV(m.Data)
	watch()
	b, err := m.ToBytes()
	sym.Assert(err == nil, "the encoding failed")
	d := protocolsunlynx.DeterministicTaggingMessage{}
	sym.Assert(d.FromBytes(b) == nil, "the decoding failed")
	sym.Assert(hx.SameV(d.Data, o), "another message")
	for i := range b {
		b[i] = 0
	}
	spoilV(m.Data)
	spoilV(d.Data)
}

// H_aggregationMessage: aggregation messages to bytes and back.
func H_aggregationMessage() {
	n := few()
	m := protocolsunlynx.ChildAggregatedDataMessage{}
	for i := 0; i < n; i++ {
		m.ChildData = append(m.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey("tag" + string([]byte{byte(65 + i)})), Fr: libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(1), AggregatingAttributes: hx.RandCV(2)}})
	}
	watch()
	b, g, a, t, err := m.ToBytes()
	sym.Assert(err == nil, "the encoding failed")
	d := protocolsunlynx.ChildAggregatedDataMessage{}
	sym.Assert(d.FromBytes(b, g, a, t) == nil, "the decoding failed")
	sym.Assert(len(d.ChildData) == n, "another number of groups")
	for i := range d.ChildData {
		x, y := d.ChildData[i], m.ChildData[i]
		sym.Assert(x.DetTagGroupBy == y.DetTagGroupBy && hx.SameV(x.Fr.GroupByEnc, y.Fr.GroupByEnc) && hx.SameV(x.Fr.AggregatingAttributes, y.Fr.AggregatingAttributes), "another group")
		spoilV(x.Fr.GroupByEnc)
		spoilV(x.Fr.AggregatingAttributes)
		spoilV(y.Fr.GroupByEnc)
		spoilV(y.Fr.AggregatingAttributes)
		m.ChildData[i] = libunlynx.FilteredResponseDet{}
		d.ChildData[i] = libunlynx.FilteredResponseDet{}
	}
	for i := range b {
		b[i] = 0
	}
}

// H_tagging: the tagging protocol on two servers.
func H_tagging() {
	n := size()
	net, _ := px.Net(2)
	vs := make([]int64, n)
	vs[0], vs[n-1] = 7, 7
	for i := 1; i < n-1; i++ {
		vs[i] = 1
	}
	cv := hx.EncVec(net.Roster.Aggregate, vs)
	net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewDeterministicTaggingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
		secret := hx.Rand()
		p.SurveySecretKey = &secret
		if tni.IsRoot() {
			p.TargetOfSwitch = &cv
		}
		return p, nil
	}
	sym.RaceDetect(true)
	pi, err := net.Create(protocolsunlynx.DeterministicTaggingProtocolName, net.Roster.GenerateNaryTree(1))
	sym.Assert(err == nil, "the protocol could not be created")
	p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
	sym.SchedForks(2)
	start(net, pi)
	out := <-p.FeedbackChannel
	sym.Assert(len(out) == n, "another number of tags")
	sym.Assert(out[0].Point.Equal(out[n-1].Point) && out[1].Point.Equal(out[n-2].Point) && !out[0].Point.Equal(out[1].Point), "wrong tags")
	spoilV(cv)
	for i := range out {
		out[i].Point.Null()
	}
}

// H_keyswitching: the key switching protocol on two servers.
func H_keyswitching() {
	n := few()
	net, _ := px.Net(2)
	y, Y := hx.Key()
	vs := ints(n)
	cv := hx.EncVec(net.Roster.Aggregate, vs)
	proofs := sym.Choice("proofs", 2) == 1
	net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewKeySwitchingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.KeySwitchingProtocol)
		p.Proofs = proofs
		p.ProofFunc = func(pub, target kyber.Point, priv kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
			l, err := libunlynxkeyswitch.KeySwitchListProofCreation(pub, target, priv, ks2s, rBNegs, vis)
			sym.Assert(err == nil, "a server cannot prove its contribution")
			return &l
		}
		if tni.IsRoot() {
			p.TargetOfSwitch = &cv
			p.TargetPublicKey = &Y
		}
		return p, nil
	}
	sym.RaceDetect(true)
	pi, err := net.Create(protocolsunlynx.KeySwitchingProtocolName, net.Roster.GenerateNaryTree(1))
	sym.Assert(err == nil, "the protocol could not be created")
	p := pi.(*protocolsunlynx.KeySwitchingProtocol)
	sym.SchedForks(2)
	start(net, pi)
	out := <-p.FeedbackChannel
	sym.Assert(len(out) == n, "another number of ciphertexts")
	for i := range out {
		sym.Assert(hx.Decrypts(y, out[i], vs[i]), "a wrong value")
	}
	spoilV(out)
	spoilV(cv)
	spoil(Y)
}

// H_shuffling: the shuffling protocol on two servers.
func H_shuffling() {
	net, privs := px.Net(2)
	x := libunlynx.SuiTe.Scalar().Add(privs[0], privs[1])
	in := []libunlynx.CipherVector{hx.EncVec(net.Roster.Aggregate, []int64{1, 2}), hx.EncVec(net.Roster.Aggregate, []int64{3, 4})}
	proofs := sym.Choice("proofs", 2) == 1
	net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewShufflingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.ShufflingProtocol)
		p.Proofs = proofs
		p.ProofFunc = func(shuffleTarget, shuffledData []libunlynx.CipherVector, collectiveKey kyber.Point, beta [][]kyber.Scalar, pi []int) *libunlynxshuffle.PublishedShufflingProof {
			proof, err := libunlynxshuffle.ShuffleProofCreation(shuffleTarget, shuffledData, libunlynx.SuiTe.Point().Base(), collectiveKey, beta, pi)
			sym.Assert(err == nil, "a server cannot prove its shuffle")
			return &proof
		}
		if tni.IsRoot() {
			p.ShuffleTarget = &in
		}
		return p, nil
	}
	sym.RandForks(1)
	sym.RaceDetect(true)
	pi, err := net.Create(protocolsunlynx.ShufflingProtocolName, net.Roster.GenerateNaryTree(1))
	sym.Assert(err == nil, "the protocol could not be created")
	p := pi.(*protocolsunlynx.ShufflingProtocol)
	sym.SchedForks(3)
	start(net, pi)
	out := <-p.FeedbackChannel
	sym.Assert(len(out) == 2, "another number of rows")
	first := 0
	if hx.Decrypts(x, out[1][0], 1) {
		first = 1
	}
	for j := range out[0] {
		sym.Assert(hx.Decrypts(x, out[first][j], int64(1+j)) && hx.Decrypts(x, out[1-first][j], int64(3+j)), "a wrong value")
	}
	for i := range out {
		spoilV(out[i])
		spoilV(in[i])
	}
}

// H_shufflingPlus: the combined protocol, on two rows or on more than a batch.
func H_shufflingPlus() {
	n := 2 + 99*sym.Choice("many", 2)
	net, _ := px.Net(1 + n%2)
	var in []libunlynx.CipherVector
	for i := 0; i < n; i++ {
		in = append(in, hx.EncVec(net.Roster.Aggregate, []int64{5, 6}))
	}
	if n > 2 {
		in = in[:n]
		for i := range in {
			in[i] = in[i][:1]
		}
	}
	net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewShufflingPlusDDTProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
		secret := hx.Rand()
		p.SurveySecretKey = &secret
		if tni.IsRoot() {
			p.TargetData = &in
		}
		return p, nil
	}
	sym.RandForks(0)
	sym.RaceDetect(true)
	pi, err := net.Create(protocolsunlynx.ShufflingPlusDDTProtocolName, net.Roster.GenerateNaryTree(1))
	sym.Assert(err == nil, "the protocol could not be created")
	p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
	if n == 2 {
		sym.SchedForks(3)
	}
	start(net, pi)
	out := <-p.FeedbackChannel
	sym.Assert(len(out) == n, "another number of rows")
	for i := range out {
		sym.Assert(len(out[i]) == len(in[0]), "another length")
		for j := range out[i] {
			sym.Assert(out[i][j].Point.Equal(out[0][j].Point) && (j == 0 || !out[i][j].Point.Equal(out[i][0].Point)), "wrong tags")
		}
	}
	for i := range out {
		for j := range out[i] {
			out[i][j].Point.Null()
		}
		spoilV(in[i])
	}
}

// H_addrmProtocol: the protocol that adds or removes a server.
func H_addrmProtocol() {
	n := size()
	pi := px.Node(utils.AddRmServerProtocolName)
	p := pi.(*utils.AddRmServerProtocol)
	k, _ := hx.Key()
	p.KeyToRm = k
	p.Add = sym.Choice("add", 2) == 1
	p.Proofs = sym.Choice("proofs", 2) == 1
	p.TargetOfTransformation = vec(n)
	o := hx.CopyV(p.TargetOfTransformation)
	watch()
	errs := make(chan error, 1)
	go func() { errs <- pi.Start() }()
	out := <-p.FeedbackChannel
	sym.Assert(<-errs == nil, "the protocol could not be started")
	sym.Assert(len(out) == n, "another number of ciphertexts")
	for i := range out {
		d := libunlynx.SuiTe.Point().Mul(k, o[i].K)
		if !p.Add {
			d.Neg(d)
		}
		sym.Assert(out[i].K.Equal(o[i].K) && out[i].C.Equal(d.Add(d, o[i].C)), "a wrong result")
	}
}
