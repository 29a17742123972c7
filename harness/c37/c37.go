// Package c37: what the messages reveal.
package c37

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// weird constants stand for the secrets the observer knows
func colluder(i int) kyber.Scalar { return hx.Sc(1000003 + 7919*int64(i)) }

// view is what an observer knows.
type view struct {
	net     *onet.Net
	known   []kyber.Point
	scalars []kyber.Point // the scalars it knows, times the base point
	secret  kyber.Scalar  // the private key of the honest server
	hidden  []kyber.Point // its secrets, times the base point
}

// network makes n servers of which all but one collude with the observer.
func network(n int) (*view, int) {
	h := sym.Choice("honest", n)
	v := &view{}
	net, privs := px.NetKeys(n, func(i int) kyber.Scalar {
		if i == h {
			return hx.Rand()
		}
		return colluder(i)
	})
	net.Watch = true
	v.net = net
	v.secret = privs[h]
	v.hidden = append(v.hidden, hx.Pt(1))
	v.hidden[0] = libunlynx.SuiTe.Point().Mul(privs[h], nil)
	v.known = append(v.known, hx.Pt(1))
	v.scalars = append(v.scalars, hx.Pt(1))
	for _, si := range net.Roster.List {
		v.known = append(v.known, si.Public)
	}
	return v, h
}

func (v *view) cts(cv libunlynx.CipherVector) {
	for _, c := range cv {
		v.known = append(v.known, c.K, c.C)
	}
}

// message adds the contents of a message.
func (v *view) message(m interface{}) {
	ps, ss := sym.Observe(m)
	for _, b := range ps {
		p := libunlynx.SuiTe.Point()
		sym.Assert(p.UnmarshalBinary(b) == nil, "an element that cannot be decoded")
		v.known = append(v.known, p)
	}
	for _, b := range ss {
		s := libunlynx.SuiTe.Scalar()
		sym.Assert(s.UnmarshalBinary(b) == nil, "a scalar that cannot be decoded")
		v.scalars = append(v.scalars, libunlynx.SuiTe.Point().Mul(s, nil))
		v.known = append(v.known, libunlynx.SuiTe.Point().Mul(s, nil))
		for _, si := range v.net.Roster.List {
			v.known = append(v.known, libunlynx.SuiTe.Point().Mul(s, si.Public))
		}
	}
}

// messages adds everything that was sent.
func (v *view) messages(clients bool) {
	n := len(v.net.Roster.List)
	lo := 0
	if clients {
		lo = -1
	}
	any := 0
	for i := lo; i < n; i++ {
		for j := lo; j < n; j++ {
			for _, m := range v.net.Seen(i, j) {
				v.message(m)
				any++
			}
		}
	}
	sym.Assert(any > 0 || n == 1, "no message was observed")
}

// check asserts that the data and the honest server's secrets stay hidden.
func (v *view) check(data []kyber.Point) {
	sym.Assert(!sym.Relation(v.known, data), "the messages determine a combination of the data")
	sym.Assert(!sym.Relation(v.scalars, v.hidden), "the messages determine a secret of a server")
}

func pts(vs []int64) []kyber.Point {
	var out []kyber.Point
	for _, v := range vs {
		out = append(out, hx.Pt(v))
	}
	return out
}

func values(n int) []int64 {
	vs := make([]int64, n)
	for i := range vs {
		vs[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	return vs
}

func start(net *onet.Net, name string, tree *onet.Tree) onet.ProtocolInstance {
	pi, err := net.Create(name, tree)
	sym.Assert(err == nil, "the protocol could not be created")
	serr := px.Start(pi)
	net.Deliver()
	sym.Assert(*serr == nil, "the protocol could not be started")
	return pi
}

func maxServers() int {
	if sym.Tier() > 0 {
		return 4
	}
	return 3
}

// H_keyswitch: key switching, for a querier who does not collude with the
// observer: neither the data nor the honest server's key is revealed.
func H_keyswitch() {
	n := 1 + sym.Choice("servers", maxServers())
	v, _ := network(n)
	tree := px.Trees(v.net, n)
	vals := values(2)
	cv := hx.EncVec(v.net.Roster.Aggregate, vals)
	_, Y := hx.Key()
	v.known = append(v.known, Y)
	v.net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewKeySwitchingProtocol(tni)
		if err == nil && tni.IsRoot() {
			p := pi.(*protocolsunlynx.KeySwitchingProtocol)
			p.TargetOfSwitch = &cv
			p.TargetPublicKey = &Y
		}
		return pi, err
	}
	p := start(v.net, protocolsunlynx.KeySwitchingProtocolName, tree).(*protocolsunlynx.KeySwitchingProtocol)
	v.cts(cv)
	select {
	case out := <-p.FeedbackChannel:
		v.cts(out)
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	v.messages(false)
	v.check(pts(vals))
	sym.Reach("hidden")
}

// H_querier: a querier who colludes with all servers but one learns the values
// switched to its key, and nothing about other data under the collective key.
func H_querier() {
	n := 1 + sym.Choice("servers", maxServers())
	v, _ := network(n)
	tree := px.Trees(v.net, n)
	vals := values(2)
	others := values(2)
	cv := hx.EncVec(v.net.Roster.Aggregate, vals)
	v.cts(hx.EncVec(v.net.Roster.Aggregate, others))
	Y := libunlynx.SuiTe.Point().Mul(colluder(50), nil)
	v.net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewKeySwitchingProtocol(tni)
		if err == nil && tni.IsRoot() {
			p := pi.(*protocolsunlynx.KeySwitchingProtocol)
			p.TargetOfSwitch = &cv
			p.TargetPublicKey = &Y
		}
		return pi, err
	}
	p := start(v.net, protocolsunlynx.KeySwitchingProtocolName, tree).(*protocolsunlynx.KeySwitchingProtocol)
	v.cts(cv)
	select {
	case out := <-p.FeedbackChannel:
		v.cts(out)
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	v.messages(false)
	v.check(pts(others))
	sym.Reach("hidden")
}

// H_tagging: deterministic tagging.
func H_tagging() {
	n := 1 + sym.Choice("servers", maxServers())
	v, h := network(n)
	tree := px.Trees(v.net, n)
	vals := values(2)
	cv := hx.EncVec(v.net.Roster.Aggregate, vals)
	s := hx.Rand()
	v.hidden = append(v.hidden, libunlynx.SuiTe.Point().Mul(s, nil))
	honest := v.net.Roster.List[h].Address.String()
	v.net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewDeterministicTaggingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
		secret := colluder(20 + tni.Index())
		if tni.Name() == honest {
			secret = s
		}
		p.SurveySecretKey = &secret
		if tni.IsRoot() {
			p.TargetOfSwitch = &cv
		}
		return p, nil
	}
	orig := hx.CopyV(cv)
	p := start(v.net, protocolsunlynx.DeterministicTaggingProtocolName, tree).(*protocolsunlynx.DeterministicTaggingProtocol)
	v.cts(orig)
	select {
	case out := <-p.FeedbackChannel:
		for _, t := range out {
			v.known = append(v.known, t.Point)
		}
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	v.messages(false)
	v.check(pts(vals))
	sym.Reach("hidden")
}

// H_aggregation: collective aggregation of encrypted responses.
func H_aggregation() {
	n := 1 + sym.Choice("servers", maxServers())
	v, _ := network(n)
	tree := px.Trees(v.net, n)
	K := v.net.Roster.Aggregate
	var all []int64
	data := map[string]*map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	plain := sym.Choice("plain", 2) == 1
	simple := map[string]*[]libunlynx.CipherText{}
	for _, si := range v.net.Roster.List {
		m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		if plain {
			vs := values(2)
			all = append(all, vs...)
			l := []libunlynx.CipherText(hx.EncVec(K, vs))
			v.cts(l)
			simple[si.Address.String()] = &l
		} else {
			for g := 0; g < 2; g++ {
				vs := values(2)
				all = append(all, vs...)
				r := libunlynx.FilteredResponse{GroupByEnc: hx.EncVec(K, vs[:1]), AggregatingAttributes: hx.EncVec(K, vs[1:])}
				v.cts(r.GroupByEnc)
				v.cts(r.AggregatingAttributes)
				m[libunlynx.GroupingKey("g"+string([]byte{byte('0' + g)}))] = r
			}
		}
		data[si.Address.String()] = &m
	}
	v.net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewCollectiveAggregationProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
		if plain {
			p.SimpleData = simple[tni.Name()]
		} else {
			p.GroupedData = data[tni.Name()]
		}
		return p, nil
	}
	p := start(v.net, protocolsunlynx.CollectiveAggregationProtocolName, tree).(*protocolsunlynx.CollectiveAggregationProtocol)
	select {
	case out := <-p.FeedbackChannel:
		v.message(out)
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	v.messages(false)
	v.check(pts(all))
	sym.Reach("hidden")
}

// step is what a server received and what it sent on.
func (v *view) step(in, out [][]kyber.Point) {
	sym.Assert(len(in) > 0 && len(out) == len(in), "a step with another number of rows")
	for _, r := range in {
		v.known = append(v.known, r...)
	}
	// in any order of the rows: the replay has its own permutation
	perms := [][]int{{0}}
	if len(out) == 2 {
		perms = [][]int{{0, 1}, {1, 0}}
	}
	if len(out) == 3 {
		perms = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	for _, p := range perms {
		var s []kyber.Point
		for _, i := range p {
			s = append(s, out[i]...)
		}
		sym.Assert(!sym.Relation(v.known, s), "the output of a server's shuffle can be linked to its input")
	}
}

// rows splits the elements of a message of ciphertexts.
func rows(m interface{}, n int) [][]kyber.Point {
	ps, _ := sym.Observe(m)
	var out [][]kyber.Point
	for i, b := range ps {
		if i >= len(ps)/n*n {
			break // the key
		}
		if i%(len(ps)/n) == 0 {
			out = append(out, nil)
		}
		p := libunlynx.SuiTe.Point()
		sym.Assert(p.UnmarshalBinary(b) == nil, "an element that cannot be decoded")
		out[len(out)-1] = append(out[len(out)-1], p)
	}
	return out
}

func pointRows(cvs []libunlynx.CipherVector) [][]kyber.Point {
	var out [][]kyber.Point
	for _, cv := range cvs {
		var r []kyber.Point
		for _, c := range cv {
			r = append(r, c.K, c.C)
		}
		out = append(out, r)
	}
	return out
}

// data sent between two servers: the message after that with the lengths.
func sent(net *onet.Net, from, to int) interface{} {
	l := net.Seen(from, to)
	sym.Assert(len(l) == 2, "another number of messages")
	return l[1]
}

// H_shuffling: the shuffle of the honest server cannot be linked, whatever the
// rows contain; the data stay hidden.
func H_shuffling() {
	n := 2 + sym.Choice("servers", maxServers()-1)
	v, h := network(n)
	tree := px.Trees(v.net, n)
	nr, nc := 2+sym.Choice("rows", 2), 1+sym.Choice("columns", 2)
	if nr*nc > 4 {
		sym.Assume(false)
	}
	var all []int64
	in := make([]libunlynx.CipherVector, nr)
	for i := range in {
		vs := values(nc)
		all = append(all, vs...)
		in[i] = hx.EncVec(v.net.Roster.Aggregate, vs)
	}
	if n > 2 {
		sym.RandForks(2)
	}
	v.net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewShufflingProtocol(tni)
		if err == nil && tni.IsRoot() {
			pi.(*protocolsunlynx.ShufflingProtocol).ShuffleTarget = &in
		}
		return pi, err
	}
	p := start(v.net, protocolsunlynx.ShufflingProtocolName, tree).(*protocolsunlynx.ShufflingProtocol)
	var out []libunlynx.CipherVector
	select {
	case out = <-p.FeedbackChannel:
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	list := tree.List()
	at := 0
	for i := range list {
		if list[i].RosterIndex == h {
			at = i
		}
	}
	next := list[(at+1)%n].RosterIndex
	from := pointRows(in)
	if at > 0 {
		from = rows(sent(v.net, list[at-1].RosterIndex, h), nr)
	}
	link := &view{net: v.net, known: append([]kyber.Point{}, v.known...)}
	link.step(from, rows(sent(v.net, h, next), nr))
	for _, cv := range in {
		v.cts(cv)
	}
	for _, cv := range out {
		v.cts(cv)
	}
	v.messages(false)
	v.check(pts(all))
	sym.Reach("unlinkable")
}

// H_precomputed: a shuffle with precomputation hides the data.
func H_precomputed() {
	sym.RandForks(2)
	n := 1 + sym.Choice("servers", 2)
	v, _ := network(n)
	tree := px.Trees(v.net, n)
	var all []int64
	in := make([]libunlynx.CipherVector, 2)
	for i := range in {
		vs := values(2)
		all = append(all, vs...)
		in[i] = hx.EncVec(v.net.Roster.Aggregate, vs)
	}
	v.net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewShufflingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.ShufflingProtocol)
		p.Precomputed = libunlynxshuffle.CreatePrecomputedRandomize(hx.Pt(1), v.net.Roster.Aggregate, libunlynx.SuiTe.RandomStream(), 2, 2)
		if tni.IsRoot() {
			p.ShuffleTarget = &in
		}
		return pi, err
	}
	p := start(v.net, protocolsunlynx.ShufflingProtocolName, tree).(*protocolsunlynx.ShufflingProtocol)
	select {
	case out := <-p.FeedbackChannel:
		for i := range in {
			v.cts(in[i])
			v.cts(out[i])
		}
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	v.messages(false)
	v.check(pts(all))
	sym.Reach("hidden")
}

// H_shuffleTag: the combined protocol, unlinkable at the honest server even if
// its survey secret is known, and hiding the data.
func H_shuffleTag() {
	n := 1 + sym.Choice("servers", maxServers())
	v, h := network(n)
	tree := px.Trees(v.net, n)
	nr, nc := 2, 1+sym.Choice("columns", 2)
	var all []int64
	in := make([]libunlynx.CipherVector, nr)
	orig := make([]libunlynx.CipherVector, nr)
	for i := range in {
		vs := values(nc)
		all = append(all, vs...)
		in[i] = hx.EncVec(v.net.Roster.Aggregate, vs)
		orig[i] = hx.CopyV(in[i])
	}
	if n > 2 {
		sym.RandForks(2)
	}
	leak := sym.Choice("knownSecret", 2) == 1
	honest := v.net.Roster.List[h].Address.String()
	s := hx.Rand()
	if leak {
		s = colluder(30)
	} else {
		v.hidden = append(v.hidden, libunlynx.SuiTe.Point().Mul(s, nil))
	}
	v.net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewShufflingPlusDDTProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
		secret := colluder(20 + tni.Index())
		if tni.Name() == honest {
			secret = s
		}
		p.SurveySecretKey = &secret
		if tni.IsRoot() {
			p.TargetData = &in
		}
		return p, nil
	}
	p := start(v.net, protocolsunlynx.ShufflingPlusDDTProtocolName, tree).(*protocolsunlynx.ShufflingPlusDDTProtocol)
	var out []libunlynx.DeterministCipherVector
	select {
	case out = <-p.FeedbackChannel:
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	list := tree.List()
	at := 0
	for i := range list {
		if list[i].RosterIndex == h {
			at = i
		}
	}
	var tags [][]kyber.Point
	for _, r := range out {
		var t []kyber.Point
		for _, d := range r {
			t = append(t, d.Point)
		}
		tags = append(tags, t)
	}
	link := &view{net: v.net, known: append([]kyber.Point{}, v.known...)}
	from := rows(sent(v.net, list[(at+n-1)%n].RosterIndex, h), nr)
	if at == 0 {
		link.step(from, tags)
	} else {
		link.step(from, rows(sent(v.net, h, list[(at+1)%n].RosterIndex), nr))
	}
	if !leak {
		for i := range tags {
			v.cts(orig[i])
			v.known = append(v.known, tags[i]...)
		}
		v.messages(false)
		v.check(pts(all))
	}
	sym.Reach("unlinkable")
}

// H_precomputedLinks: unlinkability with precomputation when two rows draw the
// same line.
func H_precomputedLinks() { precomputedLinks(true) }

// H_precomputedLines: unlinkability with precomputation when every row draws a
// line of its own.
func H_precomputedLines() { precomputedLinks(false) }

func precomputedLinks(same bool) {
	sym.RandForks(3)
	net, _ := px.NetKeys(2, func(i int) kyber.Scalar { return hx.Rand() })
	v := &view{net: net, known: []kyber.Point{hx.Pt(1), net.Roster.List[0].Public, net.Roster.List[1].Public}}
	K := net.Roster.Aggregate
	pre := libunlynxshuffle.CreatePrecomputedRandomize(hx.Pt(1), K, libunlynx.SuiTe.RandomStream(), 1, 2)
	in := []libunlynx.CipherVector{hx.EncVec(K, values(1)), hx.EncVec(K, values(1))}
	out, _, beta := libunlynxshuffle.ShuffleSequence(in, hx.Pt(1), K, pre)
	if beta[0][0].Equal(beta[1][0]) != same {
		return
	}
	sym.Reach("drawn")
	v.step(pointRows(in), pointRows(out))
}

// H_control: with the keys of all servers the observer does learn the data.
func H_control() {
	net, _ := px.NetKeys(2, colluder)
	net.Watch = true
	v := &view{net: net, known: []kyber.Point{hx.Pt(1)}}
	vals := values(2)
	v.cts(hx.EncVec(net.Roster.Aggregate, vals))
	sym.Assert(sym.Relation(v.known, pts(vals)), "an observer with every key learns nothing")
	K, _ := hx.Key()
	a, b := hx.Enc(net.Roster.Aggregate, K, vals[0]), hx.Enc(net.Roster.Aggregate, K, vals[1])
	v = &view{net: net, known: []kyber.Point{a.K, a.C, b.K, b.C}}
	sym.Assert(sym.Relation(v.known, pts(vals)), "repeated randomness reveals nothing")
}
