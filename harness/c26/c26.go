// Package c26: the collective aggregation protocol.
package c26

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

type group struct {
	key libunlynx.GroupingKey
	id  int64 // its first encrypted grouping attribute
	ids int   // further grouping attributes, id+1 and so on
	sum []int64
	n   int // servers that have it
}

type world struct {
	net    *onet.Net
	tree   *onet.Tree
	x      kyber.Scalar
	groups []*group
	data   map[string]*map[libunlynx.GroupingKey]libunlynx.FilteredResponse
	plain  map[string]*[]libunlynx.CipherText
	proofs bool
	calls  map[string]int
}

func setup(n int) *world {
	net, privs := px.Net(n)
	w := &world{net: net, x: libunlynx.SuiTe.Scalar().Zero(), calls: map[string]int{},
		data: map[string]*map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}, plain: map[string]*[]libunlynx.CipherText{}}
	for _, p := range privs {
		w.x.Add(w.x, p)
	}
	for _, si := range net.Roster.List {
		w.data[si.Address.String()] = &map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	}
	return w
}

// newGroups makes n groups with distinct keys and a aggregating attributes.
func (w *world) newGroups(n, a int) {
	l := 1 + sym.Choice("keylen", 2)
	for i := 0; i < n; i++ {
		k := libunlynx.GroupingKey(sym.Bytes("key", l))
		for _, g := range w.groups {
			sym.Assume(k != g.key)
		}
		w.groups = append(w.groups, &group{key: k, id: sym.Int64("id", -1<<40, 1<<40), sum: make([]int64, a)})
	}
}

// give adds a response of group g to the data of a server.
func (w *world) give(server, g int) {
	gr := w.groups[g]
	K := w.net.Roster.Aggregate
	vs := make([]int64, len(gr.sum))
	for i := range vs {
		vs[i] = sym.Int64("v", -1<<40, 1<<40)
		gr.sum[i] += vs[i]
	}
	gr.n++
	d := *w.data[w.net.Roster.List[server].Address.String()]
	d[gr.key] = libunlynx.FilteredResponse{GroupByEnc: hx.EncVec(K, gr.values()), AggregatingAttributes: hx.EncVec(K, vs)}
}

func (g *group) values() []int64 {
	vs := []int64{g.id}
	for i := 1; i <= g.ids; i++ {
		vs = append(vs, g.id+int64(i))
	}
	return vs
}

func (w *world) run() map[libunlynx.GroupingKey]libunlynx.FilteredResponse {
	w.net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewCollectiveAggregationProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
		if pl, ok := w.plain[tni.Name()]; ok {
			p.SimpleData = pl
		} else {
			p.GroupedData = w.data[tni.Name()]
		}
		p.Proofs = w.proofs
		p.ProofFunc = func(data []libunlynx.CipherVector, res libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
			w.calls[tni.Name()]++
			sym.Assert(len(data) == len(res), "a server proves other results")
			l := libunlynxaggr.AggregationListProofCreation(data, res)
			sym.Assert(libunlynxaggr.AggregationListProofVerification(l, 1.0), "the proof of a server's aggregation is rejected")
			return &l
		}
		return p, nil
	}
	pi, err := w.net.Create(protocolsunlynx.CollectiveAggregationProtocolName, w.tree)
	sym.Assert(err == nil, "the protocol could not be created")
	serr := px.Start(pi)
	w.net.Deliver()
	sym.Assert(*serr == nil, "the protocol could not be started")
	p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
	var out map[libunlynx.GroupingKey]libunlynx.FilteredResponse
	select {
	case o := <-p.FeedbackChannel:
		out = o.GroupedData
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	sym.WaitQuiescent(1)
	inst := w.net.Instances()
	sym.Assert(len(inst) == len(w.net.Roster.List), "a server did not take part")
	for _, t := range inst {
		sym.Assert(t.IsDone(), "a server did not finish")
		if w.proofs {
			sym.Assert(w.calls[t.Name()] == 1, "a server did not prove its aggregation exactly once")
		}
	}
	return out
}

func (w *world) check() {
	out := w.run()
	present := 0
	for _, g := range w.groups {
		r, ok := out[g.key]
		sym.Assert(ok == (g.n > 0), "a group is missing or invented")
		if !ok {
			continue
		}
		present++
		vs := g.values()
		sym.Assert(len(r.GroupByEnc) == len(vs), "a group has another number of grouping attributes")
		for i, v := range vs {
			sym.Assert(hx.Decrypts(w.x, r.GroupByEnc[i], v), "a group has other grouping attributes")
		}
		sym.Assert(len(r.AggregatingAttributes) == len(g.sum), "a group has another number of aggregating attributes")
		for i, s := range g.sum {
			sym.Assert(hx.Decrypts(w.x, r.AggregatingAttributes[i], s), "a group does not have the sum of the servers' contributions")
		}
	}
	sym.Assert(len(out) == present, "a group is invented")
}

// H_distribution: every distribution of two groups over up to three servers.
func H_distribution() {
	n := 1 + sym.Choice("servers", 3)
	w := setup(n)
	w.tree = px.Trees(w.net, n)
	w.newGroups(2, 1+n%2)
	for s := 0; s < n; s++ {
		has := sym.Choice("groups", 4)
		if has&1 != 0 {
			w.give(s, 0)
		}
		if has&2 != 0 {
			w.give(s, 1)
		}
	}
	w.proofs = n < 3 && sym.Choice("proofs", 2) == 1
	w.check()
}

// H_trees: larger trees.
func H_trees() {
	n := 4
	if sym.Tier() > 0 {
		n += sym.Choice("more", 2)
	}
	w := setup(n)
	w.tree = px.Trees(w.net, n)
	w.newGroups(2, 1)
	skip := sym.Choice("empty", n+1)
	both := sym.Choice("both", 2) == 1
	for s := 0; s < n; s++ {
		if s == skip {
			continue
		}
		w.give(s, s%2)
		if both {
			w.give(s, 1-s%2)
		}
	}
	w.proofs = sym.Choice("proofs", 2) == 1
	w.check()
}

// H_roots: other servers than the first as root.
func H_roots() {
	n := 2 + sym.Choice("servers", 2)
	w := setup(n)
	w.tree = w.net.Roster.GenerateNaryTreeWithRoot(1+sym.Choice("arity", n-1), w.net.Roster.List[1+sym.Choice("root", n-1)])
	w.newGroups(2, 2)
	for s := 0; s < n; s++ {
		w.give(s, 0)
		if s > 0 {
			w.give(s, 1)
		}
	}
	w.proofs = sym.Choice("proofs", 2) == 1
	w.check()
}

// plain runs plain lists of the given lengths.
func (w *world) runPlain(lens []int) {
	var sum []int64
	for s, l := range lens {
		vs := make([]int64, l)
		for i := range vs {
			vs[i] = sym.Int64("v", -1<<40, 1<<40)
			if i == len(sum) {
				sum = append(sum, 0)
			}
			sum[i] += vs[i]
		}
		cv := []libunlynx.CipherText(hx.EncVec(w.net.Roster.Aggregate, vs))
		w.plain[w.net.Roster.List[s].Address.String()] = &cv
	}
	out := w.run()
	if len(sum) == 0 {
		sym.Assert(len(out) == 0, "a sum is invented")
		return
	}
	r, err := protocolsunlynx.RetrieveSimpleDataFromMap(out)
	sym.Assert(err == nil, "the sums cannot be retrieved")
	sym.Assert(len(r) == len(sum), "another number of sums")
	for i := range sum {
		sym.Assert(hx.Decrypts(w.x, r[i], sum[i]), "a sum is not that of the servers' contributions")
	}
}

// H_plain: plain lists of equal or different lengths.
func H_plain() {
	n := 1 + sym.Choice("servers", 3)
	w := setup(n)
	w.tree = px.Trees(w.net, n)
	lens := make([]int, n)
	for s := range lens {
		lens[s] = sym.Choice("length", []int{4, 4, 3}[n-1])
	}
	w.proofs = n < 3 && sym.Choice("proofs", 2) == 1
	w.runPlain(lens)
}

// H_long: lists longer than a parallel batch.
func H_long() {
	l := hx.Len("length", 4, 257)
	n := 1 + sym.Choice("servers", 2)
	w := setup(n)
	w.tree = px.Trees(w.net, n)
	m := []int{l, 3, 101}[sym.Choice("other", 3)]
	w.runPlain([]int{l, m}[:n])
}

// H_many: many servers.
func H_many() {
	n := hx.Len("servers", 7, 33)
	w := setup(n)
	w.tree = px.Trees(w.net, n)
	if sym.Choice("plain", 2) == 1 {
		lens := make([]int, n)
		for i := range lens {
			lens[i] = 1 + i%3
		}
		w.runPlain(lens)
		return
	}
	w.newGroups(2, 1)
	for s := 0; s < n; s++ {
		w.give(s, s%2)
		if s == n-1 {
			w.give(s, 1-s%2)
		}
	}
	w.proofs = sym.Choice("proofs", 2) == 1
	w.check()
}

// H_wide: many groups, attributes or long grouping keys.
func H_wide() {
	w := setup(2)
	w.tree = px.Trees(w.net, 2)
	kind := sym.Choice("kind", 4)
	k := hx.Len("k", 3, 257)
	sym.Assume(kind != 0 || k < 130)
	groups, attrs, long, ids := 3, 1, 2, 0
	switch kind {
	case 0:
		groups = k
	case 1:
		attrs = k
	case 2:
		long = k
	case 3:
		ids = k - 1
	}
	b := make([]byte, long)
	for i := range b {
		b[i] = 'k'
	}
	at := long - 1
	if kind == 2 {
		at = hx.Pos("at", long)
	}
	for i := 0; i < groups; i++ {
		b[at] = byte(i)
		w.groups = append(w.groups, &group{key: libunlynx.GroupingKey(b), id: int64(3 * i), ids: ids, sum: make([]int64, attrs)})
	}
	for i := range w.groups {
		if i != 1 {
			w.give(0, i)
		}
		if i != 2 {
			w.give(1, i)
		}
	}
	w.check()
}

// H_special: ciphertexts with unusual randomness, and groups without aggregating attributes.
func H_special() {
	n := 1 + sym.Choice("servers", 3)
	w := setup(n)
	w.tree = px.Trees(w.net, n)
	hx.Special()
	w.newGroups(2, sym.Choice("attributes", 3))
	for s := 0; s < n; s++ {
		w.give(s, 0)
		if s != 1 {
			w.give(s, 1)
		}
	}
	w.proofs = n < 3 && sym.Choice("proofs", 2) == 1
	w.check()
}

// H_noAttributes: groups without aggregating attributes.
func H_noAttributes() {
	n := 1 + sym.Choice("servers", 3)
	w := setup(n)
	w.tree = px.Trees(w.net, n)
	w.newGroups(2, 0)
	for s := 0; s < n; s++ {
		has := sym.Choice("groups", 4)
		if has&1 != 0 {
			w.give(s, 0)
		}
		if has&2 != 0 {
			w.give(s, 1)
		}
	}
	w.proofs = n < 3 && sym.Choice("proofs", 2) == 1
	w.check()
}
