// Package c16: aggregation per group, and its proofs.
package c16

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func pt() kyber.Point { return libunlynx.SuiTe.Point() }

var keys = []libunlynx.GroupingKey{"", "a", "ab"}

type data struct {
	resp  []libunlynx.FilteredResponseDet
	orig  []libunlynx.FilteredResponse
	group []int
	attrs int
}

func copyFR(f libunlynx.FilteredResponse) libunlynx.FilteredResponse {
	return libunlynx.FilteredResponse{GroupByEnc: hx.CopyV(f.GroupByEnc), AggregatingAttributes: hx.CopyV(f.AggregatingAttributes)}
}

// responses with any distribution over the groups, in any order.
func responses(max, attrs int) *data {
	d := &data{attrs: attrs}
	n := sym.Choice("responses", max+1)
	grp := make([]libunlynx.CipherVector, len(keys))
	for i := range grp {
		grp[i] = hx.RandCV(2)
	}
	for i := 0; i < n; i++ {
		g := sym.Choice("group", len(keys))
		f := libunlynx.FilteredResponse{GroupByEnc: grp[g], AggregatingAttributes: hx.RandCV(attrs)}
		d.group = append(d.group, g)
		d.orig = append(d.orig, copyFR(f))
		d.resp = append(d.resp, libunlynx.FilteredResponseDet{DetTagGroupBy: keys[g], Fr: f})
	}
	return d
}

func (d *data) sum(g, a int) libunlynx.CipherText {
	s := libunlynx.CipherText{K: pt().Null(), C: pt().Null()}
	for i := range d.orig {
		if d.group[i] == g {
			s.K.Add(s.K, d.orig[i].AggregatingAttributes[a].K)
			s.C.Add(s.C, d.orig[i].AggregatingAttributes[a].C)
		}
	}
	return s
}

func (d *data) count(g int) int {
	n := 0
	for _, x := range d.group {
		if x == g {
			n++
		}
	}
	return n
}

func (d *data) check(m map[libunlynx.GroupingKey]libunlynx.FilteredResponse) {
	present := 0
	for g, k := range keys {
		f, ok := m[k]
		sym.Assert(ok == (d.count(g) > 0), "a group is missing or made up")
		if !ok {
			continue
		}
		present++
		sym.Assert(len(f.AggregatingAttributes) == d.attrs, "another number of attributes")
		for a := range f.AggregatingAttributes {
			sym.Assert(hx.Same(f.AggregatingAttributes[a], d.sum(g, a)), "an aggregate is not the sum of its group")
		}
		for i := range d.group {
			if d.group[i] == g {
				sym.Assert(hx.SameV(f.GroupByEnc, d.orig[i].GroupByEnc), "the grouping attributes are those of another group")
			}
		}
	}
	sym.Assert(len(m) == present, "a group is made up")
	d.unchanged("aggregation changed a response")
}

func (d *data) unchanged(msg string) {
	for i := range d.orig {
		sym.Assert(d.resp[i].DetTagGroupBy == keys[d.group[i]] && hx.SameV(d.resp[i].Fr.AggregatingAttributes, d.orig[i].AggregatingAttributes) && hx.SameV(d.resp[i].Fr.GroupByEnc, d.orig[i].GroupByEnc), msg)
	}
}

func sizes() (int, int) {
	n := 4
	if sym.Tier() > 0 {
		n = 6
	}
	return n, sym.Choice("attrs", 4)
}

// H_addinmap: aggregation response by response.
func H_addinmap() {
	n, a := sizes()
	d := responses(n, a)
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for _, r := range d.resp {
		libunlynx.AddInMap(m, r.DetTagGroupBy, r.Fr)
	}
	d.check(m)
}

// H_wide: more attributes than one batch of the parallel loops.
func H_wide() {
	d := responses(2, hx.Len("attrs", 4, 257))
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for _, r := range d.resp {
		libunlynx.AddInMap(m, r.DetTagGroupBy, r.Fr)
	}
	d.check(m)
}

// H_many: many responses in many groups, through the map, the protocol's
// workings and the lists for the proofs.
func H_many() {
	n := hx.Len("responses", 1, 201)
	groups := hx.Len("groups", 1, 33)
	sym.Assume(groups <= n && (n < 10 || groups > 8 || groups == 1))
	k := make([]libunlynx.GroupingKey, groups)
	sum := make([]libunlynx.CipherText, groups)
	cnt := make([]int, groups)
	for i := range k {
		k[i] = libunlynx.GroupingKey(string(rune('a'+i/8)) + string(rune('a'+i%8)))
		sum[i] = libunlynx.CipherText{K: pt().Null(), C: pt().Null()}
	}
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	cv := map[libunlynx.GroupingKey][]libunlynx.CipherVector{}
	for i := 0; i < n; i++ {
		g := (i * 7) % groups
		v := hx.RandCV(1)
		sum[g].K.Add(sum[g].K, v[0].K)
		sum[g].C.Add(sum[g].C, v[0].C)
		r := libunlynx.FilteredResponseDet{DetTagGroupBy: k[g], Fr: libunlynx.FilteredResponse{AggregatingAttributes: v}}
		r.FormatAggregationProofs(cv)
		libunlynx.AddInMap(m, r.DetTagGroupBy, r.Fr)
		cnt[g]++
		if l := cv[k[g]]; len(l) != 1 || len(l[0]) != cnt[g] || !hx.Same(l[0][cnt[g]-1], v[0]) {
			sym.Assert(false, "a listed contribution is another one")
		}
	}
	for g := range k {
		f, ok := m[k[g]]
		sym.Assert(ok == (cnt[g] > 0), "a group is missing or made up")
		if ok {
			sym.Assert(len(f.AggregatingAttributes) == 1 && hx.Same(f.AggregatingAttributes[0], sum[g]), "an aggregate is not the sum of its group")
		}
	}
	sym.Assert(len(m) <= groups, "a group is made up")
}

// H_merge: aggregates of two parts merge to the aggregate of the whole.
func H_merge() {
	d := responses(3, 1+sym.Choice("attrs", 2))
	cut := sym.Choice("cut", len(d.resp)+1)
	m1, m2 := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}, map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for i, r := range d.resp {
		if i < cut {
			libunlynx.AddInMap(m1, r.DetTagGroupBy, r.Fr)
		} else {
			libunlynx.AddInMap(m2, r.DetTagGroupBy, r.Fr)
		}
	}
	for k, v := range m2 {
		libunlynx.AddInMap(m1, k, v)
	}
	d.check(m1)
}

// H_protocol: the local aggregation protocol.
func H_protocol() {
	d := responses(3, sym.Choice("attrs", 3))
	p := px.Node(protocolsunlynxutils.LocalAggregationProtocolName).(*protocolsunlynxutils.LocalAggregationProtocol)
	p.TargetOfAggregation = d.resp
	p.Proofs = sym.Choice("proofs", 2) == 1
	var err error
	go func() { err = p.Start() }()
	sym.WaitQuiescent(1)
	select {
	case m := <-p.FeedbackChannel:
		d.check(m)
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	sym.Assert(err == nil, "the protocol failed")
}

// H_format: the data listed for the proofs of each group, and the proofs made from it.
func H_format() {
	n, a := sizes()
	if sym.Tier() == 0 {
		n = 3
	}
	d := responses(n, a)
	cv := map[libunlynx.GroupingKey][]libunlynx.CipherVector{}
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for _, r := range d.resp {
		r.FormatAggregationProofs(cv)
		libunlynx.AddInMap(m, r.DetTagGroupBy, r.Fr)
	}
	d.unchanged("listing the data for the proofs changed a response")
	for g, k := range keys {
		l, ok := cv[k]
		if d.count(g) == 0 {
			sym.Assert(!ok, "a group is made up")
			continue
		}
		sym.Assert(len(l) == a, "another number of attributes")
		for i := range l {
			sym.Assert(len(l[i]) == d.count(g), "another number of contributions")
			p := 0
			for j := range d.group {
				if d.group[j] == g {
					sym.Assert(hx.Same(l[i][p], d.orig[j].AggregatingAttributes[i]), "a listed contribution is another one")
					p++
				}
			}
		}
		pl := libunlynxaggr.AggregationListProofCreation(l, m[k].AggregatingAttributes)
		sym.Assert(len(pl.List) == a, "another number of proofs")
		sym.Assert(libunlynxaggr.AggregationListProofVerification(pl, 1.0), "an honest list is rejected")
		for i := range pl.List {
			sym.Assert(hx.SameV(pl.List[i].Data, l[i]) && hx.Same(pl.List[i].AggregationResult, m[k].AggregatingAttributes[i]), "a proof is about other data")
			bad := libunlynxaggr.AggregationProofCreation(pl.List[i].Data, libunlynx.CipherText{K: m[k].AggregatingAttributes[i].K, C: pt().Add(m[k].AggregatingAttributes[i].C, hx.Pt(1))})
			sym.Assert(!libunlynxaggr.AggregationProofVerification(bad), "a false sum is accepted")
		}
	}
}

// H_proof: a proof is accepted exactly when the published result is the sum of the published data.
func H_proof() {
	n := hx.Len("n", 0, 201)
	vals := make([]int64, n)
	var total int64
	_, K := hx.Key()
	r := libunlynx.SuiTe.Scalar().Zero()
	cv := make(libunlynx.CipherVector, n)
	for i := range vals {
		vals[i] = sym.Int64("v", -1<<40, 1<<40)
		ri := hx.Rand()
		r.Add(r, ri)
		cv[i] = hx.Enc(K, ri, vals[i])
		total += vals[i]
	}
	orig := hx.CopyV(cv)
	claim := sym.Int64("claim", -1<<50, 1<<50)
	p := libunlynxaggr.AggregationProofCreation(cv, hx.Enc(K, r, claim))
	sym.Assert(hx.SameV(p.Data, orig) && hx.Same(p.AggregationResult, hx.Enc(K, r, claim)), "the proof is about other data")
	sym.Assert(libunlynxaggr.AggregationProofVerification(p) == (claim == total), "accepted although the result is not the sum, or the reverse")
	sym.Assert(hx.SameV(p.Data, orig) && hx.SameV(cv, orig), "verification changed the data")
	sum := hx.Enc(K, r, total)
	switch sym.Choice("component", 4) {
	case 0:
		sum.K = hx.RandPt()
	case 1:
		sum.C = hx.RandPt()
	case 2:
		sum.K, sum.C = sum.C, sum.K
		sym.Assume(n > 0)
	case 3:
		sum.K = pt().Add(sum.K, hx.Pt(1))
	}
	p = libunlynxaggr.AggregationProofCreation(cv, sum)
	sym.Assert(!libunlynxaggr.AggregationProofVerification(p), "a result with one other component is accepted")
	p = libunlynxaggr.AggregationProofCreation(cv, hx.Enc(K, hx.Rand(), total))
	sym.Assert(!libunlynxaggr.AggregationProofVerification(p), "a result with another left component is accepted")
}

// H_exchanged: one published point replaced by another one or by a special point.
func H_exchanged() {
	n := 1 + sym.Choice("n", 3)
	cv := hx.RandCV(n)
	res := libunlynx.CipherText{K: pt().Null(), C: pt().Null()}
	var ps []*kyber.Point
	for i := range cv {
		res.Add(res, cv[i])
	}
	p := libunlynxaggr.AggregationProofCreation(hx.CopyV(cv), hx.Copy(res))
	sym.Assert(libunlynxaggr.AggregationProofVerification(p), "an honest proof is rejected")
	for i := range p.Data {
		ps = append(ps, &p.Data[i].K, &p.Data[i].C)
	}
	hx.Exchange(append(ps, &p.AggregationResult.K, &p.AggregationResult.C)...)
	sym.Assert(!libunlynxaggr.AggregationProofVerification(p), "accepted although the result is not the sum")
}

// H_list: lists of proofs of any length with one wrong at any position.
func H_list() {
	n := hx.Len("n", 0, 257)
	data := make([]libunlynx.CipherVector, n)
	res := make([]libunlynx.CipherText, n)
	for i := range data {
		data[i] = hx.RandCV(1 + i%3)
		res[i] = libunlynx.CipherText{K: pt().Null(), C: pt().Null()}
		for _, c := range data[i] {
			res[i].K.Add(res[i].K, c.K)
			res[i].C.Add(res[i].C, c.C)
		}
	}
	l := libunlynxaggr.AggregationListProofCreation(data, res)
	sym.Assert(len(l.List) == n, "another number of proofs")
	for i := range l.List {
		sym.Assert(hx.SameV(l.List[i].Data, data[i]) && hx.Same(l.List[i].AggregationResult, res[i]), "a proof is about other data")
	}
	sym.Assert(libunlynxaggr.AggregationListProofVerification(l, 1.0), "an honest list is rejected")
	if n == 0 {
		return
	}
	pos := hx.Pos("pos", n)
	switch sym.Choice("how", 6) {
	case 4:
		l.List[pos].AggregationResult.K = hx.RandPt()
	case 5:
		l.List[pos].AggregationResult.C = hx.RandPt()
	case 0:
		l.List[pos].AggregationResult = hx.RandCT()
	case 1:
		l.List[pos].Data = append(hx.CopyV(l.List[pos].Data), hx.EncR(hx.RandPt(), 0))
	case 2:
		l.List[pos].Data = l.List[pos].Data[1:]
	case 3:
		sym.Assume(n > 1)
		l.List[pos].AggregationResult = l.List[(pos+1)%n].AggregationResult
	}
	sym.Assert(!libunlynxaggr.AggregationListProofVerification(l, 1.0), "a list with a false sum is accepted")
}

// H_special: responses with unusual ciphertexts: null or equal ones, known or repeated components.
func H_special() {
	hx.Special()
	d := responses(3, 1+sym.Choice("attrs", 2))
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for _, r := range d.resp {
		libunlynx.AddInMap(m, r.DetTagGroupBy, r.Fr)
	}
	d.check(m)
}
