// Package c34: serialisation of published proofs.
package c34

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func aggrCopy(p libunlynxaggr.PublishedAggregationProof) libunlynxaggr.PublishedAggregationProof {
	return libunlynxaggr.PublishedAggregationProof{Data: hx.CopyV(p.Data), AggregationResult: hx.Copy(p.AggregationResult)}
}

func aggrSame(a, b libunlynxaggr.PublishedAggregationProof) bool {
	return hx.SameV(a.Data, b.Data) && hx.Same(a.AggregationResult, b.AggregationResult)
}

// aggr is the proof of a right (valid) or another result.
func aggr(n int, valid bool) libunlynxaggr.PublishedAggregationProof {
	cv := hx.RandCV(n)
	res := hx.RandCT()
	if valid {
		res = *libunlynx.NewCipherText()
		for _, c := range cv {
			res.Add(res, c)
		}
	}
	return libunlynxaggr.AggregationProofCreation(cv, res)
}

// H_aggregation: one aggregation proof.
func H_aggregation() {
	n := hx.Len("n", 0, 257)
	valid := sym.Choice("valid", 2) == 1
	p := aggr(n, valid)
	o := aggrCopy(p)
	b, err := p.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	q := libunlynxaggr.PublishedAggregationProof{}
	if sym.Choice("used", 2) == 1 {
		q = aggr(2, true)
	}
	sym.Assert(q.FromBytes(b) == nil, "FromBytes failed")
	sym.Assert(aggrSame(q, o), "another aggregation proof")
	sym.Assert(aggrSame(p, o), "encoding changed the aggregation proof")
	sym.Assert(libunlynxaggr.AggregationProofVerification(q) == valid, "the decoded aggregation proof has another meaning")
}

// H_aggregationList: lists of aggregation proofs, at most one invalid.
func H_aggregationList() {
	n := hx.Len("n", 0, 129)
	bad := -1
	if n > 0 && sym.Choice("invalid", 2) == 1 {
		bad = hx.Pos("bad", n)
	}
	l := libunlynxaggr.PublishedAggregationListProof{}
	var o []libunlynxaggr.PublishedAggregationProof
	for i := 0; i < n; i++ {
		p := aggr((i+2)%4, i != bad)
		l.List = append(l.List, p)
		o = append(o, aggrCopy(p))
	}
	b, err := l.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	d := libunlynxaggr.PublishedAggregationListProof{}
	if sym.Choice("used", 2) == 1 {
		d.List = []libunlynxaggr.PublishedAggregationProof{aggr(1, true), aggr(1, true)}
	}
	sym.Assert(d.FromBytes(b) == nil, "FromBytes failed")
	sym.Assert(len(d.List) == n && len(l.List) == n, "another number of aggregation proofs")
	for i := range o {
		sym.Assert(aggrSame(d.List[i], o[i]), "another aggregation proof")
		sym.Assert(aggrSame(l.List[i], o[i]), "encoding changed an aggregation proof")
	}
	sym.Assert(libunlynxaggr.AggregationListProofVerification(d, 1.0) == (bad < 0), "the decoded list of aggregation proofs has another meaning")
}

func ksCopy(p libunlynxkeyswitch.PublishedKSProof) libunlynxkeyswitch.PublishedKSProof {
	return libunlynxkeyswitch.PublishedKSProof{Proof: append([]byte{}, p.Proof...), K: p.K.Clone(), ViB: p.ViB.Clone(), Ks2: p.Ks2.Clone(), RbNeg: p.RbNeg.Clone(), Q: p.Q.Clone()}
}

func ksSame(a, b libunlynxkeyswitch.PublishedKSProof) bool {
	return sameBytes(a.Proof, b.Proof) && a.K.Equal(b.K) && a.ViB.Equal(b.ViB) && a.Ks2.Equal(b.Ks2) && a.RbNeg.Equal(b.RbNeg) && a.Q.Equal(b.Q)
}

// ks is an honest proof with, unless valid, one component altered.
func ks(valid bool, how int) libunlynxkeyswitch.PublishedKSProof {
	k, K := hx.Key()
	_, Q := hx.Key()
	ct, neg, vi := libunlynxkeyswitch.KeySwitch(Q, hx.RandPt(), k)
	p, err := libunlynxkeyswitch.KeySwitchProofCreation(K, Q, k, ct.K, ct.C, neg, vi)
	sym.Assert(err == nil, "KeySwitchProofCreation failed")
	if !valid {
		d := hx.RandPt()
		switch how {
		case 0:
			p.K = p.K.Clone().Add(p.K, d)
		case 1:
			p.ViB = p.ViB.Clone().Add(p.ViB, d)
		case 2:
			p.Ks2 = p.Ks2.Clone().Add(p.Ks2, d)
		case 3:
			p.RbNeg = p.RbNeg.Clone().Add(p.RbNeg, d)
		case 4:
			p.Q = p.Q.Clone().Add(p.Q, d)
		}
	}
	return p
}

// H_keyswitch: one key switch proof, honest or altered.
func H_keyswitch() {
	how := sym.Choice("how", 6)
	p := ks(how == 5, how)
	o := ksCopy(p)
	b, err := p.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	q := libunlynxkeyswitch.PublishedKSProof{}
	if sym.Choice("used", 2) == 1 {
		q = ks(true, 0)
	}
	sym.Assert(q.FromBytes(b) == nil, "FromBytes failed")
	sym.Assert(ksSame(q, o), "another key switch proof")
	sym.Assert(ksSame(p, o), "encoding changed the key switch proof")
	sym.Assert(libunlynxkeyswitch.KeySwitchProofVerification(q) == (how == 5), "the decoded key switch proof has another meaning")
}

// H_keyswitchList: lists of key switch proofs, at most one invalid.
func H_keyswitchList() {
	n := hx.Len("n", 0, 129)
	bad, how := -1, 0
	if n > 0 && sym.Choice("invalid", 2) == 1 {
		bad = hx.Pos("bad", n)
		how = sym.Choice("how", 5)
		sym.Assume(n < 10 || how == 2)
	}
	l := libunlynxkeyswitch.PublishedKSListProof{}
	var o []libunlynxkeyswitch.PublishedKSProof
	for i := 0; i < n; i++ {
		p := ks(i != bad, how)
		l.List = append(l.List, p)
		o = append(o, ksCopy(p))
	}
	b, err := l.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	d := libunlynxkeyswitch.PublishedKSListProof{}
	if sym.Choice("used", 2) == 1 {
		d.List = []libunlynxkeyswitch.PublishedKSProof{ks(true, 0), ks(true, 0)}
	}
	sym.Assert(d.FromBytes(b) == nil, "FromBytes failed")
	sym.Assert(len(d.List) == n && len(l.List) == n, "another number of key switch proofs")
	for i := range o {
		sym.Assert(ksSame(d.List[i], o[i]), "another key switch proof")
		sym.Assert(ksSame(l.List[i], o[i]), "encoding changed a key switch proof")
	}
	sym.Assert(libunlynxkeyswitch.KeySwitchListProofVerification(d, 1.0) == (bad < 0), "the decoded list of key switch proofs has another meaning")
}

func rowsCopy(l []libunlynx.CipherVector) []libunlynx.CipherVector {
	out := make([]libunlynx.CipherVector, len(l))
	for i := range l {
		out[i] = hx.CopyV(l[i])
	}
	return out
}

func rowsSame(a, b []libunlynx.CipherVector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !hx.SameV(a[i], b[i]) {
			return false
		}
	}
	return true
}

func shCopy(p libunlynxshuffle.PublishedShufflingProof) libunlynxshuffle.PublishedShufflingProof {
	return libunlynxshuffle.PublishedShufflingProof{OriginalList: rowsCopy(p.OriginalList), ShuffledList: rowsCopy(p.ShuffledList), G: p.G.Clone(), H: p.H.Clone(), HashProof: append([]byte{}, p.HashProof...)}
}

func shSame(a, b libunlynxshuffle.PublishedShufflingProof) bool {
	return rowsSame(a.OriginalList, b.OriginalList) && rowsSame(a.ShuffledList, b.ShuffledList) && a.G.Equal(b.G) && a.H.Equal(b.H) && sameBytes(a.HashProof, b.HashProof)
}

func roundTrip(p libunlynxshuffle.PublishedShufflingProof) libunlynxshuffle.PublishedShufflingProof {
	o := shCopy(p)
	b, err := p.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	q := libunlynxshuffle.PublishedShufflingProof{}
	if sym.Choice("used", 2) == 1 {
		q.OriginalList, q.HashProof, q.G = []libunlynx.CipherVector{hx.RandCV(1)}, []byte{1}, hx.RandPt()
	}
	sym.Assert(q.FromBytes(b) == nil, "FromBytes failed")
	sym.Assert(shSame(q, o), "another shuffle proof")
	sym.Assert(shSame(p, o), "encoding changed the shuffle proof")
	return q
}

// H_shuffle: shuffle proofs, honest or altered, mean the same after decoding.
func H_shuffle() {
	r, c := 2+sym.Choice("rows", 2), sym.Choice("columns", 4)
	if sym.Choice("wide", 2) == 1 {
		sym.Assume(r == 2 && c == 3)
		c = hx.Len("wider", 4, 129)
	}
	_, h := hx.Key()
	in := make([]libunlynx.CipherVector, r)
	for i := range in {
		in[i] = hx.RandCV(c)
	}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, hx.Pt(1), h, nil)
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, hx.Pt(1), h, beta, pi)
	sym.Assert(err == nil, "ShuffleProofCreation failed")
	how := sym.Choice("how", 4)
	valid := how == 0 || c == 0
	switch {
	case how == 1 && c > 0:
		p.OriginalList = rowsCopy(p.OriginalList)
		p.OriginalList[r-1][c-1].C.Add(p.OriginalList[r-1][c-1].C, hx.RandPt())
	case how == 2 && c > 0:
		p.ShuffledList = rowsCopy(p.ShuffledList)
		p.ShuffledList[0][c-1].K.Add(p.ShuffledList[0][c-1].K, hx.RandPt())
	case how == 3 && c > 0:
		p.H = hx.RandPt()
	}
	q := roundTrip(p)
	if c > 0 {
		sym.Assert(libunlynxshuffle.ShuffleProofVerification(q, h) == valid, "the decoded shuffle proof has another meaning")
	}
}

// H_shuffleShapes: shuffle proofs of any shape.
func H_shuffleShapes() {
	p := libunlynxshuffle.PublishedShufflingProof{G: hx.RandPt(), H: hx.RandPt()}
	p.HashProof = sym.Bytes("proof", []int{0, 1, 5}[sym.Choice("bytes", 3)])
	for i := sym.Choice("original", 4); i > 0; i-- {
		p.OriginalList = append(p.OriginalList, hx.RandCV([]int{0, 1, 2, 101}[sym.Choice("len", 3+i%2)]))
	}
	for i := sym.Choice("shuffled", 3); i > 0; i-- {
		p.ShuffledList = append(p.ShuffledList, hx.RandCV(sym.Choice("len", 3)))
	}
	roundTrip(p)
}

// H_shuffleMany: many rows, long rows or long proofs.
func H_shuffleMany() {
	p := libunlynxshuffle.PublishedShufflingProof{G: hx.RandPt(), H: hx.RandPt()}
	p.HashProof = []byte{1, 2, 3}
	rows, cols := 2, 1
	n := hx.Len("n", 4, 257)
	switch sym.Choice("kind", 3) {
	case 0:
		rows = n
	case 1:
		cols = n
	case 2:
		p.HashProof = make([]byte, n*[]int{1, 33, 300}[sym.Choice("times", 3)])
		for i := range p.HashProof {
			p.HashProof[i] = byte(i)
		}
		p.HashProof[n-1] = sym.Byte("b")
	}
	for i := 0; i < rows; i++ {
		p.OriginalList = append(p.OriginalList, hx.RandCV(cols+i%2))
		p.ShuffledList = append(p.ShuffledList, hx.RandCV(cols))
	}
	roundTrip(p)
}
