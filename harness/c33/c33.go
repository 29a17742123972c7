// Package c33: functions that split their work over goroutines.
package c33

import (
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

// size is a number of elements that takes two batches (thorough: three).
func size() int {
	if sym.Tier() > 0 {
		return 101 + 100*sym.Choice("batches", 2)
	}
	return 101
}

// few is a number of elements handled by a goroutine each.
func few() int { return 2 + sym.Choice("elements", 2) }

// watch records accesses and explores the order in which workers run.
func watch() {
	sym.RaceDetect(true)
	sym.SchedForks(2)
}

// spoil overwrites elements, which no worker may still use.
func spoil(ps ...kyber.Point) {
	for _, p := range ps {
		p.Null()
	}
}

func spoilV(v libunlynx.CipherVector) {
	for i := range v {
		spoil(v[i].K, v[i].C)
		v[i] = libunlynx.CipherText{}
	}
}

func ints(n int) []int64 {
	v := make([]int64, n)
	for i := range v {
		v[i] = int64(i)
	}
	for _, i := range hx.Spots(n) {
		v[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	return v
}

func scalars(n int) []kyber.Scalar {
	v := make([]kyber.Scalar, n)
	for i := range v {
		v[i] = hx.Sc(int64(i + 3))
	}
	return v
}

func points(n int) []kyber.Point {
	v := make([]kyber.Point, n)
	for i := range v {
		v[i] = hx.RandPt()
	}
	return v
}

// vec is a vector of distinct ciphertexts, cheap to compute with.
func vec(n int) libunlynx.CipherVector {
	v := make(libunlynx.CipherVector, n)
	for i := range v {
		v[i] = libunlynx.CipherText{K: hx.Pt(int64(2*i + 5)), C: hx.Pt(int64(3*i + 7))}
	}
	for _, i := range hx.Spots(n) {
		v[i] = hx.RandCT()
	}
	return v
}

// H_encrypt: encryption of vectors.
func H_encrypt() {
	n := size()
	x, K := hx.Key()
	v := ints(n)
	s := scalars(n)
	watch()
	var cv libunlynx.CipherVector
	want := make([]kyber.Point, n)
	switch sym.Choice("function", 3) {
	case 0:
		cv = *libunlynx.EncryptIntVector(K, v)
	case 1:
		c, rs := libunlynx.EncryptIntVectorGetRs(K, v)
		cv = *c
		sym.Assert(len(rs) == n, "another number of random values")
		for i := range rs {
			sym.Assert(cv[i].K.Equal(libunlynx.SuiTe.Point().Mul(rs[i], nil)), "another random value")
			rs[i] = nil
		}
	case 2:
		cv = *libunlynx.EncryptScalarVector(K, s)
		for i := range s {
			want[i] = libunlynx.SuiTe.Point().Mul(s[i], nil)
		}
	}
	sym.Assert(len(cv) == n, "another number of ciphertexts")
	for i := range cv {
		w := want[i]
		if w == nil {
			w = hx.Pt(v[i])
		}
		sym.Assert(hx.Plain(x, cv[i]).Equal(w), "another plaintext")
	}
	spoil(K)
	spoilV(cv)
	for i := range v {
		v[i] = 0
		s[i].Zero()
	}
}

// H_vectors: sums and differences of vectors, also in place.
func H_vectors() {
	n := size()
	a, b := vec(n), vec(n)
	for i := range b {
		b[i].K, b[i].C = b[i].C, b[i].K
	}
	wa, wb := hx.CopyV(a), hx.CopyV(b)
	r := libunlynx.NewCipherVector(n)
	switch sym.Choice("into", 3) {
	case 1:
		r = &a
	case 2:
		r = &b
	}
	sub := sym.Choice("sub", 2) == 1
	watch()
	if sub {
		r.Sub(a, b)
	} else {
		r.Add(a, b)
	}
	sym.Assert(len(*r) == n, "another length")
	for i := range *r {
		w := libunlynx.NewCipherText()
		if sub {
			w.Sub(wa[i], wb[i])
		} else {
			w.Add(wa[i], wb[i])
		}
		sym.Assert(hx.Same((*r)[i], *w), "another result")
	}
	spoilV(*r)
	if &a != r {
		spoilV(a)
	}
	if &b != r {
		spoilV(b)
	}
}

// H_bytes: lists of vectors to bytes and back.
func H_bytes() {
	n := few()
	var in []libunlynx.CipherVector
	for i := 0; i < n; i++ {
		in = append(in, hx.RandCV(1+i))
	}
	watch()
	b, l, err := libunlynx.ArrayCipherVectorToBytes(in)
	sym.Assert(err == nil, "the encoding failed")
	out, err := libunlynx.FromBytesToArrayCipherVector(b, l)
	sym.Assert(err == nil, "the decoding failed")
	sym.Assert(len(out) == n, "another number of vectors")
	for i := range in {
		sym.Assert(hx.SameV(in[i], out[i]), "another vector")
		spoilV(in[i])
		spoilV(out[i])
	}
	for i := range b {
		b[i] = 0
	}
	for i := range l {
		l[i] = 0
	}
}

// H_decrypt: decryptions at the same time share the table of logarithms.
func H_decrypt() {
	x, K := hx.Key()
	v := []int64{int64(sym.Choice("v", 4)), int64(sym.Choice("w", 4)) - 1}
	c := hx.EncVec(K, v)
	watch()
	sym.Preempt(1)
	got := make([]int64, 2)
	done := make(chan int, 2)
	neg := sym.Choice("neg", 2) == 1
	go func() {
		got[0] = libunlynx.DecryptInt(x, c[0])
		done <- 1
	}()
	go func() {
		if neg {
			got[1] = libunlynx.DecryptIntWithNeg(x, c[1])
		} else {
			c[1] = hx.EncR(K, v[0])
			got[1] = libunlynx.DecryptInt(x, c[1])
		}
		done <- 1
	}()
	<-done
	<-done
	sym.Preempt(0)
	sym.Assert(got[0] == v[0], "a wrong decryption")
	sym.Assert(neg && got[1] == v[1] || !neg && got[1] == v[0], "a wrong decryption")
}

// H_addrm: lists of proofs for a server that comes or goes.
func H_addrm() {
	n := size()
	k, K := hx.Key()
	bef := vec(n)
	aft := make(libunlynx.CipherVector, n)
	add := sym.Choice("add", 2) == 1
	for i := range bef {
		d := libunlynx.SuiTe.Point().Mul(k, bef[i].K)
		aft[i].K = bef[i].K.Clone()
		if add {
			aft[i].C = libunlynx.SuiTe.Point().Add(bef[i].C, d)
		} else {
			aft[i].C = libunlynx.SuiTe.Point().Sub(bef[i].C, d)
		}
	}
	wrong := sym.Choice("wrong", 3)
	watch()
	l, err := libunlynxaddrm.AddRmListProofCreation(bef, aft, K, k, add)
	sym.Assert(err == nil && len(l.List) == n, "the proofs could not be made")
	if wrong > 0 {
		i := (wrong - 1) * (n - 1)
		l.List[i].Proof[0] ^= 1
	}
	sym.Assert(libunlynxaddrm.AddRmListProofVerification(l, 1) == (wrong == 0), "a wrong verdict")
	for i := range l.List {
		sym.Assert(hx.Same(l.List[i].CtBef, bef[i]) && hx.Same(l.List[i].CtAft, aft[i]), "a proof of another ciphertext")
		l.List[i] = libunlynxaddrm.PublishedAddRmProof{}
	}
	spoil(K)
	k.Zero()
	spoilV(bef)
	spoilV(aft)
}

// H_aggregation: lists of aggregation proofs.
func H_aggregation() {
	n := size()
	data := make([]libunlynx.CipherVector, n)
	res := make([]libunlynx.CipherText, n)
	for i := range data {
		data[i] = libunlynx.CipherVector{{K: hx.Pt(int64(i)), C: hx.Pt(1)}, {K: hx.Pt(3), C: hx.Pt(int64(2 * i))}}
		res[i] = data[i].Acum()
	}
	wrong := sym.Choice("wrong", 3)
	if wrong > 0 {
		res[(wrong-1)*(n-1)] = hx.RandCT()
	}
	watch()
	l := libunlynxaggr.AggregationListProofCreation(data, res)
	sym.Assert(len(l.List) == n, "another number of proofs")
	sym.Assert(libunlynxaggr.AggregationListProofVerification(l, 1) == (wrong == 0), "a wrong verdict")
	for i := range l.List {
		sym.Assert(hx.SameV(l.List[i].Data, data[i]) && hx.Same(l.List[i].AggregationResult, res[i]), "another proof")
		l.List[i] = libunlynxaggr.PublishedAggregationProof{}
		spoilV(data[i])
		spoil(res[i].K, res[i].C)
	}
}

// H_aggregationBytes: aggregation proofs to bytes and back.
func H_aggregationBytes() {
	n := few()
	l := libunlynxaggr.PublishedAggregationListProof{}
	for i := 0; i < n; i++ {
		l.List = append(l.List, libunlynxaggr.AggregationProofCreation(hx.RandCV(1+i), hx.RandCT()))
	}
	watch()
	b, err := l.ToBytes()
	sym.Assert(err == nil, "the encoding failed")
	m := libunlynxaggr.PublishedAggregationListProof{}
	sym.Assert(m.FromBytes(b) == nil, "the decoding failed")
	sym.Assert(len(m.List) == n, "another number of proofs")
	for i := range l.List {
		sym.Assert(hx.SameV(l.List[i].Data, m.List[i].Data) && hx.Same(l.List[i].AggregationResult, m.List[i].AggregationResult), "another proof")
		spoilV(l.List[i].Data)
		spoilV(m.List[i].Data)
		spoil(l.List[i].AggregationResult.K, m.List[i].AggregationResult.K)
		l.List[i], m.List[i], b.List[i] = libunlynxaggr.PublishedAggregationProof{}, libunlynxaggr.PublishedAggregationProof{}, libunlynxaggr.PublishedAggregationProofBytes{}
	}
}

// H_keyswitch: key switching and its proofs.
func H_keyswitch() {
	n := size()
	k, K := hx.Key()
	_, Q := hx.Key()
	rBs := points(n)
	wrong := sym.Choice("wrong", 3)
	watch()
	cv, ks2s, rBNegs, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rBs, k)
	sym.Assert(len(cv) == n && len(ks2s) == n && len(rBNegs) == n && len(vis) == n, "another length")
	for i := range cv {
		w := libunlynx.SuiTe.Point().Sub(libunlynx.SuiTe.Point().Mul(vis[i], Q), libunlynx.SuiTe.Point().Mul(k, rBs[i]))
		sym.Assert(cv[i].K.Equal(libunlynx.SuiTe.Point().Mul(vis[i], nil)) && cv[i].C.Equal(w) && ks2s[i].Equal(w) && rBNegs[i].Equal(libunlynx.SuiTe.Point().Neg(rBs[i])), "a wrong contribution")
	}
	l, err := libunlynxkeyswitch.KeySwitchListProofCreation(K, Q, k, ks2s, rBNegs, vis)
	sym.Assert(err == nil && len(l.List) == n, "the proofs could not be made")
	if wrong > 0 {
		l.List[(wrong-1)*(n-1)].Proof[0] ^= 1
	}
	sym.Assert(libunlynxkeyswitch.KeySwitchListProofVerification(l, 1) == (wrong == 0), "a wrong verdict")
	for i := range l.List {
		l.List[i] = libunlynxkeyswitch.PublishedKSProof{}
		vis[i].Zero()
	}
	spoil(ks2s...)
	spoil(rBNegs...)
	spoil(rBs...)
	spoil(K, Q)
	k.Zero()
	spoilV(cv)
}

// H_keyswitchBytes: key switching proofs to bytes and back.
func H_keyswitchBytes() {
	n := few()
	k, K := hx.Key()
	_, Q := hx.Key()
	_, ks2s, rBNegs, vis := libunlynxkeyswitch.KeySwitchSequence(Q, points(n), k)
	l, err := libunlynxkeyswitch.KeySwitchListProofCreation(K, Q, k, ks2s, rBNegs, vis)
	sym.Assert(err == nil, "the proofs could not be made")
	watch()
	b, err := l.ToBytes()
	sym.Assert(err == nil, "the encoding failed")
	m := libunlynxkeyswitch.PublishedKSListProof{}
	sym.Assert(m.FromBytes(b) == nil, "the decoding failed")
	sym.Assert(len(m.List) == n, "another number of proofs")
	for i := range l.List {
		p, q := l.List[i], m.List[i]
		sym.Assert(string(p.Proof) == string(q.Proof) && p.ViB.Equal(q.ViB) && p.Ks2.Equal(q.Ks2) && p.RbNeg.Equal(q.RbNeg), "another proof")
		q.Proof[0]++
		spoil(q.ViB, q.Ks2)
		l.List[i], m.List[i], b.List[i] = libunlynxkeyswitch.PublishedKSProof{}, libunlynxkeyswitch.PublishedKSProof{}, libunlynxkeyswitch.PublishedKSProofBytes{}
	}
	spoil(ks2s...)
	spoil(rBNegs...)
}

// H_tag: tagging and its proofs.
func H_tag() {
	n := size()
	k, K := hx.Key()
	s := hx.Rand()
	bef := vec(n)
	wrong := sym.Choice("wrong", 3)
	watch()
	aft := libunlynxdetertag.DeterministicTagSequence(bef, k, s)
	sym.Assert(len(aft) == n, "another length")
	for i := range aft {
		sym.Assert(hx.Same(aft[i], libunlynxdetertag.DeterministicTag(bef[i], k, s)), "another tag")
	}
	l, err := libunlynxdetertag.DeterministicTagCrListProofCreation(bef, aft, K, k, s)
	sym.Assert(err == nil && len(l.List) == n, "the proofs could not be made")
	if wrong > 0 {
		l.List[(wrong-1)*(n-1)].Proof[0] ^= 1
	}
	sym.Assert(libunlynxdetertag.DeterministicTagCrListProofVerification(l, 1) == (wrong == 0), "a wrong verdict")
	for i := range l.List {
		sym.Assert(hx.Same(l.List[i].CTbef, bef[i]) && hx.Same(l.List[i].CTaft, aft[i]), "a proof of another ciphertext")
		l.List[i] = libunlynxdetertag.PublishedDDTCreationProof{}
	}
	spoilV(bef)
	spoilV(aft)
	spoil(K)
	k.Zero()
	s.Zero()
}

// H_tagAddition: proofs of the second part of the tagging.
func H_tagAddition() {
	n := size()
	c1, c2, r := points(n), make([]kyber.Point, n), make([]kyber.Point, n)
	s := scalars(n)
	for i := range c1 {
		c2[i] = libunlynx.SuiTe.Point().Mul(s[i], nil)
		r[i] = libunlynx.SuiTe.Point().Add(c1[i], c2[i])
	}
	wrong := sym.Choice("wrong", 3)
	watch()
	l, err := libunlynxdetertag.DeterministicTagAdditionListProofCreation(c1, s, c2, r)
	sym.Assert(err == nil && len(l.List) == n, "the proofs could not be made")
	if wrong > 0 {
		l.List[(wrong-1)*(n-1)].Proof[0] ^= 1
	}
	sym.Assert(libunlynxdetertag.DeterministicTagAdditionListProofVerification(l, 1) == (wrong == 0), "a wrong verdict")
	for i := range l.List {
		sym.Assert(l.List[i].C1.Equal(c1[i]) && l.List[i].R.Equal(r[i]), "another proof")
		l.List[i] = libunlynxdetertag.PublishedDDTAdditionProof{}
		s[i].Zero()
	}
	spoil(c1...)
	spoil(c2...)
	spoil(r...)
}

// rows is a matrix of n rows of m ciphertexts.
func rows(n, m int) []libunlynx.CipherVector {
	in := make([]libunlynx.CipherVector, n)
	for i := range in {
		in[i] = hx.RandCV(m)
	}
	return in
}

func copyRows(in []libunlynx.CipherVector) []libunlynx.CipherVector {
	out := make([]libunlynx.CipherVector, len(in))
	for i := range in {
		out[i] = hx.CopyV(in[i])
	}
	return out
}

// shuffled checks that out is the permuted re-randomisation of in.
func shuffled(K kyber.Point, in, out []libunlynx.CipherVector, pi []int, beta [][]kyber.Scalar) {
	sym.Assert(len(out) == len(in) && len(pi) == len(in) && len(beta) == len(in), "another number of rows")
	for i := range out {
		sym.Assert(len(out[i]) == len(in[i]), "a row of another length")
		for j := range out[i] {
			w := in[pi[i]][j]
			b := beta[pi[i]][j]
			sym.Assert(out[i][j].K.Equal(libunlynx.SuiTe.Point().Add(w.K, libunlynx.SuiTe.Point().Mul(b, nil))), "a wrong row")
			sym.Assert(out[i][j].C.Equal(libunlynx.SuiTe.Point().Add(w.C, libunlynx.SuiTe.Point().Mul(b, K))), "a wrong row")
		}
	}
}

// H_shuffle: shuffling, with and without precomputation.
func H_shuffle() {
	_, K := hx.Key()
	k := few()
	var pre []libunlynxshuffle.CipherVectorScalar
	watch()
	B := libunlynx.SuiTe.Point().Base()
	if sym.Choice("precomputed", 2) == 1 {
		pre = libunlynxshuffle.CreatePrecomputedRandomize(B, K, libunlynx.SuiTe.XOF([]byte("a seed of this survey")), 2, 2)
		sym.Assert(len(pre) == 2, "another number of lines")
		for _, l := range pre {
			for j := range l.S {
				sym.Assert(l.CipherV[j].K.Equal(libunlynx.SuiTe.Point().Mul(l.S[j], nil)) && l.CipherV[j].C.Equal(libunlynx.SuiTe.Point().Mul(l.S[j], K)), "a wrong line")
			}
		}
	}
	in := rows(k, 2)
	orig := copyRows(in)
	sym.RandForks(1)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, B, K, pre)
	shuffled(K, orig, out, pi, beta)
	for i := range in {
		spoilV(in[i])
		spoilV(out[i])
		pi[i] = 0
		for j := range beta[i] {
			beta[i][j] = nil
		}
	}
	for i := range pre {
		spoilV(pre[i].CipherV)
	}
	spoil(B, K)
}

// H_shuffleProof: proofs of shuffles, their verification and serialisation.
func H_shuffleProof() {
	_, K := hx.Key()
	k := few()
	B := libunlynx.SuiTe.Point().Base()
	in := rows(k, 2)
	sym.RandForks(0)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, B, K, nil)
	wrong := sym.Choice("wrong", 2)
	watch()
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, B, K, beta, pi)
	sym.Assert(err == nil, "the proof could not be made")
	if wrong > 0 {
		p.ShuffledList[k-1][1] = hx.RandCT()
	}
	sym.Assert(libunlynxshuffle.ShuffleProofVerification(p, K) == (wrong == 0), "a wrong verdict")
	b, err := p.ToBytes()
	sym.Assert(err == nil, "the encoding failed")
	q := libunlynxshuffle.PublishedShufflingProof{}
	sym.Assert(q.FromBytes(b) == nil, "the decoding failed")
	sym.Assert(len(q.OriginalList) == k && len(q.ShuffledList) == k && q.G.Equal(p.G) && q.H.Equal(p.H) && string(q.HashProof) == string(p.HashProof), "another proof")
	for i := range p.OriginalList {
		sym.Assert(hx.SameV(p.OriginalList[i], q.OriginalList[i]) && hx.SameV(p.ShuffledList[i], q.ShuffledList[i]), "another proof")
		spoilV(p.OriginalList[i])
		spoilV(p.ShuffledList[i])
		spoilV(q.OriginalList[i])
		spoilV(q.ShuffledList[i])
	}
	for i := range beta {
		pi[i] = 0
		for j := range beta[i] {
			beta[i][j] = nil
		}
	}
	spoil(K, q.G, q.H)
	q.HashProof[0]++
	p.HashProof[0]++
}

// H_shuffleList: lists of shuffle proofs.
func H_shuffleList() {
	n := size()
	_, K := hx.Key()
	B := libunlynx.SuiTe.Point().Base()
	in := rows(2, 1)
	sym.RandForks(0)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, B, K, nil)
	ins, outs, gs, hs := make([][]libunlynx.CipherVector, n), make([][]libunlynx.CipherVector, n), make([]kyber.Point, n), make([]kyber.Point, n)
	betas, pis := make([][][]kyber.Scalar, n), make([][]int, n)
	for i := range ins {
		ins[i], outs[i], gs[i], hs[i], betas[i], pis[i] = in, out, B, K, beta, pi
	}
	last := n - 1
	ins[last], gs[last], hs[last] = copyRows(in), B.Clone(), K.Clone()
	outs[last], pis[last], betas[last] = libunlynxshuffle.ShuffleSequence(ins[last], gs[last], hs[last], nil)
	wrong := sym.Choice("wrong", 3)
	watch()
	l, err := libunlynxshuffle.ShuffleListProofCreation(ins, outs, gs, hs, betas, pis)
	sym.Assert(err == nil && len(l.List) == n, "the proofs could not be made")
	if wrong > 0 {
		i := (wrong - 1) * last
		l.List[i].ShuffledList = copyRows(l.List[i].ShuffledList)
		l.List[i].ShuffledList[0][0] = hx.RandCT()
	}
	sym.Assert(libunlynxshuffle.ShuffleListProofVerification(l, K, 1) == (wrong == 0), "a wrong verdict")
	for i := range l.List {
		l.List[i] = libunlynxshuffle.PublishedShufflingProof{}
		ins[i], outs[i], betas[i], pis[i] = nil, nil, nil, nil
	}
	spoil(gs...)
	spoil(hs...)
	for i := range in {
		spoilV(in[i])
		spoilV(out[i])
	}
}

// H_computeE: the challenges of long rows.
func H_computeE() {
	n := size()
	_, K := hx.Key()
	cv := vec(n)
	w, err := libunlynxshuffle.CipherVectorComputeE(K, cv)
	sym.Assert(err == nil, "no challenges")
	watch()
	e, err := libunlynxshuffle.CipherVectorComputeE(K, cv)
	sym.Assert(err == nil && len(e) == n, "another number of challenges")
	for i := range e {
		sym.Assert(e[i].Equal(w[i]), "the challenges depend on the order of the work")
		e[i].Zero()
	}
	spoilV(cv)
	spoil(K)
}

// H_clear: aggregation in clear, of responses with many attributes.
func H_clear() {
	n := []int{1, 101}[sym.Choice("attributes", 2)]
	var in []libunlynx.DpClearResponse
	want := make([][]int64, 2)
	for i, g := range []int64{0, 1, 0, 0} {
		if want[g] == nil {
			want[g] = make([]int64, n)
		}
		r := libunlynx.DpClearResponse{GroupByClear: map[string]int64{"g0": g}, AggregatingAttributesEnc: map[string]int64{}}
		for j := 0; j < n; j++ {
			v := int64(i * j)
			if j == n-1 {
				v = sym.Int64("v", -1<<40, 1<<40)
			}
			r.AggregatingAttributesEnc["s"+strconv.Itoa(j)] = v
			want[g][j] += v
		}
		in = append(in, r)
	}
	watch()
	out := libunlynxstore.AddInClear(in)
	sym.Assert(len(out) == len(want), "another number of groups")
	for _, r := range out {
		w := want[r.GroupByClear["g0"]]
		sym.Assert(w != nil && len(r.AggregatingAttributesEnc) == n, "another group")
		for j, v := range w {
			sym.Assert(r.AggregatingAttributesEnc["s"+strconv.Itoa(j)] == v, "a wrong sum")
		}
		want[r.GroupByClear["g0"]] = nil
		r.AggregatingAttributesEnc["s0"] = 0
	}
	for i := range in {
		in[i].AggregatingAttributesEnc["s0"]++
		in[i].GroupByClear["g0"]++
		in[i] = libunlynx.DpClearResponse{}
	}
}

// bad is no encoding of a point.
func bad() []byte {
	b := make([]byte, 32)
	b[0] = 2
	sym.Assume(libunlynx.SuiTe.Point().UnmarshalBinary(b) != nil)
	return b
}

// broken replaces the first and the last point of an encoding.
func broken(b, no []byte) {
	copy(b, no)
	copy(b[len(b)-32:], no)
}

// H_errorsBytes: several workers cannot decode their parts.
func H_errorsBytes() {
	n := few()
	no := bad()
	var in []libunlynx.CipherVector
	for i := 0; i < n; i++ {
		in = append(in, hx.RandCV(1+i))
	}
	what := sym.Choice("function", 6)
	watch()
	var err error
	switch what {
	case 0:
		b, l, e := libunlynx.ArrayCipherVectorToBytes(in)
		sym.Assert(e == nil, "the encoding failed")
		broken(b, no)
		_, err = libunlynx.FromBytesToArrayCipherVector(b, l)
		for i := range b {
			b[i] = 0
		}
		for i := range l {
			l[i] = 0
		}
	case 1:
		l := libunlynxaggr.PublishedAggregationListProof{}
		for _, v := range in {
			l.List = append(l.List, libunlynxaggr.AggregationProofCreation(v, hx.RandCT()))
		}
		b, e := l.ToBytes()
		sym.Assert(e == nil, "the encoding failed")
		for i := range b.List {
			broken(b.List[i].Data, no)
		}
		m := libunlynxaggr.PublishedAggregationListProof{}
		err = m.FromBytes(b)
		m.List = nil
		for i := range b.List {
			b.List[i] = libunlynxaggr.PublishedAggregationProofBytes{}
		}
	case 2:
		k, K := hx.Key()
		_, Q := hx.Key()
		_, ks2s, rBNegs, vis := libunlynxkeyswitch.KeySwitchSequence(Q, points(n), k)
		l, e := libunlynxkeyswitch.KeySwitchListProofCreation(K, Q, k, ks2s, rBNegs, vis)
		sym.Assert(e == nil, "the proofs could not be made")
		b, e := l.ToBytes()
		sym.Assert(e == nil, "the encoding failed")
		for i := range b.List {
			broken(b.List[i].KVibKs2RbNegQ, no)
		}
		m := libunlynxkeyswitch.PublishedKSListProof{}
		err = m.FromBytes(b)
		m.List = nil
		for i := range b.List {
			b.List[i] = libunlynxkeyswitch.PublishedKSProofBytes{}
		}
	case 3:
		_, K := hx.Key()
		p := libunlynxshuffle.PublishedShufflingProof{OriginalList: in, ShuffledList: in, G: K, H: K, HashProof: []byte{1}}
		b, e := p.ToBytes()
		sym.Assert(e == nil, "the encoding failed")
		broken(*b.OriginalList, no)
		broken(*b.ShuffledList, no)
		broken(*b.G, no)
		m := libunlynxshuffle.PublishedShufflingProof{}
		err = m.FromBytes(b)
		m = libunlynxshuffle.PublishedShufflingProof{}
		b.OriginalList = nil
	case 4:
		m := protocolsunlynx.ChildAggregatedDataMessage{}
		for i := 0; i < n; i++ {
			m.ChildData = append(m.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: "t", Fr: libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(1), AggregatingAttributes: hx.RandCV(1)}})
		}
		b, g, a, t, e := m.ToBytes()
		sym.Assert(e == nil, "the encoding failed")
		c := len(b) / n
		for i := 0; i < n; i++ {
			broken(b[i*c:i*c+128], no)
		}
		d := protocolsunlynx.ChildAggregatedDataMessage{}
		err = d.FromBytes(b, g, a, t)
		d.ChildData = nil
		for i := range b {
			b[i] = 0
		}
	case 5:
		m := protocolsunlynx.DeterministicTaggingMessage{Data: vec(101)}
		b, e := m.ToBytes()
		sym.Assert(e == nil, "the encoding failed")
		broken(b, no)
		d := protocolsunlynx.DeterministicTaggingMessage{}
		err = d.FromBytes(b)
		for i := range b {
			b[i] = 0
		}
	}
	sym.Assert(err != nil, "broken data was decoded")
	for i := range in {
		in[i] = nil
	}
}

// H_errorsShuffle: rows of different lengths, so that several workers fail.
func H_errorsShuffle() {
	_, K := hx.Key()
	B := libunlynx.SuiTe.Point().Base()
	in := []libunlynx.CipherVector{hx.RandCV(1), hx.RandCV(2), hx.RandCV(2)}
	out := []libunlynx.CipherVector{hx.RandCV(2), hx.RandCV(2), hx.RandCV(1)}
	pi := []int{0, 1, 2}
	beta := make([][]kyber.Scalar, 3)
	for i := range beta {
		beta[i] = []kyber.Scalar{hx.Sc(1), hx.Sc(2)}
	}
	what := sym.Choice("function", 4)
	watch()
	switch what {
	case 0:
		_, err := libunlynxshuffle.ShuffleProofCreation(in, out, B, K, beta, pi)
		sym.Assert(err != nil, "rows of different lengths are proven")
	case 1:
		p := libunlynxshuffle.PublishedShufflingProof{OriginalList: in, ShuffledList: out, G: B, H: K, HashProof: []byte{1}}
		sym.Assert(!libunlynxshuffle.ShuffleProofVerification(p, K), "rows of different lengths are accepted")
	case 2:
		two := [][]libunlynx.CipherVector{in, in}
		_, err := libunlynxshuffle.ShuffleListProofCreation(two, [][]libunlynx.CipherVector{out, out}, []kyber.Point{B, B}, []kyber.Point{K, K}, [][][]kyber.Scalar{beta, beta}, [][]int{pi, pi})
		sym.Assert(err != nil, "rows of different lengths are proven")
	case 3:
		many := make([][]libunlynx.CipherVector, 101)
		manyOut := make([][]libunlynx.CipherVector, 101)
		gs, hs := make([]kyber.Point, 101), make([]kyber.Point, 101)
		betas, pis := make([][][]kyber.Scalar, 101), make([][]int, 101)
		for i := range many {
			many[i], manyOut[i], gs[i], hs[i], betas[i], pis[i] = in[:1], out[:1], B, K, beta[:1], pi[:1]
		}
		_, err := libunlynxshuffle.ShuffleListProofCreation(many, manyOut, gs, hs, betas, pis)
		sym.Assert(err != nil, "a shuffle of one row is proven")
	}
	spoil(B, K)
	for i := range in {
		in[i], out[i], beta[i], pi[i] = nil, nil, nil, 0
	}
}
