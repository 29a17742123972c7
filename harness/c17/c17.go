// Package c17: which proofs of a list decide about it.
package c17

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	dt "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func pt() kyber.Point { return libunlynx.SuiTe.Point() }

// the share of proofs to verify, in 64ths
func share() int64 {
	if sym.Tier() > 0 {
		return int64(sym.Choice("share64", 65))
	}
	return []int64{0, 1, 16, 21, 32, 33, 48, 63, 64}[sym.Choice("share", 9)]
}

func pick(max int) int {
	if max > 50 {
		return hx.Len("n", 0, 201)
	}
	return sym.Choice("n", max+1)
}

// decide checks the verdicts on a list of n proofs with the given set of invalid ones.
func decide(n int, spoil func(i int), verify func(p float64) bool) {
	s := share()
	p := float64(s) / 64
	var ok bool
	msg, crash := hx.Panics(func() { ok = verify(p) })
	_ = msg
	sym.Assert(!crash, "verification panics")
	sym.Assert(ok, "a list of valid proofs is rejected")
	if n == 0 {
		return
	}
	first := (s*int64(n) + 63) / 64 // how many proofs decide
	var cand []int
	if n < 10 {
		for i := 0; i < n; i++ {
			cand = append(cand, i)
		}
	} else { // long lists: around the last deciding proof and at the batch borders
		seen := map[int]bool{}
		for _, i := range []int{0, int(first) - 1, int(first), 99, 100, n - 1} {
			if i >= 0 && i < n && !seen[i] {
				seen[i] = true
				cand = append(cand, i)
			}
		}
	}
	pos := cand[sym.Choice("pos", len(cand))]
	spoil(pos)
	msg, crash = hx.Panics(func() { ok = verify(p) })
	sym.Assert(!crash, "verification panics")
	sym.Assert(ok == (int64(pos) >= first), "another set of proofs decides than the announced share")
	if n > 1 && n < 10 {
		q := sym.Choice("second", n)
		sym.Assume(q != pos)
		spoil(q)
		sym.Assert(verify(p) == (int64(pos) >= first && int64(q) >= first), "another set of proofs decides than the announced share")
	}
}

// H_keyswitch: lists of key switching proofs.
func H_keyswitch() {
	n := pick(100)
	k, K := hx.Key()
	_, Q := hx.Key()
	rb := make([]kyber.Point, n)
	for i := range rb {
		rb[i] = hx.RandPt()
	}
	_, ks2, neg, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rb, k)
	l, err := libunlynxkeyswitch.KeySwitchListProofCreation(K, Q, k, ks2, neg, vis)
	sym.Assert(err == nil, "creation failed")
	decide(n, func(i int) { l.List[i].Ks2 = hx.RandPt() }, func(p float64) bool { return libunlynxkeyswitch.KeySwitchListProofVerification(l, p) })
}

// H_tag: lists of tagging proofs.
func H_tag() {
	n := pick(100)
	k, K := hx.Key()
	s := hx.Rand()
	bef := hx.RandCV(n)
	l, err := dt.DeterministicTagCrListProofCreation(bef, dt.DeterministicTagSequence(bef, k, s), K, k, s)
	sym.Assert(err == nil, "creation failed")
	decide(n, func(i int) { l.List[i].CTaft = hx.RandCT() }, func(p float64) bool { return dt.DeterministicTagCrListProofVerification(l, p) })
}

// H_tagadd: lists of tag addition proofs.
func H_tagadd() {
	n := pick(100)
	c1, c2, r, s := make([]kyber.Point, n), make([]kyber.Point, n), make([]kyber.Point, n), make([]kyber.Scalar, n)
	for i := range c1 {
		c1[i], s[i] = hx.RandPt(), hx.Rand()
		c2[i] = pt().Mul(s[i], nil)
		r[i] = pt().Add(c1[i], c2[i])
	}
	l, err := dt.DeterministicTagAdditionListProofCreation(c1, s, c2, r)
	sym.Assert(err == nil, "creation failed")
	decide(n, func(i int) { l.List[i].R = hx.RandPt() }, func(p float64) bool { return dt.DeterministicTagAdditionListProofVerification(l, p) })
}

// H_addrm: lists of add/remove proofs.
func H_addrm() {
	n := pick(100)
	k, K := hx.Key()
	bef, aft := hx.RandCV(n), make(libunlynx.CipherVector, n)
	for i := range aft {
		aft[i] = libunlynx.CipherText{K: bef[i].K.Clone(), C: pt().Add(bef[i].C, pt().Mul(k, bef[i].K))}
	}
	l, err := libunlynxaddrm.AddRmListProofCreation(bef, aft, K, k, true)
	sym.Assert(err == nil, "creation failed")
	decide(n, func(i int) { l.List[i].CtAft.C = hx.RandPt() }, func(p float64) bool { return libunlynxaddrm.AddRmListProofVerification(l, p) })
}

// H_aggr: lists of aggregation proofs.
func H_aggr() {
	n := pick(100)
	data, res := make([]libunlynx.CipherVector, n), make([]libunlynx.CipherText, n)
	for i := range data {
		data[i] = hx.RandCV(1)
		res[i] = hx.Copy(data[i][0])
	}
	l := libunlynxaggr.AggregationListProofCreation(data, res)
	decide(n, func(i int) { l.List[i].AggregationResult = hx.RandCT() }, func(p float64) bool { return libunlynxaggr.AggregationListProofVerification(l, p) })
}

// H_shuffle: lists of shuffle proofs.
func H_shuffle() {
	n := pick(3)
	_, h := hx.Key()
	var orig, shuf [][]libunlynx.CipherVector
	var gs, hs []kyber.Point
	var betas [][][]kyber.Scalar
	var pis [][]int
	for k := 0; k < n; k++ {
		in := []libunlynx.CipherVector{hx.RandCV(1), hx.RandCV(1)}
		out, pi, beta := libunlynxshuffle.ShuffleSequence(in, hx.Pt(1), h, nil)
		orig, shuf, betas, pis = append(orig, in), append(shuf, out), append(betas, beta), append(pis, pi)
		gs, hs = append(gs, hx.Pt(1)), append(hs, h)
	}
	l, err := libunlynxshuffle.ShuffleListProofCreation(orig, shuf, gs, hs, betas, pis)
	sym.Assert(err == nil, "creation failed")
	decide(n, func(i int) { l.List[i].ShuffledList = []libunlynx.CipherVector{hx.RandCV(1), hx.RandCV(1)} }, func(p float64) bool { return libunlynxshuffle.ShuffleListProofVerification(l, h, p) })
}
