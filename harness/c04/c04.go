// Package c04: freshness of encryption and re-randomisation randomness.
package c04

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func distinctPts(ps []kyber.Point, msg string) {
	for i := range ps {
		for j := 0; j < i; j++ {
			sym.Assert(!ps[i].Equal(ps[j]), msg)
		}
	}
}

func distinctScs(ps []kyber.Scalar, msg string) {
	for i := range ps {
		sym.Assert(!ps[i].Equal(libunlynx.SuiTe.Scalar().Zero()), msg+" (zero)")
		for j := 0; j < i; j++ {
			sym.Assert(!ps[i].Equal(ps[j]), msg)
		}
	}
}

func length() int {
	return hx.Len("n", 1, 201)
}

func ks(cv libunlynx.CipherVector) []kyber.Point {
	out := make([]kyber.Point, len(cv))
	for i := range cv {
		out[i] = cv[i].K
	}
	return out
}

// H_vectors: two vectors encrypted by any two of the vector functions share no randomness.
func H_vectors() {
	_, X := hx.Key()
	n := length()
	v := sym.Int64("v", -1000, 1000)
	vals := make([]int64, n)
	scs := make([]kyber.Scalar, n)
	for i := range vals {
		vals[i] = v
		scs[i] = hx.Sc(v)
	}
	enc := func(f int) libunlynx.CipherVector {
		switch f {
		case 0:
			return *libunlynx.EncryptIntVector(X, vals)
		case 1:
			cv, rs := libunlynx.EncryptIntVectorGetRs(X, vals)
			distinctScs(rs, "EncryptIntVectorGetRs: the same randomness twice")
			return *cv
		case 2:
			return *libunlynx.EncryptScalarVector(X, scs)
		}
		return *libunlynx.NullCipherVector(n, X)
	}
	f, g := sym.Choice("f", 4), sym.Choice("g", 4)
	sym.Assume(n <= 3 || f == g)
	a, b := enc(f), enc(g)
	sym.Assert(len(a) == n && len(b) == n, "wrong length")
	all := append(ks(a), ks(b)...)
	for i := range all {
		sym.Assert(!all[i].Equal(libunlynx.SuiTe.Point().Null()), "encryption without randomness")
	}
	distinctPts(all, "two ciphertexts share their randomness")
}

// H_single: single encryptions of equal values.
func H_single() {
	_, X := hx.Key()
	v := sym.Int64("v", -1000, 1000)
	var all []kyber.Point
	for i := 0; i < 3; i++ {
		c := libunlynx.EncryptInt(X, v)
		d, r := libunlynx.EncryptIntGetR(X, v)
		e := libunlynx.EncryptScalar(X, hx.Sc(v))
		sym.Assert(hx.Pt(1).Mul(r, nil).Equal(d.K), "EncryptIntGetR: another randomness")
		all = append(all, c.K, d.K, e.K)
	}
	distinctPts(all, "two encryptions of equal values share their randomness")
}

// H_encresponse: every attribute of encrypted responses of equal values.
func H_encresponse() {
	_, X := hx.Key()
	v := sym.Int64("v", -1000, 1000)
	m := func() map[string]int64 { return map[string]int64{"a": v, "b": v} }
	var all []kyber.Point
	for i := 0; i < 2; i++ {
		r, err := libunlynx.EncryptDpClearResponse(libunlynx.DpClearResponse{WhereEnc: m(), GroupByEnc: m(), AggregatingAttributesEnc: m()}, X, true)
		sym.Assert(err == nil, "EncryptDpClearResponse failed")
		for _, x := range []map[string][]byte{r.WhereEnc, r.GroupByEnc, r.AggregatingAttributesEnc} {
			for _, b := range x {
				c := libunlynx.CipherText{}
				sym.Assert(c.FromBytes(b) == nil, "bad ciphertext")
				all = append(all, c.K)
			}
		}
	}
	sym.Assert(len(all) == 14, "wrong number of attributes")
	distinctPts(all, "two encrypted attributes share their randomness")
}

// H_shuffle: the re-randomisation factors of one shuffle and of two shuffles of the same data.
func H_shuffle() {
	_, X := hx.Key()
	rows := []int{1, 2, 3, 4}[sym.Choice("rows", 4)]
	cols := []int{1, 2, 3}[sym.Choice("cols", 3)]
	if rows == 4 && cols == 3 {
		cols = 101
		rows = 2
	}
	in := make([]libunlynx.CipherVector, rows)
	row := hx.RandCV(cols)
	for i := range in {
		in[i] = hx.CopyV(row)
	}
	var outs []kyber.Point
	var betas []kyber.Scalar
	for k := 0; k < 2; k++ {
		out, _, beta := libunlynxshuffle.ShuffleSequence(in, libunlynx.SuiTe.Point().Base(), X, nil)
		for i := range out {
			outs = append(outs, ks(out[i])...)
			betas = append(betas, beta[i]...)
		}
		if cols > 3 {
			break
		}
	}
	distinctScs(betas, "two re-randomisation factors are equal")
	for i := range outs {
		for j := 0; j < i; j++ {
			if i%cols == j%cols {
				sym.Assert(!outs[i].Equal(outs[j]), "equal ciphertexts stay equal after the shuffle")
			}
		}
	}
}

// H_precomputed: the scalars of one precomputation.
func H_precomputed() {
	_, X := hx.Key()
	lines := []int{1, 2, 3, 11, 101}[sym.Choice("lines", 5)]
	size := []int{1, 2, 4, 11, 101}[sym.Choice("size", 5)]
	sym.Assume(lines*size <= 303)
	var pre []libunlynxshuffle.CipherVectorScalar
	if sym.Choice("seeded", 2) == 1 {
		b, err := hx.Rand().MarshalBinary()
		sym.Assert(err == nil, "marshal")
		pre = libunlynxshuffle.CreatePrecomputedRandomize(hx.Pt(1), X, libunlynx.SuiTe.XOF(b), size, lines)
	} else {
		pre = libunlynxshuffle.CreatePrecomputedRandomize(hx.Pt(1), X, libunlynx.SuiTe.RandomStream(), size, lines)
	}
	var ss []kyber.Scalar
	var cs []kyber.Point
	for _, p := range pre {
		ss = append(ss, p.S...)
		cs = append(cs, ks(p.CipherV)...)
	}
	sym.Assert(len(ss) == size*lines && len(cs) == len(ss), "wrong number of elements")
	distinctScs(ss, "two precomputed factors are equal")
	distinctPts(cs, "two precomputed re-randomisations are equal")
}

// H_precomputedfunc: the precomputation made for the shuffling protocol.
func H_precomputedfunc() {
	_, X := hx.Key()
	pre, err := libunlynxshuffle.PrecomputationWritingForShuffling(false, "", "s", hx.Rand(), X, 2)
	sym.Assert(err == nil, "precomputation failed")
	var ss []kyber.Scalar
	for _, p := range pre {
		ss = append(ss, p.S...)
	}
	distinctScs(ss, "two precomputed factors are equal")
}

// H_precomputedSecrets: precomputations for two secrets, of one server or of two
// with the same or other names and keys, share no factor; nor does anyone who
// knows everything but the secret get them by asking for a precomputation.
func H_precomputedSecrets() {
	_, X := hx.Key()
	Y := X
	if sym.Choice("key", 2) == 1 {
		_, Y = hx.Key()
	}
	name := []string{"s", "t"}[sym.Choice("name", 2)]
	other := hx.Rand()
	if sym.Choice("guess", 2) == 1 {
		other = hx.Sc(sym.Int64("known", 0, 1<<40))
	}
	line := 1 + sym.Choice("line", 2)
	prepare := func(file string, n string, secret kyber.Scalar, key kyber.Point) []libunlynxshuffle.CipherVectorScalar {
		var pre []libunlynxshuffle.CipherVectorScalar
		var err error
		if file == "" {
			pre, err = libunlynxshuffle.PrecomputationWritingForShuffling(false, "", n, secret, key, line)
		} else {
			pre, err = libunlynxshuffle.PrecomputationWritingForShuffling(true, file, n, secret, key, line)
		}
		sym.Assert(err == nil, "precomputation failed")
		return pre
	}
	files := [][]string{{"", ""}, {"pre_a.gob", "pre_b.gob"}}[sym.Choice("files", 2)]
	a := prepare(files[0], "s", hx.Rand(), X)
	b := prepare(files[1], name, other, Y)
	var ss []kyber.Scalar
	for _, p := range append(a, b...) {
		ss = append(ss, p.S...)
	}
	distinctScs(ss, "precomputations with other secrets share a factor")
}

// H_keyswitch: the randomness contributed to a key switch.
func H_keyswitch() {
	x, _ := hx.Key()
	_, Q := hx.Key()
	n := length()
	rb := hx.RandPt()
	rbs := make([]kyber.Point, n)
	for i := range rbs {
		rbs[i] = rb
	}
	cv, ks2, _, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rbs, x)
	cv2, _, _, vis2 := libunlynxkeyswitch.KeySwitchSequence(Q, rbs, x)
	one, _, v3 := libunlynxkeyswitch.KeySwitch(Q, rb, x)
	distinctScs(append(append(vis, vis2...), v3), "two key switches share their randomness")
	distinctPts(append(append(ks(cv), ks(cv2)...), one.K), "two key switches share their randomness")
	distinctPts(ks2, "two key switches of equal ciphertexts are equal")
}

// H_keys: generated keys, random scalars and secret shares.
func H_keys() {
	n := hx.Len("n", 1, 129)
	_, priv, pub := libunlynx.GenKeys(n)
	_, priv2, pub2 := libunlynx.GenKeys(n)
	k, K := libunlynx.GenKey()
	distinctScs(append(append(priv, priv2...), k), "two generated private keys are equal")
	distinctPts(append(append(pub, pub2...), K), "two generated public keys are equal")
	distinctScs(append(libunlynx.RandomScalarSlice(n), libunlynx.RandomScalarSlice(n)...), "two random scalars are equal")
	s := hx.Rand()
	a := libunlynx.SplitScalar(s.Clone(), n)
	b := libunlynx.SplitScalar(s.Clone(), n)
	distinctScs(append(a, b...), "two secret shares are equal")
}
