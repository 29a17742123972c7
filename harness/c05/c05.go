// Package c05: keys, secret splitting and permutations.
package c05

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func upTo(name string, q, t int) int {
	if sym.Tier() > 0 {
		q = t
	}
	return hx.Len(name, 0, q)
}

// H_genkeys: every public key matches and the collective key is their sum.
func H_genkeys() {
	n := upTo("n", 257, 1001)
	agg, priv, pub := libunlynx.GenKeys(n)
	sym.Assert(len(priv) == n && len(pub) == n, "GenKeys: lengths")
	sum := libunlynx.SuiTe.Point().Null()
	s := libunlynx.SuiTe.Scalar().Zero()
	for i := range priv {
		sym.Assert(pub[i].Equal(libunlynx.SuiTe.Point().Mul(priv[i], nil)), "GenKeys: a public key does not match its private key")
		sum.Add(sum, pub[i])
		s.Add(s, priv[i])
	}
	sym.Assert(agg.Equal(sum), "GenKeys: the collective key is not the sum")
	sym.Assert(agg.Equal(libunlynx.SuiTe.Point().Mul(s, nil)), "GenKeys: the collective key does not match the sum of the secrets")
	x, X := libunlynx.GenKey()
	sym.Assert(X.Equal(libunlynx.SuiTe.Point().Mul(x, nil)), "GenKey: the public key does not match")
}

// H_split: splitting a scalar.
func H_split() {
	n := upTo("n", 129, 513)
	x := hx.Rand()
	if sym.Choice("kind", 2) == 1 {
		x = hx.Sc(sym.Int64("x", -1000, 1000))
	}
	o := x.Clone()
	X := libunlynx.SuiTe.Point().Mul(x, nil)
	sh := libunlynx.SplitScalar(x, n)
	sym.Assert(len(sh) == n+1, "SplitScalar: number of shares")
	s := libunlynx.SuiTe.Scalar().Zero()
	for _, y := range sh {
		s.Add(s, y)
	}
	sym.Assert(s.Equal(o), "SplitScalar: the shares do not sum to the scalar")
	sym.Assert(x.Equal(o), "SplitScalar changed the caller's scalar")
	// data encrypted for the scalar's key is decrypted with the shares
	v := sym.Int64("v", -1000, 1000)
	c := libunlynx.EncryptInt(X, v)
	m := c.C.Clone()
	for _, y := range sh {
		m.Sub(m, libunlynx.SuiTe.Point().Mul(y, c.K))
	}
	sym.Assert(m.Equal(hx.Pt(v)), "the shares do not decrypt")
}

// H_scalars: RandomScalarSlice has the requested length and no nil.
func H_scalars() {
	n := upTo("n", 257, 1001)
	var r []kyber.Scalar = libunlynx.RandomScalarSlice(n)
	sym.Assert(len(r) == n, "RandomScalarSlice: length")
	for i := range r {
		sym.Assert(r[i] != nil && !r[i].Equal(hx.Sc(0)), "RandomScalarSlice: value")
	}
}

// H_permutation: a random permutation contains each index once.
func H_permutation() {
	n := upTo("n", 6, 12)
	pi := libunlynx.RandomPermutation(n)
	sym.Assert(len(pi) == n, "RandomPermutation: length")
	for v := 0; v < n; v++ {
		k := 0
		for _, p := range pi {
			if p == v {
				k++
			}
		}
		sym.Assert(k == 1, "RandomPermutation: an index does not occur exactly once")
	}
}
