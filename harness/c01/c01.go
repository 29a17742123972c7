// Package c01: decrypting an encryption returns the plaintext.
package c01

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func lim() int64 {
	if sym.Tier() > 0 {
		return 40
	}
	return 6
}

const maxInt = int64(100000) - 1

// H_encrypt: EncryptInt, EncryptIntGetR and EncryptScalar of any value encrypt that value.
func H_encrypt() {
	x, X := libunlynx.GenKey()
	v := sym.Int64("v", -maxInt, maxInt)
	sym.Assert(hx.Decrypts(x, *libunlynx.EncryptInt(X, v), v), "EncryptInt encrypts another value")
	c, r := libunlynx.EncryptIntGetR(X, v)
	sym.Assert(hx.Same(*c, hx.Enc(X, r, v)), "EncryptIntGetR: the returned randomness is not the one used")
	s := hx.Rand()
	cs := libunlynx.EncryptScalar(X, s)
	sym.Assert(hx.Plain(x, *cs).Equal(libunlynx.SuiTe.Point().Mul(s, nil)), "EncryptScalar encrypts another value")
	sym.Assert(libunlynx.IntToPoint(v).Equal(hx.Pt(v)), "IntToPoint")
	ct := libunlynx.IntToCipherText(v)
	sym.Assert(hx.Decrypts(x, ct, v), "IntToCipherText")
}

// H_decrypt: decryption of a value in range (first decryption of the process).
func H_decrypt() {
	x, X := hx.Key()
	v := sym.Int64("v", 0, lim())
	c := hx.EncR(X, v)
	k := hx.Copy(c)
	got := libunlynx.DecryptInt(x, c)
	sym.Assert(got == v, "DecryptInt returns another value")
	sym.Assert(hx.Same(c, k), "DecryptInt changed the ciphertext")
}

// H_decryptneg: signed decryption of a value in range.
func H_decryptneg() {
	x, X := hx.Key()
	v := sym.Int64("v", -lim(), lim())
	c := hx.EncR(X, v)
	sym.Assert(libunlynx.DecryptIntWithNeg(x, c) == v, "DecryptIntWithNeg returns another value")
}

// H_border: the largest and the smallest value that can be decrypted.
func H_border() {
	x, X := hx.Key()
	switch sym.Choice("side", 3) {
	case 0:
		sym.Assert(libunlynx.DecryptInt(x, hx.EncR(X, maxInt)) == maxInt, "DecryptInt returns another value")
	case 1:
		sym.Assert(libunlynx.DecryptIntWithNeg(x, hx.EncR(X, maxInt)) == maxInt, "DecryptIntWithNeg returns another value")
	case 2:
		sym.Assert(libunlynx.DecryptIntWithNeg(x, hx.EncR(X, -maxInt)) == -maxInt, "DecryptIntWithNeg returns another value")
	}
}

// H_zero: the zero test answers 0 exactly for encryptions of 0.
func H_zero() {
	x, X := hx.Key()
	v := sym.Int64("v", -1<<40, 1<<40)
	c := hx.EncR(X, v)
	z := libunlynx.DecryptCheckZero(x, c)
	sym.Assert((z == 0) == (v == 0), "zero test wrong")
	sym.Assert(z == 0 || z == 1, "zero test neither 0 nor 1")
	n := hx.Len("n", 0, 257)
	vs := make([]int64, n)
	for i := range vs {
		vs[i] = int64(i%3) - 1
		if i < 3 || i == n-1 {
			vs[i] = sym.Int64("w", -100, 100)
		}
	}
	cv := hx.EncVec(X, vs)
	zs := libunlynx.DecryptCheckZeroVector(x, &cv)
	sym.Assert(len(zs) == n, "zero test length")
	for i := range vs {
		sym.Assert((zs[i] == 0) == (vs[i] == 0), "vector zero test wrong")
	}
}

func values(n int, lo, hi int64) []int64 {
	vs := make([]int64, n)
	for i := range vs {
		vs[i] = sym.Int64("v", lo, hi)
	}
	return vs
}

func lengths() int {
	return hx.Len("n", 0, 1001)
}

// H_vector: vector encryption keeps positions, for every length.
func H_vector() {
	x, X := hx.Key()
	n := lengths()
	vs := values(n, -maxInt, maxInt)
	old := append([]int64{}, vs...)
	cv := *libunlynx.EncryptIntVector(X, vs)
	sym.Assert(len(cv) == n, "EncryptIntVector length")
	cr, rs := libunlynx.EncryptIntVectorGetRs(X, vs)
	sym.Assert(len(*cr) == n && len(rs) == n, "EncryptIntVectorGetRs length")
	for i := range vs {
		sym.Assert(hx.Decrypts(x, cv[i], old[i]), "EncryptIntVector: wrong value at a position")
		sym.Assert(hx.Same((*cr)[i], hx.Enc(X, rs[i], old[i])), "EncryptIntVectorGetRs: wrong value or randomness at a position")
		sym.Assert(vs[i] == old[i], "input changed")
	}
	nv := *libunlynx.NullCipherVector(n, X)
	sym.Assert(len(nv) == n, "NullCipherVector length")
	for i := range nv {
		sym.Assert(hx.Decrypts(x, nv[i], 0), "NullCipherVector is not zero")
	}
	iv := libunlynx.IntArrayToCipherVector(vs)
	sym.Assert(len(iv) == n, "IntArrayToCipherVector length")
	for i := range iv {
		sym.Assert(hx.Decrypts(x, iv[i], old[i]), "IntArrayToCipherVector: wrong value")
	}
}

// H_scalars: vector encryption of scalars.
func H_scalars() {
	x, X := hx.Key()
	n := lengths()
	ss := make([]kyber.Scalar, n)
	for i := range ss {
		ss[i] = hx.Rand()
	}
	cv := *libunlynx.EncryptScalarVector(X, ss)
	sym.Assert(len(cv) == n, "EncryptScalarVector length")
	for i := range ss {
		sym.Assert(hx.Plain(x, cv[i]).Equal(libunlynx.SuiTe.Point().Mul(ss[i], nil)), "EncryptScalarVector: wrong value at a position")
	}
}

// H_decryptvec: vector decryption keeps positions.
func H_decryptvec() {
	x, X := hx.Key()
	n := sym.Choice("n", 6)
	vs := values(n, 0, 2)
	if n == 4 {
		vs = make([]int64, 101)
		n, vs[100] = 101, sym.Int64("v", 0, 2)
	}
	if n == 5 {
		vs = make([]int64, 257)
		n, vs[256], vs[128], vs[10] = 257, 1, 2, 3
	}
	cv := hx.EncVec(X, vs)
	got := libunlynx.DecryptIntVector(x, &cv)
	sym.Assert(len(got) == n, "DecryptIntVector length")
	for i := range vs {
		sym.Assert(got[i] == vs[i], "DecryptIntVector: wrong value at a position")
	}
}

// H_decryptvecneg: signed vector decryption keeps positions.
func H_decryptvecneg() {
	x, X := hx.Key()
	n := sym.Choice("n", 4)
	vs := values(n, -2, 2)
	if n == 3 {
		vs = make([]int64, 257)
		n, vs[256], vs[128], vs[100], vs[10] = 257, -1, 2, 1, -2
	}
	cv := hx.EncVec(X, vs)
	got := libunlynx.DecryptIntVectorWithNeg(x, &cv)
	sym.Assert(len(got) == n, "DecryptIntVectorWithNeg length")
	for i := range vs {
		sym.Assert(got[i] == vs[i], "DecryptIntVectorWithNeg: wrong value at a position")
	}
}

// H_keys: a generated key pair matches.
func H_keys() {
	x, X := libunlynx.GenKey()
	sym.Assert(X.Equal(libunlynx.SuiTe.Point().Mul(x, nil)), "GenKey: the public key does not match")
}
