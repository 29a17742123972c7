// Package hx has helpers shared by the harnesses.
package hx

import (
	"fmt"
	"github.com/ldsec/unlynx/zz_verif/sym"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
)

// Panics runs f and tells whether it panicked.
func Panics(f func()) (msg string, p bool) {
	defer func() {
		if r := recover(); r != nil {
			msg, p = fmt.Sprint(r), true
		}
	}()
	f()
	return "", false
}

// Key is a fresh key pair.
func Key() (kyber.Scalar, kyber.Point) {
	x := libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.RandomStream())
	return x, libunlynx.SuiTe.Point().Mul(x, libunlynx.SuiTe.Point().Base())
}

// Sc is the scalar of an integer.
func Sc(i int64) kyber.Scalar { return libunlynx.SuiTe.Scalar().SetInt64(i) }

// Pt is i times the base point.
func Pt(i int64) kyber.Point { return libunlynx.SuiTe.Point().Mul(Sc(i), nil) }

// Rand is a fresh random scalar.
func Rand() kyber.Scalar {
	return libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.RandomStream())
}

// RandPt is a fresh random point.
func RandPt() kyber.Point { return libunlynx.SuiTe.Point().Mul(Rand(), nil) }

// Plain is the plaintext point C - xK of a ciphertext, computed here
// independently of the library's decryption.
func Plain(x kyber.Scalar, c libunlynx.CipherText) kyber.Point {
	s := libunlynx.SuiTe.Point().Mul(x, c.K)
	return libunlynx.SuiTe.Point().Sub(c.C, s)
}

// Decrypts tells whether c decrypts to the integer v under x.
func Decrypts(x kyber.Scalar, c libunlynx.CipherText, v int64) bool {
	return Plain(x, c).Equal(Pt(v))
}

// Enc encrypts v under pub with randomness r, independently of the library.
func Enc(pub kyber.Point, r kyber.Scalar, v int64) libunlynx.CipherText {
	k := libunlynx.SuiTe.Point().Mul(r, nil)
	s := libunlynx.SuiTe.Point().Mul(r, pub)
	return libunlynx.CipherText{K: k, C: s.Add(s, Pt(v))}
}

// EncR encrypts v with fresh randomness.
func EncR(pub kyber.Point, v int64) libunlynx.CipherText { return Enc(pub, Rand(), v) }

// EncVec encrypts values with fresh randomness.
func EncVec(pub kyber.Point, vs []int64) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(vs))
	for i, v := range vs {
		if mode > 0 {
			out[i] = Enc(pub, special(i), v)
		} else {
			out[i] = EncR(pub, v)
		}
	}
	return out
}

// RandCT is a ciphertext of two unrelated random points.
func RandCT() libunlynx.CipherText { return libunlynx.CipherText{K: RandPt(), C: RandPt()} }

// RandCV is a vector of such ciphertexts.
func RandCV(n int) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, n)
	for i := range out {
		out[i] = RandCT()
		if mode > 0 {
			out[i].K = Pt(0).Mul(special(i), nil)
		}
		switch mode {
		case 4: // all the same
			out[i].C = modeP.Clone()
		case 6: // null but for the first one
			if i > 0 {
				out[i].C = Pt(0)
			}
		}
	}
	return out
}

// Same tells whether two ciphertexts have equal components.
func Same(a, b libunlynx.CipherText) bool { return a.K.Equal(b.K) && a.C.Equal(b.C) }

// SameV compares vectors.
func SameV(a, b libunlynx.CipherVector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Copy is an independent copy of a ciphertext.
func Copy(c libunlynx.CipherText) libunlynx.CipherText {
	return libunlynx.CipherText{K: c.K.Clone(), C: c.C.Clone()}
}

// CopyV is an independent copy of a vector.
func CopyV(v libunlynx.CipherVector) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(v))
	for i := range v {
		out[i] = Copy(v[i])
	}
	return out
}

// Spots are the positions of a list of n elements to look at: all of a short
// list, otherwise the ends and the batch borders.
func Spots(n int) []int {
	var out []int
	if n < 10 {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	for _, i := range []int{0, 98, 99, 100, n - 1} {
		if i < n && (len(out) == 0 || i > out[len(out)-1]) {
			out = append(out, i)
		}
	}
	return out
}

// Pos is a position of a list of n > 0 elements: the first and last ones and
// those around the powers of two, tens and batches of the parallel loops.
func Pos(name string, n int) int {
	var l []int
	for _, p := range []int{0, 1, 2, 3, 8, 9, 10, 16, 32, 64, 99, 100, 128, 200, 255, 256, 512, 1000} {
		if p < n-1 {
			l = append(l, p)
		}
	}
	l = append(l, n-1)
	return l[sym.Choice(name, len(l))]
}

// Len is a length between lo and hi: all small ones, and those around powers
// of two, tens and the sizes of the batches of the parallel loops.
func Len(name string, lo, hi int) int {
	ls := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64, 65, 99, 100, 101, 128, 129, 200, 201, 255, 256, 257}
	if sym.Tier() > 0 {
		ls = append(ls, 13, 15, 18, 20, 21, 31, 34, 50, 51, 63, 66, 102, 127, 130, 199, 202, 250, 258, 299, 300, 301, 511, 512, 513, 1000, 1001)
	}
	var l []int
	for _, n := range ls {
		if n >= lo && n <= hi {
			l = append(l, n)
		}
	}
	return l[sym.Choice(name, len(l))]
}

// mode is how EncVec and RandCV make ciphertexts.
var (
	mode  int
	modeR kyber.Scalar
	modeP kyber.Point
)

// Exchange replaces one of the given points by another one, by its opposite or
// by a fixed point; the replacement differs from the original.
func Exchange(ps ...*kyber.Point) {
	i, j := sym.Choice("component", len(ps)), sym.Choice("replacement", len(ps)+3)
	var q kyber.Point
	switch {
	case j < len(ps):
		q = (*ps[j]).Clone()
	case j == len(ps):
		q = Pt(0)
	case j == len(ps)+1:
		q = Pt(1)
	default:
		q = libunlynx.SuiTe.Point().Neg(*ps[i])
	}
	sym.Assume(!q.Equal(*ps[i]))
	*ps[i] = q
}

// Special makes EncVec and RandCV choose unusual but valid randomness: 0 (K is
// null) or 1 (K is the base point) or -1, the same for all ciphertexts, cancelling
// out in pairs, or 0 for all but the first ciphertext of a vector; and arbitrary
// ciphertexts that are all the same or null.
func Special() {
	mode = 1 + sym.Choice("special", 6)
	modeR = Rand()
	modeP = RandPt()
}

func special(i int) kyber.Scalar {
	switch mode {
	case 1:
		return Sc(0)
	case 2:
		return Sc(1)
	case 3:
		return Sc(-1)
	case 5:
		if i%2 == 1 {
			return libunlynx.SuiTe.Scalar().Neg(modeR)
		}
	case 6:
		if i > 0 {
			return Sc(0)
		}
	}
	return modeR.Clone()
}
