// Package c06: serialisation of cryptographic values.
package c06

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

// ct is a ciphertext of one of several shapes, with symbolic content.
func ct() libunlynx.CipherText {
	switch sym.Choice("shape", 4) {
	case 0:
		return hx.RandCT()
	case 1:
		_, X := hx.Key()
		return hx.EncR(X, sym.Int64("v", -100000, 100000))
	case 2:
		return libunlynx.IntToCipherText(sym.Int64("v", -100000, 100000))
	}
	return *libunlynx.NewCipherText()
}

// H_ciphertext: bytes and base64 of one ciphertext.
func H_ciphertext() {
	c := ct()
	o := hx.Copy(c)
	b, err := c.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	sym.Assert(len(b) == libunlynx.CipherTextByteSize(), "CipherTextByteSize is not the size of the encoding")
	d := libunlynx.CipherText{}
	sym.Assert(d.FromBytes(b) == nil, "FromBytes failed")
	sym.Assert(hx.Same(d, o), "bytes: another ciphertext")
	s, err := c.Serialize()
	sym.Assert(err == nil, "Serialize failed")
	e := libunlynx.CipherText{}
	sym.Assert(e.Deserialize(s) == nil, "Deserialize failed")
	sym.Assert(hx.Same(e, o), "base64: another ciphertext")
	f, err := libunlynx.NewCipherTextFromBase64(s)
	sym.Assert(err == nil, "NewCipherTextFromBase64 failed")
	sym.Assert(hx.Same(*f, o), "NewCipherTextFromBase64: another ciphertext")
	sym.Assert(hx.Same(c, o), "encoding changed the ciphertext")
	// decoding into a used ciphertext
	g := hx.RandCT()
	sym.Assert(g.FromBytes(b) == nil, "FromBytes failed")
	sym.Assert(hx.Same(g, o), "FromBytes into a used ciphertext: another ciphertext")
	// the decoded ciphertext does not share storage with the bytes
	for i := range b {
		b[i] = 0
	}
	sym.Assert(hx.Same(d, o), "the decoded ciphertext changes with the buffer")
}

// H_elements: base64 of points and scalars.
func H_elements() {
	p := []kyber.Point{hx.RandPt(), hx.Pt(0), hx.Pt(sym.Int64("v", -100000, 100000))}[sym.Choice("p", 3)]
	s, err := libunlynx.SerializePoint(p)
	sym.Assert(err == nil, "SerializePoint failed")
	q, err := libunlynx.DeserializePoint(s)
	sym.Assert(err == nil && q.Equal(p), "DeserializePoint: another point")
	s2, err := libunlynx.SerializeElement(p)
	sym.Assert(err == nil && s2 == s, "SerializeElement differs from SerializePoint")
	k := []kyber.Scalar{hx.Rand(), hx.Sc(0), hx.Sc(sym.Int64("w", -100000, 100000))}[sym.Choice("k", 3)]
	t, err := libunlynx.SerializeScalar(k)
	sym.Assert(err == nil, "SerializeScalar failed")
	l, err := libunlynx.DeserializeScalar(t)
	sym.Assert(err == nil && l.Equal(k), "DeserializeScalar: another scalar")
}

// H_vector: a vector of any length.
func H_vector() {
	n := hx.Len("n", 0, 1001)
	cv := hx.RandCV(n)
	if n > 0 {
		cv[sym.Choice("pos", min(n, 3))] = ct()
	}
	o := hx.CopyV(cv)
	b, l, err := cv.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	sym.Assert(l == n, "ToBytes: wrong length")
	sym.Assert(len(b) == n*libunlynx.CipherTextByteSize(), "ToBytes: wrong number of bytes")
	d := hx.RandCV(sym.Choice("used", 2) * 2)
	sym.Assert(d.FromBytes(b, l) == nil, "FromBytes failed")
	sym.Assert(hx.SameV(d, o), "another vector")
	sym.Assert(hx.SameV(cv, o), "encoding changed the vector")
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// H_array: an array of vectors of mixed lengths.
func H_array() {
	ms := 4
	if sym.Tier() > 0 {
		ms = 5
	}
	m := sym.Choice("m", ms)
	in := make([]libunlynx.CipherVector, m)
	want := make([]libunlynx.CipherVector, m)
	cand := []int{0, 1, 2, 101}
	for i := range in {
		in[i] = hx.RandCV(cand[sym.Choice("len", len(cand)-min(i, 1))])
		want[i] = hx.CopyV(in[i])
	}
	b, l, err := libunlynx.ArrayCipherVectorToBytes(in)
	sym.Assert(err == nil, "ArrayCipherVectorToBytes failed")
	out, err := libunlynx.FromBytesToArrayCipherVector(b, l)
	sym.Assert(err == nil, "FromBytesToArrayCipherVector failed")
	sym.Assert(len(out) == m, "another number of vectors")
	for i := range out {
		sym.Assert(hx.SameV(out[i], want[i]), "another vector")
		sym.Assert(hx.SameV(in[i], want[i]), "encoding changed a vector")
	}
	sizes := libunlynxtools.UnsafeCastBytesToInts(l)
	sym.Assert(len(sizes) == m, "the lengths are not those of the vectors")
	for i := range sizes {
		sym.Assert(sizes[i] == len(in[i]), "the lengths are not those of the vectors")
	}
}

// H_points: lists of points.
func H_points() {
	n := hx.Len("n", 0, 1001)
	ps := make([]kyber.Point, n)
	for i := range ps {
		ps[i] = hx.RandPt()
	}
	if n > 1 {
		ps[1] = []kyber.Point{hx.Pt(0), hx.Pt(1), ps[0]}[sym.Choice("special", 3)]
	}
	b, err := libunlynx.AbstractPointsToBytes(ps)
	sym.Assert(err == nil, "AbstractPointsToBytes failed")
	out, err := libunlynx.FromBytesToAbstractPoints(b)
	sym.Assert(err == nil, "FromBytesToAbstractPoints failed")
	sym.Assert(len(out) == n, "another number of points")
	for i := range out {
		sym.Assert(out[i].Equal(ps[i]), "another point")
	}
}

// H_ints: lists of non-negative 32-bit integers.
func H_ints() {
	n := hx.Len("n", 0, 257)
	in := make([]int, n)
	for i := range in {
		in[i] = 1<<32 - 1 - i*i
		if i < 4 || i == n-1 {
			in[i] = sym.Int("i", 0, 1<<32-1)
		}
	}
	b := libunlynxtools.UnsafeCastIntsToBytes(in)
	sym.Assert(len(b) == 4*n, "wrong number of bytes")
	out := libunlynxtools.UnsafeCastBytesToInts(b)
	sym.Assert(len(out) == n, "another number of integers")
	for i := range out {
		sym.Assert(out[i] == in[i], "another integer")
	}
}

// H_manyvectors: an array of many vectors.
func H_manyvectors() {
	m := hx.Len("m", 4, 257)
	in := make([]libunlynx.CipherVector, m)
	want := make([]libunlynx.CipherVector, m)
	for i := range in {
		in[i] = hx.RandCV(i % 4)
		if i == m-1 {
			in[i] = hx.RandCV([]int{0, 1, 101, 257}[sym.Choice("last", 4)])
		}
		want[i] = hx.CopyV(in[i])
	}
	b, l, err := libunlynx.ArrayCipherVectorToBytes(in)
	sym.Assert(err == nil, "ArrayCipherVectorToBytes failed")
	out, err := libunlynx.FromBytesToArrayCipherVector(b, l)
	sym.Assert(err == nil, "FromBytesToArrayCipherVector failed")
	sym.Assert(len(out) == m, "another number of vectors")
	for i := range out {
		sym.Assert(hx.SameV(out[i], want[i]) && hx.SameV(in[i], want[i]), "another vector")
	}
}
