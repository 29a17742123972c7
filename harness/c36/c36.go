// Package c36: precomputed shuffle material.
package c36

import (
	"io/ioutil"
	"os"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func mul(s kyber.Scalar, p kyber.Point) kyber.Point { return libunlynx.SuiTe.Point().Mul(s, p) }

// valid checks that every element of every line corresponds to its scalar.
func valid(pre []libunlynxshuffle.CipherVectorScalar, g, h kyber.Point, msg string) {
	for _, l := range pre {
		sym.Assert(len(l.S) == len(l.CipherV), msg+": not one scalar per element")
		for i := range l.S {
			sym.Assert(l.CipherV[i].K.Equal(mul(l.S[i], g)) && l.CipherV[i].C.Equal(mul(l.S[i], h)), msg+": points of another scalar or key")
		}
	}
}

// H_create: precomputation for any base and key.
func H_create() {
	g, h := hx.RandPt(), hx.RandPt()
	size := hx.Len("size", 0, 257)
	lines := hx.Len("lines", 0, 257)
	sym.Assume(size < 3 || lines < 3 || size*lines < 145)
	pre := libunlynxshuffle.CreatePrecomputedRandomize(g, h, libunlynx.SuiTe.RandomStream(), size, lines)
	sym.Assert(len(pre) == lines, "another number of lines")
	for _, l := range pre {
		sym.Assert(len(l.S) == size && len(l.CipherV) == size, "another number of elements")
	}
	valid(pre, g, h, "created")
}

func sameAll(a, b []libunlynxshuffle.CipherVectorScalar) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i].S) != len(b[i].S) || !hx.SameV(a[i].CipherV, b[i].CipherV) {
			return false
		}
		for j := range a[i].S {
			if !a[i].S[j].Equal(b[i].S[j]) {
				return false
			}
		}
	}
	return true
}

// H_encode: encoding and decoding, in memory and through a file.
func H_encode() {
	n := sym.Choice("lines", 4)
	in := make([]libunlynxshuffle.CipherVectorScalar, n)
	o := make([]libunlynxshuffle.CipherVectorScalar, n)
	for i := range in {
		k := sym.Choice("elements", 4)
		for j := 0; j < k; j++ {
			s := []kyber.Scalar{hx.Rand(), hx.Sc(sym.Int64("s", -1000, 1000))}[(i+j)%2]
			c := hx.RandCT()
			in[i].S, in[i].CipherV = append(in[i].S, s), append(in[i].CipherV, c)
			o[i].S, o[i].CipherV = append(o[i].S, s.Clone()), append(o[i].CipherV, hx.Copy(c))
		}
	}
	enc, err := libunlynxshuffle.EncodeCipherVectorScalar(in)
	sym.Assert(err == nil, "EncodeCipherVectorScalar failed")
	sym.Assert(sameAll(in, o), "encoding changed the precomputation")
	dec, err := libunlynxshuffle.DecodeCipherVectorScalar(enc)
	sym.Assert(err == nil, "DecodeCipherVectorScalar failed")
	sym.Assert(sameAll(dec, o), "another precomputation")
	dir, err := ioutil.TempDir("", "verif")
	sym.Assert(err == nil, "no directory")
	defer os.RemoveAll(dir)
	name := dir + "/pre.gob"
	if sym.Choice("overwrite", 2) == 1 {
		sym.Assert(libunlynxtools.WriteToGobFile(name, []libunlynxshuffle.CipherVectorScalarBytes{{S: [][]byte{{1, 2, 3}}}}) == nil, "WriteToGobFile failed")
	}
	sym.Assert(libunlynxtools.WriteToGobFile(name, enc) == nil, "WriteToGobFile failed")
	back, err := libunlynxshuffle.ReadPrecomputedFile(name)
	sym.Assert(err == nil, "ReadPrecomputedFile failed")
	sym.Assert(sameAll(back, o), "another precomputation in the file")
}

// H_encodeLarge: many lines or elements.
func H_encodeLarge() {
	n, k := hx.Len("k", 4, 129), 2
	if sym.Choice("kind", 2) == 1 {
		n, k = k, n
	}
	in := make([]libunlynxshuffle.CipherVectorScalar, n)
	for i := range in {
		for j := 0; j < k+i%2; j++ {
			in[i].S, in[i].CipherV = append(in[i].S, hx.Rand()), append(in[i].CipherV, hx.RandCT())
		}
	}
	enc, err := libunlynxshuffle.EncodeCipherVectorScalar(in)
	sym.Assert(err == nil, "EncodeCipherVectorScalar failed")
	dec, err := libunlynxshuffle.DecodeCipherVectorScalar(enc)
	sym.Assert(err == nil, "DecodeCipherVectorScalar failed")
	sym.Assert(sameAll(dec, in), "another precomputation")
	dir, err := ioutil.TempDir("", "verif")
	sym.Assert(err == nil, "no directory")
	defer os.RemoveAll(dir)
	sym.Assert(libunlynxtools.WriteToGobFile(dir+"/pre.gob", enc) == nil, "WriteToGobFile failed")
	back, err := libunlynxshuffle.ReadPrecomputedFile(dir + "/pre.gob")
	sym.Assert(err == nil, "ReadPrecomputedFile failed")
	sym.Assert(sameAll(back, in), "another precomputation in the file")
}

// H_requestLarge: a precomputation of any size, after one of any size.
func H_requestLarge() {
	dir, err := ioutil.TempDir("", "verif")
	sym.Assert(err == nil, "no directory")
	defer os.RemoveAll(dir)
	name := dir + "/pre.gob"
	_, h := hx.Key()
	size := hx.Len("size", 4, 65)
	early := size + []int{-3, -1, 0, 1, 40}[sym.Choice("early", 5)]
	_, err = libunlynxshuffle.PrecomputationWritingForShuffling(true, name, "s", hx.Rand(), h, early)
	sym.Assert(err == nil, "PrecomputationWritingForShuffling failed")
	pre, err := libunlynxshuffle.PrecomputationWritingForShuffling(true, name, "s", hx.Rand(), h, size)
	sym.Assert(err == nil, "PrecomputationWritingForShuffling failed")
	sym.Assert(len(pre) >= 10, "fewer lines than requested")
	for _, l := range pre {
		sym.Assert(len(l.S) >= 2*size && len(l.CipherV) >= 2*size, "fewer elements than requested")
	}
	valid(pre, hx.Pt(1), h, "requested")
}

// H_missing: no file.
func H_missing() {
	dir, err := ioutil.TempDir("", "verif")
	sym.Assert(err == nil, "no directory")
	defer os.RemoveAll(dir)
	pre, err := libunlynxshuffle.ReadPrecomputedFile(dir + "/none.gob")
	sym.Assert(err == nil && pre == nil, "a file that does not exist is read")
	var x []libunlynxshuffle.CipherVectorScalarBytes
	sym.Assert(libunlynxtools.ReadFromGobFile(dir+"/none.gob", &x) != nil, "ReadFromGobFile reads a file that does not exist")
}

// H_request: a precomputation is requested, with or without a file of an earlier one.
func H_request() {
	dir, err := ioutil.TempDir("", "verif")
	sym.Assert(err == nil, "no directory")
	defer os.RemoveAll(dir)
	name := dir + "/pre.gob"
	_, h := hx.Key()
	secret := hx.Rand()
	size := sym.Choice("size", 4)
	app := sym.Choice("app", 2) == 1
	switch sym.Choice("earlier", 4) {
	case 1: // same key
		_, err := libunlynxshuffle.PrecomputationWritingForShuffling(true, name, "s", hx.Rand(), h, sym.Choice("earliersize", 4))
		sym.Assert(err == nil, "PrecomputationWritingForShuffling failed")
	case 2: // another key
		_, err := libunlynxshuffle.PrecomputeForShuffling("s", name, hx.Rand(), hx.RandPt(), sym.Choice("earliersize", 4))
		sym.Assert(err == nil, "PrecomputeForShuffling failed")
	case 3: // fewer lines
		enc, err := libunlynxshuffle.EncodeCipherVectorScalar(libunlynxshuffle.CreatePrecomputedRandomize(hx.Pt(1), h, libunlynx.SuiTe.RandomStream(), 2*size, sym.Choice("lines", 2)))
		sym.Assert(err == nil, "EncodeCipherVectorScalar failed")
		sym.Assert(libunlynxtools.WriteToGobFile(name, enc) == nil, "WriteToGobFile failed")
	}
	pre, err := libunlynxshuffle.PrecomputationWritingForShuffling(app, name, "s", secret, h, size)
	sym.Assert(err == nil, "PrecomputationWritingForShuffling failed")
	sym.Assert(len(pre) >= 10, "fewer lines than requested")
	for _, l := range pre {
		sym.Assert(len(l.S) >= 2*size && len(l.CipherV) >= 2*size, "fewer elements than requested")
	}
	valid(pre, hx.Pt(1), h, "requested")
	if app {
		back, err := libunlynxshuffle.ReadPrecomputedFile(name)
		sym.Assert(err == nil, "ReadPrecomputedFile failed")
		sym.Assert(sameAll(back, pre), "the file holds another precomputation")
		again, err := libunlynxshuffle.PrecomputationWritingForShuffling(true, name, "s", hx.Rand(), h, size)
		sym.Assert(err == nil, "PrecomputationWritingForShuffling failed")
		sym.Assert(sameAll(again, pre), "the file was not used")
	}
}
