// Package c10: the shuffle permutes and re-randomises whole rows.
package c10

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func check(in, orig, out []libunlynx.CipherVector, pi []int, beta [][]kyber.Scalar, g, h kyber.Point, rows, cols int) {
	sym.Assert(len(out) == rows && len(pi) == rows && len(beta) == rows, "another number of rows")
	seen := make([]bool, rows)
	for _, q := range pi {
		sym.Assert(q >= 0 && q < rows && !seen[q], "the returned permutation is none")
		seen[q] = true
	}
	pt := libunlynx.SuiTe.Point
	for i := range out {
		src := orig[pi[i]]
		sym.Assert(len(out[i]) == cols, "a row of another length")
		sym.Assert(len(beta[pi[i]]) >= cols, "missing factors")
		for j := range out[i] {
			b := beta[pi[i]][j]
			wantK := pt().Add(src[j].K, pt().Mul(b, g))
			wantC := pt().Add(src[j].C, pt().Mul(b, h))
			sym.Assert(out[i][j].K.Equal(wantK) && out[i][j].C.Equal(wantC), "an output ciphertext is not the re-randomised input at its place")
		}
	}
	for i := range in {
		sym.Assert(hx.SameV(in[i], orig[i]), "the shuffle changed its input")
	}
}

func rows(rows, cols int) (in, orig []libunlynx.CipherVector) {
	in = make([]libunlynx.CipherVector, rows)
	for i := range in {
		in[i] = hx.RandCV(cols)
		orig = append(orig, hx.CopyV(in[i]))
	}
	return
}

// mutate changes the output in place: the input must not follow.
func mutate(in, orig, out []libunlynx.CipherVector) {
	for i := range out {
		for j := range out[i] {
			out[i][j].K.Add(out[i][j].K, hx.Pt(3))
			out[i][j].C.Add(out[i][j].C, hx.Pt(3))
		}
	}
	for i := range in {
		sym.Assert(hx.SameV(in[i], orig[i]), "changing the output changes the input")
	}
}

func dims() (int, int) {
	r := []int{0, 1, 2, 3, 4}
	c := []int{0, 1, 2, 3}
	if sym.Tier() > 0 {
		r = append(r, 5)
		c = append(c, 4, 5)
	}
	return r[sym.Choice("rows", len(r))], c[sym.Choice("cols", len(c))]
}

// H_shuffle: fresh factors, base point or any other generator.
func H_shuffle() {
	r, c := dims()
	_, h := hx.Key()
	g := hx.Pt(1)
	if sym.Choice("g", 2) == 1 {
		g = hx.RandPt()
	}
	in, orig := rows(r, c)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, g, h, nil)
	check(in, orig, out, pi, beta, g, h, r, c)
	mutate(in, orig, out)
}

// H_wide: rows longer than one batch, and many rows.
func H_wide() {
	_, h := hx.Key()
	g := hx.Pt(1)
	sym.RandForks(0)
	r, c := 2, 0
	var pre []libunlynxshuffle.CipherVectorScalar
	if sym.Choice("many", 2) == 0 {
		c = hx.Len("cols", 4, 257)
	} else {
		r, c = hx.Len("rows", 5, 257), 1+sym.Choice("cols", 2)
	}
	if k := sym.Choice("pre", 3); k > 0 {
		pre = libunlynxshuffle.CreatePrecomputedRandomize(g, h, libunlynx.SuiTe.RandomStream(), c+k-1, 11*k)
	}
	in, orig := rows(r, c)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, g, h, pre)
	check(in, orig, out, pi, beta, g, h, r, c)
	mutate(in, orig, out)
}

// H_precomputed: factors precomputed for the same keys, lines of the same or of a greater length.
func H_precomputed() {
	r := []int{0, 1, 2, 3}[sym.Choice("rows", 4)]
	c := []int{0, 1, 2}[sym.Choice("cols", 3)]
	_, h := hx.Key()
	g := hx.Pt(1)
	lines := []int{1, 2, 3}[sym.Choice("lines", 3)]
	size := c + []int{0, 1, 4}[sym.Choice("more", 3)]
	sym.Assume(r < 3 || lines < 3)
	pre := libunlynxshuffle.CreatePrecomputedRandomize(g, h, libunlynx.SuiTe.RandomStream(), size, lines)
	in, orig := rows(r, c)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, g, h, pre)
	check(in, orig, out, pi, beta, g, h, r, c)
	mutate(in, orig, out)
	for _, p := range pre {
		for j := range p.S {
			sym.Assert(p.CipherV[j].K.Equal(libunlynx.SuiTe.Point().Mul(p.S[j], g)) && p.CipherV[j].C.Equal(libunlynx.SuiTe.Point().Mul(p.S[j], h)), "the shuffle changed the precomputed values")
		}
	}
}

// H_decrypts: decryption of the shuffled rows gives the input values at the permuted places.
func H_decrypts() {
	x, X := hx.Key()
	r := 1 + sym.Choice("rows", 3)
	c := 1 + sym.Choice("cols", 2)
	vals := make([][]int64, r)
	in := make([]libunlynx.CipherVector, r)
	for i := range in {
		vals[i] = make([]int64, c)
		for j := range vals[i] {
			vals[i][j] = sym.Int64("v", -100000, 100000)
		}
		in[i] = hx.EncVec(X, vals[i])
	}
	out, pi, _ := libunlynxshuffle.ShuffleSequence(in, hx.Pt(1), X, nil)
	for i := range out {
		for j := range out[i] {
			sym.Assert(hx.Decrypts(x, out[i][j], vals[pi[i]][j]), "a shuffled ciphertext decrypts to another value")
		}
	}
}

// H_special: rows of unusual ciphertexts: null or equal ones, known or repeated components.
func H_special() {
	hx.Special()
	r, c := 1+sym.Choice("rows", 3), 1+sym.Choice("cols", 3)
	_, h := hx.Key()
	g := hx.Pt(1)
	var pre []libunlynxshuffle.CipherVectorScalar
	if sym.Choice("pre", 2) == 1 {
		pre = libunlynxshuffle.CreatePrecomputedRandomize(g, h, libunlynx.SuiTe.RandomStream(), c, 2)
	}
	in, orig := rows(r, c)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, g, h, pre)
	check(in, orig, out, pi, beta, g, h, r, c)
	mutate(in, orig, out)
}
