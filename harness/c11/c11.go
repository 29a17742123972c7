// Package c11: shuffle proofs.
package c11

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func pt() kyber.Point { return libunlynx.SuiTe.Point() }

func rows(r, c int) []libunlynx.CipherVector {
	in := make([]libunlynx.CipherVector, r)
	for i := range in {
		in[i] = hx.RandCV(c)
	}
	return in
}

func dims() (int, int) {
	r := []int{2, 3, 4}
	c := []int{0, 1, 2, 3}
	if sym.Tier() > 0 {
		r = append(r, 5)
		c = append(c, 4)
	}
	return r[sym.Choice("rows", len(r))], c[sym.Choice("cols", len(c))]
}

func copyRows(l []libunlynx.CipherVector) []libunlynx.CipherVector {
	out := make([]libunlynx.CipherVector, len(l))
	for i := range l {
		out[i] = hx.CopyV(l[i])
	}
	return out
}

func copyProof(p libunlynxshuffle.PublishedShufflingProof) libunlynxshuffle.PublishedShufflingProof {
	return libunlynxshuffle.PublishedShufflingProof{OriginalList: copyRows(p.OriginalList), ShuffledList: copyRows(p.ShuffledList), G: p.G.Clone(), H: p.H.Clone(), HashProof: append([]byte{}, p.HashProof...)}
}

func sameRows(a, b []libunlynx.CipherVector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !hx.SameV(a[i], b[i]) {
			return false
		}
	}
	return true
}

// honest shuffles and proves; precomputed factors or fresh ones.
func honest(r, c int, precomp bool) (libunlynxshuffle.PublishedShufflingProof, kyber.Point) {
	_, h := hx.Key()
	in := rows(r, c)
	orig := copyRows(in)
	var pre []libunlynxshuffle.CipherVectorScalar
	if precomp && c == 2 && r < 4 && sym.Choice("pre", 2) == 1 {
		pre = libunlynxshuffle.CreatePrecomputedRandomize(hx.Pt(1), h, libunlynx.SuiTe.RandomStream(), c, 2)
	}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, hx.Pt(1), h, pre)
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, hx.Pt(1), h, beta, pi)
	sym.Assert(err == nil, "ShuffleProofCreation failed")
	sym.Assert(p.G.Equal(hx.Pt(1)) && p.H.Equal(h) && sameRows(p.OriginalList, orig) && sameRows(p.ShuffledList, out), "the proof publishes other data")
	return p, h
}

// H_honest: proofs of honest shuffles of every size, permutation and factor are accepted.
func H_honest() {
	r, c := dims()
	p, h := honest(r, c, true)
	sym.Assert(libunlynxshuffle.ShuffleProofVerification(p, h), "an honest proof is rejected")
	sym.Assert(libunlynxshuffle.ShuffleProofVerification(copyProof(p), h), "an honest proof is rejected")
}

// H_wide: rows longer than one batch of the parallel loops.
func H_wide() {
	p, h := honest(2, 101, false)
	sym.Assert(libunlynxshuffle.ShuffleProofVerification(p, h), "an honest proof is rejected")
	pos := []int{0, 99, 100}[sym.Choice("pos", 3)]
	t := copyProof(p)
	t.ShuffledList[1][pos].C.Add(t.ShuffledList[1][pos].C, hx.RandPt())
	sym.Assert(!libunlynxshuffle.ShuffleProofVerification(t, h), "an altered proof is accepted")
}

// H_altered: any component of any position differs.
func H_altered() {
	r := []int{2, 3}[sym.Choice("rows", 2)]
	c := []int{1, 2}[sym.Choice("cols", 2)]
	if sym.Tier() > 0 {
		c += sym.Choice("more", 2)
	}
	p, h := honest(r, c, false)
	i, j := sym.Choice("i", r), sym.Choice("j", c)
	d := hx.RandPt()
	switch sym.Choice("what", 4) {
	case 0:
		p = copyProof(p)
		p.OriginalList[i][j].K.Add(p.OriginalList[i][j].K, d)
	case 1:
		p = copyProof(p)
		p.OriginalList[i][j].C.Add(p.OriginalList[i][j].C, d)
	case 2:
		p = copyProof(p)
		p.ShuffledList[i][j].K.Add(p.ShuffledList[i][j].K, d)
	case 3:
		p = copyProof(p)
		p.ShuffledList[i][j].C.Add(p.ShuffledList[i][j].C, d)
	}
	sym.Assert(!libunlynxshuffle.ShuffleProofVerification(p, h), "a proof with an altered component is accepted")
}

// H_replaced: one published point replaced by another one of the proof or by a special point.
func H_replaced() {
	p, h := honest(2, 1+sym.Choice("cols", 2), false)
	p = copyProof(p)
	var ps []*kyber.Point
	for _, l := range [][]libunlynx.CipherVector{p.ShuffledList, p.OriginalList} {
		for i := range l {
			for j := range l[i] {
				ps = append(ps, &l[i][j].K, &l[i][j].C)
			}
		}
	}
	hx.Exchange(append(ps, &p.G, &p.H, &h)...)
	sym.Assert(!libunlynxshuffle.ShuffleProofVerification(p, h), "a proof with an altered component is accepted")
}

// H_exchanged: rows or columns exchanged after the proof was made, or other keys.
func H_exchanged() {
	r := []int{2, 3}[sym.Choice("rows", 2)]
	p, h := honest(r, 2, false)
	p = copyProof(p)
	l := p.OriginalList
	if sym.Choice("side", 2) == 1 {
		l = p.ShuffledList
	}
	switch sym.Choice("what", 6) {
	case 0:
		i := sym.Choice("i", r-1)
		l[i], l[i+1] = l[i+1], l[i]
	case 1:
		i := sym.Choice("i", r)
		l[i][0], l[i][1] = l[i][1], l[i][0]
	case 2:
		p.G.Add(p.G, hx.RandPt())
	case 3:
		p.H.Add(p.H, hx.RandPt())
	case 4: // every row's columns
		for i := range l {
			l[i][0], l[i][1] = l[i][1], l[i][0]
		}
	case 5: // the proof of another shuffle
		sym.Assume(r == 2)
		o, _ := honest(r, 2, false)
		p.HashProof = o.HashProof
	}
	sym.Assert(!libunlynxshuffle.ShuffleProofVerification(p, h), "a proof with exchanged data is accepted")
}

// H_coordinated: two components of one row altered so that a random
// combination of the row with coefficients derived from less than all data
// stays the same.
func H_coordinated() {
	r := []int{2, 3}[sym.Choice("rows", 2)]
	p, h := honest(r, 2, false)
	e, err := libunlynxshuffle.CipherVectorComputeE(h, p.OriginalList[0])
	sym.Assert(err == nil && len(e) == 2, "CipherVectorComputeE failed")
	p = copyProof(p)
	i := sym.Choice("i", r)
	d := hx.RandPt()
	l := p.OriginalList
	if sym.Choice("side", 2) == 1 {
		l = p.ShuffledList
	} else {
		sym.Assume(i > 0)
	}
	a, b := pt().Mul(e[1], d), pt().Neg(pt().Mul(e[0], d))
	if sym.Choice("part", 2) == 0 {
		l[i][0].C.Add(l[i][0].C, a)
		l[i][1].C.Add(l[i][1].C, b)
	} else {
		l[i][0].K.Add(l[i][0].K, a)
		l[i][1].K.Add(l[i][1].K, b)
	}
	sym.Assert(!libunlynxshuffle.ShuffleProofVerification(p, h), "a proof with two altered components is accepted")
}

// H_dishonest: a proof made for an output that is not a shuffle of the input.
func H_dishonest() {
	r, c := []int{2, 3}[sym.Choice("rows", 2)], 2
	_, h := hx.Key()
	in := rows(r, c)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, hx.Pt(1), h, nil)
	switch sym.Choice("what", 4) {
	case 0: // one value replaced
		out[sym.Choice("i", r)][sym.Choice("j", c)] = hx.RandCT()
	case 1: // a column taken from another row
		out[0][1], out[1][1] = out[1][1], out[0][1]
	case 2: // a row twice
		out[1] = out[0]
	case 3: // another permutation claimed
		pi[0], pi[1] = pi[1], pi[0]
	}
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, hx.Pt(1), h, beta, pi)
	if err == nil {
		sym.Assert(!libunlynxshuffle.ShuffleProofVerification(p, h), "a proof of something else than a shuffle is accepted")
	}
}

// H_sizes: published lists with inconsistent sizes are rejected without crashing.
func H_sizes() {
	r := []int{2, 3}[sym.Choice("rows", 2)]
	p, h := honest(r, 2, false)
	p = copyProof(p)
	var ok bool
	what := sym.Choice("what", 10)
	l := &p.OriginalList
	if sym.Choice("side", 2) == 1 {
		l = &p.ShuffledList
	}
	i := 0
	if what > 4 && what < 8 {
		i = sym.Choice("i", r)
	}
	switch what {
	case 0:
		*l = nil
	case 1:
		*l = (*l)[:1]
	case 2:
		*l = (*l)[:r-1]
	case 3:
		*l = append(*l, hx.RandCV(2))
	case 4:
		p.OriginalList, p.ShuffledList = nil, nil
	case 5:
		(*l)[i] = (*l)[i][:1]
	case 6:
		(*l)[i] = nil
	case 7:
		(*l)[i] = append((*l)[i], hx.RandCT())
	case 8:
		p.OriginalList, p.ShuffledList = p.OriginalList[:1], p.ShuffledList[:1]
	case 9:
		for k := range p.OriginalList {
			p.OriginalList[k], p.ShuffledList[k] = p.OriginalList[k][:1], p.ShuffledList[k][:1]
		}
	}
	msg, crash := hx.Panics(func() { ok = libunlynxshuffle.ShuffleProofVerification(p, h) })
	_ = msg
	sym.Assert(!crash, "verification of inconsistent sizes panics")
	sym.Assert(!ok, "a proof with inconsistent sizes is accepted")
}

// H_list: lists of proofs of several shuffles.
func H_list() {
	n := sym.Choice("n", 3)
	_, h := hx.Key()
	var orig, shuf [][]libunlynx.CipherVector
	var gs, hs []kyber.Point
	var betas [][][]kyber.Scalar
	var pis [][]int
	for k := 0; k < n; k++ {
		in := rows(2, 1+k%2)
		out, pi, beta := libunlynxshuffle.ShuffleSequence(in, hx.Pt(1), h, nil)
		orig, shuf, betas, pis = append(orig, in), append(shuf, out), append(betas, beta), append(pis, pi)
		gs, hs = append(gs, hx.Pt(1)), append(hs, h)
	}
	l, err := libunlynxshuffle.ShuffleListProofCreation(orig, shuf, gs, hs, betas, pis)
	sym.Assert(err == nil, "ShuffleListProofCreation failed")
	sym.Assert(len(l.List) == n, "another number of proofs")
	for k := range l.List {
		sym.Assert(sameRows(l.List[k].OriginalList, orig[k]) && sameRows(l.List[k].ShuffledList, shuf[k]), "a proof is about another shuffle")
	}
	sym.Assert(libunlynxshuffle.ShuffleListProofVerification(l, h, 1.0), "an honest list is rejected")
	if n == 0 {
		return
	}
	pos := sym.Choice("pos", n)
	l.List[pos] = copyProof(l.List[pos])
	l.List[pos].ShuffledList[1][0].C.Add(l.List[pos].ShuffledList[1][0].C, hx.RandPt())
	sym.Assert(!libunlynxshuffle.ShuffleListProofVerification(l, h, 1.0), "a list with an altered proof is accepted")
}

// H_otherKey: an honest shuffle for another key or base is no shuffle for the
// key the proof is verified for, whether published alone or in a list.
func H_otherKey() {
	r, c := 2+sym.Choice("rows", 2), 1+sym.Choice("cols", 2)
	p, h := honest(r, c, true)
	_, other := hx.Key()
	switch sym.Choice("key", 3) {
	case 1:
		other = hx.Pt(1)
	case 2:
		other = pt().Neg(h)
	}
	sym.Assert(!libunlynxshuffle.ShuffleProofVerification(p, other), "a proof for another key is accepted")
	l := libunlynxshuffle.PublishedShufflingListProof{List: []libunlynxshuffle.PublishedShufflingProof{p}}
	if sym.Choice("two", 2) == 1 {
		l.List = append(l.List, p)
	}
	sym.Assert(!libunlynxshuffle.ShuffleListProofVerification(l, other, 1.0), "a list of proofs for another key is accepted")
	sym.Assert(libunlynxshuffle.ShuffleListProofVerification(l, h, 1.0), "an honest list is rejected")
}

// H_longList: more proofs than one batch of the parallel loops, one of them altered.
func H_longList() {
	n := hx.Len("n", 3, 201)
	_, h := hx.Key()
	orig, shuf := make([][]libunlynx.CipherVector, n), make([][]libunlynx.CipherVector, n)
	gs, hs := make([]kyber.Point, n), make([]kyber.Point, n)
	betas, pis := make([][][]kyber.Scalar, n), make([][]int, n)
	for k := range orig {
		orig[k] = rows(2, 1)
		gs[k], hs[k] = hx.Pt(1), h
		pis[k] = []int{k % 2, 1 - k%2}
		for i := 0; i < 2; i++ {
			b := hx.Rand()
			betas[k] = append(betas[k], []kyber.Scalar{b})
		}
		for i := 0; i < 2; i++ {
			src, b := orig[k][pis[k][i]][0], betas[k][pis[k][i]][0]
			shuf[k] = append(shuf[k], libunlynx.CipherVector{{K: pt().Add(src.K, pt().Mul(b, nil)), C: pt().Add(src.C, pt().Mul(b, h))}})
		}
	}
	l, err := libunlynxshuffle.ShuffleListProofCreation(orig, shuf, gs, hs, betas, pis)
	sym.Assert(err == nil, "ShuffleListProofCreation failed")
	sym.Assert(len(l.List) == n, "another number of proofs")
	for k := range l.List {
		sym.Assert(sameRows(l.List[k].OriginalList, orig[k]) && sameRows(l.List[k].ShuffledList, shuf[k]), "a proof is about another shuffle")
	}
	sym.Assert(libunlynxshuffle.ShuffleListProofVerification(l, h, 1.0), "an honest list is rejected")
	pos := hx.Pos("pos", n)
	l.List[pos] = copyProof(l.List[pos])
	l.List[pos].ShuffledList[1][0].C.Add(l.List[pos].ShuffledList[1][0].C, hx.RandPt())
	sym.Assert(!libunlynxshuffle.ShuffleListProofVerification(l, h, 1.0), "a list with an altered proof is accepted")
}

// H_creationErrors: shuffles of less than two rows, or of inputs, outputs,
// permutations and factors that do not fit together, cannot be proved: an
// error and no crash.
func H_creationErrors() {
	r, c := sym.Choice("rows", 4), 1+sym.Choice("cols", 2)
	_, h := hx.Key()
	in := rows(r, c)
	out, pi, beta := rows(r, c), []int{}, [][]kyber.Scalar{}
	for i := 0; i < r; i++ {
		pi = append(pi, i)
		b := make([]kyber.Scalar, c)
		for j := range b {
			b[j] = hx.Sc(int64(1 + j))
		}
		beta = append(beta, b)
	}
	what := sym.Choice("what", 12)
	sym.Assume(r < 2 == (what == 0) && (what < 9 || r > 0))
	i := 0
	if r > 0 {
		i = sym.Choice("i", r)
	}
	switch what {
	case 1:
		in = in[1:]
	case 2:
		in = append(in, hx.RandCV(c))
	case 3:
		out = out[:r-1]
	case 4:
		out = append(out, hx.RandCV(c))
	case 5:
		pi = pi[:r-1]
	case 6:
		pi = append(pi, r)
	case 7:
		beta = beta[:r-1]
	case 8:
		beta = append(beta, beta[0])
	case 9:
		out[i] = out[i][1:]
	case 10:
		in[i] = append(in[i], hx.RandCT())
	case 11:
		out[i] = nil
	}
	var err error
	_, crash := hx.Panics(func() {
		_, err = libunlynxshuffle.ShuffleProofCreation(in, out, hx.Pt(1), h, beta, pi)
	})
	sym.Assert(!crash, "proof creation panics")
	sym.Assert(err != nil, "proof creation returns no error")
}

// H_special: honest proofs for rows of unusual ciphertexts: null or equal ones, known or repeated components.
func H_special() {
	hx.Special()
	p, h := honest(2+sym.Choice("rows", 2), 1+sym.Choice("cols", 3), true)
	sym.Assert(libunlynxshuffle.ShuffleProofVerification(p, h), "an honest proof is rejected")
}
