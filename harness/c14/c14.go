// Package c14: proofs of the tagging steps.
package c14

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	dt "github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/proof"
)

func length() int { return hx.Len("n", 0, 257) }

func pt() kyber.Point { return libunlynx.SuiTe.Point() }

func copyCr(p dt.PublishedDDTCreationProof) dt.PublishedDDTCreationProof {
	return dt.PublishedDDTCreationProof{Proof: append([]byte{}, p.Proof...), Ciminus11Si: p.Ciminus11Si.Clone(), CTbef: hx.Copy(p.CTbef), CTaft: hx.Copy(p.CTaft)}
}

func tamperCr(p *dt.PublishedDDTCreationProof, how int) {
	d := hx.RandPt()
	switch how {
	case 0:
		p.Ciminus11Si.Add(p.Ciminus11Si, d)
	case 1:
		p.CTbef.K.Add(p.CTbef.K, d)
	case 2:
		p.CTbef.C.Add(p.CTbef.C, d)
	case 3:
		p.CTaft.K.Add(p.CTaft.K, d)
	case 4:
		p.CTaft.C.Add(p.CTaft.C, d)
	}
}

// H_creation: proof of one tagging step, honest and with every component altered.
func H_creation() {
	k, K := hx.Key()
	s := hx.Rand()
	SB := pt().Mul(s, nil)
	bef := hx.RandCT()
	aft := dt.DeterministicTag(bef, k, s)
	p, err := dt.DeterministicTagCrProofCreation(bef, aft, K, k, s)
	sym.Assert(err == nil, "DeterministicTagCrProofCreation failed")
	sym.Assert(dt.DeterministicTagCrProofVerification(p, K, SB), "an honest proof is rejected")
	sym.Assert(hx.Same(p.CTbef, bef) && hx.Same(p.CTaft, aft), "the proof is about other ciphertexts")
	t := copyCr(p)
	how := sym.Choice("how", 7)
	switch how {
	case 5:
		sym.Assert(!dt.DeterministicTagCrProofVerification(t, hx.RandPt(), SB), "accepted for another key")
	case 6:
		sym.Assert(!dt.DeterministicTagCrProofVerification(t, K, hx.RandPt()), "accepted for another secret")
	default:
		tamperCr(&t, how)
		sym.Assert(!dt.DeterministicTagCrProofVerification(t, K, SB), "an altered proof is accepted")
	}
}

// H_exchanged: one published component of a proof replaced by another one or a special point.
func H_exchanged() {
	if sym.Choice("kind", 2) == 0 {
		k, K := hx.Key()
		s := hx.Rand()
		SB := pt().Mul(s, nil)
		bef := hx.RandCT()
		p, err := dt.DeterministicTagCrProofCreation(bef, dt.DeterministicTag(bef, k, s), K, k, s)
		sym.Assert(err == nil, "DeterministicTagCrProofCreation failed")
		t := copyCr(p)
		hx.Exchange(&t.CTbef.K, &t.CTbef.C, &t.CTaft.K, &t.CTaft.C, &t.Ciminus11Si, &K, &SB)
		sym.Assert(!dt.DeterministicTagCrProofVerification(t, K, SB), "an altered proof is accepted")
		return
	}
	c1, s := hx.RandPt(), hx.Rand()
	c2 := pt().Mul(s, nil)
	p, err := dt.DeterministicTagAdditionProofCreation(c1, s, c2, pt().Add(c1, c2))
	sym.Assert(err == nil, "DeterministicTagAdditionProofCreation failed")
	hx.Exchange(&p.C1, &p.C2, &p.R)
	sym.Assert(!dt.DeterministicTagAdditionProofVerification(p), "an altered proof is accepted")
}

// H_false: results that were not computed with the claimed key and secret.
func H_false() {
	k, K := hx.Key()
	s := hx.Rand()
	k2, K2 := hx.Key()
	s2 := hx.Rand()
	SB, SB2 := pt().Mul(s, nil), pt().Mul(s2, nil)
	bef := hx.RandCT()
	aft := dt.DeterministicTag(bef, k, s)
	var p dt.PublishedDDTCreationProof
	var err error
	vK, vSB := K, SB
	switch sym.Choice("how", 9) {
	case 0:
		aft.C.Add(aft.C, hx.RandPt())
		p, err = dt.DeterministicTagCrProofCreation(bef, aft, K, k, s)
	case 1:
		aft.K.Add(aft.K, hx.RandPt())
		p, err = dt.DeterministicTagCrProofCreation(bef, aft, K, k, s)
	case 2:
		p, err = dt.DeterministicTagCrProofCreation(bef, dt.DeterministicTag(bef, k2, s), K, k, s)
	case 3:
		p, err = dt.DeterministicTagCrProofCreation(bef, dt.DeterministicTag(bef, k, s2), K, k, s)
	case 4:
		p, err = dt.DeterministicTagCrProofCreation(bef, aft, K2, k2, s)
		vK = K2
	case 5:
		p, err = dt.DeterministicTagCrProofCreation(bef, aft, K, k, s2)
		vSB = SB2
	case 6:
		p, err = dt.DeterministicTagCrProofCreation(bef, aft, K2, k, s)
		vK = K2
	case 7:
		p, err = dt.DeterministicTagCrProofCreation(hx.RandCT(), aft, K, k, s)
	case 8: // arguments exchanged
		p, err = dt.DeterministicTagCrProofCreation(bef, aft, K, s, k)
	}
	if err == nil {
		sym.Assert(!dt.DeterministicTagCrProofVerification(p, vK, vSB), "a proof of a false result is accepted")
	}
}

// H_forged: a proof made by a dishonest server that picks the auxiliary point itself.
func H_forged() {
	k, K := hx.Key()
	s := hx.Rand()
	SB := pt().Mul(s, nil)
	bef := hx.RandCT()
	aft := libunlynx.CipherText{K: pt().Mul(s, bef.K), C: hx.RandPt()} // not the tag of bef
	aux := pt().Sub(aft.C, pt().Mul(s, bef.C))
	aux.Mul(libunlynx.SuiTe.Scalar().Inv(k), aux)
	rep := func(p string, x ...string) proof.Predicate { return proof.Rep(p, x...) }
	and := proof.And(rep("ci1", "s", "ciminus11"), rep("K", "k", "B"))
	and = proof.And(and, rep("ci2", "s", "ciminus12", "k", "ciminus11Si"))
	and = proof.And(and, rep("SB", "s", "B"))
	and = proof.And(and)
	sval := map[string]kyber.Scalar{"k": k, "s": s}
	pval := map[string]kyber.Point{"B": pt().Base(), "K": K, "SB": SB, "ciminus11Si": aux, "ciminus12": bef.C, "ciminus11": bef.K, "ci2": aft.C, "ci1": aft.K}
	b, err := proof.HashProve(libunlynx.SuiTe, "proofTest", and.Prover(libunlynx.SuiTe, sval, pval, nil))
	sym.Assert(err == nil, "forging failed")
	p := dt.PublishedDDTCreationProof{Proof: b, Ciminus11Si: aux, CTbef: bef, CTaft: aft}
	sym.Assert(!dt.DeterministicTagCrProofVerification(p, K, SB), "a forged tag is accepted")
}

// H_creationlist: lists, honest and with one altered proof or header.
func H_creationlist() {
	n := length()
	k, K := hx.Key()
	s := hx.Rand()
	bef := hx.RandCV(n)
	aft := dt.DeterministicTagSequence(bef, k, s)
	l, err := dt.DeterministicTagCrListProofCreation(bef, aft, K, k, s)
	sym.Assert(err == nil, "DeterministicTagCrListProofCreation failed")
	sym.Assert(len(l.List) == n, "another number of proofs")
	sym.Assert(l.K.Equal(K) && l.SB.Equal(pt().Mul(s, nil)), "the list is about other keys")
	for i := range l.List {
		sym.Assert(hx.Same(l.List[i].CTbef, bef[i]) && hx.Same(l.List[i].CTaft, aft[i]), "a proof is about other data")
	}
	sym.Assert(dt.DeterministicTagCrListProofVerification(l, 1.0), "an honest list is rejected")
	if n == 0 {
		return
	}
	how := sym.Choice("how", 8)
	pos := hx.Pos("pos", n)
	sym.Assume(n < 10 || how == 4 || how == 7)
	switch how {
	case 5:
		sym.Assume(pos == 0)
		l.K = hx.RandPt()
	case 6:
		sym.Assume(pos == 0)
		l.SB = hx.RandPt()
	case 7:
		sym.Assume(n > 1)
		l.List[pos].CTaft = l.List[(pos+1)%n].CTaft
	default:
		l.List[pos] = copyCr(l.List[pos])
		tamperCr(&l.List[pos], how)
	}
	sym.Assert(!dt.DeterministicTagCrListProofVerification(l, 1.0), "a list with an altered component is accepted")
}

// H_creationlistfalse: a list with one element not computed with the claimed secret.
func H_creationlistfalse() {
	n := length()
	sym.Assume(n > 0)
	pos := hx.Pos("pos", n)
	k, K := hx.Key()
	s := hx.Rand()
	bef := hx.RandCV(n)
	aft := dt.DeterministicTagSequence(bef, k, s)
	aft[pos] = dt.DeterministicTag(bef[pos], k, hx.Rand())
	l, err := dt.DeterministicTagCrListProofCreation(bef, aft, K, k, s)
	if err == nil {
		sym.Assert(!dt.DeterministicTagCrListProofVerification(l, 1.0), "a list with a false element is accepted")
	}
}

func tamperAdd(p *dt.PublishedDDTAdditionProof, how int) {
	d := hx.RandPt()
	switch how {
	case 0:
		p.C1 = pt().Add(p.C1, d)
	case 1:
		p.C2 = pt().Add(p.C2, d)
	case 2:
		p.R = pt().Add(p.R, d)
	case 3: // both sides, consistently
		p.C2 = pt().Add(p.C2, d)
		p.R = pt().Add(p.R, d)
	}
}

// H_addition: proof of one tag addition.
func H_addition() {
	c1 := []kyber.Point{hx.RandPt(), hx.Pt(0), hx.Pt(sym.Int64("c", -1000, 1000))}[sym.Choice("c1", 3)]
	s := hx.Rand()
	c2 := pt().Mul(s, nil)
	r := pt().Add(c1, c2)
	switch sym.Choice("form", 3) {
	case 1: // the same sum computed the other way round
		r = pt().Add(c2, c1)
	case 2: // points that went over the network
		for _, q := range []*kyber.Point{&c1, &c2, &r} {
			b, err := (*q).MarshalBinary()
			sym.Assert(err == nil, "marshal")
			n := pt()
			sym.Assert(n.UnmarshalBinary(b) == nil, "unmarshal")
			*q = n
		}
	}
	p, err := dt.DeterministicTagAdditionProofCreation(c1, s, c2, r)
	sym.Assert(err == nil, "DeterministicTagAdditionProofCreation failed")
	sym.Assert(p.C1.Equal(c1) && p.C2.Equal(c2) && p.R.Equal(r), "the proof is about other points")
	sym.Assert(dt.DeterministicTagAdditionProofVerification(p), "an honest proof is rejected")
	tamperAdd(&p, sym.Choice("how", 4))
	sym.Assert(!dt.DeterministicTagAdditionProofVerification(p), "an altered proof is accepted")
}

// H_additionfalse: additions that are false.
func H_additionfalse() {
	c1, s := hx.RandPt(), hx.Rand()
	c2 := pt().Mul(s, nil)
	r := pt().Add(c1, c2)
	var p dt.PublishedDDTAdditionProof
	var err error
	switch sym.Choice("how", 4) {
	case 0:
		p, err = dt.DeterministicTagAdditionProofCreation(c1, hx.Rand(), c2, r)
	case 1:
		p, err = dt.DeterministicTagAdditionProofCreation(c1, s, c2, hx.RandPt())
	case 2:
		p, err = dt.DeterministicTagAdditionProofCreation(hx.RandPt(), s, c2, r)
	case 3:
		d := hx.RandPt()
		p, err = dt.DeterministicTagAdditionProofCreation(c1, s, d, pt().Add(c1, d))
	}
	if err == nil {
		sym.Assert(!dt.DeterministicTagAdditionProofVerification(p), "a proof of a false addition is accepted")
	}
}

// H_additionlist: lists of tag additions.
func H_additionlist() {
	n := length()
	c1, c2, r, s := make([]kyber.Point, n), make([]kyber.Point, n), make([]kyber.Point, n), make([]kyber.Scalar, n)
	for i := range c1 {
		c1[i], s[i] = hx.RandPt(), hx.Rand()
		c2[i] = pt().Mul(s[i], nil)
		r[i] = pt().Add(c1[i], c2[i])
	}
	l, err := dt.DeterministicTagAdditionListProofCreation(c1, s, c2, r)
	sym.Assert(err == nil, "DeterministicTagAdditionListProofCreation failed")
	sym.Assert(len(l.List) == n, "another number of proofs")
	for i, p := range l.List {
		sym.Assert(p.C1.Equal(c1[i]) && p.C2.Equal(c2[i]) && p.R.Equal(r[i]), "a proof is about other points")
	}
	sym.Assert(dt.DeterministicTagAdditionListProofVerification(l, 1.0), "an honest list is rejected")
	if n == 0 {
		return
	}
	pos := hx.Pos("pos", n)
	how := sym.Choice("how", 4)
	sym.Assume(n < 10 || how == 3)
	tamperAdd(&l.List[pos], how)
	sym.Assert(!dt.DeterministicTagAdditionListProofVerification(l, 1.0), "a list with an altered component is accepted")
}

// H_special: honest lists for unusual ciphertexts: null or equal ones, known or repeated components.
func H_special() {
	hx.Special()
	n := 1 + sym.Choice("n", 4)
	k, K := hx.Key()
	s := []kyber.Scalar{hx.Rand(), hx.Sc(1), k.Clone()}[sym.Choice("secret", 3)]
	bef := hx.RandCV(n)
	aft := dt.DeterministicTagSequence(bef, k, s)
	l, err := dt.DeterministicTagCrListProofCreation(bef, aft, K, k, s)
	sym.Assert(err == nil && len(l.List) == n, "DeterministicTagCrListProofCreation failed")
	sym.Assert(l.K.Equal(K) && l.SB.Equal(pt().Mul(s, nil)), "the list is about other keys")
	for i := range l.List {
		sym.Assert(hx.Same(l.List[i].CTbef, bef[i]) && hx.Same(l.List[i].CTaft, aft[i]), "a proof is about other data")
	}
	sym.Assert(dt.DeterministicTagCrListProofVerification(l, 1.0), "an honest list is rejected")
}
