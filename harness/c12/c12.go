// Package c12: key switching.
package c12

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func lefts(cv libunlynx.CipherVector) []kyber.Point {
	out := make([]kyber.Point, len(cv))
	for i := range cv {
		out[i] = cv[i].K
	}
	return out
}

func length() int { return hx.Len("n", 0, 257) }

// H_switch: the sum of all contributions moves the data to the target key.
func H_switch() {
	servers, n := hx.Len("servers", 1, 33), 2
	if servers < 4 {
		n = length()
	}
	collK, privs, _ := libunlynx.GenKeys(servers)
	q, Q := hx.Key()
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	cv := hx.EncVec(collK, vals)
	orig := hx.CopyV(cv)
	rbs := lefts(cv)
	sum := libunlynx.NewCipherVector(n)
	for _, k := range privs {
		kc := k.Clone()
		part, ks2, rBNegs, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rbs, k)
		sym.Assert(len(part) == n && len(ks2) == n && len(rBNegs) == n && len(vis) == n, "a contribution of another length")
		for i := range part {
			sym.Assert(part[i].C.Equal(ks2[i]), "ks2 is not the right part of the contribution")
			sym.Assert(part[i].K.Equal(libunlynx.SuiTe.Point().Mul(vis[i], nil)), "the returned randomness is not the one used")
			sym.Assert(rBNegs[i].Equal(libunlynx.SuiTe.Point().Neg(orig[i].K)), "rBNeg is not the negated original component")
			(*sum)[i].K.Add((*sum)[i].K, part[i].K)
			(*sum)[i].C.Add((*sum)[i].C, part[i].C)
		}
		sym.Assert(k.Equal(kc), "the private key changed")
	}
	for i := range vals {
		r := libunlynx.CipherText{K: (*sum)[i].K, C: libunlynx.SuiTe.Point().Add((*sum)[i].C, cv[i].C)}
		sym.Assert(hx.Decrypts(q, r, vals[i]), "a switched ciphertext decrypts to another value under the target key")
	}
	sym.Assert(hx.SameV(cv, orig), "key switching changed its input")
}

// H_single: one ciphertext, any original component.
func H_single() {
	k, _ := hx.Key()
	_, Q := hx.Key()
	rb := []kyber.Point{hx.RandPt(), hx.Pt(0), hx.Pt(1)}[sym.Choice("rb", 3)]
	o := rb.Clone()
	ct, neg, vi := libunlynxkeyswitch.KeySwitch(Q, rb, k)
	pt := libunlynx.SuiTe.Point
	sym.Assert(ct.K.Equal(pt().Mul(vi, nil)), "left component")
	sym.Assert(ct.C.Equal(pt().Sub(pt().Mul(vi, Q), pt().Mul(k, o))), "right component")
	sym.Assert(neg.Equal(pt().Neg(o)), "negated component")
	sym.Assert(rb.Equal(o), "KeySwitch changed its input")
}

func copyProof(p libunlynxkeyswitch.PublishedKSProof) libunlynxkeyswitch.PublishedKSProof {
	return libunlynxkeyswitch.PublishedKSProof{Proof: append([]byte{}, p.Proof...), K: p.K.Clone(), ViB: p.ViB.Clone(), Ks2: p.Ks2.Clone(), RbNeg: p.RbNeg.Clone(), Q: p.Q.Clone()}
}

// tamper changes one published component.
func tamper(p *libunlynxkeyswitch.PublishedKSProof, how int) {
	d := hx.RandPt()
	switch how {
	case 0:
		p.K.Add(p.K, d)
	case 1:
		p.ViB.Add(p.ViB, d)
	case 2:
		p.Ks2.Add(p.Ks2, d)
	case 3:
		p.RbNeg.Add(p.RbNeg, d)
	case 4:
		p.Q.Add(p.Q, d)
	}
}

// H_proof: proof of one contribution, honest and with every component altered.
func H_proof() {
	k, K := hx.Key()
	_, Q := hx.Key()
	ct, neg, vi := libunlynxkeyswitch.KeySwitch(Q, hx.RandPt(), k)
	p, err := libunlynxkeyswitch.KeySwitchProofCreation(K, Q, k, ct.K, ct.C, neg, vi)
	sym.Assert(err == nil, "KeySwitchProofCreation failed")
	sym.Assert(libunlynxkeyswitch.KeySwitchProofVerification(p), "an honest proof is rejected")
	sym.Assert(p.K.Equal(K) && p.Q.Equal(Q) && p.ViB.Equal(ct.K) && p.Ks2.Equal(ct.C) && p.RbNeg.Equal(neg), "the proof publishes other components")
	t := copyProof(p)
	tamper(&t, sym.Choice("how", 5))
	sym.Assert(!libunlynxkeyswitch.KeySwitchProofVerification(t), "an altered proof is accepted")
	sym.Assert(libunlynxkeyswitch.KeySwitchProofVerification(p), "an honest proof is rejected later")
}

// H_exchanged: one published component replaced by another one or a special
// point; also when the target key is the server's own key.
func H_exchanged() {
	k, K := hx.Key()
	Q := K
	if sym.Choice("own", 2) == 0 {
		_, Q = hx.Key()
	}
	ct, neg, vi := libunlynxkeyswitch.KeySwitch(Q, hx.RandPt(), k)
	p, err := libunlynxkeyswitch.KeySwitchProofCreation(K, Q, k, ct.K, ct.C, neg, vi)
	sym.Assert(err == nil, "KeySwitchProofCreation failed")
	sym.Assert(libunlynxkeyswitch.KeySwitchProofVerification(p), "an honest proof is rejected")
	t := copyProof(p)
	hx.Exchange(&t.Ks2, &t.ViB, &t.RbNeg, &t.K, &t.Q)
	sym.Assert(!libunlynxkeyswitch.KeySwitchProofVerification(t), "an altered proof is accepted")
	t = copyProof(p)
	tamper(&t, 2)
	sym.Assert(!libunlynxkeyswitch.KeySwitchProofVerification(t), "an altered proof is accepted")
}

// H_wrong: proofs of statements that are false.
func H_wrong() {
	k, K := hx.Key()
	k2, K2 := hx.Key()
	_, Q := hx.Key()
	_, Q2 := hx.Key()
	rb := hx.RandPt()
	ct, neg, vi := libunlynxkeyswitch.KeySwitch(Q, rb, k)
	var p libunlynxkeyswitch.PublishedKSProof
	var err error
	d := hx.RandPt()
	switch sym.Choice("how", 6) {
	case 0: // another server's key
		p, err = libunlynxkeyswitch.KeySwitchProofCreation(K2, Q, k, ct.K, ct.C, neg, vi)
	case 1: // computed with another key than claimed
		p, err = libunlynxkeyswitch.KeySwitchProofCreation(K2, Q, k2, ct.K, ct.C, neg, vi)
	case 2: // another target
		p, err = libunlynxkeyswitch.KeySwitchProofCreation(K, Q2, k, ct.K, ct.C, neg, vi)
	case 3: // another contribution
		p, err = libunlynxkeyswitch.KeySwitchProofCreation(K, Q, k, ct.K, d, neg, vi)
	case 4: // another original component
		p, err = libunlynxkeyswitch.KeySwitchProofCreation(K, Q, k, ct.K, ct.C, d, vi)
	case 5: // other randomness
		p, err = libunlynxkeyswitch.KeySwitchProofCreation(K, Q, k, d, ct.C, neg, vi)
	}
	if err == nil {
		sym.Assert(!libunlynxkeyswitch.KeySwitchProofVerification(p), "a proof of a false statement is accepted")
	}
}

// H_list: a list of proofs; one altered or swapped proof at any position.
func H_list() {
	n := length()
	k, K := hx.Key()
	_, Q := hx.Key()
	cv := hx.RandCV(n)
	part, ks2, rBNegs, vis := libunlynxkeyswitch.KeySwitchSequence(Q, lefts(cv), k)
	l, err := libunlynxkeyswitch.KeySwitchListProofCreation(K, Q, k, ks2, rBNegs, vis)
	sym.Assert(err == nil, "KeySwitchListProofCreation failed")
	sym.Assert(len(l.List) == n, "another number of proofs")
	for i := range l.List {
		p := l.List[i]
		sym.Assert(p.K.Equal(K) && p.Q.Equal(Q) && p.ViB.Equal(part[i].K) && p.Ks2.Equal(part[i].C) && p.RbNeg.Equal(libunlynx.SuiTe.Point().Neg(cv[i].K)), "a proof is about other data")
	}
	sym.Assert(libunlynxkeyswitch.KeySwitchListProofVerification(l, 1.0), "an honest list is rejected")
	if n == 0 {
		return
	}
	pos := hx.Pos("pos", n)
	how := sym.Choice("how", 6)
	sym.Assume(n < 10 || how == 2 || how == 5)
	if how == 5 { // the contribution of another position
		sym.Assume(n > 1)
		l.List[pos].Ks2 = l.List[(pos+1)%n].Ks2
	} else {
		l.List[pos] = copyProof(l.List[pos])
		tamper(&l.List[pos], how)
	}
	sym.Assert(!libunlynxkeyswitch.KeySwitchListProofVerification(l, 1.0), "a list with an altered proof is accepted")
}

// H_special: ciphertexts with unusual randomness, with proofs.
func H_special() {
	servers, n := 1+sym.Choice("servers", 3), 1+sym.Choice("n", 4)
	collK, privs, pubs := libunlynx.GenKeys(servers)
	q, Q := hx.Key()
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	hx.Special()
	cv := hx.EncVec(collK, vals)
	orig := hx.CopyV(cv)
	rbs := lefts(cv)
	sum := libunlynx.NewCipherVector(n)
	for s, k := range privs {
		part, ks2, rBNegs, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rbs, k)
		l, err := libunlynxkeyswitch.KeySwitchListProofCreation(pubs[s], Q, k, ks2, rBNegs, vis)
		sym.Assert(err == nil && len(l.List) == n, "a contribution cannot be proved")
		sym.Assert(libunlynxkeyswitch.KeySwitchListProofVerification(l, 1.0), "an honest list of proofs is rejected")
		for i := range part {
			(*sum)[i].K.Add((*sum)[i].K, part[i].K)
			(*sum)[i].C.Add((*sum)[i].C, part[i].C)
		}
	}
	for i := range vals {
		r := libunlynx.CipherText{K: (*sum)[i].K, C: libunlynx.SuiTe.Point().Add((*sum)[i].C, cv[i].C)}
		sym.Assert(hx.Decrypts(q, r, vals[i]), "a switched ciphertext decrypts to another value under the target key")
	}
	sym.Assert(hx.SameV(cv, orig), "key switching changed its input")
}
