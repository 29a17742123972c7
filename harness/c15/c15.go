// Package c15: adding and removing a server's contribution.
package c15

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func pt() kyber.Point { return libunlynx.SuiTe.Point() }

// change runs the protocol on one server.
func change(cv []libunlynx.CipherText, k kyber.Scalar, add, proofs bool) []libunlynx.CipherText {
	p := px.Node(protocolsunlynxutils.AddRmServerProtocolName).(*protocolsunlynxutils.AddRmServerProtocol)
	p.TargetOfTransformation = cv
	p.KeyToRm = k
	p.Proofs = proofs
	p.Add = add
	var err error
	go func() { err = p.Start() }()
	var out []libunlynx.CipherText
	got := false
	for i := 0; i < 3 && !got; i++ {
		sym.WaitQuiescent(1)
		select {
		case out = <-p.FeedbackChannel:
			got = true
		default:
		}
	}
	sym.Assert(err == nil, "the protocol failed")
	sym.Assert(got, "the protocol delivers no result")
	return out
}

func length() int { return hx.Len("n", 0, 257) }

func same(a, b []libunlynx.CipherText) bool {
	return hx.SameV(libunlynx.CipherVector(a), libunlynx.CipherVector(b))
}

// H_add: data under the collective key, under the enlarged key, and back.
func H_add() {
	n := length()
	servers := 1
	if n < 4 {
		servers = hx.Len("servers", 1, 12)
	}
	K, privs, _ := libunlynx.GenKeys(servers)
	x := libunlynx.SuiTe.Scalar().Zero()
	for _, p := range privs {
		x.Add(x, p)
	}
	k, _ := hx.Key()
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	cv := hx.EncVec(K, vals)
	orig := hx.CopyV(cv)
	proofs := n > 0 && sym.Choice("proofs", 2) == 1
	big := change(cv, k, true, proofs)
	sym.Assert(len(big) == n, "another number of ciphertexts")
	sym.Assert(same(cv, orig), "the protocol changed its input")
	xk := libunlynx.SuiTe.Scalar().Add(x, k)
	for i := range vals {
		sym.Assert(hx.Decrypts(xk, big[i], vals[i]), "another value under the enlarged key")
	}
	kept := hx.CopyV(big)
	back := change(big, k, false, proofs)
	sym.Assert(len(back) == n, "another number of ciphertexts")
	sym.Assert(same(big, kept), "the protocol changed its input")
	sym.Assert(same(back, orig), "adding then removing a server is not the identity")
}

// H_remove: a server leaves; the data decrypt under the reduced key.
func H_remove() {
	n := length()
	sym.Assume(n < 10)
	servers := 1 + sym.Choice("servers", 4)
	K, privs, _ := libunlynx.GenKeys(servers)
	who := sym.Choice("who", servers)
	x := libunlynx.SuiTe.Scalar().Zero()
	for i, p := range privs {
		if i != who {
			x.Add(x, p)
		}
	}
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	small := change(hx.EncVec(K, vals), privs[who], false, false)
	sym.Assert(len(small) == n, "another number of ciphertexts")
	for i := range vals {
		sym.Assert(hx.Decrypts(x, small[i], vals[i]), "another value under the reduced key")
	}
}

func apply(c libunlynx.CipherText, k kyber.Scalar, add bool) libunlynx.CipherText {
	d := pt().Mul(k, c.K)
	if add {
		return libunlynx.CipherText{K: c.K.Clone(), C: pt().Add(c.C, d)}
	}
	return libunlynx.CipherText{K: c.K.Clone(), C: pt().Sub(c.C, d)}
}

func copyP(p libunlynxaddrm.PublishedAddRmProof) libunlynxaddrm.PublishedAddRmProof {
	return libunlynxaddrm.PublishedAddRmProof{Proof: append([]byte{}, p.Proof...), CtBef: hx.Copy(p.CtBef), CtAft: hx.Copy(p.CtAft), RB: p.RB.Clone()}
}

func tamper(p *libunlynxaddrm.PublishedAddRmProof, how int) {
	d := hx.RandPt()
	switch how {
	case 0:
		p.CtBef.K.Add(p.CtBef.K, d)
	case 1:
		p.CtBef.C.Add(p.CtBef.C, d)
	case 2:
		p.CtAft.K.Add(p.CtAft.K, d)
	case 3:
		p.CtAft.C.Add(p.CtAft.C, d)
	case 4:
		p.RB.Add(p.RB, d)
	case 5: // both left components
		p.CtBef.K.Add(p.CtBef.K, d)
		p.CtAft.K.Add(p.CtAft.K, d)
	}
}

// H_proof: one proof, both directions, honest and with every component altered.
func H_proof() {
	k, K := hx.Key()
	add := sym.Choice("add", 2) == 1
	bef := hx.RandCT()
	aft := apply(bef, k, add)
	p, err := libunlynxaddrm.AddRmProofCreation(bef, aft, K, k, add)
	sym.Assert(err == nil, "AddRmProofCreation failed")
	sym.Assert(hx.Same(p.CtBef, bef) && hx.Same(p.CtAft, aft), "the proof is about other ciphertexts")
	sym.Assert(libunlynxaddrm.AddRmProofVerification(p, K, add), "an honest proof is rejected")
	sym.Assert(!libunlynxaddrm.AddRmProofVerification(p, K, !add), "a proof is accepted in the opposite direction")
	sym.Assert(!libunlynxaddrm.AddRmProofVerification(p, hx.RandPt(), add), "a proof is accepted for another server key")
	t := copyP(p)
	tamper(&t, sym.Choice("how", 6))
	sym.Assert(!libunlynxaddrm.AddRmProofVerification(t, K, add), "an altered proof is accepted")
}

// H_false: proofs of changes that were not made with the claimed key.
func H_false() {
	k, K := hx.Key()
	k2, K2 := hx.Key()
	add := sym.Choice("add", 2) == 1
	bef := hx.RandCT()
	aft := apply(bef, k, add)
	var p libunlynxaddrm.PublishedAddRmProof
	var err error
	v := K
	switch sym.Choice("how", 6) {
	case 0:
		p, err = libunlynxaddrm.AddRmProofCreation(bef, apply(bef, k2, add), K, k, add)
	case 1:
		p, err = libunlynxaddrm.AddRmProofCreation(bef, apply(bef, k, !add), K, k, add)
	case 2:
		p, err = libunlynxaddrm.AddRmProofCreation(bef, aft, K2, k2, add)
		v = K2
	case 3:
		p, err = libunlynxaddrm.AddRmProofCreation(bef, aft, K2, k, add)
		v = K2
	case 4:
		aft.K = hx.RandPt()
		p, err = libunlynxaddrm.AddRmProofCreation(bef, aft, K, k, add)
	case 5:
		aft.C.Add(aft.C, hx.Pt(1))
		p, err = libunlynxaddrm.AddRmProofCreation(bef, aft, K, k, add)
	}
	if err == nil {
		sym.Assert(!libunlynxaddrm.AddRmProofVerification(p, v, add), "a proof of a false change is accepted")
	}
}

// H_list: lists, honest and with one altered component.
func H_list() {
	n := length()
	k, K := hx.Key()
	add := n > 10 || sym.Choice("add", 2) == 1
	bef := hx.RandCV(n)
	aft := make(libunlynx.CipherVector, n)
	for i := range aft {
		aft[i] = apply(bef[i], k, add)
	}
	l, err := libunlynxaddrm.AddRmListProofCreation(bef, aft, K, k, add)
	sym.Assert(err == nil, "AddRmListProofCreation failed")
	sym.Assert(len(l.List) == n && l.Krm.Equal(K) && l.ToAdd == add, "the list is about another change")
	for i := range l.List {
		sym.Assert(hx.Same(l.List[i].CtBef, bef[i]) && hx.Same(l.List[i].CtAft, aft[i]), "a proof is about other ciphertexts")
	}
	sym.Assert(libunlynxaddrm.AddRmListProofVerification(l, 1.0), "an honest list is rejected")
	if n == 0 {
		return
	}
	pos := hx.Pos("pos", n)
	how := sym.Choice("how", 9)
	sym.Assume(n < 10 || (how == 3 || how == 8))
	sym.Assume(how < 6 || how > 7 || pos == 0)
	switch how {
	case 6:
		l.Krm = hx.RandPt()
	case 7:
		l.ToAdd = !l.ToAdd
	case 8:
		sym.Assume(n > 1)
		l.List[pos].CtAft = l.List[(pos+1)%n].CtAft
	default:
		l.List[pos] = copyP(l.List[pos])
		tamper(&l.List[pos], how)
	}
	sym.Assert(!libunlynxaddrm.AddRmListProofVerification(l, 1.0), "a list with an altered component is accepted")
}

// H_special: ciphertexts with unusual randomness, with and without proofs.
func H_special() {
	n := 1 + sym.Choice("n", 4)
	K, privs, _ := libunlynx.GenKeys(1 + sym.Choice("servers", 2))
	x := libunlynx.SuiTe.Scalar().Zero()
	for _, p := range privs {
		x.Add(x, p)
	}
	k, _ := hx.Key()
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	hx.Special()
	cv := hx.EncVec(K, vals)
	orig := hx.CopyV(cv)
	proofs := sym.Choice("proofs", 2) == 1
	big := change(cv, k, true, proofs)
	sym.Assert(len(big) == n, "another number of ciphertexts")
	xk := libunlynx.SuiTe.Scalar().Add(x, k)
	for i := range vals {
		sym.Assert(hx.Decrypts(xk, big[i], vals[i]), "another value under the enlarged key")
	}
	back := change(big, k, false, proofs)
	sym.Assert(same(back, orig), "adding then removing a server is not the identity")
	sym.Assert(same(cv, orig), "the protocol changed its input")
}

// H_exchanged: one published component replaced by another one or a special point.
func H_exchanged() {
	k, K := hx.Key()
	add := sym.Choice("add", 2) == 1
	bef := hx.RandCT()
	p, err := libunlynxaddrm.AddRmProofCreation(bef, apply(bef, k, add), K, k, add)
	sym.Assert(err == nil, "AddRmProofCreation failed")
	t := copyP(p)
	hx.Exchange(&t.CtBef.K, &t.CtBef.C, &t.CtAft.K, &t.CtAft.C, &t.RB, &K)
	sym.Assert(!libunlynxaddrm.AddRmProofVerification(t, K, add), "an altered proof is accepted")
}
