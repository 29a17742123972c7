// Package c13: distributed deterministic tags.
package c13

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

// orders of up to 4 servers
func perm(n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var out []int
	for len(left) > 0 {
		k := sym.Choice("order", len(left))
		out = append(out, left[k])
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
	}
	return out
}

func servers() int {
	if sym.Tier() > 0 {
		return 1 + sym.Choice("servers", 4)
	}
	return 1 + sym.Choice("servers", 3)
}

// H_tags: tags of two vectors, encrypted with their own randomness, tagged in any server order.
func H_tags() {
	s := servers()
	X, privs, _ := libunlynx.GenKeys(s)
	secs := make([]kyber.Scalar, s)
	for i := range secs {
		secs[i] = hx.Rand()
	}
	n := 1 + sym.Choice("n", 2)
	us, vs := make([]int64, n), make([]int64, n)
	for i := range us {
		us[i], vs[i] = sym.Int64("u", -1<<40, 1<<40), sym.Int64("v", -1<<40, 1<<40)
	}
	a, b := hx.EncVec(X, us), hx.EncVec(X, vs)
	tag := func(cv libunlynx.CipherVector) libunlynx.CipherVector {
		for _, i := range perm(s) {
			o := hx.CopyV(cv)
			k, sc := privs[i].Clone(), secs[i].Clone()
			nv := libunlynxdetertag.DeterministicTagSequence(cv, privs[i], secs[i])
			sym.Assert(len(nv) == len(cv), "another number of tags")
			sym.Assert(hx.SameV(cv, o), "tagging changed its input")
			sym.Assert(k.Equal(privs[i]) && sc.Equal(secs[i]), "tagging changed a key")
			cv = nv
		}
		return cv
	}
	ta, tb := tag(a), tag(b)
	all := append(append(libunlynx.CipherVector{}, ta...), tb...)
	vals := append(append([]int64{}, us...), vs...)
	for i := range all {
		for j := 0; j < i; j++ {
			sym.Assert(all[i].C.Equal(all[j].C) == (vals[i] == vals[j]), "tags are equal but the plaintexts differ, or the reverse")
		}
	}
	// positions: the tag of position i is the one of a vector holding only that value
	for i := range us {
		p := hx.Pt(us[i])
		for _, sc := range secs {
			p.Mul(sc, p)
		}
		sym.Assert(ta[i].C.Equal(p), "the tag at a position is not that of its plaintext")
	}
}

// H_single: the tagging step of one ciphertext.
func H_single() {
	k, s := hx.Rand(), hx.Rand()
	c := []libunlynx.CipherText{hx.RandCT(), *libunlynx.NewCipherText(), libunlynx.IntToCipherText(sym.Int64("v", -1<<30, 1<<30))}[sym.Choice("c", 3)]
	o := hx.Copy(c)
	t := libunlynxdetertag.DeterministicTag(c, k, s)
	pt := libunlynx.SuiTe.Point
	sym.Assert(t.K.Equal(pt().Mul(s, o.K)), "left component")
	sym.Assert(t.C.Equal(pt().Mul(s, pt().Sub(o.C, pt().Mul(k, o.K)))), "right component")
	sym.Assert(hx.Same(c, o), "tagging changed its input")
	t.K.Add(t.K, hx.Pt(1))
	t.C.Add(t.C, hx.Pt(1))
	sym.Assert(hx.Same(c, o), "changing the tag changes the input")
}

// H_long: vectors of any length, position by position.
func H_long() {
	n := hx.Len("n", 0, 257)
	k, s := hx.Rand(), hx.Rand()
	cv := hx.RandCV(n)
	o := hx.CopyV(cv)
	t := libunlynxdetertag.DeterministicTagSequence(cv, k, s)
	sym.Assert(len(t) == n, "another number of tags")
	sym.Assert(hx.SameV(cv, o), "tagging changed its input")
	pt := libunlynx.SuiTe.Point
	for i := range t {
		sym.Assert(t[i].K.Equal(pt().Mul(s, o[i].K)) && t[i].C.Equal(pt().Mul(s, pt().Sub(o[i].C, pt().Mul(k, o[i].K)))), "another tag at this position")
	}
}

// H_servers: many servers, one after the other.
func H_servers() {
	s := hx.Len("servers", 1, 65)
	X, privs, _ := libunlynx.GenKeys(s)
	v := sym.Int64("v", -1<<40, 1<<40)
	cv := hx.EncVec(X, []int64{v, 1})
	p, one := hx.Pt(v), hx.Pt(1)
	for i := range privs {
		sec := hx.Rand()
		cv = libunlynxdetertag.DeterministicTagSequence(cv, privs[i], sec)
		p.Mul(sec, p)
		one.Mul(sec, one)
	}
	sym.Assert(len(cv) == 2 && cv[0].C.Equal(p) && cv[1].C.Equal(one), "a tag is not that of its plaintext")
}

// H_keylong: grouping keys of long vectors that differ in at most one position.
func H_keylong() {
	n := hx.Len("n", 1, 129)
	pos := hx.Pos("pos", n)
	k, K := hx.Key()
	s := hx.Rand()
	us := make([]int64, n)
	for i := range us {
		us[i] = int64(i)
	}
	a := hx.EncVec(K, us)
	v := sym.Int64("v", -1<<40, 1<<40)
	us[pos] = v
	b := hx.EncVec(K, us)
	ka, _, err := libunlynxdetertag.CipherVectorToDeterministicTag(a, k, s, K, false)
	sym.Assert(err == nil, "CipherVectorToDeterministicTag failed")
	kb, _, err := libunlynxdetertag.CipherVectorToDeterministicTag(b, k, s, K, false)
	sym.Assert(err == nil, "CipherVectorToDeterministicTag failed")
	sym.Assert((ka == kb) == (v == int64(pos)), "keys are equal but the plaintexts differ, or the reverse")
}

// H_key: grouping keys made from the tags of whole vectors, with and without proofs.
func H_key() {
	k, K := hx.Key()
	s := hx.Rand()
	n, m := sym.Choice("n", 3), sym.Choice("m", 3)
	proofs := sym.Choice("proofs", 2) == 1
	us, vs := make([]int64, n), make([]int64, m)
	same := n == m
	for i := range us {
		us[i] = sym.Int64("u", -1<<40, 1<<40)
	}
	for i := range vs {
		vs[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	if same {
		for i := range us {
			if us[i] != vs[i] {
				same = false
			}
		}
	}
	a, b := hx.EncVec(K, us), hx.EncVec(K, vs)
	oa := hx.CopyV(a)
	ka, pa, err := libunlynxdetertag.CipherVectorToDeterministicTag(a, k, s, K, proofs)
	sym.Assert(err == nil, "CipherVectorToDeterministicTag failed")
	kb, _, err := libunlynxdetertag.CipherVectorToDeterministicTag(b, k, s, K, proofs)
	sym.Assert(err == nil, "CipherVectorToDeterministicTag failed")
	sym.Assert((ka == kb) == same, "keys are equal but the plaintexts differ, or the reverse")
	sym.Assert(hx.SameV(a, oa), "tagging changed its input")
	if proofs {
		sym.Assert(pa != nil && len(pa.List) == n, "another number of proofs")
		sym.Assert(libunlynxdetertag.DeterministicTagCrListProofVerification(*pa, 1.0), "the proof of an honest tagging is rejected")
	}
}

// H_special: ciphertexts with unusual randomness.
func H_special() {
	hx.Special()
	s := 1 + sym.Choice("servers", 3)
	X, privs, _ := libunlynx.GenKeys(s)
	n := 1 + sym.Choice("n", 3)
	vs := make([]int64, n)
	for i := range vs {
		vs[i] = sym.Int64("v", -1<<40, 1<<40)
	}
	cv := hx.EncVec(X, vs)
	o := hx.CopyV(cv)
	t := cv
	ps := make([]kyber.Point, n)
	for i := range ps {
		ps[i] = hx.Pt(vs[i])
	}
	for i := range privs {
		sec := hx.Rand()
		t = libunlynxdetertag.DeterministicTagSequence(t, privs[i], sec)
		for j := range ps {
			ps[j].Mul(sec, ps[j])
		}
	}
	sym.Assert(len(t) == n, "another number of tags")
	for i := range t {
		sym.Assert(t[i].C.Equal(ps[i]), "the tag at a position is not that of its plaintext")
	}
	sym.Assert(hx.SameV(cv, o), "tagging changed its input")
}
