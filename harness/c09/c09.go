// Package c09: grouping keys.
package c09

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func list(n int, name string) []int64 {
	out := make([]int64, n)
	for i := range out {
		out[i] = sym.Int64(name, -1<<63, 1<<63-1)
	}
	return out
}

func maxlen() int {
	if sym.Tier() > 0 {
		return 4
	}
	return 3
}

// H_clear: keys of clear values are equal exactly for equal lists.
func H_clear() {
	n, m := sym.Choice("n", maxlen()), sym.Choice("m", maxlen())
	a, b := list(n, "a"), list(m, "b")
	same := n == m
	if same {
		for i := range a {
			if a[i] != b[i] {
				same = false
			}
		}
	}
	ka, kb := libunlynx.Key(a), libunlynx.Key(b)
	sym.Assert((ka == kb) == same, "keys of clear values are equal but the lists differ, or the reverse")
}

// H_digits: the same for small values with every number of digits and sign.
func H_digits() {
	n := 1 + sym.Choice("n", 2)
	m := 1 + sym.Choice("m", 2)
	vals := []int64{0, 1, 11, -1, -11, 10, 111, 1 << 62, -1 << 63}
	var a, b []int64
	for i := 0; i < n; i++ {
		a = append(a, vals[sym.Choice("a", len(vals))])
	}
	for i := 0; i < m; i++ {
		b = append(b, vals[sym.Choice("b", len(vals))])
	}
	same := n == m && a[0] == b[0] && a[n-1] == b[m-1]
	sym.Assert((libunlynx.Key(a) == libunlynx.Key(b)) == same, "keys of clear values are equal but the lists differ, or the reverse")
}

// H_unkey: the values of a key.
func H_unkey() {
	n := sym.Choice("n", 3)
	a := list(n, "a")
	b, err := libunlynx.UnKey(libunlynx.Key(a))
	sym.Assert(err == nil, "UnKey failed")
	sym.Assert(len(b) == n, "UnKey: another number of values")
	for i := range a {
		sym.Assert(a[i] == b[i], "UnKey: another value")
	}
}

// H_unkeydigits: the same with concrete decimal texts.
func H_unkeydigits() {
	vals := []int64{0, 7, -7, 10, 42, -120, 999999, 1<<63 - 1, -1 << 63}
	var a []int64
	n := 1 + sym.Choice("n", 2)
	for i := 0; i < n; i++ {
		a = append(a, vals[sym.Choice("a", len(vals))])
	}
	b, err := libunlynx.UnKey(libunlynx.Key(a))
	sym.Assert(err == nil, "UnKey failed")
	sym.Assert(len(b) == n, "UnKey: another number of values")
	for i := range a {
		sym.Assert(a[i] == b[i], "UnKey: another value")
	}
}

// H_det: keys of deterministic tags.
func H_det() {
	pool := []kyber.Point{hx.RandPt(), hx.RandPt(), hx.Pt(0), hx.Pt(sym.Int64("p", -50, 50)), hx.Pt(sym.Int64("q", -50, 50))}
	n, m := sym.Choice("n", maxlen()), sym.Choice("m", maxlen())
	mk := func(n int, s string) libunlynx.DeterministCipherVector {
		v := make(libunlynx.DeterministCipherVector, n)
		for i := range v {
			v[i] = libunlynx.DeterministCipherText{Point: pool[sym.Choice(s, len(pool))]}
		}
		return v
	}
	a, b := mk(n, "a"), mk(m, "b")
	same := n == m
	if same {
		for i := range a {
			if !a[i].Point.Equal(b[i].Point) {
				same = false
			}
		}
	}
	sym.Assert((a.Key() == b.Key()) == same, "keys of tags are equal but the tags differ, or the reverse")
	sym.Assert(a.Equal(&b) == same, "Equal of tag vectors is wrong")
	if n == 1 && m == 1 {
		sym.Assert((a[0].String() == b[0].String()) == same, "texts of tags are equal but the tags differ, or the reverse")
		sym.Assert(a[0].Equal(&b[0]) == same, "Equal of tags is wrong")
	}
}

// H_long: keys of long lists that differ in the length, at one position, or in
// the order of two neighbours; and back.
func H_long() {
	n := hx.Len("n", 5, 257)
	a := make([]int64, n)
	for i := range a {
		a[i] = int64(i*37%1000) - 300
	}
	b := append([]int64{}, a...)
	at := hx.Pos("at", n)
	switch sym.Choice("what", 4) {
	case 0:
		b[at] = a[at] + []int64{1, -1, 1000, 1 << 32, -1 << 40}[sym.Choice("by", 5)]
	case 1:
		b = append(b[:at], b[at+1:]...)
	case 2:
		sym.Assume(at+1 < n)
		b[at], b[at+1] = b[at+1], b[at]
	case 3:
		b = append(b, 0)
	}
	sym.Assert(libunlynx.Key(a) != libunlynx.Key(b), "keys of clear values are equal but the lists differ")
	sym.Assert(libunlynx.Key(a) == libunlynx.Key(append([]int64{}, a...)), "keys of equal lists differ")
	for _, l := range [][]int64{a, b} {
		u, err := libunlynx.UnKey(libunlynx.Key(l))
		sym.Assert(err == nil && len(u) == len(l), "UnKey: another number of values")
		for i := range u {
			sym.Assert(u[i] == l[i], "UnKey: another value")
		}
	}
}

// H_detlong: keys of long vectors of tags likewise.
func H_detlong() {
	n := hx.Len("n", 3, 129)
	a := make(libunlynx.DeterministCipherVector, n)
	for i := range a {
		a[i].Point = hx.RandPt()
	}
	b := append(libunlynx.DeterministCipherVector{}, a...)
	at := hx.Pos("at", n)
	switch sym.Choice("what", 4) {
	case 0:
		b[at].Point = hx.RandPt()
	case 1:
		b = append(b[:at], b[at+1:]...)
	case 2:
		sym.Assume(at+1 < n)
		b[at], b[at+1] = b[at+1], b[at]
	case 3:
		b = append(b, a[0])
	}
	sym.Assert(a.Key() != b.Key() && !a.Equal(&b), "keys of tags are equal but the tags differ")
	c := append(libunlynx.DeterministCipherVector{}, a...)
	sym.Assert(a.Key() == c.Key() && a.Equal(&c), "keys of equal tags differ")
}
