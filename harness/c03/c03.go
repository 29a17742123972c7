// Package c03: homomorphic operations.
package c03

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

const big = int64(1) << 40

func lengths() int {
	return hx.Len("n", 0, 1001)
}

// H_ciphertext: Add, Sub and scaling of two ciphertexts, in every storage situation.
func H_ciphertext() {
	x, X := hx.Key()
	u, v := sym.Int64("u", -big, big), sym.Int64("v", -big, big)
	c1, c2 := hx.EncR(X, u), hx.EncR(X, v)
	o1, o2 := hx.Copy(c1), hx.Copy(c2)
	op := sym.Choice("op", 4)
	k := sym.Int64("k", -1000, 1000)
	s := hx.Rand()
	where := sym.Choice("where", 3)
	r := &libunlynx.CipherText{}
	switch where {
	case 1:
		r = &c1
	case 2:
		r = &c2
	}
	pt := libunlynx.SuiTe.Point()
	switch op {
	case 0:
		r.Add(c1, c2)
		sym.Assert(hx.Decrypts(x, *r, u+v), "Add: wrong sum")
	case 1:
		r.Sub(c1, c2)
		sym.Assert(hx.Decrypts(x, *r, u-v), "Sub: wrong difference")
	case 2:
		r.MulCipherTextbyScalar(c1, hx.Sc(k))
		sym.Assert(hx.Decrypts(x, *r, u*k), "MulCipherTextbyScalar: wrong product")
	case 3:
		r.MulCipherTextbyScalar(c1, s)
		sym.Assert(hx.Plain(x, *r).Equal(pt.Mul(s, hx.Pt(u))), "MulCipherTextbyScalar: wrong product by a scalar")
		sym.Assert(s.Equal(s.Clone()), "scalar")
	}
	if where != 1 {
		sym.Assert(hx.Same(c1, o1), "the first operand changed")
	}
	if where != 2 {
		sym.Assert(hx.Same(c2, o2), "the second operand changed")
	}
	// change the result in place: the operands must stay
	r.K.Add(r.K, hx.Pt(7))
	r.C.Add(r.C, hx.Pt(7))
	if where != 1 {
		sym.Assert(hx.Same(c1, o1), "changing the result changed the first operand")
	}
	if where != 2 {
		sym.Assert(hx.Same(c2, o2), "changing the result changed the second operand")
	}
}

// H_zeros: operations with null ciphertexts and equal operands.
func H_zeros() {
	x, X := hx.Key()
	u := sym.Int64("u", -big, big)
	c := hx.EncR(X, u)
	n := libunlynx.NewCipherText()
	r := libunlynx.NewCipherText()
	r.Add(c, *n)
	r.C.Add(r.C, hx.Pt(1))
	r.K.Add(r.K, hx.Pt(0))
	sym.Assert(hx.Decrypts(x, c, u), "adding zero shares the operand's storage")
	sym.Assert(hx.Decrypts(x, *r, u+1), "adding zero: wrong")
	q := libunlynx.NewCipherText()
	q.Add(*n, c)
	sym.Assert(hx.Decrypts(x, *q, u), "zero plus c: wrong")
	q.Add(c, c)
	sym.Assert(hx.Decrypts(x, *q, 2*u), "c plus c: wrong")
	c.Add(c, c)
	sym.Assert(hx.Decrypts(x, c, 2*u), "c plus c in place: wrong")
	q.Sub(c, c)
	sym.Assert(hx.Decrypts(x, *q, 0), "c minus c: wrong")
	q.Sub(*n, c)
	sym.Assert(hx.Decrypts(x, *q, -2*u), "zero minus c: wrong")
	sym.Assert(hx.Decrypts(x, *n, 0), "the null ciphertext changed")
	q.MulCipherTextbyScalar(c, hx.Sc(0))
	sym.Assert(hx.Decrypts(x, *q, 0), "times zero: wrong")
	q.MulCipherTextbyScalar(c, hx.Sc(1))
	q.C.Add(q.C, hx.Pt(1))
	sym.Assert(hx.Decrypts(x, c, 2*u), "times one shares the operand's storage")
}

// H_vector: vector Add and Sub, position by position, in every storage situation.
func H_vector() {
	x, X := hx.Key()
	n := lengths()
	us, vs := make([]int64, n), make([]int64, n)
	for i := range us {
		us[i], vs[i] = sym.Int64("u", -big, big), sym.Int64("v", -big, big)
	}
	a, b := hx.EncVec(X, us), hx.EncVec(X, vs)
	oa, ob := hx.CopyV(a), hx.CopyV(b)
	where := sym.Choice("where", 3)
	sub := sym.Choice("sub", 2) == 1
	r := libunlynx.NewCipherVector(n)
	switch where {
	case 1:
		r = &a
	case 2:
		r = &b
	}
	if sub {
		r.Sub(a, b)
	} else {
		r.Add(a, b)
	}
	sym.Assert(len(*r) == n, "vector operation: length")
	for i := range us {
		w := us[i] + vs[i]
		if sub {
			w = us[i] - vs[i]
		}
		sym.Assert(hx.Decrypts(x, (*r)[i], w), "vector operation: wrong value at a position")
	}
	if where != 1 {
		sym.Assert(hx.SameV(a, oa), "vector operation: first operand changed")
	}
	if where != 2 {
		sym.Assert(hx.SameV(b, ob), "vector operation: second operand changed")
	}
	for i := range *r {
		(*r)[i].C.Add((*r)[i].C, hx.Pt(3))
		(*r)[i].K.Add((*r)[i].K, hx.Pt(3))
	}
	if where != 1 {
		sym.Assert(hx.SameV(a, oa), "changing the result changed the first operand")
	}
	if where != 2 {
		sym.Assert(hx.SameV(b, ob), "changing the result changed the second operand")
	}
}

// H_acum: accumulating a vector of any length, including none.
func H_acum() {
	x, X := hx.Key()
	n := hx.Len("n", 0, 257)
	us := make([]int64, n)
	sum := int64(0)
	for i := range us {
		us[i] = sym.Int64("u", -big, big)
		sum += us[i]
	}
	a := hx.EncVec(X, us)
	o := hx.CopyV(a)
	r := a.Acum()
	sym.Assert(hx.Decrypts(x, r, sum), "Acum: wrong sum")
	sym.Assert(hx.SameV(a, o), "Acum changed its input")
	r.C.Add(r.C, hx.Pt(1))
	r.K.Add(r.K, hx.Pt(1))
	sym.Assert(hx.SameV(a, o), "changing the accumulated result changed the vector")
}

// H_equal: equality of ciphertexts and deterministic ciphertexts.
func H_equal() {
	var v [4]int64
	for i := range v {
		v[i] = sym.Int64("v", -big, big)
	}
	a := libunlynx.CipherText{K: hx.Pt(v[0]), C: hx.Pt(v[1])}
	b := libunlynx.CipherText{K: hx.Pt(v[2]), C: hx.Pt(v[3])}
	eq := v[0] == v[2] && v[1] == v[3]
	sym.Assert(a.Equal(&b) == eq, "CipherText.Equal")
	sym.Assert(b.Equal(&a) == eq, "CipherText.Equal")
	d := libunlynx.DeterministCipherText{Point: hx.Pt(v[0])}
	e := libunlynx.DeterministCipherText{Point: hx.Pt(v[1])}
	sym.Assert(d.Equal(&e) == (v[0] == v[1]), "DeterministCipherText.Equal")
}

// H_equalvec: equality of vectors of any two lengths.
func H_equalvec() {
	n, m := sym.Choice("n", 4), sym.Choice("m", 4)
	a, b := hx.RandCV(n), libunlynx.CipherVector{}
	same := n == m
	var d1, d2 libunlynx.DeterministCipherVector
	for i := 0; i < m; i++ {
		d := sym.Int64("d", 0, 2)
		if i < n {
			b = append(b, libunlynx.CipherText{K: a[i].K.Clone(), C: a[i].C.Clone()})
			b[i].K.Add(b[i].K, hx.Pt(d/2))
			b[i].C.Add(b[i].C, hx.Pt(d%2))
			same = same && d == 0
		} else {
			b = append(b, hx.RandCT())
		}
	}
	sym.Assert(a.Equal(&b) == same, "CipherVector.Equal")
	sym.Assert(b.Equal(&a) == same, "CipherVector.Equal")
	for i := range a {
		d1 = append(d1, libunlynx.DeterministCipherText{Point: a[i].C})
	}
	dsame := n == m
	for i := range b {
		d2 = append(d2, libunlynx.DeterministCipherText{Point: b[i].C})
		if i < n {
			dsame = dsame && a[i].C.Equal(b[i].C)
		}
	}
	sym.Assert(d1.Equal(&d2) == dsame, "DeterministCipherVector.Equal")
	var nilv *libunlynx.CipherVector
	sym.Assert(!nilv.Equal(&a) && !a.Equal(nilv) && nilv.Equal(nil), "nil vectors")
	var nild *libunlynx.DeterministCipherVector
	sym.Assert(!nild.Equal(&d1) && !d1.Equal(nild) && nild.Equal(nil), "nil deterministic vectors")
}

// H_vectorzeros: vectors with null and trivially encrypted elements: the
// result never shares storage with an operand.
func H_vectorzeros() {
	x, X := hx.Key()
	n := 2
	elem := func(name string) (libunlynx.CipherText, int64) {
		switch sym.Choice(name, 4) {
		case 0:
			return *libunlynx.NewCipherText(), 0
		case 1:
			return libunlynx.IntToCipherText(5), 5
		case 2:
			return hx.EncR(X, 0), 0
		}
		v := sym.Int64("v", -big, big)
		return hx.EncR(X, v), v
	}
	a, b := make(libunlynx.CipherVector, n), make(libunlynx.CipherVector, n)
	us, vs := make([]int64, n), make([]int64, n)
	for i := 0; i < n; i++ {
		a[i], us[i] = elem("a")
		b[i], vs[i] = elem("b")
	}
	oa, ob := hx.CopyV(a), hx.CopyV(b)
	r := libunlynx.NewCipherVector(n)
	sub := sym.Choice("sub", 2) == 1
	if sub {
		r.Sub(a, b)
	} else {
		r.Add(a, b)
	}
	t := a.Acum()
	sym.Assert(hx.Decrypts(x, t, us[0]+us[1]), "Acum: wrong sum")
	t.C.Add(t.C, hx.Pt(1))
	t.K.Add(t.K, hx.Pt(1))
	for i := range us {
		w := us[i] + vs[i]
		if sub {
			w = us[i] - vs[i]
		}
		sym.Assert(hx.Decrypts(x, (*r)[i], w), "vector operation: wrong value at a position")
		(*r)[i].C.Add((*r)[i].C, hx.Pt(3))
		(*r)[i].K.Add((*r)[i].K, hx.Pt(3))
	}
	sym.Assert(hx.SameV(a, oa) && hx.SameV(b, ob), "changing the result changed an operand")
}

// H_equallong: long vectors that differ in one component at any position, or in their length.
func H_equallong() {
	n := hx.Len("n", 5, 257)
	a := hx.RandCV(n)
	b := hx.CopyV(a)
	at := hx.Pos("at", n)
	d := sym.Int64("d", 0, 1)
	if sym.Choice("part", 2) == 0 {
		b[at].K.Add(b[at].K, hx.Pt(d))
	} else {
		b[at].C.Add(b[at].C, hx.Pt(d))
	}
	sym.Assert(a.Equal(&b) == (d == 0), "CipherVector.Equal")
	l := b[:n-1]
	sym.Assert(!a.Equal(&l) && !l.Equal(&a), "CipherVector.Equal: lengths")
	d1, d2 := make(libunlynx.DeterministCipherVector, n), make(libunlynx.DeterministCipherVector, n)
	for i := range a {
		d1[i].Point, d2[i].Point = a[i].K, b[i].K
	}
	sym.Assert(d1.Equal(&d2) == a[at].K.Equal(b[at].K), "DeterministCipherVector.Equal")
	m := d2[:n-1]
	sym.Assert(!d1.Equal(&m) && !m.Equal(&d1), "DeterministCipherVector.Equal: lengths")
}

// H_equalpermuted: vectors of the same elements in another order, and ones whose differences cancel out.
func H_equalpermuted() {
	n := []int{2, 3, 101}[sym.Choice("n", 3)]
	a := hx.RandCV(n)
	b := hx.CopyV(a)
	i := hx.Pos("i", n)
	j := (i + 1 + sym.Choice("j", 2)) % n
	d := sym.Int64("d", 0, 1)
	same := d == 0
	switch sym.Choice("kind", 4) {
	case 0:
		b[i], b[j] = b[j], b[i]
		same = i == j
	case 1:
		b[i].K.Add(b[i].K, hx.Pt(d))
		b[j].K.Sub(b[j].K, hx.Pt(d))
		same = d == 0 || i == j
	case 2:
		b[i].C.Add(b[i].C, hx.Pt(d))
		b[j].C.Sub(b[j].C, hx.Pt(d))
		same = d == 0 || i == j
	case 3:
		b[i].K.Add(b[i].K, hx.Pt(d))
		b[i].C.Sub(b[i].C, hx.Pt(d))
	}
	sym.Assert(a.Equal(&b) == same && b.Equal(&a) == same, "CipherVector.Equal")
	d1, d2 := make(libunlynx.DeterministCipherVector, n), make(libunlynx.DeterministCipherVector, n)
	dsame := true
	for i := range a {
		d1[i].Point, d2[i].Point = a[i].C, b[i].C
		dsame = dsame && a[i].C.Equal(b[i].C)
	}
	sym.Assert(d1.Equal(&d2) == dsame && d2.Equal(&d1) == dsame, "DeterministCipherVector.Equal")
	c := libunlynx.CipherText{K: a[i].C, C: a[i].K}
	sym.Assert(!c.Equal(&a[i]) && !a[i].Equal(&c), "CipherText.Equal")
}
