// Package symgrp is the model of the Ed25519 suite used by the symbolic
// executor: a generic prime-order group whose elements and scalars are
// expressions handled by the executor. It keeps the in-place mutation
// behaviour, the encodings' lengths and the nil/uninitialised cases of the
// real suite.
package symgrp

import (
	"crypto/cipher"
	"errors"
	"hash"
	"io"
	"math/big"

	"go.dedis.ch/kyber/v3"
)

// Elt is an element expression; its representation belongs to the executor.
type Elt struct{ _ int }

func eltAdd(a, b Elt) Elt                        { panic("model") }
func eltSub(a, b Elt) Elt                        { panic("model") }
func eltMul(a, b Elt) Elt                        { panic("model") }
func eltNeg(a Elt) Elt                           { panic("model") }
func eltInv(a Elt) Elt                           { panic("model") }
func eltEq(a, b Elt) bool                        { panic("model") }
func eltInt(v int64) Elt                         { panic("model") }
func eltBot() Elt                                { panic("model") }
func eltIsBot(a Elt) bool                        { panic("model") }
func eltFresh(label string) Elt                  { panic("model") }
func eltNamed(key string) Elt                    { panic("model") }
func contentKey(b []byte) string                 { panic("model") }
func eltBytes(a Elt, kind byte) []byte           { panic("model") }
func eltHex(a Elt, kind byte) string             { panic("model") }
func eltFromBytes(b []byte, kind byte) (Elt, int) { panic("model") }
func choose(key string, n int) int               { panic("model") }
func validPoint(b []byte) int                    { panic("model") }
func token(id int, n int) []byte                 { panic("model") }
func tokenID(b []byte) int                       { panic("model") }
func hashBytes(b []byte, n int) []byte           { panic("model") }
func nondetInt(label string, lo, hi int) int     { panic("model") }
func nondetBig(mod *big.Int) *big.Int            { panic("model") }
func exit(code int)                              { panic("model") }
func deepCopy(x interface{}) interface{}         { panic("model") }
func call(f interface{}, args ...interface{}) []interface{} { panic("model") }
func typeName(x interface{}) string              { panic("model") }

// Exported access for the other models.
func HashBytes(b []byte, n int) []byte { return hashBytes(b, n) }
func Token(id, n int) []byte           { return token(id, n) }
func TokenID(b []byte) int             { return tokenID(b) }
func NondetBig(m *big.Int) *big.Int    { return nondetBig(m) }
func NondetInt(label string, lo, hi int) int { return nondetInt(label, lo, hi) }
func Exit(code int)                    { exit(code) }
func DeepCopy(x interface{}) interface{} { return deepCopy(x) }
func Call(f interface{}, args ...interface{}) []interface{} { return call(f, args...) }
func TypeName(x interface{}) string    { return typeName(x) }
func Choose(key string, n int) int     { return choose(key, n) }

// FreshScalar returns a scalar that is a new indeterminate.
func FreshScalar(label string) kyber.Scalar { return &scalar{eltFresh(label)} }

type Suite struct{}

func (s *Suite) String() string        { return "Ed25519" }
func (s *Suite) ScalarLen() int        { return 32 }
func (s *Suite) PointLen() int         { return 32 }
func (s *Suite) Scalar() kyber.Scalar  { return &scalar{} }
func (s *Suite) Point() kyber.Point    { return &point{v: eltBot()} }
func (s *Suite) Hash() hash.Hash       { return &digest{} }
func (s *Suite) XOF(key []byte) kyber.XOF { return &xof{key: contentKey(key)} }
func (s *Suite) RandomStream() cipher.Stream { return &Stream{} }
func (s *Suite) NewKey(r cipher.Stream) kyber.Scalar { return pick(r) }
func (s *Suite) Read(r io.Reader, objs ...interface{}) error  { panic("suite.Read is not modelled") }
func (s *Suite) Write(w io.Writer, objs ...interface{}) error { panic("suite.Write is not modelled") }

// Stream is a source of fresh randomness.
type Stream struct{ used int }

func (s *Stream) XORKeyStream(dst, src []byte) {
	s.used++
	if len(src) > 0 {
		b := hashBytes(eltBytes(eltFresh("stream"), 's'), len(src))
		copy(dst, b)
	}
}

func pick(r cipher.Stream) kyber.Scalar {
	switch s := r.(type) {
	case *xof:
		return &scalar{eltNamed(s.next("s"))}
	case *Stream:
		return &scalar{eltFresh("r")}
	}
	b := make([]byte, 32)
	r.XORKeyStream(b, b)
	return &scalar{eltNamed("stream:" + contentKey(b))}
}

type xof struct {
	key string
	n   int
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
	}
	return s
}

func (x *xof) next(kind string) string {
	x.n++
	return "xof" + kind + itoa(x.n) + ":" + x.key
}
func (x *xof) Write(b []byte) (int, error) { x.key += "|" + contentKey(b); return len(b), nil }
func (x *xof) Read(b []byte) (int, error) {
	copy(b, eltBytes(eltNamed(x.next("r")), 's'))
	return len(b), nil
}
func (x *xof) XORKeyStream(dst, src []byte) {
	copy(dst, hashBytes(append(eltBytes(eltNamed(x.next("x")), 's'), src...), len(src)))
}
func (x *xof) Reseed()          { x.key += "|reseed" }
func (x *xof) Clone() kyber.XOF { c := *x; return &c }

type digest struct{ b []byte }

func (d *digest) Write(b []byte) (int, error) { d.b = append(d.b, b...); return len(b), nil }
func (d *digest) Sum(b []byte) []byte         { return append(b, hashBytes(d.b, 32)...) }
func (d *digest) Reset()                      { d.b = nil }
func (d *digest) Size() int                   { return 32 }
func (d *digest) BlockSize() int              { return 64 }

// ---- scalars

type scalar struct{ v Elt }

func (s *scalar) Equal(s2 kyber.Scalar) bool          { return eltEq(s.v, s2.(*scalar).v) }
func (s *scalar) Set(a kyber.Scalar) kyber.Scalar     { s.v = a.(*scalar).v; return s }
func (s *scalar) Clone() kyber.Scalar                 { return &scalar{s.v} }
func (s *scalar) SetInt64(v int64) kyber.Scalar       { s.v = eltInt(v); return s }
func (s *scalar) Zero() kyber.Scalar                  { s.v = eltInt(0); return s }
func (s *scalar) One() kyber.Scalar                   { s.v = eltInt(1); return s }
func (s *scalar) Add(a, b kyber.Scalar) kyber.Scalar  { s.v = eltAdd(a.(*scalar).v, b.(*scalar).v); return s }
func (s *scalar) Sub(a, b kyber.Scalar) kyber.Scalar  { s.v = eltSub(a.(*scalar).v, b.(*scalar).v); return s }
func (s *scalar) Neg(a kyber.Scalar) kyber.Scalar     { s.v = eltNeg(a.(*scalar).v); return s }
func (s *scalar) Mul(a, b kyber.Scalar) kyber.Scalar  { s.v = eltMul(a.(*scalar).v, b.(*scalar).v); return s }
func (s *scalar) Div(a, b kyber.Scalar) kyber.Scalar {
	s.v = eltMul(a.(*scalar).v, eltInv(b.(*scalar).v))
	return s
}
func (s *scalar) Inv(a kyber.Scalar) kyber.Scalar       { s.v = eltInv(a.(*scalar).v); return s }
func (s *scalar) Pick(r cipher.Stream) kyber.Scalar     { s.v = pick(r).(*scalar).v; return s }
func (s *scalar) SetBytes(b []byte) kyber.Scalar {
	if e, st := eltFromBytes(b, 's'); st == 0 {
		s.v = e
	} else {
		s.v = eltNamed("sc:" + contentKey(b))
	}
	return s
}
func (s *scalar) String() string                 { return eltHex(s.v, 'S') }
func (s *scalar) MarshalSize() int               { return 32 }
func (s *scalar) MarshalBinary() ([]byte, error) { return eltBytes(s.v, 's'), nil }
func (s *scalar) UnmarshalBinary(b []byte) error {
	e, st := eltFromBytes(b, 's')
	switch st {
	case 0:
		s.v = e
	case 1:
		s.v = eltNamed("sc:" + contentKey(b))
	default:
		return errors.New("wrong size buffer")
	}
	return nil
}
func (s *scalar) MarshalTo(w io.Writer) (int, error) { return w.Write(eltBytes(s.v, 's')) }
func (s *scalar) UnmarshalFrom(r io.Reader) (int, error) {
	b := make([]byte, 32)
	n, err := io.ReadFull(r, b)
	if err != nil {
		return n, err
	}
	return n, s.UnmarshalBinary(b)
}

// ---- points (written additively: k*B is represented by k)

type point struct{ v Elt }

func (p *point) Equal(p2 kyber.Point) bool      { return eltEq(p.v, p2.(*point).v) }
func (p *point) Null() kyber.Point              { p.v = eltInt(0); return p }
func (p *point) Base() kyber.Point              { p.v = eltInt(1); return p }
func (p *point) Set(q kyber.Point) kyber.Point  { p.v = q.(*point).v; return p }
func (p *point) Clone() kyber.Point             { return &point{p.v} }
func (p *point) EmbedLen() int                  { return 29 }
func (p *point) Pick(r cipher.Stream) kyber.Point {
	switch s := r.(type) {
	case *xof:
		p.v = eltNamed(s.next("p"))
	default:
		p.v = eltFresh("P")
	}
	return p
}
func (p *point) Embed(data []byte, r cipher.Stream) kyber.Point {
	if data == nil {
		return p.Pick(r)
	}
	panic("point.Embed is not modelled")
}
func (p *point) Data() ([]byte, error)         { panic("point.Data is not modelled") }
func (p *point) Add(a, b kyber.Point) kyber.Point {
	p.v = eltAdd(a.(*point).v, b.(*point).v)
	return p
}
func (p *point) Sub(a, b kyber.Point) kyber.Point {
	p.v = eltSub(a.(*point).v, b.(*point).v)
	return p
}
func (p *point) Neg(a kyber.Point) kyber.Point { p.v = eltNeg(a.(*point).v); return p }
func (p *point) Mul(s kyber.Scalar, q kyber.Point) kyber.Point {
	if q == nil {
		p.v = s.(*scalar).v
	} else {
		p.v = eltMul(s.(*scalar).v, q.(*point).v)
	}
	return p
}
func (p *point) String() string                 { return eltHex(p.v, 'P') }
func (p *point) MarshalSize() int               { return 32 }
func (p *point) MarshalBinary() ([]byte, error) { return eltBytes(p.v, 'p'), nil }
func (p *point) UnmarshalBinary(b []byte) error {
	e, st := eltFromBytes(b, 'p')
	switch st {
	case 0:
		if eltIsBot(e) {
			// the encoding of an uninitialised point is not on the curve or not canonical
			p.v = eltBot()
			return nil
		}
		p.v = e
	case 1:
		k := contentKey(b)
		valid := validPoint(b)
		if valid == 3 {
			p.v = eltInt(0)
			return nil
		}
		if valid == 2 || valid == 0 && choose("pt:"+k, 2) == 1 {
			p.v = eltBot()
			return errors.New("invalid Ed25519 curve point")
		}
		p.v = eltNamed("pt:" + k)
	default:
		return errors.New("invalid Ed25519 curve point")
	}
	return nil
}
func (p *point) MarshalTo(w io.Writer) (int, error) { return w.Write(eltBytes(p.v, 'p')) }
func (p *point) UnmarshalFrom(r io.Reader) (int, error) {
	b := make([]byte, 32)
	n, err := io.ReadFull(r, b)
	if err != nil {
		return n, err
	}
	return n, p.UnmarshalBinary(b)
}
func (p *point) AllowVarTime(bool) {}
