package main

import "math/big"

// concreteBytes returns the bytes if none is symbolic.
func concreteBytes(b []value) ([]byte, bool) {
	out := make([]byte, len(b))
	for i, x := range b {
		switch v := x.(type) {
		case int64:
			out[i] = byte(v)
		case uint64:
			out[i] = byte(v)
		case uint8:
			out[i] = v
		default:
			return nil, false
		}
	}
	return out, true
}

// edPoint tells whether 32 bytes decode as a point of edwards25519 the way
// kyber does it: 1 yes, 2 no, 3 the neutral element.
func edPoint(b []byte) int {
	if len(b) != 32 {
		return 2
	}
	q := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	be := make([]byte, 32)
	for i := range b {
		be[31-i] = b[i]
	}
	be[0] &= 127
	y := new(big.Int).SetBytes(be)
	y.Mod(y, q)
	if y.Cmp(big.NewInt(1)) == 0 {
		return 3
	}
	d := new(big.Int).ModInverse(big.NewInt(121666), q)
	d.Mul(d, big.NewInt(-121665)).Mod(d, q)
	yy := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(yy, big.NewInt(1))
	v := new(big.Int).Mul(d, yy)
	v.Add(v, big.NewInt(1))
	v.Mod(v, q)
	x2 := new(big.Int).Mul(u, v.ModInverse(v, q))
	x2.Mod(x2, q)
	if big.Jacobi(x2, q) == -1 {
		return 2
	}
	return 1
}
