// Package c02: decryption does not depend on the history.
package c02

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

func dec(x kyber.Scalar, c libunlynx.CipherText, signed bool) int64 {
	if signed {
		return libunlynx.DecryptIntWithNeg(x, c)
	}
	return libunlynx.DecryptInt(x, c)
}

// H_history: any sequence of signed and unsigned decryptions of values in range
// (under different keys) returns each value.
func H_history() {
	n, lim := 3, int64(3)
	if sym.Tier() > 0 {
		n, lim = 4, 4
	}
	for i := 0; i < n; i++ {
		x, X := hx.Key()
		signed := sym.Choice("signed", 2) == 1
		lo := int64(0)
		if signed {
			lo = -lim
		}
		v := sym.Int64("v", lo, lim)
		got := dec(x, hx.EncR(X, v), signed)
		sym.Assert(got == v, "the decryption of a value in range depends on earlier decryptions")
	}
}

// H_outofrange: decrypting a value outside the range does not disturb later
// decryptions and does not block them.
func H_outofrange() {
	x, X := hx.Key()
	dec(x, hx.EncR(X, 100000), false)
	v := sym.Int64("v", -1, 1)
	signed := sym.Choice("signed", 2) == 1
	sym.Assume(signed || v >= 0)
	sym.Assert(dec(x, hx.EncR(X, v), signed) == v, "decryption wrong after an out-of-range one")
}

// H_mode: what an unsigned decryption of a negative value answers does not
// depend on whether the value was seen before.
func H_mode() {
	x, X := hx.Key()
	c := hx.EncR(X, -2)
	first := dec(x, c, false)
	sym.Assert(dec(x, c, true) == -2, "signed decryption wrong after an unsigned one")
	sym.Assert(dec(x, c, false) == first, "unsigned decryption of a negative value depends on earlier signed decryptions")
}
