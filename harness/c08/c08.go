// Package c08: malformed bytes give errors.
package c08

import (
	"encoding/base64"

	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

// bad is a 32-byte string that is no point.
func bad() []byte {
	for k := 0; k < 40; k++ {
		b := make([]byte, 32)
		b[0] = byte(k)
		if libunlynx.SuiTe.Point().UnmarshalBinary(b) != nil {
			return b
		}
	}
	sym.Assume(false)
	return nil
}

// data has n bytes: a valid encoding cut or padded, or arbitrary bytes.
func data(n int) []byte {
	if sym.Choice("content", 2) == 1 {
		return sym.Bytes("b", n)
	}
	cv := hx.RandCV(n/64 + 1)
	b, _, err := cv.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	return append([]byte{}, b[:n]...)
}

func lens() []int {
	if sym.Tier() > 0 {
		return []int{0, 1, 2, 3, 31, 32, 33, 47, 63, 64, 65, 95, 96, 97, 127, 128, 129, 130, 160, 191, 192, 193}
	}
	return []int{0, 1, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129}
}

func nbytes() int {
	l := lens()
	return l[sym.Choice("nbytes", len(l))]
}

// H_ciphertext: a ciphertext from the wrong number of bytes.
func H_ciphertext() {
	n := nbytes()
	b := data(n)
	var err error
	c := libunlynx.CipherText{}
	how := sym.Choice("how", 3)
	msg, p := hx.Panics(func() {
		switch how {
		case 0:
			err = c.FromBytes(b)
		case 1:
			err = c.Deserialize(base64.URLEncoding.EncodeToString(b))
		case 2:
			_, err = libunlynx.NewCipherTextFromBase64(base64.URLEncoding.EncodeToString(b))
		}
	})
	sym.Assert(!p, "decoding a ciphertext panicked: "+msg)
	if n != 64 {
		sym.Assert(err != nil, "a ciphertext from the wrong number of bytes")
	}
}

// H_point: a point or scalar from the wrong number of bytes.
func H_point() {
	n := nbytes()
	s := base64.URLEncoding.EncodeToString(data(n))
	var err error
	scalar := sym.Choice("scalar", 2) == 1
	msg, p := hx.Panics(func() {
		if scalar {
			_, err = libunlynx.DeserializeScalar(s)
		} else {
			_, err = libunlynx.DeserializePoint(s)
		}
	})
	sym.Assert(!p, "decoding panicked: "+msg)
	if n != 32 {
		sym.Assert(err != nil, "a point or scalar from the wrong number of bytes")
	}
}

// H_base64: text that is no base64.
func H_base64() {
	texts := []string{"!", "A", "====", "AAAA=", "\n-", "A A A A ", "é", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA*"}
	s := texts[sym.Choice("text", len(texts))]
	var e1, e2, e3, e4 error
	msg, p := hx.Panics(func() {
		c := libunlynx.CipherText{}
		e1 = c.Deserialize(s)
		_, e2 = libunlynx.DeserializePoint(s)
		_, e3 = libunlynx.DeserializeScalar(s)
		_, e4 = libunlynx.NewCipherTextFromBase64(s)
	})
	sym.Assert(!p, "decoding panicked: "+msg)
	sym.Assert(e1 != nil && e2 != nil && e3 != nil && e4 != nil, "text that is no base64 was accepted")
}

// H_vector: a vector from any number of bytes and announced length.
func H_vector() {
	n := nbytes()
	l := []int{0, 1, 2, 3}[sym.Choice("l", 4)]
	b := data(n)
	if extra := sym.Choice("spare", 2); extra == 1 {
		// spare capacity behind the slice must not be read
		b = append(make([]byte, 0, n+512), b...)
	}
	cv := libunlynx.CipherVector{}
	var err error
	msg, p := hx.Panics(func() { err = cv.FromBytes(b, l) })
	sym.Assert(!p, "decoding a vector panicked: "+msg)
	if n < 64*l || n%64 != 0 {
		sym.Assert(err != nil, "a vector from the wrong number of bytes")
	}
	if err == nil {
		sym.Assert(len(cv) == l, "a vector of another length")
	}
}

// H_points: a list of points from any number of bytes.
func H_points() {
	n := nbytes()
	b := data(n)
	if extra := sym.Choice("spare", 2); extra == 1 {
		b = append(make([]byte, 0, n+512), b...)
	}
	var err error
	k := -1
	msg, p := hx.Panics(func() {
		ps, e := libunlynx.FromBytesToAbstractPoints(b)
		err, k = e, len(ps)
	})
	sym.Assert(!p, "decoding points panicked: "+msg)
	if n%32 != 0 {
		sym.Assert(err != nil, "points from a broken number of bytes")
	}
	if err == nil {
		sym.Assert(k == n/32, "another number of points")
	}
}

// H_array: an array of vectors whose bytes and lengths do not match.
func H_array() {
	n := nbytes()
	b := data(n)
	ll := []int{0, 1, 3, 4, 5, 8, 9}[sym.Choice("lengthbytes", 7)]
	lb := make([]byte, ll)
	total := 0
	for i := 0; i+3 < ll; i += 4 {
		l := []int{0, 1, 2, 1 << 24}[sym.Choice("l", 4)]
		lb[i], lb[i+3] = byte(l>>24), byte(l)
		if l == 1<<24 {
			lb[i] = 1
		}
		total += l
	}
	if extra := sym.Choice("spare", 2); extra == 1 {
		b = append(make([]byte, 0, n+512), b...)
		lb = append(make([]byte, 0, 64), lb...)
	}
	var err error
	k := 0
	msg, p := hx.Panics(func() {
		cvs, e := libunlynx.FromBytesToArrayCipherVector(b, lb)
		err = e
		for _, v := range cvs {
			k += len(v)
		}
	})
	sym.Assert(!p, "decoding an array of vectors panicked: "+msg)
	if ll%4 != 0 || n < 64*total || n%64 != 0 {
		sym.Assert(err != nil, "an array of vectors from the wrong number of bytes")
	}
	if err == nil {
		sym.Assert(k == total, "another number of ciphertexts")
	}
}

// H_badpoint: a component that is no point, at any position.
func H_badpoint() {
	n := []int{1, 2, 3, 101}[sym.Choice("n", 4)]
	pos := sym.Choice("pos", n*2)
	if n == 101 {
		sym.Assume(pos == 0 || pos == 1 || pos == 199 || pos == 200 || pos == 201)
	}
	cv := hx.RandCV(n)
	b, _, err := cv.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	copy(b[32*pos:], bad())
	if n == 1 {
		c := libunlynx.CipherText{}
		sym.Assert(c.FromBytes(b) != nil, "a ciphertext with a component that is no point")
		s := base64.URLEncoding.EncodeToString(b)
		sym.Assert(c.Deserialize(s) != nil, "Deserialize: a ciphertext with a component that is no point")
		_, err = libunlynx.NewCipherTextFromBase64(s)
		sym.Assert(err != nil, "NewCipherTextFromBase64: a ciphertext with a component that is no point")
		_, err = libunlynx.DeserializePoint(base64.URLEncoding.EncodeToString(b[32*pos : 32*pos+32]))
		sym.Assert(err != nil, "DeserializePoint: no point")
		_, err = libunlynx.MapBytesToMapCipherText(map[string][]byte{"a": b})
		sym.Assert(err != nil, "MapBytesToMapCipherText: no point")
	}
	d := libunlynx.CipherVector{}
	sym.Assert(d.FromBytes(b, n) != nil, "a vector with a component that is no point")
	_, err = libunlynx.FromBytesToAbstractPoints(b)
	sym.Assert(err != nil, "a list with a component that is no point")
	l := []byte{0, 0, 0, byte(n)}
	if n > 1 && sym.Choice("split", 2) == 1 {
		l = []byte{0, 0, 0, 1, 0, 0, 0, byte(n - 1)}
	}
	_, err = libunlynx.FromBytesToArrayCipherVector(b, l)
	sym.Assert(err != nil, "an array with a component that is no point")
}
