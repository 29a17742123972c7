package random

import (
	"crypto/cipher"
	"math/big"

	"go.dedis.ch/kyber/v3/symgrp"
)

func New(readers ...interface{}) cipher.Stream { return &symgrp.Stream{} }

func Int(mod *big.Int, rand cipher.Stream) *big.Int { return symgrp.NondetBig(mod) }

func Bytes(b []byte, rand cipher.Stream) { rand.XORKeyStream(b, b) }

func Bits(bitlen uint, exact bool, rand cipher.Stream) []byte {
	b := make([]byte, (bitlen+7)/8)
	rand.XORKeyStream(b, b)
	return b
}
