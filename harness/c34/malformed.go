package c34

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

// cut removes or adds whole points or some bytes; the result has another length.
func cut(name string, b []byte) []byte {
	n := len(b)
	lens := []int{0, 31, 32, n - 64, n - 32, n - 1, n + 1, n + 32, n + 64}
	m := lens[sym.Choice(name, len(lens))]
	sym.Assume(m >= 0 && m != n)
	out := make([]byte, m)
	copy(out, b)
	if m > n {
		more, err := libunlynx.AbstractPointsToBytes([]kyber.Point{hx.RandPt(), hx.RandPt()})
		sym.Assert(err == nil, "AbstractPointsToBytes failed")
		copy(out[n:], more)
	}
	return out
}

func rejected(what string, f func() error) {
	var err error
	_, p := hx.Panics(func() { err = f() })
	sym.Assert(!p, what+": decoding crashes")
	sym.Assert(err != nil, what+": the wrong number of bytes is accepted")
}

// H_malformedKeyswitch: key switch proofs, alone or in a list, from the wrong number of bytes.
func H_malformedKeyswitch() {
	p := ks(true, 0)
	b, err := p.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	b.KVibKs2RbNegQ = cut("len", b.KVibKs2RbNegQ)
	rejected("key switch proof", func() error {
		q := libunlynxkeyswitch.PublishedKSProof{}
		return q.FromBytes(b)
	})
}

// H_malformedKeyswitchList: lists of key switch proofs with one from the wrong number of bytes.
func H_malformedKeyswitchList() {
	n := hx.Len("n", 1, 33)
	at := hx.Pos("at", n)
	lb := libunlynxkeyswitch.PublishedKSListProofBytes{}
	for i := 0; i < n; i++ {
		p := ks(true, 0)
		b, err := p.ToBytes()
		sym.Assert(err == nil, "ToBytes failed")
		lb.List = append(lb.List, b)
	}
	b := lb.List[at].KVibKs2RbNegQ
	k := []int{0, 4, 6}[sym.Choice("points", 3)]
	if k > 5 {
		lb.List[at].KVibKs2RbNegQ = append(append([]byte{}, b...), b[:32]...)
	} else {
		lb.List[at].KVibKs2RbNegQ = b[:32*k]
	}
	rejected("list of key switch proofs", func() error {
		l := libunlynxkeyswitch.PublishedKSListProof{}
		return l.FromBytes(lb)
	})
}

// H_malformedShuffle: shuffle proofs with a component of the wrong number of bytes, or without it.
func H_malformedShuffle() {
	_, h := hx.Key()
	c := 1 + sym.Choice("columns", 2)
	in := []libunlynx.CipherVector{hx.RandCV(c), hx.RandCV(c)}
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, hx.Pt(1), h, nil)
	p, err := libunlynxshuffle.ShuffleProofCreation(in, out, hx.Pt(1), h, beta, pi)
	sym.Assert(err == nil, "ShuffleProofCreation failed")
	b, err := p.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	fields := []**[]byte{&b.OriginalList, &b.OriginalListLength, &b.ShuffledList, &b.ShuffledListLength, &b.G, &b.H}
	i := sym.Choice("field", len(fields))
	f := fields[i]
	if sym.Choice("missing", 2) == 1 {
		*f = nil
	} else {
		d := cut("len", **f)
		sym.Assume(i != 1 && i != 3 || len(d) <= len(**f)+1) // further lengths may be those of empty rows
		*f = &d
	}
	rejected("shuffle proof", func() error {
		q := libunlynxshuffle.PublishedShufflingProof{}
		return q.FromBytes(b)
	})
}

// H_malformedAggregation: aggregation proofs from the wrong number of bytes or with another number of ciphertexts.
func H_malformedAggregation() {
	n := 1 + sym.Choice("n", 3)
	p := aggr(n, true)
	b, err := p.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	switch sym.Choice("field", 3) {
	case 0:
		b.Data = cut("len", b.Data)
	case 1:
		b.AggregationResult = cut("len", b.AggregationResult)
	case 2:
		l := sym.Int64("announced", -4, 8)
		sym.Assume(l != int64(n))
		b.DataLen = l
	}
	list := sym.Choice("list", 2) == 1
	rejected("aggregation proof", func() error {
		if list {
			o := aggr(1, true)
			ob, err := o.ToBytes()
			sym.Assert(err == nil, "ToBytes failed")
			l := libunlynxaggr.PublishedAggregationListProof{}
			return l.FromBytes(libunlynxaggr.PublishedAggregationListProofBytes{List: []libunlynxaggr.PublishedAggregationProofBytes{ob, b}})
		}
		q := libunlynxaggr.PublishedAggregationProof{}
		return q.FromBytes(b)
	})
}
