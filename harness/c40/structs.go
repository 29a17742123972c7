package c40

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

// bytes are some ciphertexts and some more bytes.
func bytes(most int) []byte {
	var out []byte
	_, K := hx.Key()
	for i := sym.Choice("ciphertexts", most+1); i > 0; i-- {
		b, err := libunlynx.EncryptInt(K, 1).ToBytes()
		sym.Assert(err == nil, "encoding failed")
		out = append(out, b...)
	}
	return append(out, make([]byte, []int{0, 1, 2, 32}[sym.Choice("more", 4)])...)
}

func length() int { return int(sym.Int64("length", -1<<63, 1<<63-1)) }

// fits tells whether there are as many bytes as announced.
func fits(data []byte, ciphertexts []int, lengths []int) bool {
	left := len(data)
	for _, n := range ciphertexts {
		if n < 0 || n > left/64 {
			return false
		}
		left -= 64 * n
	}
	for _, n := range lengths {
		if n < 0 || n > left {
			return false
		}
		left -= n
	}
	return left == 0
}

// H_structs: decoding response structures from bytes that do not match the
// announced lengths, whatever those are.
func H_structs() {
	kind := sym.Choice("structure", 4)
	most := 2
	if kind == 3 {
		most = sym.Tier()
	}
	data := bytes(most)
	a, b := length(), length()
	switch kind {
	case 0:
		fr := libunlynx.FilteredResponse{}
		err := fr.FromBytes(data, a, b)
		sym.Assert(err != nil || fits(data, []int{a, b}, nil), "decoding bytes of a wrong size succeeds")
		sym.Assert(err != nil || len(fr.AggregatingAttributes) == a && len(fr.GroupByEnc) == b, "a wrong number of elements")
	case 1:
		c := length()
		fr := libunlynx.FilteredResponseDet{}
		err := fr.FromBytes(data, a, b, c)
		sym.Assert(err != nil || fits(data, []int{a, b}, []int{c}), "decoding bytes of a wrong size succeeds")
		sym.Assert(err != nil || len(fr.Fr.GroupByEnc) == a && len(fr.Fr.AggregatingAttributes) == b && len(fr.DetTagGroupBy) == c, "a wrong number of elements")
	case 2:
		c := length()
		pr := libunlynx.ProcessResponse{}
		err := pr.FromBytes(data, a, b, c)
		sym.Assert(err != nil || fits(data, []int{a, b, c}, nil), "decoding bytes of a wrong size succeeds")
		sym.Assert(err != nil || len(pr.GroupByEnc) == a && len(pr.AggregatingAttributes) == b && len(pr.WhereEnc) == c, "a wrong number of elements")
	case 3:
		c, d, e := length(), length(), length()
		pr := libunlynx.ProcessResponseDet{}
		err := pr.FromBytes(data, a, b, c, d, e)
		sym.Assert(err != nil || fits(data, []int{a, b, c}, []int{d, e}), "decoding bytes of a wrong size succeeds")
		sym.Assert(err != nil || len(pr.PR.GroupByEnc) == a && len(pr.PR.AggregatingAttributes) == b && len(pr.PR.WhereEnc) == c && len(pr.DetTagGroupBy) == d, "a wrong number of elements")
	}
	sym.Reach("end")
}

// H_aggregated: decoding aggregated data with arbitrary announced lengths.
func H_aggregated() {
	data := bytes(2)
	a, b, c := length(), length(), length()
	m := protocolsunlynx.ChildAggregatedDataMessage{}
	err := m.FromBytes(data, a, b, c)
	if err != nil {
		sym.Reach("error")
		return
	}
	if len(data) == 0 {
		sym.Assert(len(m.ChildData) == 0, "elements out of nothing")
		return
	}
	n := len(m.ChildData)
	sym.Assert(n > 0 && len(data)%n == 0 && fits(data[:len(data)/n], []int{a, b}, []int{c}), "decoding bytes of a wrong size succeeds")
	for _, d := range m.ChildData {
		sym.Assert(len(d.Fr.GroupByEnc) == a && len(d.Fr.AggregatingAttributes) == b && len(d.DetTagGroupBy) == c, "a wrong number of elements")
	}
	sym.Reach("decoded")
}

// H_messages: decoding the other messages from bytes of arbitrary sizes.
func H_messages() {
	data := bytes(2)
	ls := sym.Bytes("lengths", []int{0, 1, 4, 5, 8}[sym.Choice("nbr", 5)])
	match := func(rows []libunlynx.CipherVector) {
		sum := 0
		for i, r := range rows {
			n := int(ls[4*i])<<24 | int(ls[4*i+1])<<16 | int(ls[4*i+2])<<8 | int(ls[4*i+3])
			sym.Assert(len(r) == n, "a row of a wrong length")
			sum += n
		}
		sym.Assert(len(ls) == 4*len(rows) && 64*sum == len(data), "decoding bytes of a wrong size succeeds")
		sym.Reach("decoded")
	}
	switch sym.Choice("message", 3) {
	case 0:
		m := protocolsunlynx.DeterministicTaggingMessage{}
		if m.FromBytes(data) == nil {
			sym.Assert(64*len(m.Data) == len(data), "decoding bytes of a wrong size succeeds")
		}
	case 1:
		m := protocolsunlynx.ShufflingMessage{}
		if m.FromBytes(data, ls) == nil {
			match(m.Data)
		}
	case 2:
		key := bytes(2)
		m := protocolsunlynx.ShufflingPlusDDTMessage{}
		if m.FromBytes(data, key, ls) == nil {
			match(m.Data)
			sym.Assert(len(key) == 32, "decoding a key of a wrong size succeeds")
		}
	}
}
