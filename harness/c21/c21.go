// Package c21: preparation of a data provider's responses.
package c21

import (
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

var names = [][]string{{"g0", "g1"}, {"g2", "x"}, {"w0", "w1"}, {"w2", "y"}, {"s0", "s1"}, {"s2", "z"}}

func attrs(kind, n int) map[string]int64 {
	if n < 0 {
		return nil
	}
	m := map[string]int64{}
	for i := 0; i < n; i++ {
		m[names[kind][i]] = sym.Int64("v", -1<<40, 1<<40)
	}
	return m
}

func response(ns [6]int) libunlynx.DpClearResponse {
	return libunlynx.DpClearResponse{
		GroupByClear: attrs(0, ns[0]), GroupByEnc: attrs(1, ns[1]),
		WhereClear: attrs(2, ns[2]), WhereEnc: attrs(3, ns[3]),
		AggregatingAttributesClear: attrs(4, ns[4]), AggregatingAttributesEnc: attrs(5, ns[5]),
	}
}

func clone(m map[string]int64) map[string]int64 {
	c := map[string]int64{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func cloneR(r libunlynx.DpClearResponse) libunlynx.DpClearResponse {
	return libunlynx.DpClearResponse{
		GroupByClear: clone(r.GroupByClear), GroupByEnc: clone(r.GroupByEnc),
		WhereClear: clone(r.WhereClear), WhereEnc: clone(r.WhereEnc),
		AggregatingAttributesClear: clone(r.AggregatingAttributesClear), AggregatingAttributesEnc: clone(r.AggregatingAttributesEnc),
	}
}

func same(a, b map[string]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

func sameR(a, b libunlynx.DpClearResponse) bool {
	return same(a.GroupByClear, b.GroupByClear) && same(a.GroupByEnc, b.GroupByEnc) && same(a.WhereClear, b.WhereClear) &&
		same(a.WhereEnc, b.WhereEnc) && same(a.AggregatingAttributesClear, b.AggregatingAttributesClear) && same(a.AggregatingAttributesEnc, b.AggregatingAttributesEnc)
}

// encrypts tells whether the ciphertexts are encryptions of the values, by name.
func encrypts(x kyber.Scalar, m map[string]libunlynx.CipherText, vs map[string]int64, count bool) bool {
	n := len(vs)
	if count {
		n++
		c, ok := m["count"]
		if !ok || !hx.Decrypts(x, c, 1) {
			return false
		}
	}
	if len(m) != n {
		return false
	}
	for k, v := range vs {
		c, ok := m[k]
		if !ok || !hx.Decrypts(x, c, v) {
			return false
		}
	}
	return true
}

func check(x kyber.Scalar, got libunlynx.DpResponseToSend, r libunlynx.DpClearResponse, count bool) {
	d := libunlynx.DpResponse{}
	sym.Assert(d.FromDpResponseToSend(got) == nil, "the response to send cannot be decoded")
	sym.Assert(same(d.GroupByClear, r.GroupByClear) && same(d.WhereClear, r.WhereClear) && same(d.AggregatingAttributesClear, r.AggregatingAttributesClear), "a clear attribute changed")
	sym.Assert(encrypts(x, d.GroupByEnc, r.GroupByEnc, false), "a grouping attribute is not encrypted faithfully")
	sym.Assert(encrypts(x, d.WhereEnc, r.WhereEnc, false), "a where attribute is not encrypted faithfully")
	sym.Assert(encrypts(x, d.AggregatingAttributesEnc, r.AggregatingAttributesEnc, count), "an aggregating attribute or the count is not encrypted faithfully")
}

var shapes = [][6]int{{1, 1, 1, 1, 1, 1}, {2, 0, 0, 2, 2, 0}, {0, 2, 2, 0, 0, 2}, {0, 0, 0, 0, 0, 0}, {-1, -1, -1, -1, -1, 1}, {-1, -1, -1, -1, -1, -1}, {1, 2, 2, 1, 0, 1}, {0, 0, 0, 0, 2, -1}}

// H_one: one response of every shape.
func H_one() {
	x, K := hx.Key()
	r := response(shapes[sym.Choice("shape", len(shapes))])
	orig := cloneR(r)
	count := sym.Choice("count", 2) == 1
	got, err := libunlynx.EncryptDpClearResponse(r, K, count)
	sym.Assert(err == nil, "EncryptDpClearResponse failed")
	check(x, got, orig, count)
	sym.Assert(sameR(r, orig), "the caller's response changed")
	// a second encryption is no copy of the first
	again, err := libunlynx.EncryptDpClearResponse(r, K, count)
	sym.Assert(err == nil, "EncryptDpClearResponse failed")
	check(x, again, orig, count)
	for k, b := range got.AggregatingAttributesEnc {
		c, d := libunlynx.CipherText{}, libunlynx.CipherText{}
		sym.Assert(c.FromBytes(b) == nil && d.FromBytes(again.AggregatingAttributesEnc[k]) == nil, "a ciphertext cannot be decoded")
		sym.Assert(!c.K.Equal(d.K), "two encryptions share their randomness")
	}
}

// H_countname: a response that has an attribute of the name of the count already.
func H_countname() {
	x, K := hx.Key()
	v := sym.Int64("v", -1<<40, 1<<40)
	r := libunlynx.DpClearResponse{AggregatingAttributesEnc: map[string]int64{"count": v, "s0": v}}
	count := sym.Choice("count", 2) == 1
	got, err := libunlynx.EncryptDpClearResponse(r, K, count)
	sym.Assert(err == nil, "EncryptDpClearResponse failed")
	want := cloneR(r)
	if count {
		want.AggregatingAttributesEnc["count"] = 1
	}
	check(x, got, want, false)
	sym.Assert(r.AggregatingAttributesEnc["count"] == v, "the caller's response changed")
}

// H_many: many attributes of one kind, with long names.
func H_many() {
	x, K := hx.Key()
	n := hx.Len("n", 1, 129)
	pos := hx.Pos("pos", n)
	m, o := map[string]int64{}, map[string]int64{"a": 3}
	long := make([]byte, []int{0, 30, 300}[sym.Choice("long", 3)])
	for i := range long {
		long[i] = 'x'
	}
	for i := 0; i < n; i++ {
		m["n"+string(long)+strconv.Itoa(i)] = int64(i)
	}
	m["n"+string(long)+strconv.Itoa(pos)] = sym.Int64("v", -1<<40, 1<<40)
	r := []libunlynx.DpClearResponse{
		{GroupByClear: m, AggregatingAttributesEnc: o}, {GroupByEnc: m, AggregatingAttributesEnc: o}, {WhereClear: m, GroupByEnc: o},
		{WhereEnc: m, GroupByEnc: o}, {AggregatingAttributesClear: m}, {AggregatingAttributesEnc: m, GroupByEnc: o},
	}[sym.Choice("kind", 6)]
	sym.Assume(n < 10 || len(long) == 0 || pos == n-1)
	orig := cloneR(r)
	count := n < 10 && sym.Choice("count", 2) == 1
	got, err := libunlynx.EncryptDpClearResponse(r, K, count)
	sym.Assert(err == nil, "EncryptDpClearResponse failed")
	check(x, got, orig, count)
	sym.Assert(sameR(r, orig), "the caller's response changed")
}

// H_long: many responses, many repetitions.
func H_long() {
	x, K := hx.Key()
	n := hx.Len("n", 1, 129)
	rep := hx.Len("rep", 1, 129)
	sym.Assume(n < 3 || rep < 3 || n < 14 && rep < 13 && n > 10)
	var in []libunlynx.DpClearResponse
	for i := 0; i < n; i++ {
		in = append(in, libunlynx.DpClearResponse{GroupByClear: map[string]int64{"g0": int64(i)}, AggregatingAttributesEnc: map[string]int64{"s0": int64(i)}})
	}
	q, err := servicesunlynx.EncryptDataToSurvey("dp", "id", in, K, rep, false)
	sym.Assert(err == nil, "EncryptDataToSurvey failed")
	sym.Assert(len(q.Responses) == n*rep, "another number of responses")
	for i := 0; i < n*rep; i++ {
		check(x, q.Responses[i], in[i/rep], false)
	}
}

// H_survey: sets of responses, repeated.
func H_survey() {
	sym.RaceDetect(true)
	x, K := hx.Key()
	n := []int{0, 1, 2, 3, 101}[sym.Choice("n", 5)]
	rep := 1 + sym.Choice("rep", 3)
	count := sym.Choice("count", 2) == 1
	var in, orig []libunlynx.DpClearResponse
	for i := 0; i < n; i++ {
		s := shapes[(i*5)%len(shapes)]
		if n > 10 {
			s = [6]int{0, 1, 0, 0, 0, 1}
		}
		in = append(in, response(s))
		orig = append(orig, cloneR(in[i]))
	}
	q, err := servicesunlynx.EncryptDataToSurvey("dp", "id", in, K, rep, count)
	sym.Assert(err == nil, "EncryptDataToSurvey failed")
	sym.Assert(string(q.SurveyID) == "id", "another survey")
	sym.Assert(len(q.Responses) == n*rep, "another number of responses")
	for i := 0; i < n; i++ {
		for j := 0; j < rep; j++ {
			check(x, q.Responses[i*rep+j], orig[i], count)
		}
		sym.Assert(sameR(in[i], orig[i]), "the caller's response changed")
	}
}
