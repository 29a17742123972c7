// Package c07: serialisation of response structures.
package c07

import (
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

func sizes(n string) int {
	k := 3
	if sym.Tier() > 0 {
		k = 4
	}
	return sym.Choice(n, k)
}

// tag is a string of 1 to 3 (or fixed many) symbolic characters that are no slash.
func tag(lens ...int) libunlynx.GroupingKey {
	b := sym.Bytes("tag", lens[sym.Choice("taglen", len(lens))])
	for _, c := range b {
		sym.Assume(c != '/')
	}
	return libunlynx.GroupingKey(b)
}

// H_filtered: FilteredResponse.
func H_filtered() {
	g, a := sizes("g"), sizes("a")
	r := libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(g), AggregatingAttributes: hx.RandCV(a)}
	if g == 0 && sym.Choice("nil", 2) == 1 {
		r.GroupByEnc = nil
	}
	b, gl, al, err := r.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	sym.Assert(gl == g && al == a, "wrong lengths")
	d := libunlynx.FilteredResponse{}
	sym.Assert(d.FromBytes(b, al, gl) == nil, "FromBytes failed")
	sym.Assert(hx.SameV(d.GroupByEnc, r.GroupByEnc), "another GroupByEnc")
	sym.Assert(hx.SameV(d.AggregatingAttributes, r.AggregatingAttributes), "other AggregatingAttributes")
}

// H_filtereddet: FilteredResponseDet.
func H_filtereddet() {
	g, a := sizes("g"), sizes("a")
	r := libunlynx.FilteredResponseDet{DetTagGroupBy: tag(0, 1, 5), Fr: libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(g), AggregatingAttributes: hx.RandCV(a)}}
	b, gl, al, tl, err := r.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	sym.Assert(gl == g && al == a && tl == len(r.DetTagGroupBy), "wrong lengths")
	d := libunlynx.FilteredResponseDet{}
	sym.Assert(d.FromBytes(b, gl, al, tl) == nil, "FromBytes failed")
	sym.Assert(d.DetTagGroupBy == r.DetTagGroupBy, "another group tag")
	sym.Assert(hx.SameV(d.Fr.GroupByEnc, r.Fr.GroupByEnc), "another GroupByEnc")
	sym.Assert(hx.SameV(d.Fr.AggregatingAttributes, r.Fr.AggregatingAttributes), "other AggregatingAttributes")
}

// H_process: ProcessResponse.
func H_process() {
	g, a, w := sizes("g"), sizes("a"), sizes("w")
	r := libunlynx.ProcessResponse{WhereEnc: hx.RandCV(w), GroupByEnc: hx.RandCV(g), AggregatingAttributes: hx.RandCV(a)}
	b, gl, al, wl, err := r.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	sym.Assert(gl == g && al == a && wl == w, "wrong lengths")
	d := libunlynx.ProcessResponse{}
	sym.Assert(d.FromBytes(b, gl, al, wl) == nil, "FromBytes failed")
	sym.Assert(hx.SameV(d.WhereEnc, r.WhereEnc), "another WhereEnc")
	sym.Assert(hx.SameV(d.GroupByEnc, r.GroupByEnc), "another GroupByEnc")
	sym.Assert(hx.SameV(d.AggregatingAttributes, r.AggregatingAttributes), "other AggregatingAttributes")
}

// H_processdet: ProcessResponseDet.
func H_processdet() {
	g, a, w := sizes("g"), sizes("a"), sizes("w")
	r := libunlynx.ProcessResponseDet{PR: libunlynx.ProcessResponse{WhereEnc: hx.RandCV(w), GroupByEnc: hx.RandCV(g), AggregatingAttributes: hx.RandCV(a)},
		DetTagGroupBy: tag(0, 2)}
	n := sym.Choice("tags", 3)
	for i := 0; i < n; i++ {
		r.DetTagWhere = append(r.DetTagWhere, tag(1, 3))
	}
	b, gl, al, wl, tl, twl, err := r.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	sym.Assert(gl == g && al == a && wl == w && tl == len(r.DetTagGroupBy), "wrong lengths")
	d := libunlynx.ProcessResponseDet{}
	sym.Assert(d.FromBytes(b, gl, al, wl, tl, twl) == nil, "FromBytes failed")
	sym.Assert(hx.SameV(d.PR.WhereEnc, r.PR.WhereEnc), "another WhereEnc")
	sym.Assert(hx.SameV(d.PR.GroupByEnc, r.PR.GroupByEnc), "another GroupByEnc")
	sym.Assert(hx.SameV(d.PR.AggregatingAttributes, r.PR.AggregatingAttributes), "other AggregatingAttributes")
	sym.Assert(d.DetTagGroupBy == r.DetTagGroupBy, "another group tag")
	sym.Assert(len(d.DetTagWhere) == n, "another number of where tags")
	for i := range r.DetTagWhere {
		sym.Assert(d.DetTagWhere[i] == r.DetTagWhere[i], "another where tag")
	}
}

// H_processdettags: ProcessResponseDet with tags as the tagging produces them.
func H_processdettags() {
	p, q, s := hx.RandPt().String(), hx.RandPt().String(), hx.RandPt().String()
	r := libunlynx.ProcessResponseDet{PR: libunlynx.ProcessResponse{WhereEnc: hx.RandCV(2)}, DetTagGroupBy: libunlynx.GroupingKey(p + q),
		DetTagWhere: []libunlynx.GroupingKey{libunlynx.GroupingKey(s), libunlynx.GroupingKey(p)}}
	b, gl, al, wl, tl, twl, err := r.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	d := libunlynx.ProcessResponseDet{}
	sym.Assert(d.FromBytes(b, gl, al, wl, tl, twl) == nil, "FromBytes failed")
	sym.Assert(d.DetTagGroupBy == r.DetTagGroupBy && len(d.DetTagWhere) == 2 && d.DetTagWhere[0] == r.DetTagWhere[0] && d.DetTagWhere[1] == r.DetTagWhere[1], "other tags")
	sym.Assert(hx.SameV(d.PR.WhereEnc, r.PR.WhereEnc), "another WhereEnc")
}

func clear(n int, p string) map[string]int64 {
	m := map[string]int64{}
	for i := 0; i < n; i++ {
		m[p+string(rune('0'+i))] = sym.Int64("clear", -1<<62, 1<<62)
	}
	return m
}

func enc(n int, p string) (map[string][]byte, map[string]libunlynx.CipherText) {
	m, o := map[string][]byte{}, map[string]libunlynx.CipherText{}
	for i := 0; i < n; i++ {
		c := hx.RandCT()
		b, err := c.ToBytes()
		sym.Assert(err == nil, "ToBytes failed")
		m[p+string(rune('0'+i))] = b
		o[p+string(rune('0'+i))] = c
	}
	return m, o
}

func sameClear(a, b map[string]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

func sameEnc(a, b map[string]libunlynx.CipherText) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !hx.Same(v, w) {
			return false
		}
	}
	return true
}

// H_dpresponse: DpResponseToSend to DpResponse.
func H_dpresponse() {
	var r libunlynx.DpResponseToSend
	var we, ge, ae map[string]libunlynx.CipherText
	r.WhereClear, r.GroupByClear, r.AggregatingAttributesClear = clear(sym.Choice("wc", 2), "w"), clear(sym.Choice("gc", 2), "g"), clear(sym.Choice("ac", 2), "s")
	r.WhereEnc, we = enc(sizes("we"), "w")
	r.GroupByEnc, ge = enc(sizes("ge"), "g")
	r.AggregatingAttributesEnc, ae = enc(sizes("ae"), "s")
	d := libunlynx.DpResponse{}
	sym.Assert(d.FromDpResponseToSend(r) == nil, "FromDpResponseToSend failed")
	sym.Assert(sameClear(d.WhereClear, r.WhereClear), "another WhereClear")
	sym.Assert(sameClear(d.GroupByClear, r.GroupByClear), "another GroupByClear")
	sym.Assert(sameClear(d.AggregatingAttributesClear, r.AggregatingAttributesClear), "other AggregatingAttributesClear")
	sym.Assert(sameEnc(d.WhereEnc, we), "another WhereEnc")
	sym.Assert(sameEnc(d.GroupByEnc, ge), "another GroupByEnc")
	sym.Assert(sameEnc(d.AggregatingAttributesEnc, ae), "other AggregatingAttributesEnc")
}

// H_mapct: MapBytesToMapCipherText.
func H_mapct() {
	m, o := enc(sizes("n"), "x")
	d, err := libunlynx.MapBytesToMapCipherText(m)
	sym.Assert(err == nil, "MapBytesToMapCipherText failed")
	sym.Assert(sameEnc(d, o), "another map")
}

// long is a string of n characters that are no slash, with a symbolic first and last one.
func long(n int) libunlynx.GroupingKey {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + i%10)
	}
	if n > 0 {
		c := sym.Bytes("tag", 2)
		sym.Assume(c[0] != '/' && c[1] != '/')
		b[0], b[n-1] = c[0], c[1]
	}
	return libunlynx.GroupingKey(b)
}

// H_large: many attributes and where tags, and long tags.
func H_large() {
	g, a, w, t, k := 1, 1, 1, 3, 1
	many := hx.Len("many", 5, 257)
	switch sym.Choice("what", 5) {
	case 0:
		g = many
	case 1:
		a = many
	case 2:
		w = many
	case 3:
		t = []int{64, 127, 128, 255, 256, 257, 640, 1000, 1024, 65535, 65536, 65537}[sym.Choice("length", 12)]
		sym.Assume(many < 7)
	case 4:
		k = many
	}
	f := libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(g), AggregatingAttributes: hx.RandCV(a)}
	b, gl, al, err := f.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	var f2 libunlynx.FilteredResponse
	sym.Assert(f2.FromBytes(b, al, gl) == nil, "FromBytes failed")
	sym.Assert(hx.SameV(f.GroupByEnc, f2.GroupByEnc) && hx.SameV(f.AggregatingAttributes, f2.AggregatingAttributes), "another filtered response")
	fd := libunlynx.FilteredResponseDet{DetTagGroupBy: long(t), Fr: f}
	b, gl, al, tl, err := fd.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	var fd2 libunlynx.FilteredResponseDet
	sym.Assert(fd2.FromBytes(b, gl, al, tl) == nil, "FromBytes failed")
	sym.Assert(fd2.DetTagGroupBy == fd.DetTagGroupBy && hx.SameV(f.GroupByEnc, fd2.Fr.GroupByEnc) && hx.SameV(f.AggregatingAttributes, fd2.Fr.AggregatingAttributes), "another tagged filtered response")
	p := libunlynx.ProcessResponse{GroupByEnc: f.GroupByEnc, AggregatingAttributes: f.AggregatingAttributes, WhereEnc: hx.RandCV(w)}
	same := func(q libunlynx.ProcessResponse) bool {
		return hx.SameV(q.GroupByEnc, p.GroupByEnc) && hx.SameV(q.AggregatingAttributes, p.AggregatingAttributes) && hx.SameV(q.WhereEnc, p.WhereEnc)
	}
	b, gl, al, wl, err := p.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	var p2 libunlynx.ProcessResponse
	sym.Assert(p2.FromBytes(b, gl, al, wl) == nil, "FromBytes failed")
	sym.Assert(same(p2), "another process response")
	pd := libunlynx.ProcessResponseDet{PR: p, DetTagGroupBy: long(t)}
	for i := 0; i < k; i++ {
		pd.DetTagWhere = append(pd.DetTagWhere, libunlynx.GroupingKey(strconv.Itoa(i))+"x")
	}
	pd.DetTagWhere[k-1] = long(t)
	b, gl, al, wl, tl, tw, err := pd.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	var pd2 libunlynx.ProcessResponseDet
	sym.Assert(pd2.FromBytes(b, gl, al, wl, tl, tw) == nil, "FromBytes failed")
	sym.Assert(same(pd2.PR) && pd2.DetTagGroupBy == pd.DetTagGroupBy && len(pd2.DetTagWhere) == k, "another tagged process response")
	for i := range pd.DetTagWhere {
		sym.Assert(pd.DetTagWhere[i] == pd2.DetTagWhere[i], "another where tag")
	}
}

// H_dplarge: data-provider responses with many attributes.
func H_dplarge() {
	n := hx.Len("n", 3, 129)
	what := sym.Choice("what", 6)
	k := func(i int) int {
		if i == what {
			return n
		}
		return 1
	}
	var r libunlynx.DpResponseToSend
	var we, ge, ae map[string]libunlynx.CipherText
	r.WhereClear, r.GroupByClear, r.AggregatingAttributesClear = clear(k(0), "w"), clear(k(1), "g"), clear(k(2), "s")
	r.WhereEnc, we = enc(k(3), "w")
	r.GroupByEnc, ge = enc(k(4), "g")
	r.AggregatingAttributesEnc, ae = enc(k(5), "s")
	d := libunlynx.DpResponse{}
	sym.Assert(d.FromDpResponseToSend(r) == nil, "FromDpResponseToSend failed")
	sym.Assert(sameClear(d.WhereClear, r.WhereClear) && sameClear(d.GroupByClear, r.GroupByClear) && sameClear(d.AggregatingAttributesClear, r.AggregatingAttributesClear), "other clear attributes")
	sym.Assert(sameEnc(d.WhereEnc, we) && sameEnc(d.GroupByEnc, ge) && sameEnc(d.AggregatingAttributesEnc, ae), "other encrypted attributes")
	m, err := libunlynx.MapBytesToMapCipherText(r.GroupByEnc)
	sym.Assert(err == nil && sameEnc(m, ge), "another map")
}
