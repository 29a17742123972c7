// Package c35: serialisation of protocol messages and conversions between forms.
package c35

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
)

// H_tagging: messages of the tagging protocol.
func H_tagging() {
	n := hx.Len("n", 0, 201)
	cv := hx.RandCV(n)
	if n > 1 {
		cv[1] = libunlynx.IntToCipherText(0)
	}
	o := hx.CopyV(cv)
	m := protocolsunlynx.DeterministicTaggingMessage{Data: cv}
	b, err := m.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	d := protocolsunlynx.DeterministicTaggingMessage{Data: hx.RandCV(sym.Choice("used", 2) * 2)}
	sym.Assert(d.FromBytes(b) == nil, "FromBytes failed")
	sym.Assert(hx.SameV(d.Data, o), "another tagging message")
	sym.Assert(hx.SameV(m.Data, o), "encoding changed the tagging message")
	for i := range b {
		b[i] = 0
	}
	sym.Assert(hx.SameV(d.Data, o), "the decoded tagging message changes with the buffer")
}

func frSame(a, b libunlynx.FilteredResponse) bool {
	return hx.SameV(a.GroupByEnc, b.GroupByEnc) && hx.SameV(a.AggregatingAttributes, b.AggregatingAttributes)
}

// H_aggregation: messages of the aggregation protocol.
func H_aggregation() {
	n := hx.Len("n", 0, 201)
	g, a, t := sym.Choice("g", 3), sym.Choice("a", 3), sym.Choice("tag", 4)
	sym.Assume(g+a+t > 0)
	if n > 4 {
		sym.Assume(g+a <= 2 && t == 1)
	}
	var m protocolsunlynx.ChildAggregatedDataMessage
	var o []libunlynx.FilteredResponseDet
	for i := 0; i < n; i++ {
		r := libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(sym.Bytes("t", t)), Fr: libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(g), AggregatingAttributes: hx.RandCV(a)}}
		m.ChildData = append(m.ChildData, r)
		o = append(o, libunlynx.FilteredResponseDet{DetTagGroupBy: r.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: hx.CopyV(r.Fr.GroupByEnc), AggregatingAttributes: hx.CopyV(r.Fr.AggregatingAttributes)}})
	}
	b, gl, al, tl, err := m.ToBytes()
	sym.Assert(err == nil, "ToBytes failed")
	if n > 0 {
		sym.Assert(gl == g && al == a && tl == t, "wrong lengths")
	}
	var d protocolsunlynx.ChildAggregatedDataMessage
	sym.Assert(d.FromBytes(b, gl, al, tl) == nil, "FromBytes failed")
	sym.Assert(len(d.ChildData) == n && len(m.ChildData) == n, "another number of groups")
	for i := range o {
		sym.Assert(d.ChildData[i].DetTagGroupBy == o[i].DetTagGroupBy && frSame(d.ChildData[i].Fr, o[i].Fr), "another group")
		sym.Assert(m.ChildData[i].DetTagGroupBy == o[i].DetTagGroupBy && frSame(m.ChildData[i].Fr, o[i].Fr), "encoding changed a group")
	}
}

func rows() []libunlynx.CipherVector {
	n := sym.Choice("rows", 4)
	cand := []int{0, 1, 2, 101}
	l := make([]libunlynx.CipherVector, n)
	for i := range l {
		l[i] = hx.RandCV(cand[sym.Choice("len", len(cand))])
	}
	return l
}

func copyRows(l []libunlynx.CipherVector) []libunlynx.CipherVector {
	out := make([]libunlynx.CipherVector, len(l))
	for i := range l {
		out[i] = hx.CopyV(l[i])
	}
	return out
}

func sameRows(a, b []libunlynx.CipherVector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !hx.SameV(a[i], b[i]) {
			return false
		}
	}
	return true
}

// H_shuffling: messages of the shuffling and of the combined protocol.
func H_shuffling() {
	l := rows()
	o := copyRows(l)
	used := []libunlynx.CipherVector{hx.RandCV(1)}
	if sym.Choice("protocol", 2) == 0 {
		m := protocolsunlynx.ShufflingMessage{Data: l}
		b, ln, err := m.ToBytes()
		sym.Assert(err == nil, "ToBytes failed")
		d := protocolsunlynx.ShufflingMessage{Data: used}
		sym.Assert(d.FromBytes(b, ln) == nil, "FromBytes failed")
		sym.Assert(sameRows(d.Data, o), "another shuffling message")
	} else {
		key := hx.RandPt()
		m := protocolsunlynx.ShufflingPlusDDTMessage{Data: l, ShuffKey: key}
		b, ln, err := m.ToBytes()
		sym.Assert(err == nil, "ToBytes failed")
		k, err := libunlynx.AbstractPointsToBytes([]kyber.Point{key})
		sym.Assert(err == nil, "AbstractPointsToBytes failed")
		d := protocolsunlynx.ShufflingPlusDDTMessage{Data: used, ShuffKey: hx.RandPt()}
		sym.Assert(d.FromBytes(b, k, ln) == nil, "FromBytes failed")
		sym.Assert(sameRows(d.Data, o), "another shuffle-and-tag message")
		sym.Assert(d.ShuffKey.Equal(key), "another shuffling key")
	}
	sym.Assert(sameRows(l, o), "encoding changed the message")
}

// H_simple: plain data taken out of a group map.
func H_simple() {
	n := sym.Choice("n", 4)
	cv := hx.RandCV(n)
	other := libunlynx.FilteredResponse{AggregatingAttributes: hx.RandCV(1)}
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	how := sym.Choice("how", 4)
	if how == 0 || how == 1 {
		m[protocolsunlynx.EMPTYKEY] = libunlynx.FilteredResponse{AggregatingAttributes: cv}
	}
	if how == 1 || how == 2 {
		m["g"] = other
	}
	r, err := protocolsunlynx.RetrieveSimpleDataFromMap(m)
	sym.Assert((err == nil) == (how == 0), "data that is not one plain list is accepted, or one is refused")
	if how == 0 {
		sym.Assert(hx.SameV(r, cv), "other plain data")
	}
}

// H_filtered: filtered responses to a vector and back.
func H_filtered() {
	n := sym.Choice("n", 4)
	fr := make([]libunlynx.FilteredResponse, n)
	o := make([]libunlynx.FilteredResponse, n)
	total := 0
	for i := range fr {
		g, a := sym.Choice("g", 3), sym.Choice("a", 3)
		total += g + a
		fr[i] = libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(g), AggregatingAttributes: hx.RandCV(a)}
		o[i] = libunlynx.FilteredResponse{GroupByEnc: hx.CopyV(fr[i].GroupByEnc), AggregatingAttributes: hx.CopyV(fr[i].AggregatingAttributes)}
	}
	cv, ln := protocolsunlynx.FilteredResponseToCipherVector(fr)
	sym.Assert(len(cv) == total, "another number of ciphertexts")
	back := protocolsunlynx.CipherVectorToFilteredResponse(cv, ln)
	sym.Assert(len(back) == n, "another number of filtered responses")
	for i := range o {
		sym.Assert(frSame(back[i], o[i]), "another filtered response")
		sym.Assert(frSame(fr[i], o[i]), "the conversion changed a filtered response")
	}
}

func process(n int) ([]libunlynx.ProcessResponse, []libunlynx.ProcessResponse) {
	pr := make([]libunlynx.ProcessResponse, n)
	o := make([]libunlynx.ProcessResponse, n)
	for i := range pr {
		g, w, a := sym.Choice("g", 3), sym.Choice("w", 3), 1
		if n < 3 {
			a = sym.Choice("a", 3)
		}
		pr[i] = libunlynx.ProcessResponse{GroupByEnc: hx.RandCV(g), WhereEnc: hx.RandCV(w), AggregatingAttributes: hx.RandCV(a)}
		o[i] = prCopy(pr[i])
	}
	return pr, o
}

func prCopy(p libunlynx.ProcessResponse) libunlynx.ProcessResponse {
	return libunlynx.ProcessResponse{GroupByEnc: hx.CopyV(p.GroupByEnc), WhereEnc: hx.CopyV(p.WhereEnc), AggregatingAttributes: hx.CopyV(p.AggregatingAttributes)}
}

func prSame(a, b libunlynx.ProcessResponse) bool {
	return hx.SameV(a.GroupByEnc, b.GroupByEnc) && hx.SameV(a.WhereEnc, b.WhereEnc) && hx.SameV(a.AggregatingAttributes, b.AggregatingAttributes)
}

// H_matrix: process responses to rows and back; a single response is joined by
// one that adds nothing to its group.
func H_matrix() {
	n := sym.Choice("n", 4)
	pr, o := process(n)
	cv, ln := protocolsunlynx.ProcessResponseToMatrixCipherText(pr)
	back := protocolsunlynx.MatrixCipherTextToProcessResponse(cv, ln)
	want := n
	if n == 1 {
		want = 2
	}
	sym.Assert(len(cv) == want && len(back) == want, "another number of rows or responses")
	for i := range o {
		sym.Assert(prSame(back[i], o[i]), "another process response")
		sym.Assert(prSame(pr[i], o[i]), "the conversion changed a process response")
	}
	if n == 1 {
		sym.Assert(hx.SameV(back[1].GroupByEnc, o[0].GroupByEnc) && hx.SameV(back[1].WhereEnc, o[0].WhereEnc), "the added response belongs to another group")
		sym.Assert(len(back[1].AggregatingAttributes) == len(o[0].AggregatingAttributes), "the added response has another shape")
		for _, c := range back[1].AggregatingAttributes {
			sym.Assert(hx.Same(c, libunlynx.IntToCipherText(0)), "the added response adds something")
		}
	}
}

// H_det: process responses to the vector that is tagged, and the tags back to them.
func H_det() {
	n := sym.Choice("n", 4)
	pr, o := process(n)
	cv := protocolsunlynx.ProcessResponseToCipherVector(pr)
	total := 0
	for _, p := range o {
		total += len(p.WhereEnc) + len(p.GroupByEnc)
	}
	sym.Assert(len(cv) == total, "another number of ciphertexts to tag")
	// the tag of a ciphertext stands for it: here its right component
	tags := make(libunlynx.DeterministCipherVector, len(cv))
	for i, c := range cv {
		tags[i] = libunlynx.DeterministCipherText{Point: c.C}
	}
	det := protocolsunlynx.DeterCipherVectorToProcessResponseDet(tags, pr)
	sym.Assert(len(det) == n, "another number of tagged responses")
	for i := range o {
		sym.Assert(prSame(det[i].PR, o[i]), "another tagged response")
		sym.Assert(len(det[i].DetTagWhere) == len(o[i].WhereEnc), "another number of where tags")
		for j, c := range o[i].WhereEnc {
			d := libunlynx.DeterministCipherText{Point: c.C}
			sym.Assert(det[i].DetTagWhere[j] == libunlynx.GroupingKey(d.String()), "another where tag")
		}
		g := make(libunlynx.DeterministCipherVector, 0)
		for _, c := range o[i].GroupByEnc {
			g = append(g, libunlynx.DeterministCipherText{Point: c.C})
		}
		sym.Assert(det[i].DetTagGroupBy == g.Key(), "another group tag")
	}
}

// H_adapt: a list of ciphertexts as rows of one.
func H_adapt() {
	n := sym.Choice("n", 4)
	cv := hx.RandCV(n)
	m := protocolsunlynx.AdaptCipherTextArray(cv)
	sym.Assert(len(m) == n, "another number of rows")
	for i := range m {
		sym.Assert(len(m[i]) == 1 && hx.Same(m[i][0], cv[i]), "another row")
	}
}

// wide makes process responses: many, or with many attributes of one kind.
func wide() ([]libunlynx.ProcessResponse, []libunlynx.ProcessResponse) {
	k := hx.Len("k", 4, 257)
	n, g, w, a := 2, 1, 2, 1
	switch sym.Choice("kind", 4) {
	case 0:
		n = k
	case 1:
		g = k
	case 2:
		w = k
	case 3:
		a = k
	}
	var pr, o []libunlynx.ProcessResponse
	for i := 0; i < n; i++ {
		p := libunlynx.ProcessResponse{GroupByEnc: hx.RandCV(g), WhereEnc: hx.RandCV(w), AggregatingAttributes: hx.RandCV(a)}
		pr, o = append(pr, p), append(o, prCopy(p))
	}
	return pr, o
}

// H_many: conversions of many responses or attributes.
func H_many() {
	pr, o := wide()
	cv, ln := protocolsunlynx.ProcessResponseToMatrixCipherText(pr)
	back := protocolsunlynx.MatrixCipherTextToProcessResponse(cv, ln)
	sym.Assert(len(cv) == len(o) && len(back) == len(o), "another number of rows or responses")
	all := protocolsunlynx.ProcessResponseToCipherVector(pr)
	tags := make(libunlynx.DeterministCipherVector, len(all))
	for i, c := range all {
		tags[i] = libunlynx.DeterministCipherText{Point: c.C}
	}
	det := protocolsunlynx.DeterCipherVectorToProcessResponseDet(tags, pr)
	sym.Assert(len(det) == len(o), "another number of tagged responses")
	var fr []libunlynx.FilteredResponse
	for i := range o {
		sym.Assert(prSame(back[i], o[i]) && prSame(det[i].PR, o[i]), "another response")
		sym.Assert(len(det[i].DetTagWhere) == len(o[i].WhereEnc), "another number of where tags")
		for j, c := range o[i].WhereEnc {
			d := libunlynx.DeterministCipherText{Point: c.C}
			sym.Assert(det[i].DetTagWhere[j] == libunlynx.GroupingKey(d.String()), "another where tag")
		}
		g := make(libunlynx.DeterministCipherVector, 0)
		for _, c := range o[i].GroupByEnc {
			g = append(g, libunlynx.DeterministCipherText{Point: c.C})
		}
		sym.Assert(det[i].DetTagGroupBy == g.Key(), "another group tag")
		fr = append(fr, libunlynx.FilteredResponse{GroupByEnc: pr[i].GroupByEnc, AggregatingAttributes: pr[i].AggregatingAttributes})
	}
	v, fl := protocolsunlynx.FilteredResponseToCipherVector(fr)
	res := protocolsunlynx.CipherVectorToFilteredResponse(v, fl)
	sym.Assert(len(res) == len(o), "another number of filtered responses")
	for i := range res {
		sym.Assert(frSame(res[i], fr[i]), "another filtered response")
	}
}

// H_messages: messages with many or long rows, groups, attributes and tags.
func H_messages() {
	k := hx.Len("k", 4, 257)
	kind := sym.Choice("kind", 6)
	if kind < 2 {
		rows, cols := k, 1
		if kind == 1 {
			rows, cols = 2, k
		}
		l := make([]libunlynx.CipherVector, rows)
		for i := range l {
			l[i] = hx.RandCV(cols + i%2)
		}
		o := copyRows(l)
		m := protocolsunlynx.ShufflingMessage{Data: l}
		b, ln, err := m.ToBytes()
		sym.Assert(err == nil, "ToBytes failed")
		d := protocolsunlynx.ShufflingMessage{}
		sym.Assert(d.FromBytes(b, ln) == nil, "FromBytes failed")
		sym.Assert(sameRows(d.Data, o) && sameRows(l, o), "another shuffling message")
		key := hx.RandPt()
		m2 := protocolsunlynx.ShufflingPlusDDTMessage{Data: l, ShuffKey: key}
		b, ln, err = m2.ToBytes()
		sym.Assert(err == nil, "ToBytes failed")
		kb, err := libunlynx.AbstractPointsToBytes([]kyber.Point{key})
		sym.Assert(err == nil, "AbstractPointsToBytes failed")
		d2 := protocolsunlynx.ShufflingPlusDDTMessage{}
		sym.Assert(d2.FromBytes(b, kb, ln) == nil, "FromBytes failed")
		sym.Assert(sameRows(d2.Data, o) && d2.ShuffKey.Equal(key), "another shuffle-and-tag message")
		return
	}
	n, g, a, t := 2, 1, 1, 1
	switch kind {
	case 2:
		n = k
	case 3:
		g = k
	case 4:
		a = k
	case 5:
		t = k
	}
	var m protocolsunlynx.ChildAggregatedDataMessage
	for i := 0; i < n; i++ {
		tag := make([]byte, t)
		tag[t-1], tag[0] = sym.Byte("t"), byte(i)
		m.ChildData = append(m.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(tag), Fr: libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(g), AggregatingAttributes: hx.RandCV(a)}})
	}
	b, gl, al, tl, err := m.ToBytes()
	sym.Assert(err == nil && gl == g && al == a && tl == t, "ToBytes failed or wrong lengths")
	var d protocolsunlynx.ChildAggregatedDataMessage
	sym.Assert(d.FromBytes(b, gl, al, tl) == nil, "FromBytes failed")
	sym.Assert(len(d.ChildData) == n, "another number of groups")
	for i, r := range m.ChildData {
		sym.Assert(d.ChildData[i].DetTagGroupBy == r.DetTagGroupBy && frSame(d.ChildData[i].Fr, r.Fr), "another group")
	}
}
