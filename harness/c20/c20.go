// Package c20: filtering of tagged responses.
package c20

import (
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

type pred struct {
	text string
	n    int // number of where attributes
	f    func(e []bool) bool
}

var preds = []pred{
	{"v0 == v1", 1, func(e []bool) bool { return e[0] }},
	{"v0 != v1", 1, func(e []bool) bool { return !e[0] }},
	{"v1==v0", 1, func(e []bool) bool { return e[0] }},
	{"!(v0 == v1)", 1, func(e []bool) bool { return !e[0] }},
	{"v0 == v1 && v2 == v3", 2, func(e []bool) bool { return e[0] && e[1] }},
	{"v0 == v1 || v2 == v3", 2, func(e []bool) bool { return e[0] || e[1] }},
	{"v0 != v1 && v2 == v3", 2, func(e []bool) bool { return !e[0] && e[1] }},
	{"v2 == v3", 2, func(e []bool) bool { return e[1] }},
	{"v2 != v3 || v0 != v1", 2, func(e []bool) bool { return !e[1] || !e[0] }},
	{"(v0 == v1 || v2 == v3) && v4 == v5", 3, func(e []bool) bool { return (e[0] || e[1]) && e[2] }},
	{"v0 != v1 || (v2 == v3 && v4 == v5)", 3, func(e []bool) bool { return !e[0] || e[1] && e[2] }},
	{"v10 == v11 && v0 != v1", 6, func(e []bool) bool { return e[5] && !e[0] }},
	{"v4 != v5 && (v0 == v1 || v2 == v3)", 3, func(e []bool) bool { return !e[2] && (e[0] || e[1]) }},
}

func tag(fixed int) string {
	if fixed >= 0 {
		return string(sym.Bytes("tag", fixed))
	}
	return string(sym.Bytes("tag", sym.Choice("len", 3)))
}

type exp struct {
	group string
	g, a  libunlynx.CipherVector
}

func response(tags []string, group string) (libunlynx.ProcessResponseDet, exp) {
	g, a := hx.RandCV(1), hx.RandCV(2)
	r := libunlynx.ProcessResponseDet{PR: libunlynx.ProcessResponse{WhereEnc: hx.RandCV(len(tags)), GroupByEnc: g, AggregatingAttributes: a}, DetTagGroupBy: libunlynx.GroupingKey(group)}
	for _, t := range tags {
		r.DetTagWhere = append(r.DetTagWhere, libunlynx.GroupingKey(t))
	}
	return r, exp{group, hx.CopyV(g), hx.CopyV(a)}
}

func check(res []libunlynx.FilteredResponseDet, want []exp) {
	sym.Assert(len(res) == len(want), "another number of responses is kept")
	for i, w := range want {
		sym.Assert(string(res[i].DetTagGroupBy) == w.group, "a response with another group tag, or out of order")
		sym.Assert(hx.SameV(res[i].Fr.GroupByEnc, w.g) && hx.SameV(res[i].Fr.AggregatingAttributes, w.a), "a response with other attributes, or out of order")
	}
}

// H_filter: every predicate on every tag.
func H_filter() {
	p := preds[sym.Choice("pred", len(preds))]
	n := []int{0, 1, 2}[sym.Choice("n", 3)]
	if p.n == 1 && sym.Choice("more", 2) == 1 {
		n = 3
		if sym.Tier() > 0 {
			n = 4
		}
	}
	if p.n == 6 {
		n = 1
	}
	fixed := 1
	if p.n == 1 && n < 3 {
		fixed = -1
	}
	var query []libunlynx.WhereQueryAttributeTagged
	var q []string
	for i := 0; i < p.n; i++ {
		q = append(q, tag(fixed))
		query = append(query, libunlynx.WhereQueryAttributeTagged{Name: []string{"w2", "w0", "w1", "w3", "w10", "w5"}[i], Value: libunlynx.GroupingKey(q[i])})
	}
	var in []libunlynx.ProcessResponseDet
	var want []exp
	for j := 0; j < n; j++ {
		var tags []string
		var e []bool
		for i := 0; i < p.n; i++ {
			tags = append(tags, tag(fixed))
			e = append(e, tags[i] == q[i])
		}
		r, x := response(tags, string(sym.Bytes("group", 1)))
		in = append(in, r)
		if p.f(e) {
			want = append(want, x)
		}
	}
	check(servicesunlynx.FilterResponses(p.text, query, in), want)
}

// H_none: without predicate everything is kept.
func H_none() {
	n := hx.Len("n", 0, 257)
	var in []libunlynx.ProcessResponseDet
	var want []exp
	for j := 0; j < n; j++ {
		r, x := response([]string{"a", "b"}[:j%3], string(sym.Bytes("group", 1)))
		in = append(in, r)
		want = append(want, x)
	}
	check(servicesunlynx.FilterNone(in), want)
}

// H_long: long tags, as the tags of points are, that differ in one byte.
func H_long() {
	l := hx.Len("length", 3, 257)
	at := hx.Pos("at", l)
	base := make([]byte, l)
	for i := range base {
		base[i] = byte('a' + i%26)
	}
	other := append([]byte{}, base...)
	other[at] = sym.Byte("b")
	same := other[at] == base[at]
	r, x := response([]string{string(other)}, string(base))
	var want []exp
	neg := sym.Choice("not", 2) == 1
	if same != neg {
		want = append(want, x)
	}
	p := "v0 == v1"
	if neg {
		p = "v0 != v1"
	}
	check(servicesunlynx.FilterResponses(p, []libunlynx.WhereQueryAttributeTagged{{Name: "w", Value: libunlynx.GroupingKey(base)}}, []libunlynx.ProcessResponseDet{r}), want)
}

// H_many: many responses, of which one or all others are kept.
func H_many() {
	n := hx.Len("n", 4, 257)
	at := hx.Pos("at", n)
	neg := sym.Choice("not", 2) == 1
	var in []libunlynx.ProcessResponseDet
	var want []exp
	for j := 0; j < n; j++ {
		t := "b"
		if j == at {
			t = "a"
		}
		r, x := response([]string{t}, string(rune('a'+j%26)))
		in = append(in, r)
		if (j == at) != neg {
			want = append(want, x)
		}
	}
	p := "v0 == v1"
	if neg {
		p = "v0 != v1"
	}
	check(servicesunlynx.FilterResponses(p, []libunlynx.WhereQueryAttributeTagged{{Name: "w", Value: "a"}}, in), want)
}

// H_attributes: many where attributes; the predicate looks at one, the first or all of them.
func H_attributes() {
	n := hx.Len("n", 1, 65)
	at := hx.Pos("at", n)
	var query []libunlynx.WhereQueryAttributeTagged
	tags, tags2 := make([]string, n), make([]string, n)
	all := ""
	for i := 0; i < n; i++ {
		q := "t" + strconv.Itoa((i*7)%n)
		query = append(query, libunlynx.WhereQueryAttributeTagged{Name: "w" + strconv.Itoa(n-i), Value: libunlynx.GroupingKey(q)})
		tags[i], tags2[i] = q, q
		if i > 0 {
			all += " && "
		}
		all += "v" + strconv.Itoa(2*i) + " == v" + strconv.Itoa(2*i+1)
	}
	b := sym.Bytes("t", 1)
	tags[at] = "t" + string(b)
	r, x := response(tags, "g")
	r2, x2 := response(tags2, "h")
	var want []exp
	if tags[at] == string(query[at].Value) {
		want = append(want, x)
	}
	want = append(want, x2)
	p := all
	if sym.Choice("all", 2) == 0 {
		p = "v" + strconv.Itoa(2*at) + " == v" + strconv.Itoa(2*at+1)
	}
	check(servicesunlynx.FilterResponses(p, query, []libunlynx.ProcessResponseDet{r, r2}), want)
}

// H_bad: a predicate that cannot be evaluated selects nothing and does not crash.
func H_bad() {
	bad := []string{"v0 == v9", "v0 ==", "v0 + v1", "(v0 == v1", "v0", "x", "v0 && v1", "1", "v0 > 3"}
	p := bad[sym.Choice("bad", len(bad))]
	n := sym.Choice("n", 3)
	q := tag(1)
	var in []libunlynx.ProcessResponseDet
	for j := 0; j < n; j++ {
		r, _ := response([]string{tag(1)}, "g")
		in = append(in, r)
	}
	var res []libunlynx.FilteredResponseDet
	_, panicked := hx.Panics(func() {
		res = servicesunlynx.FilterResponses(p, []libunlynx.WhereQueryAttributeTagged{{Name: "w", Value: libunlynx.GroupingKey(q)}}, in)
	})
	sym.Assert(!panicked, "a predicate that cannot be evaluated crashes the server")
	sym.Assert(len(res) == 0, "a predicate that cannot be evaluated selects responses")
}

// H_count: the number of data providers.
func H_count() {
	n := hx.Len("n", 0, 101)
	m := map[string]int64{}
	total := int64(0)
	for i := 0; i < n; i++ {
		v := sym.Int64("v", 0, 1<<40)
		total += v
		m["server"+strconv.Itoa(i)] = v
	}
	sym.Assert(servicesunlynx.CountDPs(m) == total, "another number of data providers")
}

// H_constant: predicates that do not depend on the where values, also of responses and queries without any.
func H_constant() {
	preds := []struct {
		text string
		keep bool
	}{{"true", true}, {"1 == 1", true}, {"false", false}, {"!false && true", true}, {"'a' == 'b'", false}}
	p := preds[sym.Choice("pred", len(preds))]
	k := sym.Choice("attributes", 2)
	var query []libunlynx.WhereQueryAttributeTagged
	var tags []string
	if k == 1 {
		query = append(query, libunlynx.WhereQueryAttributeTagged{Name: "w0", Value: libunlynx.GroupingKey(tag(1))})
		tags = []string{tag(1)}
	}
	var in []libunlynx.ProcessResponseDet
	var want []exp
	for j, n := 0, sym.Choice("n", 4); j < n; j++ {
		r, x := response(tags, string(sym.Bytes("group", 1)))
		in = append(in, r)
		if p.keep {
			want = append(want, x)
		}
	}
	check(servicesunlynx.FilterResponses(p.text, query, in), want)
}
