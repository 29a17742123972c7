// Package c19: the survey store.
package c19

import (
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

func steps() int {
	if sym.Tier() > 0 {
		return 6
	}
	return 5
}

// expPR is what a handed out response has to be.
type expPR struct{ g, w, a libunlynx.CipherVector }

func (e expPR) same(r libunlynx.ProcessResponse) bool {
	return hx.SameV(e.g, r.GroupByEnc) && hx.SameV(e.w, r.WhereEnc) && hx.SameV(e.a, r.AggregatingAttributes)
}

func ints(vs ...int64) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(vs))
	for i, v := range vs {
		out[i] = libunlynx.CipherText{K: hx.Pt(0), C: hx.Pt(v)}
	}
	return out
}

func add(a, b libunlynx.CipherVector) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(a))
	for i := range a {
		out[i] = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(a[i].K, b[i].K), C: libunlynx.SuiTe.Point().Add(a[i].C, b[i].C)}
	}
	return out
}

// cmpSet checks that got is a reordering of exp and returns exp in the order of got.
func cmpSet(got []libunlynx.ProcessResponse, exp []expPR) []expPR {
	sym.Assert(len(got) == len(exp), "another number of responses is handed out")
	used := make([]bool, len(exp))
	out := make([]expPR, len(got))
	for i, r := range got {
		found := false
		for j, e := range exp {
			if !used[j] && e.same(r) {
				used[j], found, out[i] = true, true, e
				break
			}
		}
		sym.Assert(found, "a response that is handed out was not inserted like this")
	}
	return out
}

type handed struct {
	got []libunlynx.ProcessResponse
	exp []expPR
}

func unchanged(hs []handed) {
	for _, h := range hs {
		for i := range h.got {
			sym.Assert(h.exp[i].same(h.got[i]), "a response that was handed out changed")
		}
	}
}

var (
	groupBy = []string{"g0", "g1"}
	sum     = []string{"s0", "s1"}
	where   = []libunlynx.WhereQueryAttribute{{Name: "w0"}}
)

// insert makes a response, inserts it and tells what is expected of it.
func insert(s *libunlynxstore.Store, kind int, clear map[int64]*expPR) (enc *expPR) {
	ct := hx.RandCT()
	v := sym.Int64("v", -1<<40, 1<<40)
	aggrEnc := map[string]libunlynx.CipherText{"s0": ct, "other": hx.RandCT()}
	aggrClear := map[string]int64{"s1": v, "more": 5}
	e := expPR{a: libunlynx.CipherVector{hx.Copy(ct), ints(v)[0]}}
	switch {
	case kind < 2: // clear groups and where
		g := int64(kind) << 32 // the groups differ in the upper half of the value
		r := libunlynx.DpResponse{GroupByClear: map[string]int64{"g0": 3, "g1": g}, WhereClear: map[string]int64{"w0": 7}, AggregatingAttributesClear: aggrClear, AggregatingAttributesEnc: aggrEnc}
		s.InsertDpResponse(r, sym.Choice("proofs", 2) == 1, groupBy, sum, where)
		if old, ok := clear[int64(kind)]; ok {
			old.a = add(old.a, e.a)
		} else {
			e.g, e.w = ints(3, g), ints(7)
			clear[int64(kind)] = &e
		}
		return nil
	case kind == 2: // an encrypted grouping attribute
		gct := hx.RandCT()
		r := libunlynx.DpResponse{GroupByClear: map[string]int64{"g0": 4}, GroupByEnc: map[string]libunlynx.CipherText{"g1": gct}, WhereClear: map[string]int64{"w0": 8}, AggregatingAttributesClear: aggrClear, AggregatingAttributesEnc: aggrEnc}
		s.InsertDpResponse(r, false, groupBy, sum, where)
		e.g, e.w = append(ints(4), hx.Copy(gct)), ints(8)
	default: // an encrypted where attribute
		wct := hx.RandCT()
		r := libunlynx.DpResponse{GroupByClear: map[string]int64{"g0": 4, "g1": 5}, WhereEnc: map[string]libunlynx.CipherText{"w0": wct}, AggregatingAttributesClear: aggrClear, AggregatingAttributesEnc: aggrEnc}
		s.InsertDpResponse(r, false, groupBy, sum, where)
		e.g, e.w = ints(4, 5), libunlynx.CipherVector{hx.Copy(wct)}
	}
	return &e
}

// H_dp: insertions of every kind and retrievals, in every order.
func H_dp() {
	s := libunlynxstore.NewStore()
	var pending []expPR
	clear := map[int64]*expPR{}
	var hs []handed
	for i := 0; i < steps(); i++ {
		op := 4
		if i < steps()-1 {
			op = sym.Choice("op", 4)
			if op == 3 {
				op = 4
			} else if op == 2 {
				op = 2 + i%2
			}
		}
		if op < 4 {
			if e := insert(s, op, clear); e != nil {
				pending = append(pending, *e)
			}
			sym.Assert(s.HasNextDpResponse() == (len(pending) > 0), "HasNextDpResponse is wrong")
		} else {
			exp := pending
			for g := int64(0); g < 2; g++ {
				if e, ok := clear[g]; ok {
					exp = append(exp, *e)
				}
			}
			got := s.PullDpResponses()
			hs = append(hs, handed{got, cmpSet(got, exp)})
			pending, clear = nil, map[int64]*expPR{}
			sym.Assert(!s.HasNextDpResponse(), "a response remains after it was handed out")
		}
		unchanged(hs)
	}
}

// H_shuffled: shuffled responses, in order.
func H_shuffled() {
	s := libunlynxstore.NewStore()
	var pending []expPR
	var hs []handed
	for i := 0; i < steps(); i++ {
		op := 3
		if i < steps()-1 {
			op = sym.Choice("op", 4)
		}
		if op < 3 {
			var in []libunlynx.ProcessResponse
			for j := 0; j < op; j++ {
				r := libunlynx.ProcessResponse{GroupByEnc: hx.RandCV(1), WhereEnc: hx.RandCV(1), AggregatingAttributes: hx.RandCV(2)}
				in = append(in, r)
				pending = append(pending, expPR{hx.CopyV(r.GroupByEnc), hx.CopyV(r.WhereEnc), hx.CopyV(r.AggregatingAttributes)})
			}
			s.PushShuffledProcessResponses(in)
		} else {
			got := s.PullShuffledProcessResponses()
			sym.Assert(len(got) == len(pending), "another number of responses is handed out")
			hs = append(hs, handed{got, pending})
			pending = nil
		}
		unchanged(hs)
	}
}

type expF struct{ g, a libunlynx.CipherVector }

func (e expF) same(r libunlynx.FilteredResponse) bool {
	return hx.SameV(e.g, r.GroupByEnc) && hx.SameV(e.a, r.AggregatingAttributes)
}

var keys = []libunlynx.GroupingKey{"A", "B"}

// H_local: locally aggregated responses.
func H_local() {
	s := libunlynxstore.NewStore()
	n := []int{1, 2, 11, 65, 101}[sym.Choice("attributes", 5)]
	max := 4
	if n == 2 {
		max = steps()
	}
	pending := map[libunlynx.GroupingKey]expF{}
	type h struct {
		got map[libunlynx.GroupingKey]libunlynx.FilteredResponse
		exp map[libunlynx.GroupingKey]expF
	}
	var hs []h
	var given []libunlynx.FilteredResponseDet
	var givenExp []expF
	for i := 0; i < max; i++ {
		op := 3
		if i < max-1 {
			op = sym.Choice("op", 4)
		}
		if op < 3 {
			// 0: one response of A, 1: one of B, 2: one of each and another of A
			var in []libunlynx.FilteredResponseDet
			for j := 0; j < 3; j++ {
				k := keys[j%2]
				if op == 2 || op == j {
					in = append(in, libunlynx.FilteredResponseDet{DetTagGroupBy: k, Fr: libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(1), AggregatingAttributes: hx.RandCV(n)}})
				}
			}
			for _, d := range in {
				e := expF{hx.CopyV(d.Fr.GroupByEnc), hx.CopyV(d.Fr.AggregatingAttributes)}
				given, givenExp = append(given, d), append(givenExp, e)
				if old, ok := pending[d.DetTagGroupBy]; ok {
					pending[d.DetTagGroupBy] = expF{old.g, add(old.a, e.a)}
				} else {
					pending[d.DetTagGroupBy] = e
				}
			}
			s.PushDeterministicFilteredResponses(in, "server", op == 2)
			sym.Assert(s.HasNextAggregatedResponse(), "HasNextAggregatedResponse is wrong")
		} else {
			sym.Assert(s.HasNextAggregatedResponse() == (len(pending) > 0), "HasNextAggregatedResponse is wrong")
			hs = append(hs, h{s.PullLocallyAggregatedResponses(), pending})
			pending = map[libunlynx.GroupingKey]expF{}
		}
		for _, x := range hs {
			sym.Assert(len(x.got) == len(x.exp), "another number of groups is handed out")
			for _, k := range keys {
				if e, ok := x.exp[k]; ok {
					r, ok := x.got[k]
					sym.Assert(ok && e.same(r), "a group that was handed out is missing, wrong or changed")
				}
			}
		}
		for j := range given {
			sym.Assert(givenExp[j].same(given[j].Fr), "the store changed a response it was given")
		}
	}
}

// H_collective: collectively aggregated responses, with and without noise.
func H_collective() {
	s := libunlynxstore.NewStore()
	pending := map[libunlynx.GroupingKey]expF{}
	type h struct {
		got []libunlynx.FilteredResponse
		exp []expF
	}
	var hs []h
	for i := 0; i < 4; i++ {
		op := 3
		if i < 3 {
			op = sym.Choice("op", 4)
		}
		if op < 3 {
			in := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
			for j, k := range keys {
				if op == 2 || op == j {
					d := libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(1), AggregatingAttributes: hx.RandCV(2)}
					in[k] = d
					e := expF{hx.CopyV(d.GroupByEnc), hx.CopyV(d.AggregatingAttributes)}
					if old, ok := pending[k]; ok {
						pending[k] = expF{old.g, add(old.a, e.a)}
					} else {
						pending[k] = e
					}
				}
			}
			s.PushCothorityAggregatedFilteredResponses(in)
			sym.Assert(s.HasNextAggregatedFilteredResponses(), "HasNextAggregatedFilteredResponses is wrong")
		} else {
			dp := sym.Choice("noise", 2) == 1
			noise := hx.RandCT()
			got := s.PullCothorityAggregatedFilteredResponses(dp, noise)
			sym.Assert(!s.HasNextAggregatedFilteredResponses(), "a group remains after it was handed out")
			sym.Assert(len(got) == len(pending), "another number of groups is handed out")
			x := h{got: got}
			used := map[libunlynx.GroupingKey]bool{}
			for _, r := range got {
				found := false
				for _, k := range keys {
					e, ok := pending[k]
					if !ok || used[k] {
						continue
					}
					if dp {
						e.a = add(e.a, libunlynx.CipherVector{noise, noise})
					}
					if e.same(r) {
						used[k], found = true, true
						x.exp = append(x.exp, e)
						break
					}
				}
				sym.Assert(found, "a group that is handed out has another sum or noise")
			}
			hs = append(hs, x)
			pending = map[libunlynx.GroupingKey]expF{}
		}
		for _, x := range hs {
			for j := range x.got {
				sym.Assert(x.exp[j].same(x.got[j]), "a group that was handed out changed")
			}
		}
	}
}

// H_deliver: key-switched results are handed out once.
func H_deliver() {
	s := libunlynxstore.NewStore()
	type h struct {
		got []libunlynx.FilteredResponse
		exp []expF
	}
	var hs []h
	var pending []expF
	for i := 0; i < 4; i++ {
		op := 3
		if i < 3 {
			op = sym.Choice("op", 4)
		}
		if op < 3 {
			var in []libunlynx.FilteredResponse
			pending = nil
			for j := 0; j < op; j++ {
				d := libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(1), AggregatingAttributes: hx.RandCV(2)}
				in = append(in, d)
				pending = append(pending, expF{hx.CopyV(d.GroupByEnc), hx.CopyV(d.AggregatingAttributes)})
			}
			s.PushQuerierKeyEncryptedResponses(in)
		} else {
			dp := sym.Choice("noise", 2) == 1
			noise := hx.RandCT()
			got := s.PullDeliverableResults(dp, noise)
			sym.Assert(len(got) == len(pending), "another number of results is handed out")
			for j := range pending {
				if dp {
					pending[j].a = add(pending[j].a, libunlynx.CipherVector{noise, noise})
				}
			}
			hs = append(hs, h{got, pending})
			pending = nil
		}
		for _, x := range hs {
			for j := range x.got {
				sym.Assert(x.exp[j].same(x.got[j]), "a result that was handed out is wrong or changed")
			}
		}
	}
}

// H_mixed: the stages do not disturb each other: every stage holds one
// response, then they are emptied in any order.
func H_mixed() {
	s := libunlynxstore.NewStore()
	clear := map[int64]*expPR{}
	dp := insert(s, 2, clear)
	insert(s, 0, clear)
	sh := libunlynx.ProcessResponse{GroupByEnc: hx.RandCV(1), WhereEnc: hx.RandCV(1), AggregatingAttributes: hx.RandCV(1)}
	s.PushShuffledProcessResponses([]libunlynx.ProcessResponse{sh})
	lo := libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(1), AggregatingAttributes: hx.RandCV(1)}
	s.PushDeterministicFilteredResponses([]libunlynx.FilteredResponseDet{{DetTagGroupBy: "A", Fr: lo}}, "server", false)
	co := libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(1), AggregatingAttributes: hx.RandCV(1)}
	s.PushCothorityAggregatedFilteredResponses(map[libunlynx.GroupingKey]libunlynx.FilteredResponse{"A": co})
	de := libunlynx.FilteredResponse{GroupByEnc: hx.RandCV(1), AggregatingAttributes: hx.RandCV(1)}
	s.PushQuerierKeyEncryptedResponses([]libunlynx.FilteredResponse{de})
	left := []int{0, 1, 2, 3, 4}
	for len(left) > 0 {
		i := sym.Choice("stage", len(left))
		st := left[i]
		left = append(append([]int{}, left[:i]...), left[i+1:]...)
		switch st {
		case 0:
			cmpSet(s.PullDpResponses(), []expPR{*dp, *clear[0]})
		case 1:
			got := s.PullShuffledProcessResponses()
			sym.Assert(len(got) == 1 && expPR{sh.GroupByEnc, sh.WhereEnc, sh.AggregatingAttributes}.same(got[0]), "the shuffled response is missing")
		case 2:
			got := s.PullLocallyAggregatedResponses()
			sym.Assert(len(got) == 1 && expF{lo.GroupByEnc, lo.AggregatingAttributes}.same(got["A"]), "the locally aggregated response is missing")
		case 3:
			got := s.PullCothorityAggregatedFilteredResponses(false, libunlynx.CipherText{})
			sym.Assert(len(got) == 1 && expF{co.GroupByEnc, co.AggregatingAttributes}.same(got[0]), "the collectively aggregated response is missing")
		case 4:
			got := s.PullDeliverableResults(false, libunlynx.CipherText{})
			sym.Assert(len(got) == 1 && expF{de.GroupByEnc, de.AggregatingAttributes}.same(got[0]), "the result is missing")
		}
	}
}

// H_large: many groups of many responses, and many encrypted responses.
func H_large() {
	s := libunlynxstore.NewStore()
	groups := hx.Len("groups", 0, 65)
	each := []int{1, 2, 11}[sym.Choice("each", 3)]
	enc := []int{0, 1, 12, 101}[sym.Choice("enc", 4)]
	sym.Assume(groups < 34 || each < 3 && enc < 13)
	x := sym.Int64("v", -1<<40, 1<<40)
	var exp []expPR
	for g := 0; g < groups; g++ {
		exp = append(exp, expPR{ints(3, int64(g)), ints(7), ints(int64(each)*x, int64(g*each))})
	}
	for i := 0; i < groups*each; i++ {
		g := int64(i % groups)
		s.InsertDpResponse(libunlynx.DpResponse{GroupByClear: map[string]int64{"g0": 3, "g1": g}, WhereClear: map[string]int64{"w0": 7}, AggregatingAttributesClear: map[string]int64{"s0": x, "s1": g}}, false, groupBy, sum, where)
	}
	for i := 0; i < enc; i++ {
		g := hx.RandCT()
		exp = append([]expPR{{append(ints(3), hx.Copy(g)), ints(7), ints(x, int64(i))}}, exp...)
		s.InsertDpResponse(libunlynx.DpResponse{GroupByClear: map[string]int64{"g0": 3}, GroupByEnc: map[string]libunlynx.CipherText{"g1": g}, WhereClear: map[string]int64{"w0": 7}, AggregatingAttributesClear: map[string]int64{"s0": x, "s1": int64(i)}}, false, groupBy, sum, where)
	}
	cmpSet(s.PullDpResponses(), exp)
	sym.Assert(len(s.PullDpResponses()) == 0, "a response is handed out twice")
}

// H_rounds: all stages are filled and emptied many times.
func H_rounds() {
	s := libunlynxstore.NewStore()
	rounds := hx.Len("rounds", 1, 33)
	for i := 0; i < rounds; i++ {
		v := int64(i)
		a := ints(v)
		s.InsertDpResponse(libunlynx.DpResponse{GroupByClear: map[string]int64{"g0": v}, AggregatingAttributesClear: map[string]int64{"s0": v}}, false, []string{"g0"}, []string{"s0"}, nil)
		s.PushShuffledProcessResponses([]libunlynx.ProcessResponse{{GroupByEnc: a, AggregatingAttributes: a}})
		s.PushDeterministicFilteredResponses([]libunlynx.FilteredResponseDet{{DetTagGroupBy: "A", Fr: libunlynx.FilteredResponse{GroupByEnc: a, AggregatingAttributes: a}}}, "server", false)
		s.PushCothorityAggregatedFilteredResponses(map[libunlynx.GroupingKey]libunlynx.FilteredResponse{"A": {GroupByEnc: a, AggregatingAttributes: a}})
		s.PushQuerierKeyEncryptedResponses([]libunlynx.FilteredResponse{{GroupByEnc: a, AggregatingAttributes: a}})
		ok := func(g, b libunlynx.CipherVector) bool { return hx.SameV(g, ints(v)) && hx.SameV(b, ints(v)) }
		d := s.PullDpResponses()
		sym.Assert(len(d) == 1 && ok(d[0].GroupByEnc, d[0].AggregatingAttributes), "responses of another round")
		p := s.PullShuffledProcessResponses()
		sym.Assert(len(p) == 1 && ok(p[0].GroupByEnc, p[0].AggregatingAttributes), "shuffled responses of another round")
		l := s.PullLocallyAggregatedResponses()
		sym.Assert(len(l) == 1 && ok(l["A"].GroupByEnc, l["A"].AggregatingAttributes), "aggregated responses of another round")
		c := s.PullCothorityAggregatedFilteredResponses(false, libunlynx.CipherText{})
		sym.Assert(len(c) == 1 && ok(c[0].GroupByEnc, c[0].AggregatingAttributes), "collective responses of another round")
		q := s.PullDeliverableResults(false, libunlynx.CipherText{})
		sym.Assert(len(q) == 1 && ok(q[0].GroupByEnc, q[0].AggregatingAttributes), "results of another round")
	}
}

// H_names: more than ten attributes of each kind, asked for in any order and
// split between clear and encrypted ones anywhere.
func H_names() {
	names := func(l string) []string {
		var out []string
		for i := 0; i < 12; i++ {
			out = append(out, l+strconv.Itoa((i*5+7)%13))
		}
		return out
	}
	gs, ss, ws := names("g"), names("s"), names("w")
	cut := sym.Choice("cut", 13)
	split := func(ns []string, cut int, all *libunlynx.CipherVector) (c map[string]int64, e map[string]libunlynx.CipherText) {
		c, e = map[string]int64{}, map[string]libunlynx.CipherText{}
		for i, n := range ns {
			if i < cut {
				c[n] = int64(i)
				*all = append(*all, ints(int64(i))[0])
			} else {
				e[n] = hx.RandCT()
				*all = append(*all, hx.Copy(e[n]))
			}
		}
		return c, e
	}
	var x expPR
	var r libunlynx.DpResponse
	cuts := [][]int{{cut, 12, 12}, {12, cut, 12}, {12, 12, cut}, {cut, cut, cut}}[sym.Choice("kind", 4)]
	r.GroupByClear, r.GroupByEnc = split(gs, cuts[0], &x.g)
	r.WhereClear, r.WhereEnc = split(ws, cuts[1], &x.w)
	r.AggregatingAttributesClear, r.AggregatingAttributesEnc = split(ss, cuts[2], &x.a)
	var q []libunlynx.WhereQueryAttribute
	for _, n := range ws {
		q = append(q, libunlynx.WhereQueryAttribute{Name: n})
	}
	s := libunlynxstore.NewStore()
	s.InsertDpResponse(r, sym.Choice("proofs", 2) == 1, gs, ss, q)
	cmpSet(s.PullDpResponses(), []expPR{x})
}

// H_concurrent: two data providers insert at the same time, in an empty store
// or after another one.
func H_concurrent() {
	sym.RaceDetect(true)
	sym.SchedForks(3)
	s := libunlynxstore.NewStore()
	kind := sym.Choice("kind", 2)
	mk := func(g int64) libunlynx.DpResponse {
		a := map[string]libunlynx.CipherText{"s0": hx.RandCT(), "s1": hx.RandCT()}
		if kind == 0 {
			return libunlynx.DpResponse{GroupByClear: map[string]int64{"g0": 3, "g1": g}, WhereClear: map[string]int64{"w0": 7}, AggregatingAttributesEnc: a}
		}
		return libunlynx.DpResponse{GroupByClear: map[string]int64{"g0": 3}, GroupByEnc: map[string]libunlynx.CipherText{"g1": hx.RandCT()}, WhereClear: map[string]int64{"w0": 7}, AggregatingAttributesEnc: a}
	}
	same := kind == 0 && sym.Choice("same", 2) == 1
	before := sym.Choice("before", 2) == 1
	vec := func(r libunlynx.DpResponse) libunlynx.CipherVector {
		return libunlynx.CipherVector{r.AggregatingAttributesEnc["s0"], r.AggregatingAttributesEnc["s1"]}
	}
	x := mk(1)
	y := mk(2)
	if same {
		y = mk(1)
	}
	all := []libunlynx.CipherVector{vec(x), vec(y)}
	if before {
		z := mk(1)
		all = append(all, vec(z))
		s.InsertDpResponse(z, false, groupBy, sum, where)
	}
	sym.Preempt(2)
	done := make(chan int, 2)
	for _, r := range []libunlynx.DpResponse{x, y} {
		go func(r libunlynx.DpResponse) {
			s.InsertDpResponse(r, false, groupBy, sum, where)
			done <- 1
		}(r)
	}
	<-done
	<-done
	sym.Preempt(0)
	got := s.PullDpResponses()
	var want []libunlynx.CipherVector
	switch {
	case same:
		w := add(vec(x), vec(y))
		if before {
			w = add(w, all[2])
		}
		want = []libunlynx.CipherVector{w}
	case kind == 0 && before:
		want = []libunlynx.CipherVector{add(vec(x), all[2]), vec(y)}
	default:
		want = all
	}
	sym.Assert(len(got) == len(want), "a concurrent insertion is lost")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if hx.SameV(w, g.AggregatingAttributes) {
				n++
			}
		}
		sym.Assert(n == 1, "a concurrent insertion is lost or altered")
	}
}
