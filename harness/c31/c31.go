// Package c31: the protocols that run on one server.
package c31

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	dt "github.com/ldsec/unlynx/lib/deterministic_tag"
	ks "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	utils "github.com/ldsec/unlynx/protocols/utils"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// instances makes one instance of a protocol per setting, in one or in
// separate networks.
func instances(name string, n int) (*onet.Net, []onet.ProtocolInstance) {
	net, _ := px.Net(1)
	var out []onet.ProtocolInstance
	for i := 0; i < n; i++ {
		pi, err := net.Create(name, net.Roster.GenerateBinaryTree())
		sym.Assert(err == nil, "the protocol could not be created")
		out = append(out, pi)
	}
	return net, out
}

// start starts the instances, in either order.
func start(net *onet.Net, pis []onet.ProtocolInstance) {
	ord := make([]onet.ProtocolInstance, len(pis))
	copy(ord, pis)
	if len(ord) == 2 && sym.Choice("order", 2) == 1 {
		ord[0], ord[1] = ord[1], ord[0]
	}
	var errs []*error
	for _, pi := range ord {
		errs = append(errs, px.Start(pi))
	}
	net.Deliver()
	for _, e := range errs {
		sym.Assert(*e == nil, "the protocol could not be started")
	}
}

func finished(net *onet.Net, n int) {
	sym.WaitQuiescent(1)
	is := net.Instances()
	sym.Assert(len(is) == n, "another number of instances")
	for _, t := range is {
		sym.Assert(t.IsDone(), "an instance did not finish")
		sym.Assert(t.Dones == 1, "an instance finished more than once")
	}
}

// --- local aggregation

func aggrTarget(n, attrs int) []libunlynx.FilteredResponseDet {
	out := make([]libunlynx.FilteredResponseDet, n)
	for i := range out {
		g := sym.Choice("group", 2)
		out[i].DetTagGroupBy = libunlynx.GroupingKey([]string{"a", "b"}[g])
		out[i].Fr.GroupByEnc = hx.RandCV(1)
		out[i].Fr.AggregatingAttributes = hx.RandCV(attrs)
	}
	return out
}

func copyDet(in []libunlynx.FilteredResponseDet) []libunlynx.FilteredResponseDet {
	out := make([]libunlynx.FilteredResponseDet, len(in))
	for i, r := range in {
		out[i].DetTagGroupBy = r.DetTagGroupBy
		out[i].Fr.GroupByEnc = hx.CopyV(r.Fr.GroupByEnc)
		out[i].Fr.AggregatingAttributes = hx.CopyV(r.Fr.AggregatingAttributes)
	}
	return out
}

// checkAggr checks that res is the aggregation of in by groups.
func checkAggr(res map[libunlynx.GroupingKey]libunlynx.FilteredResponse, in []libunlynx.FilteredResponseDet, attrs int) {
	want := map[libunlynx.GroupingKey]libunlynx.CipherVector{}
	first := map[libunlynx.GroupingKey]libunlynx.CipherVector{}
	for _, r := range in {
		sum, ok := want[r.DetTagGroupBy]
		if !ok {
			want[r.DetTagGroupBy] = hx.CopyV(r.Fr.AggregatingAttributes)
			first[r.DetTagGroupBy] = r.Fr.GroupByEnc
			continue
		}
		for i := range sum {
			sum[i].K.Add(sum[i].K, r.Fr.AggregatingAttributes[i].K)
			sum[i].C.Add(sum[i].C, r.Fr.AggregatingAttributes[i].C)
		}
	}
	sym.Assert(len(res) == len(want), "another number of groups")
	for k, w := range want {
		fr, ok := res[k]
		sym.Assert(ok, "a group is missing")
		sym.Assert(hx.SameV(fr.AggregatingAttributes, w), "a wrong sum")
		sym.Assert(len(fr.GroupByEnc) == 1, "a group without its attributes")
		member := false
		for _, r := range in {
			if r.DetTagGroupBy == k && hx.Same(r.Fr.GroupByEnc[0], fr.GroupByEnc[0]) {
				member = true
			}
		}
		sym.Assert(member, "the grouping attributes of another group")
	}
}

func localAggr(insts int, in [][]libunlynx.FilteredResponseDet, attrs int, proofs bool) {
	net, pis := instances(utils.LocalAggregationProtocolName, insts)
	var orig [][]libunlynx.FilteredResponseDet
	for i, pi := range pis {
		p := pi.(*utils.LocalAggregationProtocol)
		p.TargetOfAggregation = in[i]
		p.Proofs = proofs
		orig = append(orig, copyDet(in[i]))
	}
	start(net, pis)
	for i, pi := range pis {
		p := pi.(*utils.LocalAggregationProtocol)
		select {
		case res := <-p.FeedbackChannel:
			checkAggr(res, orig[i], attrs)
		default:
			sym.Assert(false, "the protocol delivers no result")
		}
		for j := range in[i] {
			sym.Assert(hx.SameV(in[i][j].Fr.AggregatingAttributes, orig[i][j].Fr.AggregatingAttributes), "the protocol changed its input")
		}
	}
	finished(net, insts)
}

// H_localaggr: local aggregation of responses of two groups.
func H_localaggr() {
	mn := 4
	if sym.Tier() > 0 {
		mn = 5
	}
	n := sym.Choice("responses", mn)
	attrs := sym.Choice("attributes", 3)
	localAggr(1, [][]libunlynx.FilteredResponseDet{aggrTarget(n, attrs)}, attrs, sym.Choice("proofs", 2) == 1)
	sym.Reach("aggregated")
}

// H_localaggrwide: more attributes than one goroutine works on.
func H_localaggrwide() {
	a := hx.Len("attributes", 3, 257)
	localAggr(1, [][]libunlynx.FilteredResponseDet{aggrTarget(2, a)}, a, sym.Choice("proofs", 2) == 1)
}

// H_localaggrmany: many responses, and groups with long keys.
func H_localaggrmany() {
	n := hx.Len("responses", 4, 129)
	m := []int{1, 3, 11, 65}[sym.Choice("groups", 4)]
	long := make([]byte, []int{0, 60, 300}[sym.Choice("long", 3)])
	for i := range long {
		long[i] = 'k'
	}
	in := make([]libunlynx.FilteredResponseDet, n)
	for i := range in {
		in[i].DetTagGroupBy = libunlynx.GroupingKey(string(long) + string(rune('0'+i%m)))
		in[i].Fr.GroupByEnc = hx.RandCV(1)
		in[i].Fr.AggregatingAttributes = hx.RandCV(1)
	}
	localAggr(1, [][]libunlynx.FilteredResponseDet{in}, 1, sym.Choice("proofs", 2) == 1)
}

// H_localaggrtwo: two aggregations at the same time.
func H_localaggrtwo() {
	localAggr(2, [][]libunlynx.FilteredResponseDet{aggrTarget(2, 1), aggrTarget(1, 1)}, 1, sym.Choice("proofs", 2) == 1)
}

// --- clear aggregation

func clearTarget(n int) []libunlynx.DpClearResponse {
	out := make([]libunlynx.DpClearResponse, n)
	for i := range out {
		out[i] = libunlynx.DpClearResponse{
			WhereClear:                 map[string]int64{"w0": 1},
			WhereEnc:                   map[string]int64{"w1": int64(sym.Choice("where", 2))},
			GroupByClear:               map[string]int64{"g0": int64(sym.Choice("gclear", 2))},
			GroupByEnc:                 map[string]int64{"g1": 7},
			AggregatingAttributesClear: map[string]int64{"s0": sym.Int64("s0", -1<<63, 1<<63-1)},
			AggregatingAttributesEnc:   map[string]int64{"s1": sym.Int64("s1", -1<<63, 1<<63-1)},
		}
	}
	return out
}

func checkClear(res []libunlynx.DpClearResponse, in []libunlynx.DpClearResponse) {
	var cnt, s0, s1 [2]int64
	groups := 0
	for _, r := range in {
		if r.WhereEnc["w1"] == 0 {
			continue
		}
		g := r.GroupByClear["g0"]
		if cnt[g] == 0 {
			groups++
		}
		cnt[g]++
		s0[g] += r.AggregatingAttributesClear["s0"]
		s1[g] += r.AggregatingAttributesEnc["s1"]
	}
	sym.Assert(len(res) == groups, "another number of groups")
	var seen [2]bool
	for _, r := range res {
		g := r.GroupByClear["g0"]
		sym.Assert(g == 0 || g == 1, "an unknown group")
		sym.Assert(cnt[g] > 0 && !seen[g], "a group that is not there or there twice")
		seen[g] = true
		sym.Assert(r.GroupByEnc["g1"] == 7, "another group")
		sym.Assert(r.AggregatingAttributesClear["s0"] == s0[g] && r.AggregatingAttributesEnc["s1"] == s1[g], "a wrong sum")
	}
}

func clearAggr(in [][]libunlynx.DpClearResponse) {
	net, pis := instances(utils.LocalClearAggregationProtocolName, len(in))
	for i, pi := range pis {
		pi.(*utils.LocalClearAggregationProtocol).TargetOfAggregation = in[i]
	}
	start(net, pis)
	for i, pi := range pis {
		select {
		case res := <-pi.(*utils.LocalClearAggregationProtocol).FeedbackChannel:
			checkClear(res, in[i])
		default:
			sym.Assert(false, "the protocol delivers no result")
		}
	}
	finished(net, len(in))
}

// H_clearaggr: clear aggregation.
func H_clearaggr() {
	clearAggr([][]libunlynx.DpClearResponse{clearTarget(sym.Choice("responses", 4))})
	sym.Reach("aggregated")
}

// H_clearaggrmany: many responses.
func H_clearaggrmany() {
	n := hx.Len("responses", 4, 257)
	in := make([]libunlynx.DpClearResponse, n)
	v := sym.Int64("v", -1<<63, 1<<63-1)
	for i := range in {
		w := int64(1)
		if i == 4 || i == 11 {
			w = 0
		}
		in[i] = libunlynx.DpClearResponse{
			WhereEnc:                   map[string]int64{"w1": w},
			GroupByClear:               map[string]int64{"g0": int64(i % 2)},
			GroupByEnc:                 map[string]int64{"g1": 7},
			AggregatingAttributesClear: map[string]int64{"s0": int64(i)},
			AggregatingAttributesEnc:   map[string]int64{"s1": v},
		}
	}
	clearAggr([][]libunlynx.DpClearResponse{in})
}

// H_clearaggrtwo: two clear aggregations at the same time.
func H_clearaggrtwo() {
	clearAggr([][]libunlynx.DpClearResponse{clearTarget(1), clearTarget(1)})
}

// --- adding and removing a server

func addRm(lens []int, proofs, add bool) {
	net, pis := instances(utils.AddRmServerProtocolName, len(lens))
	var in, orig []libunlynx.CipherVector
	var keys []kyber.Scalar
	for i, pi := range pis {
		p := pi.(*utils.AddRmServerProtocol)
		v := hx.RandCV(lens[i])
		k, _ := hx.Key()
		in, orig, keys = append(in, v), append(orig, hx.CopyV(v)), append(keys, k)
		p.TargetOfTransformation = v
		p.KeyToRm = k
		p.Proofs = proofs
		p.Add = add
	}
	start(net, pis)
	for i, pi := range pis {
		p := pi.(*utils.AddRmServerProtocol)
		select {
		case res := <-p.FeedbackChannel:
			sym.Assert(len(res) == lens[i], "another number of ciphertexts")
			for j := range res {
				kk := libunlynx.SuiTe.Point().Mul(keys[i], orig[i][j].K)
				if !add {
					kk.Neg(kk)
				}
				sym.Assert(res[j].K.Equal(orig[i][j].K), "another ephemeral key")
				sym.Assert(res[j].C.Equal(kk.Add(kk, orig[i][j].C)), "not the ciphertext with the key added or removed")
			}
		default:
			sym.Assert(false, "the protocol delivers no result")
		}
		sym.Assert(hx.SameV(in[i], orig[i]), "the protocol changed its input")
	}
	finished(net, len(lens))
}

// H_addrm: adding and removing a server.
func H_addrm() {
	n := hx.Len("n", 0, 257)
	proofs := false
	if n > 0 {
		proofs = sym.Choice("proofs", 2) == 1
	}
	addRm([]int{n}, proofs, sym.Choice("add", 2) == 1)
	sym.Reach("transformed")
}

// H_addrmtwo: two transformations at the same time.
func H_addrmtwo() {
	addRm([]int{2, 2}, sym.Choice("proofs", 2) == 1, sym.Choice("add", 2) == 1)
}

// --- proofs verification

const (
	valid  = iota
	second // two proofs, the second one false
	wrong  // one false proof
	absent
)

func ksProofs(s int) ks.PublishedKSListProof {
	if s == absent {
		return ks.PublishedKSListProof{}
	}
	k, K := hx.Key()
	_, Q := hx.Key()
	rbs := []kyber.Point{hx.RandPt(), hx.RandPt()}
	_, ks2s, rbn, vis := ks.KeySwitchSequence(Q, rbs, k)
	pr, err := ks.KeySwitchListProofCreation(K, Q, k, ks2s, rbn, vis)
	sym.Assert(err == nil, "key switching proofs failed")
	switch s {
	case wrong:
		pr.List = pr.List[:1]
		pr.List[0].Ks2 = hx.RandPt()
	case second:
		pr.List[1].Ks2 = hx.RandPt()
	}
	return pr
}

func crProofs(s int) dt.PublishedDDTCreationListProof {
	if s == absent {
		return dt.PublishedDDTCreationListProof{}
	}
	k, K := hx.Key()
	sec := hx.Rand()
	cv := hx.RandCV(2)
	aft := dt.DeterministicTagSequence(cv, k, sec)
	pr, err := dt.DeterministicTagCrListProofCreation(cv, aft, K, k, sec)
	sym.Assert(err == nil, "tagging proofs failed")
	switch s {
	case wrong:
		pr.List = pr.List[:1]
		pr.List[0].CTaft.C = hx.RandPt()
	case second:
		pr.List[1].CTaft.C = hx.RandPt()
	}
	return pr
}

func addProofs(s int) dt.PublishedDDTAdditionListProof {
	pr := dt.PublishedDDTAdditionListProof{}
	n := 2
	if s == absent {
		n = 0
	} else if s == wrong {
		n = 1
	}
	for i := 0; i < n; i++ {
		c1 := hx.RandPt()
		sec := hx.Rand()
		c2 := libunlynx.SuiTe.Point().Mul(sec, nil)
		r := libunlynx.SuiTe.Point().Add(c1, c2)
		if s == wrong || s == second && i == 1 {
			r = hx.RandPt()
		}
		p, err := dt.DeterministicTagAdditionProofCreation(c1, sec, c2, r)
		sym.Assert(err == nil, "tagging addition proof failed")
		pr.List = append(pr.List, p)
	}
	return pr
}

func aggrProofs(s int) libunlynxaggr.PublishedAggregationListProof {
	pr := libunlynxaggr.PublishedAggregationListProof{}
	n := 2
	if s == absent {
		n = 0
	} else if s == wrong {
		n = 1
	}
	for i := 0; i < n; i++ {
		cv := hx.RandCV(2)
		res := libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(cv[0].K, cv[1].K), C: libunlynx.SuiTe.Point().Add(cv[0].C, cv[1].C)}
		if s == wrong || s == second && i == 1 {
			res = hx.RandCT()
		}
		pr.List = append(pr.List, libunlynxaggr.AggregationProofCreation(cv, res))
	}
	return pr
}

func shProofs(s int, K kyber.Point) libunlynxshuffle.PublishedShufflingListProof {
	pr := libunlynxshuffle.PublishedShufflingListProof{}
	n := 2
	if s == absent {
		n = 0
	} else if s == wrong {
		n = 1
	}
	for i := 0; i < n; i++ {
		in := []libunlynx.CipherVector{hx.RandCV(1), hx.RandCV(1)}
		// the permutation is of no interest here
		perm := []int{1, 0}
		beta := [][]kyber.Scalar{{hx.Rand()}, {hx.Rand()}}
		out := make([]libunlynx.CipherVector, 2)
		for r := range out {
			b := beta[perm[r]][0]
			ct := in[perm[r]][0]
			k := libunlynx.SuiTe.Point().Mul(b, nil)
			c := libunlynx.SuiTe.Point().Mul(b, K)
			out[r] = libunlynx.CipherVector{{K: k.Add(k, ct.K), C: c.Add(c, ct.C)}}
		}
		p, err := libunlynxshuffle.ShuffleProofCreation(in, out, hx.Pt(1), K, beta, perm)
		sym.Assert(err == nil, "shuffle proof failed")
		if s == wrong || s == second && i == 1 {
			p.ShuffledList[0] = hx.RandCV(1)
		}
		pr.List = append(pr.List, p)
	}
	return pr
}

func target(st [6]int, K kyber.Point) utils.ProofsToVerify {
	return utils.ProofsToVerify{
		KeySwitchingProofs:          ksProofs(st[0]),
		DetTagCreationProofs:        crProofs(st[1]),
		DetTagAdditionProofs:        addProofs(st[2]),
		AggregationProofs:           aggrProofs(st[3]),
		ShufflingProofs:             shProofs(st[4], K),
		CollectiveAggregationProofs: aggrProofs(st[5]),
	}
}

func verify(sts [][6]int) { verifyWith(sts, func(*utils.ProofsToVerify, kyber.Point) {}) }

func verifyWith(sts [][6]int, change func(t *utils.ProofsToVerify, K kyber.Point)) {
	net, pis := instances(utils.ProofsVerificationProtocolName, len(sts))
	for i, pi := range pis {
		p := pi.(*utils.ProofsVerificationProtocol)
		p.TargetOfVerification = target(sts[i], net.Roster.Aggregate)
		change(&p.TargetOfVerification, net.Roster.Aggregate)
	}
	start(net, pis)
	for i, pi := range pis {
		p := pi.(*utils.ProofsVerificationProtocol)
		select {
		case res := <-p.FeedbackChannel:
			sym.Assert(len(res) == 6, "not one verdict per kind of proof")
			for j, v := range res {
				switch sts[i][j] {
				case valid, absent:
					sym.Assert(v, "valid proofs are rejected")
				default:
					sym.Assert(!v, "a false proof is accepted")
				}
			}
		default:
			sym.Assert(false, "the protocol delivers no result")
		}
	}
	finished(net, len(sts))
}

// H_verification: all combinations of valid, false and absent proofs.
func H_verification() {
	var st [6]int
	if sym.Tier() > 0 {
		for i := range st {
			st[i] = []int{valid, second, absent}[sym.Choice("state", 3)]
		}
		if sym.Choice("single", 2) == 1 {
			for i := range st {
				if st[i] == second {
					st[i] = wrong
				}
			}
		}
	} else {
		a := sym.Choice("kind", 6)
		st[a] = sym.Choice("state", 4)
		b := sym.Choice("otherkind", 6)
		sym.Assume(b > a || b == a && a == 0)
		if b > a {
			st[b] = sym.Choice("otherstate", 4)
		}
	}
	verify([][6]int{st})
	sym.Reach("verified")
}

// H_verificationtwo: two verifications at the same time.
func H_verificationtwo() {
	var a, b [6]int
	a[sym.Choice("kind", 6)] = wrong
	b[sym.Choice("otherkind", 6)] = wrong
	verify([][6]int{a, b})
}

// H_verificationlong: long lists of proofs with at most one false.
func H_verificationlong() {
	kind := sym.Choice("kind", 6)
	n := hx.Len("n", 3, 129)
	st := [6]int{absent, absent, absent, absent, absent, absent}
	st[kind] = valid
	pos := -1
	if sym.Choice("false", 2) == 1 {
		pos = hx.Pos("pos", n)
		st[kind] = second
	}
	// place puts copies of the first proof around the second one
	place := func(put func(i, from int)) {
		for i := 0; i < n; i++ {
			if i == pos {
				put(i, 1)
			} else {
				put(i, 0)
			}
		}
	}
	verifyWith([][6]int{st}, func(t *utils.ProofsToVerify, K kyber.Point) {
		switch kind {
		case 0:
			l := make([]ks.PublishedKSProof, n)
			place(func(i, from int) { l[i] = t.KeySwitchingProofs.List[from] })
			t.KeySwitchingProofs.List = l
		case 1:
			l := make([]dt.PublishedDDTCreationProof, n)
			place(func(i, from int) { l[i] = t.DetTagCreationProofs.List[from] })
			t.DetTagCreationProofs.List = l
		case 2:
			l := make([]dt.PublishedDDTAdditionProof, n)
			place(func(i, from int) { l[i] = t.DetTagAdditionProofs.List[from] })
			t.DetTagAdditionProofs.List = l
		case 3:
			l := make([]libunlynxaggr.PublishedAggregationProof, n)
			place(func(i, from int) { l[i] = t.AggregationProofs.List[from] })
			t.AggregationProofs.List = l
		case 4:
			l := make([]libunlynxshuffle.PublishedShufflingProof, n)
			place(func(i, from int) { l[i] = t.ShufflingProofs.List[from] })
			t.ShufflingProofs.List = l
		case 5:
			l := make([]libunlynxaggr.PublishedAggregationProof, n)
			place(func(i, from int) { l[i] = t.CollectiveAggregationProofs.List[from] })
			t.CollectiveAggregationProofs.List = l
		}
	})
}

// H_special: unusual ciphertexts: null or equal ones, known or repeated components.
func H_special() {
	hx.Special()
	proofs := sym.Choice("proofs", 2) == 1
	if sym.Choice("kind", 2) == 0 {
		localAggr(1, [][]libunlynx.FilteredResponseDet{aggrTarget(3, 2)}, 2, proofs)
		return
	}
	addRm([]int{1 + sym.Choice("n", 3)}, proofs, sym.Choice("add", 2) == 1)
}
