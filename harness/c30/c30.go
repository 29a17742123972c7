// Package c30: the combined shuffling and tagging protocol.
package c30

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/px"
	"github.com/ldsec/unlynx/zz_verif/sym"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// run runs the protocol on n servers over encryptions of the rows.
func run(n int, vals [][]int64, proofs, pre bool) []libunlynx.DeterministCipherVector {
	net, _ := px.Net(n)
	tree := px.Trees(net, n)
	in := make([]libunlynx.CipherVector, len(vals))
	orig := make([]libunlynx.CipherVector, len(vals))
	for i := range in {
		in[i] = hx.EncVec(net.Roster.Aggregate, vals[i])
		orig[i] = hx.CopyV(in[i])
	}
	agg := net.Roster.Aggregate.Clone()
	// the servers take their turn in the order of the tree, the root last
	turn := map[string]kyber.Point{}
	rest := agg.Clone()
	list := tree.List()
	for i := range list {
		si := list[(i+1)%len(list)].ServerIdentity
		turn[si.Address.String()] = rest.Clone()
		rest.Sub(rest, si.Public)
	}
	net.NewProt = func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewShufflingPlusDDTProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
		secret := hx.Rand()
		p.SurveySecretKey = &secret
		p.Proofs = proofs
		if pre {
			p.Precomputed = libunlynxshuffle.CreatePrecomputedRandomize(hx.Pt(1), turn[tni.Name()], libunlynx.SuiTe.RandomStream(), len(vals[0])+sym.Choice("more", 2), 2)
		}
		if tni.IsRoot() {
			p.TargetData = &in
		}
		return p, nil
	}
	pi, err := net.Create(protocolsunlynx.ShufflingPlusDDTProtocolName, tree)
	sym.Assert(err == nil, "the protocol could not be created")
	serr := px.Start(pi)
	net.Deliver()
	sym.Assert(*serr == nil, "the protocol could not be started")
	p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
	var out []libunlynx.DeterministCipherVector
	select {
	case out = <-p.FeedbackChannel:
	default:
		sym.Assert(false, "the protocol delivers no result")
	}
	sym.WaitQuiescent(1)
	sym.Assert(len(out) == len(vals), "another number of rows")
	for i := range out {
		if len(vals) > 0 {
			sym.Assert(len(out[i]) == len(vals[0]), "a row of another length")
		}
	}
	for i := range in {
		sym.Assert(hx.SameV(in[i], orig[i]), "the protocol changed its input")
	}
	sym.Assert(net.Roster.Aggregate.Equal(agg), "the protocol changed the collective key")
	inst := net.Instances()
	sym.Assert(len(inst) == n, "a server did not take part")
	for _, t := range inst {
		sym.Assert(t.IsDone(), "a server did not finish")
	}
	return out
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			out = append(out, append(q, p[i:]...))
		}
	}
	return out
}

func flat(n int, f func(i int) []int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, f(i)...)
	}
	return out
}

// check checks that, for some order of the rows, tags are equal exactly when the values are.
func check(n, rows, cols int, proofs, pre bool) {
	vals := make([][]int64, rows)
	var class [][]int // equal values, decided here
	var reps []int64
	for i := range vals {
		vals[i] = make([]int64, cols)
		class = append(class, make([]int, cols))
		for j := range vals[i] {
			vals[i][j] = sym.Int64("v", -1<<40, 1<<40)
			class[i][j] = -1
			for k, r := range reps {
				if class[i][j] < 0 && vals[i][j] == r {
					class[i][j] = k
				}
			}
			if class[i][j] < 0 {
				class[i][j] = len(reps)
				reps = append(reps, vals[i][j])
			}
		}
	}
	out := run(n, vals, proofs, pre)
	// the classes of equal tags
	var tags []libunlynx.DeterministCipherText
	got := make([][]int, rows)
	for i := range out {
		got[i] = make([]int, cols)
		for j := range out[i] {
			got[i][j] = -1
			for k := range tags {
				if got[i][j] < 0 && out[i][j].Equal(&tags[k]) {
					got[i][j] = k
				}
			}
			if got[i][j] < 0 {
				got[i][j] = len(tags)
				tags = append(tags, out[i][j])
			}
		}
	}
	ok := false
	for _, p := range permutations(rows) {
		want := flat(rows, func(i int) []int { return class[p[i]] })
		have := flat(rows, func(i int) []int { return got[i] })
		same := true
		for a := range want {
			for b := range want {
				if (want[a] == want[b]) != (have[a] == have[b]) {
					same = false
				}
			}
		}
		ok = ok || same
	}
	sym.Assert(ok, "for no order of the rows are tags equal exactly when the values are")
}

// H_shapes: one server, any shape.
func H_shapes() {
	d := [][2]int{{0, 0}, {1, 1}, {1, 3}, {2, 0}, {2, 1}, {2, 2}, {3, 1}, {2, 3}, {3, 2}}[sym.Choice("shape", 9)]
	if d[0]*d[1] > 4 {
		sym.Assume(sym.Choice("proofs", 2) == 0)
		check(1, d[0], d[1], false, false)
		return
	}
	check(1, d[0], d[1], d[0] >= 2 && d[1] > 0 && sym.Choice("proofs", 2) == 1, false)
}

// H_servers: any number of servers.
func H_servers() {
	ms := 3
	if sym.Tier() > 0 {
		ms = 4
	}
	n := 1 + sym.Choice("servers", ms)
	cols := 1
	if n < 3 {
		cols += sym.Choice("columns", 2)
	}
	check(n, 2, cols, sym.Choice("proofs", 2) == 1, false)
}

// H_precomputed: precomputed factors for the keys of the servers' turns.
func H_precomputed() {
	n := 1 + sym.Choice("servers", 2)
	check(n, 2, 3-n, n == 1, true)
}

// H_batches: more than one parallel batch of columns.
func H_batches() {
	vals := [][]int64{make([]int64, 101), make([]int64, 101)}
	for j := range vals[0] {
		vals[0][j], vals[1][j] = int64(j%70), int64(j%50)+200
	}
	out := run(1+sym.Choice("servers", 2), vals, false, false)
	first := 0 // where the first row is
	if !out[0][0].Equal(&out[0][70]) {
		first = 1
	}
	for _, i := range []int{0, 1, 50, 70, 99, 100} {
		for j := range vals[0] {
			sym.Assert(out[first][i].Equal(&out[first][j]) == (i%70 == j%70), "tags of the first row are equal although the values differ, or the reverse")
			sym.Assert(out[1-first][i].Equal(&out[1-first][j]) == (i%50 == j%50), "tags of the second row are equal although the values differ, or the reverse")
			sym.Assert(!out[0][i].Equal(&out[1][j]), "tags of different values are equal")
		}
	}
}

// H_many: many servers, rows or columns. The value of column j of row i is
// that of the first column of row i+j, so the tags link the rows to a ring.
func H_many() {
	sym.RandForks(0)
	n, rows, cols := 2, 3, 2
	pre := sym.Choice("pre", 2) == 1
	proofs := sym.Choice("proofs", 2) == 1
	switch sym.Choice("kind", 3) {
	case 0:
		n = hx.Len("servers", 4, 12)
		pre = false
	case 1:
		rows = hx.Len("rows", 4, 33)
	case 2:
		cols = hx.Len("columns", 4, 65)
	}
	vals := make([][]int64, rows)
	for i := range vals {
		for j := 0; j < cols; j++ {
			vals[i] = append(vals[i], int64((i+j)%rows)*3)
		}
	}
	out := run(n, vals, proofs, pre)
	find := func(t libunlynx.DeterministCipherText) int {
		hit := -1
		for k := range out {
			if out[k][0].Equal(&t) {
				sym.Assert(hit < 0, "tags of different values are equal")
				hit = k
			}
		}
		sym.Assert(hit >= 0, "tags of equal values differ")
		return hit
	}
	next := make([]int, rows)
	for k := range out {
		next[k] = find(out[k][1])
	}
	k := 0
	for i := 0; i < rows; i++ {
		l := k
		for j := 0; j < cols; j++ {
			sym.Assert(out[k][j].Equal(&out[l][0]), "a row is not intact")
			l = next[l]
		}
		k = next[k]
		sym.Assert((k == 0) == (i == rows-1), "the rows are not those of the data")
	}
}

// H_special: ciphertexts with unusual randomness.
func H_special() {
	sym.RandForks(2)
	hx.Special()
	check(1+sym.Choice("servers", 2), 2, 1+sym.Choice("columns", 2), sym.Choice("proofs", 2) == 1, false)
}
