package c32

import (
	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

// H_emptySubmission: a data provider without responses counts as one that has
// answered, at any server and in any position among the others.
func H_emptySubmission() {
	sym.RandForks(0)
	n := 1 + sym.Choice("servers", 3)
	root := sym.Choice("root", n)
	net := sx.Network(n)
	k := 2 + sym.Choice("providers", 2)
	empty := sym.Choice("empty", k)
	nbr := make([]int64, n)
	at := make([]int, k)
	for i := range at {
		at[i] = sym.Choice("server", n)
		nbr[at[i]]++
	}
	many := sym.Choice("many", 2) == 1
	sv := sx.Create(net, root, sx.Plain, nbr...)
	sums := map[int64]int64{}
	enc := sym.Choice("enc", 2) == 1
	for i := range at {
		var rs []libunlynx.DpClearResponse
		if i != empty {
			v := sx.Value()
			g := int64(5 + i%2)
			rs = append(rs, sx.Response(enc, g, 1, v))
			sums[g] += v
			if many {
				w := sx.Value()
				rs = append(rs, sx.Response(enc, 5, 1, w))
				sums[5] += w
			}
		}
		sym.Assert(sv.Submit(at[i], sv.Encrypt(rs)) == nil, "a submission is rejected")
	}
	var rows []sx.Row
	for _, g := range []int64{5, 6} {
		if s, ok := sums[g]; ok {
			rows = append(rows, sx.Row{Group: []int64{g}, Aggr: []int64{s}})
		}
	}
	sv.Result(rows...)
	sym.Reach("result")
}
