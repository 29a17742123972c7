package c32

import (
	"strconv"

	libunlynx "github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

func names(l string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, l+strconv.Itoa((i+3)%n))
	}
	return out
}

// H_large: many servers, data providers, responses, groups or attributes.
func H_large() {
	sym.RandForks(0)
	servers, dps, each, groups, g, w, s := 2, 2, 1, 2, 1, 1, 1
	kind := sym.Choice("kind", 7)
	k := hx.Len("k", 3, []int{11, 17, 101, 65, 33, 33, 129}[kind])
	switch kind {
	case 0:
		servers = k
	case 1:
		dps = k
	case 2:
		each = k
	case 3:
		groups, each = k, (k+1)/2
	case 4:
		g = k
	case 5:
		w = k
	case 6:
		s = k
	}
	enc := sym.Choice("enc", 2) == 1
	net := sx.Network(servers)
	q := sx.Query{Sum: names("s", s), GroupBy: names("g", g), Where: names("w", w), Predicate: "v0 == v1", Count: sym.Choice("count", 2) == 1}
	for i := 0; i < w; i++ {
		q.Conds = append(q.Conds, int64(i))
		if i > 0 {
			q.Predicate += " && v" + strconv.Itoa(2*i) + " == v" + strconv.Itoa(2*i+1)
		}
	}
	last := servers - 1
	nbr := make([]int64, servers)
	nbr[0], nbr[last] = int64(dps-1), 1
	sv := sx.Create(net, sym.Choice("root", 2)*last, q, nbr...)
	rows := map[int64]*sx.Row{}
	var order []int64
	n := int64(0)
	extra := sx.Value()
	for d := 0; d < dps; d++ {
		var rs []libunlynx.DpClearResponse
		for j := 0; j < each; j++ {
			gs, ws, ss := map[string]int64{}, map[string]int64{}, map[string]int64{}
			id := n % int64(groups)
			vals := make([]int64, s)
			for i, a := range q.GroupBy {
				gs[a] = int64(i)
			}
			gs[q.GroupBy[g-1]] = id
			for i, a := range q.Where {
				ws[a] = int64(i)
			}
			for i, a := range q.Sum {
				vals[i] = n + int64(i*i)
				if i == s-1 {
					vals[i] += extra
				}
				ss[a] = vals[i]
			}
			// the last condition keeps all but one response
			if n == 2 {
				ws[q.Where[w-1]] = 77
			}
			r := libunlynx.DpClearResponse{GroupByClear: gs, WhereClear: ws, AggregatingAttributesEnc: ss}
			if enc {
				r = libunlynx.DpClearResponse{GroupByEnc: gs, WhereEnc: ws, AggregatingAttributesEnc: ss}
			}
			rs = append(rs, r)
			if n != 2 {
				row, ok := rows[id]
				if !ok {
					row = &sx.Row{Aggr: make([]int64, s)}
					if q.Count {
						row.Aggr = append(row.Aggr, 0)
					}
					for _, a := range q.GroupBy {
						row.Group = append(row.Group, gs[a])
					}
					rows[id] = row
					order = append(order, id)
				}
				for i := range vals {
					row.Aggr[i] += vals[i]
				}
				if q.Count {
					row.Aggr[s]++
				}
			}
			n++
		}
		at := 0
		if d == dps-1 {
			at = last
		}
		sym.Assert(sv.Submit(at, sv.Encrypt(rs)) == nil, "a submission is rejected")
	}
	var want []sx.Row
	for _, id := range order {
		want = append(want, *rows[id])
	}
	sv.Result(want...)
	sym.Reach("result")
}
