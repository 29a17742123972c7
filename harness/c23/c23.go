// Package c23: data files and textual conversions.
package c23

import (
	"io/ioutil"
	"os"
	"strconv"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	"github.com/ldsec/unlynx/zz_verif/hx"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

func full() int64  { return sym.Int64("v", -1<<63, 1<<63-1) }
func small() int64 { return sym.Int64("v", -12, 12) }

func same(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// H_text: integer lists to text and back.
func H_text() {
	var in []int64
	switch sym.Choice("kind", 5) {
	case 0:
	case 1:
		in = []int64{full()}
	case 2:
		in = []int64{full(), small()}
	case 3:
		in = []int64{small(), full()}
	case 4:
		in = []int64{small(), small(), 0, small()}
	}
	orig := append([]int64{}, in...)
	s := libunlynxtools.Int64ArrayToString(in)
	sym.Assert(same(libunlynxtools.StringToInt64Array(s), orig), "another list after the conversion to text")
	sym.Assert(same(in, orig), "the conversion changed its input")
}

// H_sizes: lists of many sizes, to text, to maps and to files.
func H_sizes() {
	n := hx.Len("n", 0, 257)
	in := make([]int64, n)
	for i := range in {
		in[i] = int64(i*i) - 50
	}
	if n > 0 {
		in[hx.Pos("at", n)] = small()
	}
	switch sym.Choice("kind", 3) {
	case 0:
		sym.Assert(same(libunlynxtools.StringToInt64Array(libunlynxtools.Int64ArrayToString(in)), in), "another list after the conversion to text")
	case 1:
		m := libunlynxtools.ConvertDataToMap(in, "g", 0)
		sym.Assert(len(m) == n && same(libunlynxtools.ConvertMapToData(m, "g", 0), in), "another list after the conversion to a map")
	case 2:
		m := libunlynxtools.ConvertDataToMap(in, "s", 7)
		sym.Assert(len(m) == n && same(libunlynxtools.ConvertMapToData(m, "s", 7), in), "another list after the conversion to a map")
	}
}

// H_fileSizes: files of many attributes, responses and data providers.
func H_fileSizes() {
	n := hx.Len("n", 1, 129)
	next := int64(-12)
	val := func() int64 { next += 5; return next }
	data := map[string][]libunlynx.DpClearResponse{"1": {shape{1, 0, 0, 0, 0, 1}.response(val)}}
	switch sym.Choice("kind", 5) {
	case 0:
		for i := 0; i < n; i++ {
			data["0"] = append(data["0"], shape{1, 0, 1, 0, 0, 1}.response(val))
		}
	case 1:
		for i := 0; i < n; i++ {
			data[strconv.Itoa(i)] = []libunlynx.DpClearResponse{shape{1, 0, 0, 0, 0, 1}.response(val)}
		}
	case 2:
		data["0"] = []libunlynx.DpClearResponse{shape{n, 1, 0, 0, 1, n}.response(val), shape{1, n, 0, 0, n, 1}.response(val)}
	case 3:
		data["0"] = []libunlynx.DpClearResponse{shape{1, 1, n, 0, 1, 1}.response(val), shape{1, 0, 1, n, 0, 1}.response(val)}
	case 4:
		data["0"] = []libunlynx.DpClearResponse{shape{n, n, n, n, n, n}.response(func() int64 { return 7777777777 })}
	}
	roundTrip(data)
}

// H_fileLine: a line longer than any usual buffer.
func H_fileLine() {
	n := []int{3000, 3641, 3642, 7000}[sym.Choice("n", 4)]
	m := map[string]int64{}
	for i := 0; i < n; i++ {
		m["s"+strconv.Itoa(i)] = 1<<55 + int64(i)
	}
	roundTrip(map[string][]libunlynx.DpClearResponse{"0": {{AggregatingAttributesEnc: m, GroupByClear: map[string]int64{"g0": 1}}}})
}

// H_textLong: a long list.
func H_textLong() {
	in := make([]int64, 101)
	for i := range in {
		in[i] = int64(i) - 50
	}
	in[sym.Choice("at", 101)] = small()
	sym.Assert(same(libunlynxtools.StringToInt64Array(libunlynxtools.Int64ArrayToString(in)), in), "another list after the conversion to text")
}

// H_map: lists to named maps and back.
func H_map() {
	n := []int{0, 1, 2, 3, 12, 101}[sym.Choice("n", 6)]
	in := make([]int64, n)
	for i := range in {
		in[i] = full()
	}
	first := []string{"g", "s", ""}[sym.Choice("first", 3)]
	start := []int{0, 1, 9, 1000000, -20}[sym.Choice("start", 5)]
	m := libunlynxtools.ConvertDataToMap(in, first, start)
	sym.Assert(len(m) == n, "another number of entries")
	for i := range in {
		v, ok := m[first+strconv.Itoa(start+i)]
		sym.Assert(ok && v == in[i], "a value is missing or at another name")
	}
	sym.Assert(same(libunlynxtools.ConvertMapToData(m, first, start), in), "another list after the conversion to a map")
}

// H_mapBack: a map with the expected names survives.
func H_mapBack() {
	n := sym.Choice("n", 4)
	start := sym.Choice("start", 3)
	m := map[string]int64{}
	for i := n - 1; i >= 0; i-- {
		m["w"+strconv.Itoa(start+i)] = full()
	}
	back := libunlynxtools.ConvertDataToMap(libunlynxtools.ConvertMapToData(m, "w", start), "w", start)
	sym.Assert(sameMap(m, back), "another map after the conversion to a list")
}

func sameMap(a, b map[string]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

type shape struct{ gc, ge, wc, we, ac, ae int }

func names(n int, first string, start int, val func() int64) map[string]int64 {
	m := make(map[string]int64)
	for i := 0; i < n; i++ {
		m[first+strconv.Itoa(start+i)] = val()
	}
	return m
}

func (s shape) response(val func() int64) libunlynx.DpClearResponse {
	return libunlynx.DpClearResponse{
		GroupByClear: names(s.gc, "g", 0, val), GroupByEnc: names(s.ge, "g", s.gc, val),
		WhereClear: names(s.wc, "w", 0, val), WhereEnc: names(s.we, "w", s.wc, val),
		AggregatingAttributesClear: names(s.ac, "s", 0, val), AggregatingAttributesEnc: names(s.ae, "s", s.ac, val),
	}
}

func copyMap(m map[string]int64) map[string]int64 {
	c := make(map[string]int64)
	for k, v := range m {
		c[k] = v
	}
	return c
}

func copyResponse(r libunlynx.DpClearResponse) libunlynx.DpClearResponse {
	return libunlynx.DpClearResponse{
		GroupByClear: copyMap(r.GroupByClear), GroupByEnc: copyMap(r.GroupByEnc),
		WhereClear: copyMap(r.WhereClear), WhereEnc: copyMap(r.WhereEnc),
		AggregatingAttributesClear: copyMap(r.AggregatingAttributesClear), AggregatingAttributesEnc: copyMap(r.AggregatingAttributesEnc),
	}
}

func sameResponse(a, b libunlynx.DpClearResponse) bool {
	return sameMap(a.GroupByClear, b.GroupByClear) && sameMap(a.GroupByEnc, b.GroupByEnc) &&
		sameMap(a.WhereClear, b.WhereClear) && sameMap(a.WhereEnc, b.WhereEnc) &&
		sameMap(a.AggregatingAttributesClear, b.AggregatingAttributesClear) && sameMap(a.AggregatingAttributesEnc, b.AggregatingAttributesEnc)
}

func roundTrip(data map[string][]libunlynx.DpClearResponse) {
	orig := map[string][]libunlynx.DpClearResponse{}
	for k, rs := range data {
		for _, r := range rs {
			orig[k] = append(orig[k], copyResponse(r))
		}
	}
	dir, err := ioutil.TempDir("", "c23")
	sym.Assume(err == nil)
	defer os.RemoveAll(dir)
	file := dir + "/data.txt"
	sym.Assert(dataunlynx.WriteDataToFile(file, data) == nil, "writing failed")
	back, err := dataunlynx.ReadDataFromFile(file)
	sym.Assert(err == nil, "reading failed")
	sym.Assert(len(back) == len(data), "another number of data providers")
	for k, rs := range data {
		bs, ok := back[k]
		sym.Assert(ok, "a data provider is missing")
		sym.Assert(len(bs) == len(rs), "another number of responses")
		for i := range rs {
			sym.Assert(sameResponse(orig[k][i], bs[i]), "a response differs after writing and reading it")
			sym.Assert(sameResponse(orig[k][i], rs[i]), "writing changed a response")
		}
	}
}

// H_file: files of data sets of every shape.
func H_file() {
	dps := sym.Choice("dps", 3)
	shapes := []shape{{1, 1, 1, 1, 1, 1}, {2, 0, 0, 2, 0, 2}, {0, 2, 2, 0, 2, 0}, {0, 0, 0, 0, 1, 0}, {0, 1, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0}}
	next := int64(-12)
	val := func() int64 { next += 5; return next }
	data := map[string][]libunlynx.DpClearResponse{}
	for i := 0; i < dps; i++ {
		rs := []libunlynx.DpClearResponse{}
		for j, n := 0, sym.Choice("n", 3); j < n; j++ {
			k := sym.Choice("shape", len(shapes))
			rs = append(rs, shapes[k].response(val))
		}
		data[[]string{"0", "dp 1"}[i]] = rs
	}
	roundTrip(data)
}

// H_fileValues: every value.
func H_fileValues() {
	s := shape{1, 1, 1, 1, 1, 1}
	at := sym.Choice("at", 12)
	k := -1
	val := func() int64 {
		k++
		if k == at {
			return full()
		}
		return int64(k)
	}
	data := map[string][]libunlynx.DpClearResponse{"1": {s.response(val)}, "0": {s.response(val)}}
	roundTrip(data)
}

// H_fileNames: data providers of any name of one line.
func H_fileNames() {
	names := []string{"", " ", " a", "a ", "#", "#a", "1 2 ", "-1", "a#b", "\ta", "a", "0", "00", "A", "dp with a rather long name, and a comma"}
	i := sym.Choice("i", len(names))
	j := (i + 1 + sym.Choice("j", len(names)-1)) % len(names)
	next := int64(0)
	val := func() int64 { next++; return next }
	roundTrip(map[string][]libunlynx.DpClearResponse{names[i]: {shape{1, 0, 1, 0, 0, 1}.response(val)}, names[j]: {shape{0, 1, 0, 1, 1, 0}.response(val), shape{0, 1, 0, 1, 1, 0}.response(val)}})
}
