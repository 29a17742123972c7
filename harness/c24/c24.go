// Package c24: noise lists.
package c24

import (
	"math"

	libunlynxdiffprivacy "github.com/ldsec/unlynx/lib/differential_privacy"
	"github.com/ldsec/unlynx/zz_verif/sym"
)

// check looks at the shape of a noise list; the density decides how often a
// value occurs when the quantum is known.
func check(noise []float64, b, quanta, scale float64) {
	prev := 0 // distance of the previous value
	run := 0  // occurrences of values at this distance
	var counts []int
	for i, v := range noise {
		k := int(math.Floor(math.Abs(v) + 0.5))
		sym.Assert(math.Abs(math.Abs(v)-float64(k)) < 1e-6, "a value is not a multiple of the quantisation step")
		sym.Assert(k == prev || k == prev+1 && i > 0, "the distances from the mean do not grow step by step")
		if k != prev {
			counts = append(counts, run)
			prev, run = k, 0
		}
		if k > 0 {
			sym.Assert((run%2 == 0) == (v > 0), "a value is not followed by its opposite")
		}
		run++
	}
	counts = append(counts, run)
	for k, c := range counts {
		last := k == len(counts)-1
		n := c
		if k > 0 {
			sym.Assert(last || c%2 == 0, "the list is not symmetric around the mean")
			n = (c + 1) / 2
			sym.Assert(n <= counts[0] && (k < 2 || c <= counts[k-1]), "a farther value is more frequent")
		}
		if quanta != 0 {
			want := math.Exp(-float64(k)/scale/b) / (2 * b) / quanta
			sym.Assert(float64(n) < want+1+1e-6, "a value is too frequent for its density")
			sym.Assert(last || float64(n) > want-1e-6, "a value is too rare for its density")
		}
	}
}

func grid() (b, scale float64) {
	return []float64{0.5, 1, 3}[sym.Choice("b", 3)], []float64{1, 2, 10}[sym.Choice("scale", 3)]
}

func limit() int64 {
	if sym.Tier() > 0 {
		return 300
	}
	return 60
}

// H_quanta: lists of any size, with a quantum.
func H_quanta() {
	b, scale := grid()
	q := []float64{0.005, 0.1, 0.5}[sym.Choice("quanta", 3)]
	n := sym.Int64("n", 0, limit())
	var noise []float64
	if scale == 1 {
		noise = libunlynxdiffprivacy.GenerateNoiseValues(n, 0, b, q, 0)
	} else {
		noise = libunlynxdiffprivacy.GenerateNoiseValuesScale(n, 0, b, q, scale, 0)
	}
	sym.Assert(int64(len(noise)) == n, "another number of values")
	check(noise, b, q, scale)
}

// H_both: a quantum takes precedence over a limit.
func H_both() {
	b, scale := grid()
	n := sym.Int64("n", 0, 40)
	noise := libunlynxdiffprivacy.GenerateNoiseValuesScale(n, 0, b, 0.1, scale, 3)
	sym.Assert(int64(len(noise)) == n, "another number of values")
	check(noise, b, 0.1, scale)
}

// H_limit: the quantum follows from the limit.
func H_limit() {
	b, scale := grid()
	lim := []float64{1, 5, 20}[sym.Choice("limit", 3)]
	n := sym.Concretize(sym.Int64("n", 1, limit()))
	noise := libunlynxdiffprivacy.GenerateNoiseValuesScale(n, 0, b, 0, scale, lim)
	sym.Assert(int64(len(noise)) == n, "another number of values")
	quanta := 0.0
	if scale < 3 { // the steps are exact, so it is clear which values are below the limit
		for i := 0.0; i < lim; i += 1 / scale {
			d := math.Exp(-i/b) / (2 * b)
			if i > 0 {
				d *= 2
			}
			quanta += d / float64(n)
		}
	}
	check(noise, b, quanta, scale)
	for _, v := range noise {
		sym.Assert(math.Abs(v)/scale < lim+1e-6, "a value beyond the limit")
	}
}

// H_fine: long lists with a small quantum, where one value occurs thousands of times.
func H_fine() {
	n := int64([]int{1500, 4000}[sym.Choice("n", 2)])
	b := []float64{0.5, 1}[sym.Choice("b", 2)]
	noise := libunlynxdiffprivacy.GenerateNoiseValuesScale(n, 0, b, 0.0004, 1, 0)
	sym.Assert(int64(len(noise)) == n, "another number of values")
	check(noise, b, 0.0004, 1)
}

// H_far: a list that reaches values whose density is too small for a float64.
func H_far() {
	n := int64([]int{740, 800, 1000}[sym.Choice("n", 3)])
	noise := libunlynxdiffprivacy.GenerateNoiseValues(n, 0, 0.5, 0.5, 0)
	sym.Assert(int64(len(noise)) == n, "another number of values")
	check(noise, 0.5, 0.5, 1)
}
