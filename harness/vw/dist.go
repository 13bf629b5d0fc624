// Package vw checks measurement recording, aggregation and views.
package vw

import (
	"context"
	"math"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
)

func ck(prop int, c bool, label string) {
	if p := sym.Param("prop", 0); p != 0 && p != prop {
		return
	}
	sym.Assert(c, label)
}

var bg = context.Background()

func finite(x float64) bool { return sym.And(x >= -math.MaxFloat64, x <= math.MaxFloat64) }

// HDist: every recorded value is counted once, in its bucket; extremes are exact.
func HDist() {
	m := stats.Float64("m", "", "1")
	nb := sym.Range("bounds", 0, sym.Param("bounds", 2))
	var bounds []float64
	for i := 0; i < nb; i++ {
		b := sym.Float64("bound")
		sym.Assume(sym.And(b > 0, b <= math.MaxFloat64))
		if i > 0 {
			sym.Assume(bounds[i-1] < b)
		}
		bounds = append(bounds, b)
	}
	given := append([]float64(nil), bounds...)
	switch sym.Range("given", 0, 2) {
	case 1: // zero bounds are dropped
		given = append([]float64{0}, given...)
	case 2: // bounds are sorted
		for i, j := 0, len(given)-1; i < j; i, j = i+1, j-1 {
			given[i], given[j] = given[j], given[i]
		}
	}
	v := &view.View{Name: "v", Measure: m, Aggregation: view.Distribution(given...)}
	if view.Register(v) != nil {
		ck(20, false, "registered")
		return
	}
	n := sym.Range("n", 1, sym.Param("n", 2))
	buckets := make([]int64, nb+1)
	var min, max float64
	for i := 0; i < n; i++ {
		x := sym.Float64("x")
		sym.Assume(finite(x))
		stats.Record(bg, m.M(x))
		k := 0
		for k < nb && x >= bounds[k] {
			k++
		}
		buckets[k]++
		if i == 0 || x < min {
			min = x
		}
		if i == 0 || x > max {
			max = x
		}
	}
	rows, err := view.RetrieveData("v")
	if err != nil || len(rows) != 1 {
		ck(20, false, "one row")
		return
	}
	d, ok := rows[0].Data.(*view.DistributionData)
	if !ok {
		ck(20, false, "distribution data")
		return
	}
	ck(20, d.Count == int64(n), "count")
	ck(20, len(d.CountPerBucket) == nb+1, "number of buckets")
	if len(d.CountPerBucket) == nb+1 {
		for i := range buckets {
			ck(20, d.CountPerBucket[i] == buckets[i], "bucket count")
		}
	}
	ck(20, d.Min == min, "minimum")
	ck(20, d.Max == max, "maximum")
	if n == 1 {
		ck(20, d.Mean == min, "mean of one value")
		ck(20, d.SumOfSquaredDev == 0, "no deviation of one value")
	}
	sym.Cover("recorded")
}

func near(a, b float64) bool { return sym.And(a-b <= 1e-6, b-a <= 1e-6) }

// HDistMean: mean and squared deviation of small integers.
func HDistMean() {
	m := stats.Int64("m", "", "1")
	v := &view.View{Name: "v", Measure: m, Aggregation: view.Distribution(1)}
	if view.Register(v) != nil {
		ck(20, false, "registered")
		return
	}
	n := sym.Range("n", 1, sym.Param("n", 3))
	r := sym.Param("range", 3)
	var sum, sq float64
	for i := 0; i < n; i++ {
		x := sym.Range("x", -r, r)
		stats.Record(bg, m.M(int64(x)))
		sum += float64(x)
		sq += float64(x) * float64(x)
	}
	rows, _ := view.RetrieveData("v")
	if len(rows) != 1 {
		ck(20, false, "one row")
		return
	}
	d := rows[0].Data.(*view.DistributionData)
	ck(20, near(d.Mean, sum/float64(n)), "mean")
	ck(20, near(d.Sum(), sum), "sum")
	ck(20, near(d.SumOfSquaredDev, sq-sum*sum/float64(n)), "sum of squared deviations")
	sym.Cover("mean")
}

// HDistMeanSym: mean of two arbitrary 4-bit integers.
func HDistMeanSym() {
	m := stats.Int64("m", "", "1")
	v := &view.View{Name: "v", Measure: m, Aggregation: view.Distribution()}
	if view.Register(v) != nil {
		ck(20, false, "registered")
		return
	}
	a, b := float64(int8(sym.Byte("a"))>>4), float64(int8(sym.Byte("b"))>>4)
	stats.Record(bg, m.M(int64(a)))
	stats.Record(bg, m.M(int64(b)))
	rows, _ := view.RetrieveData("v")
	if len(rows) != 1 {
		ck(20, false, "one row")
		return
	}
	d := rows[0].Data.(*view.DistributionData)
	ck(20, d.Mean == (a+b)/2, "mean of two")
	ck(20, d.SumOfSquaredDev == (a-b)*(a-b)/2, "sum of squared deviations of two")
	sym.Cover("mean")
}
