package vw

import (
	"time"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

func readAll() []*metricdata.Metric {
	var out []*metricdata.Metric
	for _, p := range metricproducer.GlobalManager().GetAll() {
		out = append(out, p.Read()...)
	}
	return out
}

var base = time.Unix(1700000000, 0).UTC()

// HMetric: the metric of a view says what its rows say.
func HMetric() {
	units := []string{"1", "ms", "By", "s", ""}
	unit := units[sym.Range("unit", 0, 4)]
	agg := sym.Range("agg", 0, 3)
	isFloat := sym.Range("float", 0, 1) == 1
	var m stats.Measure
	var im *stats.Int64Measure
	var fm *stats.Float64Measure
	if isFloat {
		fm = stats.Float64("m", "mdesc", unit)
		m = fm
	} else {
		im = stats.Int64("m", "mdesc", unit)
		m = im
	}
	v := &view.View{Name: "v", Measure: m, Aggregation: aggOf(agg), TagKeys: []tag.Key{k2, k1}}
	wantDesc := "mdesc"
	if sym.Range("desc", 0, 1) == 1 {
		v.Description, wantDesc = "vdesc", "vdesc"
	}
	empty := &view.View{Name: "e", Measure: m, Aggregation: view.Count()}
	if view.Register(v) != nil {
		ck(25, false, "registered")
		return
	}
	sym.SetClock(10)
	ck(25, len(readAll()) == 0, "no metric without rows")
	// two groups of recordings, the second possibly the same as the first
	type grp struct {
		t  [2]string
		n  int64
		x  float64
		s  float64
		b  [2]int64
		at time.Time
	}
	var gs []*grp
	n := sym.Range("n", 1, sym.Param("n", 2))
	for i := 0; i < n; i++ {
		var t [2]string
		t[0] = symVal("a", 1)
		if sym.Range("second", 0, 1) == 1 {
			t[1] = "t"
		}
		var x float64
		var xi int64
		switch {
		case agg == 3: // sums of distributions go through the mean
			xi = int64(sym.Range("xr", 0, 2) * 4)
			x = float64(xi)
		case isFloat:
			x = sym.Float64("xf")
			sym.Assume(finite(x))
		default:
			xi = int64(sym.Int32("xi"))
			x = float64(xi)
		}
		sym.SetClock(int64(100 + i))
		var ms []tag.Mutator
		for j, k := range []tag.Key{k1, k2} {
			if t[j] != "" {
				ms = append(ms, tag.Upsert(k, t[j]))
			}
		}
		ctx := bg
		if len(ms) > 0 {
			ctx, _ = tag.New(bg, ms...)
		}
		if isFloat {
			stats.Record(ctx, fm.M(x))
		} else {
			stats.Record(ctx, im.M(xi))
		}
		var g *grp
		for _, h := range gs {
			if h.t == t {
				g = h
			}
		}
		if g == nil {
			g = &grp{t: t, at: base.Add(time.Duration(100 + i))}
			gs = append(gs, g)
		}
		g.n++
		g.x = x
		g.s += x
		if agg == 3 {
			if x < 5 {
				g.b[0]++
			} else {
				g.b[1]++
			}
		}
	}
	view.RetrieveData("v") // wait until the recordings are processed
	sym.SetClock(500)
	ms := readAll()
	if len(ms) != 1 {
		ck(25, false, "one metric per view with rows")
		return
	}
	mt := ms[0]
	d := mt.Descriptor
	ck(25, d.Name == "v" && d.Description == wantDesc, "name and description")
	wantUnit := metricdata.UnitDimensionless
	if agg != 0 {
		switch unit {
		case "ms":
			wantUnit = metricdata.UnitMilliseconds
		case "By":
			wantUnit = metricdata.UnitBytes
		}
	}
	ck(25, d.Unit == wantUnit, "unit")
	ck(25, len(d.LabelKeys) == 2 && d.LabelKeys[0].Key == "k1" && d.LabelKeys[1].Key == "k2", "label keys are the sorted tag keys")
	want := metricdata.TypeCumulativeInt64
	switch {
	case agg == 1 && isFloat:
		want = metricdata.TypeCumulativeFloat64
	case agg == 2 && isFloat:
		want = metricdata.TypeGaugeFloat64
	case agg == 2:
		want = metricdata.TypeGaugeInt64
	case agg == 3:
		want = metricdata.TypeCumulativeDistribution
	}
	ck(25, d.Type == want, "type")
	ck(25, len(mt.TimeSeries) == len(gs), "one series per row")
	if len(gs) > 1 {
		sym.Cover("two series")
	}
	check := func(label string) {
		for _, g := range gs {
			found := 0
			for _, ts := range mt.TimeSeries {
				if len(ts.LabelValues) != 2 || len(ts.Points) != 1 {
					ck(25, false, "shape of a series")
					continue
				}
				eq := true
				for j, lv := range ts.LabelValues {
					eq = eq && lv.Present == (g.t[j] != "") && lv.Value == g.t[j]
				}
				if !eq {
					continue
				}
				found++
				p := ts.Points[0]
				ck(25, p.Time.Equal(base.Add(500)), "time of a point")
				if agg != 2 {
					ck(25, ts.StartTime.Equal(g.at), "start of a series")
				} else {
					ck(25, ts.StartTime.IsZero(), "a gauge has no start")
				}
				switch agg {
				case 0:
					x, ok := p.Value.(int64)
					ck(25, ok && x == g.n, label+"count point")
				case 1, 2:
					f := g.s
					if agg == 2 {
						f = g.x
					}
					if isFloat {
						x, ok := p.Value.(float64)
						ck(25, ok && x == f, label+"float point")
					} else {
						x, ok := p.Value.(int64)
						ck(25, ok && x == int64(f), label+"integer point")
					}
				case 3:
					x, ok := p.Value.(*metricdata.Distribution)
					if !ok {
						ck(25, false, "distribution point")
						continue
					}
					ck(25, x.Count == g.n, label+"distribution count")
					ck(25, x.Sum == g.s, label+"distribution sum")
					ck(25, x.BucketOptions != nil && len(x.BucketOptions.Bounds) == 1 && x.BucketOptions.Bounds[0] == 5, "bounds")
					ck(25, len(x.Buckets) == 2 && x.Buckets[0].Count == g.b[0] && x.Buckets[1].Count == g.b[1], label+"bucket counts")
				}
			}
			ck(25, found == 1, "the series of a row")
		}
	}
	check("")
	// what was read does not change
	if isFloat {
		stats.Record(bg, fm.M(1))
	} else {
		stats.Record(bg, im.M(1))
	}
	view.RetrieveData("v")
	check("afterwards: ")
	if view.Register(empty) != nil {
		ck(25, false, "registered")
	}
	ck(25, len(readAll()) == 1, "a view without rows has no metric")
	view.Unregister(v)
	ck(25, len(readAll()) == 0, "an unregistered view has no metric")
	sym.Cover("metric")
}

// HMetricResource: metrics carry the meter's resource.
func HMetricResource() {
	m := stats.Int64("m", "", "1")
	v := &view.View{Name: "v", Measure: m, Aggregation: view.Count()}
	mt := view.NewMeter()
	mt.Start()
	r := &resource.Resource{Type: "t"}
	set := sym.Range("set", 0, 1) == 1
	if set {
		mt.SetResource(r)
	}
	if mt.Register(v) != nil {
		ck(25, false, "registered")
		return
	}
	n := sym.Range("n", 1, 3)
	for i := 0; i < n; i++ {
		stats.RecordWithOptions(bg, stats.WithRecorder(mt), stats.WithMeasurements(m.M(sym.Int64("x"))))
	}
	mt.RetrieveData("v")
	ms := readAll()
	if len(ms) != 1 || len(ms[0].TimeSeries) != 1 || len(ms[0].TimeSeries[0].Points) != 1 {
		ck(25, false, "one metric")
		return
	}
	ck(25, (ms[0].Resource == r) == set, "resource of the meter")
	x, ok := ms[0].TimeSeries[0].Points[0].Value.(int64)
	ck(25, ok && x == int64(n), "count of the meter")
	ck(25, len(ms[0].TimeSeries[0].LabelValues) == 0, "no labels without tag keys")
	mt.Stop()
	ck(25, len(readAll()) == 0, "a stopped meter is not read")
	sym.Cover("meter")
}
