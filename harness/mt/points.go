package mt

import (
	"context"
	"math"
	"time"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	mtest "go.opencensus.io/metric/test"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

// visit notes what a point delivers.
type visit struct {
	n int
	k int
	f float64
	i int64
	d *metricdata.Distribution
	s *metricdata.Summary
}

func (v *visit) VisitFloat64Value(x float64)                       { v.n++; v.k = 0; v.f = x }
func (v *visit) VisitInt64Value(x int64)                           { v.n++; v.k = 1; v.i = x }
func (v *visit) VisitDistributionValue(x *metricdata.Distribution) { v.n++; v.k = 2; v.d = x }
func (v *visit) VisitSummaryValue(x *metricdata.Summary)           { v.n++; v.k = 3; v.s = x }

// HPoints: a point delivers the value and the time it was made with, once, to
// the method of its kind.
func HPoints() {
	at := base.Add(time.Duration(sym.Int64("at")))
	v := &visit{}
	switch sym.Range("kind", 0, 4) {
	case 0:
		x := sym.Float64("f")
		p := metricdata.NewFloat64Point(at, x)
		ck(51, p.Time == at, "the time given")
		p.ReadValue(v)
		ck(51, v.n == 1 && v.k == 0 && math.Float64bits(v.f) == math.Float64bits(x) && v.d == nil && v.s == nil, "the float value, once")
		sym.Cover("float")
	case 1:
		x := sym.Int64("i")
		p := metricdata.NewInt64Point(at, x)
		ck(51, p.Time == at, "the time given")
		p.ReadValue(v)
		ck(51, v.n == 1 && v.k == 1 && v.i == x, "the integer value, once")
		sym.Cover("integer")
	case 2:
		var d *metricdata.Distribution
		if sym.Bool("there") {
			d = &metricdata.Distribution{Count: sym.Int64("count")}
		}
		p := metricdata.NewDistributionPoint(at, d)
		ck(51, p.Time == at, "the time given")
		p.ReadValue(v)
		ck(51, v.n == 1 && v.k == 2 && v.d == d, "the distribution, once")
		sym.Cover("distribution")
	case 3:
		var s *metricdata.Summary
		if sym.Bool("there") {
			s = &metricdata.Summary{Count: sym.Int64("count")}
		}
		p := metricdata.NewSummaryPoint(at, s)
		ck(51, p.Time == at, "the time given")
		p.ReadValue(v)
		ck(51, v.n == 1 && v.k == 3 && v.s == s, "the summary, once")
		sym.Cover("summary")
	default:
		p := metricdata.Point{Time: at}
		switch sym.Range("value", 0, 2) {
		case 1:
			p.Value = "text"
		case 2:
			p.Value = int32(1)
		}
		ck(51, sym.Panics(func() { p.ReadValue(v) }) && v.n == 0, "no other value is delivered as something else")
		sym.Cover("other")
	}
}

type series struct {
	name string
	vals [2]lv
	x    int64
}

// join is the text the labels of a series come to without separators.
func (s *series) join(keys [2]string) string {
	t := ""
	i, j := 0, 1
	if keys[1] < keys[0] {
		i, j = 1, 0
	}
	for _, k := range [2]int{i, j} {
		if s.vals[k].Present {
			t += keys[k] + s.vals[k].Value
		}
	}
	return t
}

func (s *series) labels(keys [2]string) map[string]string {
	ls := map[string]string{}
	for k := range keys {
		if s.vals[k].Present {
			ls[keys[k]] = s.vals[k].Value
		}
	}
	return ls
}

func same(a, b *series) bool {
	if a.name != b.name {
		return false
	}
	for k := range a.vals {
		if a.vals[k].Present != b.vals[k].Present || a.vals[k].Present && a.vals[k].Value != b.vals[k].Value {
			return false
		}
	}
	return true
}

// HTestExporter: the exporter for tests returns the last point of the series
// with exactly the labels asked for, and none if there is no such series.
func HTestExporter() {
	keys := [2]string{sym.Str("k0", 1), sym.Str("k1", sym.Range("k1len", 1, 2))}
	sym.Assume(keys[0] != keys[1])
	names := []string{"m", "n"}
	mk := func() *series {
		s := &series{name: names[sym.Range("name", 0, 1)], x: sym.Int64("x")}
		for k := range s.vals {
			switch sym.Range("len", 0, 2) {
			case 0:
			case 1:
				s.vals[k] = metricdata.NewLabelValue("")
			case 2:
				s.vals[k] = metricdata.NewLabelValue(sym.Str("v", 1))
			}
		}
		return s
	}
	e := mtest.NewExporter(metricexport.NewReader())
	var ss []*series
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		s := mk()
		ss = append(ss, s)
		older := metricdata.NewInt64Point(base, s.x+1)
		e.ExportMetrics(context.Background(), []*metricdata.Metric{{
			Descriptor: metricdata.Descriptor{Name: s.name, LabelKeys: []metricdata.LabelKey{{Key: keys[0]}, {Key: keys[1]}}},
			TimeSeries: []*metricdata.TimeSeries{{LabelValues: s.vals[:], Points: []metricdata.Point{older, metricdata.NewInt64Point(base, s.x)}}},
		}})
	}
	ask := mk()
	var want *series
	var joined *series // the last one that comes to the same text
	mixed := false
	for _, s := range ss {
		if s.name != ask.name || s.join(keys) != ask.join(keys) {
			continue
		}
		joined = s
		if same(s, ask) {
			want = s
		} else {
			mixed = true
		}
	}
	p, ok := e.GetPoint(ask.name, ask.labels(keys))
	right := ok == (want != nil)
	if right && ok {
		x, is := p.Value.(int64)
		right = is && x == want.x
	}
	switch {
	case mixed:
		x, is := p.Value.(int64)
		taken := ok && is && x == joined.x
		ck(51, right || taken, "no point but of those labels")
		ck(51, right || !taken, "the labels asked for, where keys and values join to the text of another series")
	case want != nil:
		ck(51, right, "the last point of the labels asked for")
		sym.Cover("found")
	default:
		ck(51, right, "no point for other labels")
		sym.Cover("absent")
	}
}

// HTestRead: after a read, the exporter has the value of everything recorded
// or set before it.
func HTestRead() {
	k := tag.MustNewKey("k")
	m := stats.Int64("zz/m", "", stats.UnitDimensionless)
	v := &view.View{Name: "zz/sum", Measure: m, TagKeys: []tag.Key{k}, Aggregation: view.Sum()}
	if view.Register(v) != nil {
		ck(51, false, "registered")
		return
	}
	e := mtest.NewExporter(metricexport.NewReader())
	vals := []string{"a", "b"}
	sum := [2]int64{}
	seen := [2]bool{}
	n := sym.Range("n", 0, sym.Param("n", 3))
	for i := 0; i < n; i++ {
		if i > 0 && sym.Bool("read between") {
			e.ReadAndExport()
		}
		t := sym.Range("tag", 0, 1)
		x := int64(sym.Range("x", -1, 2))
		ctx, _ := tag.New(context.Background(), tag.Upsert(k, vals[t]))
		stats.Record(ctx, m.M(x))
		sum[t] += x
		seen[t] = true
	}
	e.ReadAndExport()
	for t := range vals {
		p, ok := e.GetPoint("zz/sum", map[string]string{"k": vals[t]})
		ck(51, ok == seen[t], "a point for each tag value recorded")
		if !ok {
			sym.Cover("nothing recorded")
			continue
		}
		w := &visit{}
		p.ReadValue(w)
		ck(51, w.n == 1 && w.k == 1 && w.i == sum[t], "everything recorded before the read")
		sym.Cover("read")
	}
}
