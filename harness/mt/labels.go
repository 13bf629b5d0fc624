// Package mt checks gauges, cumulatives, the registry and metric export.
package mt

import (
	"time"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
)

func ck(prop int, c bool, label string) {
	if p := sym.Param("prop", 0); p != 0 && p != prop {
		return
	}
	sym.Assert(c, label)
}

var base = time.Unix(1700000000, 0).UTC()

type lv = metricdata.LabelValue

// m is any of the eight kinds behind one face.
type m struct {
	kind int
	ig   *metric.Int64Gauge
	fg   *metric.Float64Gauge
	ic   *metric.Int64Cumulative
	fc   *metric.Float64Cumulative
	dig  *metric.Int64DerivedGauge
	dfg  *metric.Float64DerivedGauge
	dic  *metric.Int64DerivedCumulative
	dfc  *metric.Float64DerivedCumulative
}

const kinds = 8

func isFloat(kind int) bool   { return kind&1 == 1 }
func isDerived(kind int) bool { return kind >= 4 }
func isCum(kind int) bool     { return kind == 2 || kind == 3 || kind >= 6 }

func wantType(kind int) metricdata.Type {
	switch {
	case isCum(kind) && isFloat(kind):
		return metricdata.TypeCumulativeFloat64
	case isCum(kind):
		return metricdata.TypeCumulativeInt64
	case isFloat(kind):
		return metricdata.TypeGaugeFloat64
	}
	return metricdata.TypeGaugeInt64
}

func add(r *metric.Registry, kind int, name string, o ...metric.Options) (x *m, err error) {
	x = &m{kind: kind}
	switch kind {
	case 0:
		x.ig, err = r.AddInt64Gauge(name, o...)
	case 1:
		x.fg, err = r.AddFloat64Gauge(name, o...)
	case 2:
		x.ic, err = r.AddInt64Cumulative(name, o...)
	case 3:
		x.fc, err = r.AddFloat64Cumulative(name, o...)
	case 4:
		x.dig, err = r.AddInt64DerivedGauge(name, o...)
	case 5:
		x.dfg, err = r.AddFloat64DerivedGauge(name, o...)
	case 6:
		x.dic, err = r.AddInt64DerivedCumulative(name, o...)
	case 7:
		x.dfc, err = r.AddFloat64DerivedCumulative(name, o...)
	}
	return
}

// put makes the series of ls read as v (for a fresh or derived series).
// The entry is returned for plain kinds.
func (x *m) put(v int64, ls ...lv) (entry interface{}, err error) {
	switch x.kind {
	case 0:
		e, err := x.ig.GetEntry(ls...)
		if err != nil {
			return nil, err
		}
		e.Set(v)
		return e, nil
	case 1:
		e, err := x.fg.GetEntry(ls...)
		if err != nil {
			return nil, err
		}
		e.Set(float64(v))
		return e, nil
	case 2:
		e, err := x.ic.GetEntry(ls...)
		if err != nil {
			return nil, err
		}
		e.Inc(v)
		return e, nil
	case 3:
		e, err := x.fc.GetEntry(ls...)
		if err != nil {
			return nil, err
		}
		e.Inc(float64(v))
		return e, nil
	case 4:
		return nil, x.dig.UpsertEntry(func() int64 { return v }, ls...)
	case 5:
		return nil, x.dfg.UpsertEntry(func() float64 { return float64(v) }, ls...)
	case 6:
		return nil, x.dic.UpsertEntry(func() int64 { return v }, ls...)
	}
	return nil, x.dfc.UpsertEntry(func() float64 { return float64(v) }, ls...)
}

func sameLabel(a, b lv) bool {
	if a.Present != b.Present {
		return false
	}
	return !a.Present || a.Value == b.Value
}

func sameLabels(a, b []lv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameLabel(a[i], b[i]) {
			return false
		}
	}
	return true
}

// pointInt is the value of a point as an integer.
func pointInt(kind int, p metricdata.Point) (int64, bool) {
	if isFloat(kind) {
		f, ok := p.Value.(float64)
		return int64(f), ok
	}
	i, ok := p.Value.(int64)
	return i, ok
}

func symLabel(n string, max int) lv {
	v := sym.Str(n, sym.Range(n+"len", 0, max))
	if sym.Range(n+"absent", 0, 1) == 1 {
		return lv{Value: v}
	}
	return metricdata.NewLabelValue(v)
}

func longLabel(n string) lv {
	ls := []int{0, 1, 126, 127, 128, 254, 255, 256, 257, 511}
	l := ls[sym.Range(n, 0, len(ls)-1)]
	b := make([]byte, l)
	for i := range b {
		b[i] = 'x'
	}
	if l > 0 {
		b[l-1] = sym.Byte(n + "last")
	}
	if l > 1 {
		b[0] = sym.Byte(n + "first")
	}
	return metricdata.NewLabelValue(string(b))
}

func checkTwo(x *m, r *metric.Registry, consts, a, b []lv) {
	ea, err1 := x.put(3, a...)
	eb, err2 := x.put(5, b...)
	if err1 != nil || err2 != nil {
		ck(26, false, "the right number of label values is accepted")
		return
	}
	same := sameLabels(a, b)
	if !isDerived(x.kind) {
		ck(26, (ea == eb) == same, "one entry per combination of label values")
	}
	ms := r.Read()
	if len(ms) != 1 {
		ck(26, false, "one metric")
		return
	}
	want := map[bool]int{true: 1, false: 2}[same]
	ck(26, len(ms[0].TimeSeries) == want, "one series per combination of label values")
	if same {
		sym.Cover("same")
	} else {
		sym.Cover("different")
	}
	find := func(ls []lv, v int64) {
		n := 0
		full := append(append([]lv(nil), consts...), ls...)
		for _, ts := range ms[0].TimeSeries {
			if len(ts.LabelValues) != len(full) || len(ts.Points) != 1 {
				ck(26, false, "shape of a series")
				continue
			}
			eq := true
			for i := range full {
				f := full[i]
				if !f.Present {
					f.Value = ""
				}
				eq = eq && ts.LabelValues[i] == f
			}
			if eq {
				n++
				got, ok := pointInt(x.kind, ts.Points[0])
				ck(26, ok && got == v, "value of the series")
			}
		}
		ck(26, n == 1, "the series has the labels it was created with")
	}
	if same {
		v := int64(5)
		if x.kind == 2 || x.kind == 3 {
			v = 8
		}
		find(a, v)
		return
	}
	find(a, 3)
	find(b, 5)
}

func constLabels(n int) (metric.Options, []lv) {
	cm := map[metricdata.LabelKey]lv{}
	var cs []lv
	for i := 0; i < n; i++ {
		v := metricdata.NewLabelValue(string([]byte{'c', byte('0' + i)}))
		cm[metricdata.LabelKey{Key: string([]byte{'z', byte('0' + i)})}] = v
		cs = append(cs, v)
	}
	return metric.WithConstLabel(cm), cs
}

// HLabels: series are keyed by exactly their label values.
func HLabels() {
	r := metric.NewRegistry()
	co, cs := constLabels(sym.Range("consts", 0, 1) * 3)
	x, err := add(r, sym.Range("kind", 0, kinds-1), "m", metric.WithLabelKeys("a", "b"), co)
	if err != nil {
		ck(26, false, "added")
		return
	}
	max := sym.Param("len", 1)
	a := []lv{symLabel("a", max), symLabel("b", max)}
	b := []lv{symLabel("c", max), symLabel("d", max)}
	checkTwo(x, r, cs, a, b)
}

// HLabelsLong: the same for long values.
func HLabelsLong() {
	r := metric.NewRegistry()
	x, err := add(r, sym.Range("kind", 0, 1)*6, "m", metric.WithLabelKeys("a", "b"))
	if err != nil {
		ck(26, false, "added")
		return
	}
	t := metricdata.NewLabelValue("t")
	a, b := []lv{longLabel("a"), t}, []lv{longLabel("b"), t}
	checkTwo(x, r, nil, a, b)
}

// HLabelsConc: two goroutines look up different series of one metric with constant labels.
func HLabelsConc() {
	r := metric.NewRegistry()
	co, cs := constLabels(sym.Range("consts", 0, 4))
	x, err := add(r, sym.Range("kind", 0, kinds-1), "m", metric.WithLabelKeys("a"), co)
	if err != nil {
		ck(26, false, "added")
		return
	}
	a := []lv{metricdata.NewLabelValue(sym.Str("a", 1))}
	b := []lv{metricdata.NewLabelValue(sym.Str("b", 1))}
	sym.Assume(a[0].Value != b[0].Value)
	done := make(chan bool)
	sym.Explore()
	go func() {
		_, err := x.put(3, a...)
		ck(26, err == nil, "accepted")
		done <- true
	}()
	_, err = x.put(5, b...)
	ck(26, err == nil, "accepted")
	<-done
	sym.StopExplore()
	ms := r.Read()
	if len(ms) != 1 {
		ck(26, false, "one metric")
		return
	}
	ck(26, len(ms[0].TimeSeries) == 2, "two series")
	for _, ts := range ms[0].TimeSeries {
		v, _ := pointInt(x.kind, ts.Points[0])
		ls := a
		if v == 5 {
			ls = b
		} else {
			ck(26, v == 3, "value")
		}
		ck(26, sameLabels(ts.LabelValues, append(append([]lv(nil), cs...), ls...)), "labels of the series")
	}
	sym.Cover("concurrent")
}
