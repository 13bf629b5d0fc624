package mt

import (
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
)

type def struct {
	name, desc string
	unit       metricdata.Unit
	kind       int
	keys       []metricdata.LabelKey
	consts     []lv
	x          *m
	vals       []lv // labels of its series, if any
	v          int64
}

// HRegistry: conflicting kinds are refused, everything else is read back as declared.
func HRegistry() {
	r := metric.NewRegistry()
	var defs []*def
	find := func(n string) *def {
		for _, d := range defs {
			if d.name == n {
				return d
			}
		}
		return nil
	}
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		d := &def{name: sym.Str("name", 1), desc: sym.Str("desc", 1), unit: metricdata.Unit(sym.Str("unit", 1)), kind: sym.Range("kind", 0, kinds-1), v: int64(i + 1)}
		opts := []metric.Options{metric.WithDescription(d.desc), metric.WithUnit(d.unit)}
		shape := sym.Range("shape", 0, 4)
		var own []metricdata.LabelKey
		cm := map[metricdata.LabelKey]lv{}
		if shape == 1 || shape == 3 {
			k := sym.Str("key", 1)
			own = []metricdata.LabelKey{{Key: k}}
			opts = append(opts, metric.WithLabelKeys(k))
		}
		if shape == 4 {
			own = []metricdata.LabelKey{{Key: "p", Description: sym.Str("kd", 1)}, {Key: "q"}}
			opts = append(opts, metric.WithLabelKeysAndDescription(own...))
		}
		if shape >= 2 {
			a, b := sym.Str("ck", 1), sym.Str("ck", 1)
			sym.Assume(a != b)
			ka, kb := metricdata.LabelKey{Key: a}, metricdata.LabelKey{Key: b}
			va, vb := metricdata.NewLabelValue(sym.Str("cv", 1)), lv{}
			cm[ka], cm[kb] = va, vb
			opts = append(opts, metric.WithConstLabel(cm))
			if a < b {
				d.keys, d.consts = []metricdata.LabelKey{ka, kb}, []lv{va, vb}
			} else {
				d.keys, d.consts = []metricdata.LabelKey{kb, ka}, []lv{vb, va}
			}
			sym.Cover("constant labels")
		}
		d.keys = append(append([]metricdata.LabelKey{}, d.keys...), own...)
		old := find(d.name)
		x, err := add(r, d.kind, d.name, opts...)
		if old != nil && old.kind != d.kind {
			ck(29, err != nil, "a conflicting kind is refused")
			sym.Cover("conflict")
		} else {
			ck(29, err == nil, "a new metric is added")
			d.x = x
			if err == nil {
				if old != nil {
					*old = *d
					sym.Cover("redefined")
				} else {
					defs = append(defs, d)
					sym.Cover("added")
				}
				// a series with the right number of labels, and wrong ones
				var ls []lv
				for range own {
					ls = append(ls, metricdata.NewLabelValue(sym.Str("val", 1)))
				}
				tgt := d
				if old != nil {
					tgt = old
				}
				e, err := x.put(1, append(append([]lv{}, ls...), lv{})...)
				ck(29, err != nil && e == nil, "too many label values are refused")
				if len(ls) > 0 {
					_, err = x.put(1, ls[1:]...)
					ck(29, err != nil, "too few label values are refused")
				}
				if sym.Range("series", 0, 1) == 1 {
					_, err = x.put(d.v, ls...)
					ck(29, err == nil, "the right number of label values is accepted")
					tgt.vals = append(append([]lv{}, d.consts...), ls...)
				} else {
					tgt.v = 0
				}
			}
		}
		ms := r.Read()
		ck(29, len(ms) == len(defs), "every metric is read once")
		for _, d := range defs {
			cnt := 0
			for _, g := range ms {
				if g.Descriptor.Name != d.name {
					continue
				}
				cnt++
				ck(29, g.Descriptor.Description == d.desc && g.Descriptor.Unit == d.unit && g.Descriptor.Type == wantType(d.kind), "descriptor as declared")
				ok := len(g.Descriptor.LabelKeys) == len(d.keys)
				for j := range d.keys {
					ok = ok && g.Descriptor.LabelKeys[j] == d.keys[j]
				}
				ck(29, ok, "keys as declared, constant ones first")
				if d.v == 0 {
					ck(29, len(g.TimeSeries) == 0, "no series")
					continue
				}
				ck(29, len(g.TimeSeries) == 1, "its series")
				if len(g.TimeSeries) == 1 {
					ts := g.TimeSeries[0]
					ck(29, sameLabels(ts.LabelValues, d.vals), "label values, constant ones first")
					ok := len(ts.Points) == 1
					if ok {
						v, ok2 := pointInt(d.kind, ts.Points[0])
						ok = ok2 && v == d.v
					}
					ck(29, ok, "its value")
				}
			}
			ck(29, cnt == 1, "every metric is read once")
		}
	}
}

// HRegistrySeq: longer sequences over two fixed names.
func HRegistrySeq() {
	r := metric.NewRegistry()
	names := [2]string{"a", "b"}
	var kind [2]int
	var cur [2]*m
	var val [2]int64
	kind[0], kind[1] = -1, -1
	n := sym.Param("n", 3)
	for i := 0; i < n; i++ {
		k, nm := sym.Range("kind", 0, kinds-1), sym.Range("name", 0, 1)
		x, err := add(r, k, names[nm])
		if kind[nm] >= 0 && kind[nm] != k {
			ck(29, err != nil, "a conflicting kind is refused")
			sym.Cover("conflict")
			// the existing metric still counts
			if !isCum(kind[nm]) || isDerived(kind[nm]) {
				v := int64(sym.Uint16("v"))
				cur[nm].put(v)
				val[nm] = v
			}
		} else {
			ck(29, err == nil, "a new metric is added")
			if err != nil {
				return
			}
			if kind[nm] == k {
				sym.Cover("redefined")
			}
			kind[nm], cur[nm] = k, x
			v := int64(sym.Uint16("v"))
			x.put(v)
			val[nm] = v
		}
		ms := r.Read()
		want := 0
		for j := range names {
			if kind[j] < 0 {
				continue
			}
			want++
			c := 0
			for _, g := range ms {
				if g.Descriptor.Name == names[j] {
					c++
					ck(29, g.Descriptor.Type == wantType(kind[j]), "type as declared")
					ck(29, len(g.TimeSeries) == 1 && len(g.TimeSeries[0].Points) == 1, "its series")
					v, ok := pointInt(kind[j], g.TimeSeries[0].Points[0])
					ck(29, ok && v == val[j], "its value")
				}
			}
			ck(29, c == 1, "every metric is read once")
		}
		ck(29, len(ms) == want, "every metric is read once")
	}
}
