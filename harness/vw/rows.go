package vw

import (
	"context"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

var (
	k1 = tag.MustNewKey("k1")
	k2 = tag.MustNewKey("k2")
	k3 = tag.MustNewKey("k3")
)

// rec is one recording with its tags ("" is absent or empty).
type rec struct {
	t [3]string
	x int64
}

func (r rec) ctx() context.Context {
	var ms []tag.Mutator
	for i, k := range []tag.Key{k1, k2, k3} {
		if r.t[i] != "" || sym.Param("empty", 0) == 1 {
			ms = append(ms, tag.Upsert(k, r.t[i]))
		}
	}
	if len(ms) == 0 {
		return bg
	}
	c, err := tag.New(bg, ms...)
	if err != nil {
		sym.Assume(false)
	}
	return c
}

func symVal(n string, max int) string {
	b := sym.Bytes(n, sym.Range(n+"len", 0, max))
	for _, c := range b {
		sym.Assume(sym.And(c >= 32, c <= 126))
	}
	return string(b)
}

// checkRows compares retrieved rows with a grouping of the recordings by keys.
func checkRows(prop int, name string, rs []rec, idx []int, agg int) {
	rows, err := view.RetrieveData(name)
	if err != nil {
		ck(prop, false, "retrieved")
		return
	}
	keys := []tag.Key{k1, k2, k3}
	type group struct {
		tags  []tag.Tag
		count int64
		sum   float64
		last  float64
	}
	var gs []*group
	var reps []rec
	for _, r := range rs {
		var g *group
		for i, p := range reps {
			same := true
			for _, j := range idx {
				same = same && p.t[j] == r.t[j]
			}
			if same {
				g = gs[i]
			}
		}
		if g == nil {
			g = &group{}
			for _, j := range idx {
				if r.t[j] != "" {
					g.tags = append(g.tags, tag.Tag{Key: keys[j], Value: r.t[j]})
				}
			}
			gs = append(gs, g)
			reps = append(reps, r)
		}
		g.count++
		g.sum += float64(r.x)
		g.last = float64(r.x)
	}
	ck(prop, len(rows) == len(gs), "one row per combination of tag values")
	if len(gs) > 1 {
		sym.Cover("several rows")
	} else {
		sym.Cover("one row")
	}
	for _, g := range gs {
		n := 0
		for _, row := range rows {
			if len(row.Tags) != len(g.tags) {
				continue
			}
			eq := true
			for i, t := range g.tags {
				eq = eq && row.Tags[i].Key.Name() == t.Key.Name() && row.Tags[i].Value == t.Value
			}
			if !eq {
				continue
			}
			n++
			switch d := row.Data.(type) {
			case *view.CountData:
				ck(prop, agg == 0 && d.Value == g.count, "count of a row")
			case *view.SumData:
				ck(prop, agg == 1 && d.Value == g.sum, "sum of a row")
			case *view.LastValueData:
				ck(prop, agg == 2 && d.Value == g.last, "last value of a row")
			default:
				ck(prop, false, "data type of a row")
			}
		}
		ck(prop, n == 1, "the row of a combination of tag values")
	}
}

func aggOf(i int) *view.Aggregation {
	switch i {
	case 0:
		return view.Count()
	case 1:
		return view.Sum()
	case 2:
		return view.LastValue()
	}
	return view.Distribution(5)
}

// HRows: rows are grouped by exactly the values of the view's keys.
func HRows() {
	m := stats.Int64("m", "", "1")
	other := stats.Int64("other", "", "1")
	agg := sym.Range("agg", 0, 2)
	v := &view.View{Name: "v", Measure: m, Aggregation: aggOf(agg), TagKeys: []tag.Key{k2, k1}}
	w := &view.View{Name: "w", Measure: m, Aggregation: aggOf(agg), TagKeys: []tag.Key{k3}}
	z := &view.View{Name: "z", Measure: other, Aggregation: aggOf(agg)}
	y := &view.View{Name: "y", Measure: m, Aggregation: aggOf(agg), TagKeys: []tag.Key{k3, k1, k2}}
	x := &view.View{Name: "x", Measure: m, Aggregation: aggOf(agg)}
	if view.Register(v, w, z, y, x) != nil {
		ck(21, false, "registered")
		return
	}
	n := sym.Range("n", 1, sym.Param("n", 2))
	var rs []rec
	for i := 0; i < n; i++ {
		r := rec{x: int64(sym.Int32("x"))}
		max := sym.Param("len", 1)
		r.t[0], r.t[1] = symVal("a", max), symVal("b", max)
		if sym.Param("third", 0) == 1 {
			r.t[2] = symVal("c", 1)
		}
		rs = append(rs, r)
		stats.Record(r.ctx(), m.M(r.x))
	}
	checkRows(21, "v", rs, []int{0, 1}, agg)
	checkRows(21, "w", rs, []int{2}, agg)
	checkRows(21, "y", rs, []int{0, 1, 2}, agg)
	checkRows(21, "x", rs, nil, agg)
	checkRows(21, "z", nil, nil, agg)
}

func longVal(n string) string {
	l := []int{0, 1, 2, 127, 128, 254, 255}[sym.Range(n, 0, 6)]
	b := make([]byte, l)
	for i := range b {
		b[i] = 'x'
	}
	if l > 0 {
		b[l-1] = sym.Byte(n + "last")
		sym.Assume(sym.And(b[l-1] >= 32, b[l-1] <= 126))
	}
	return string(b)
}

// HRowsLong: the same around the limits of the length byte.
func HRowsLong() {
	m := stats.Int64("m", "", "1")
	v := &view.View{Name: "v", Measure: m, Aggregation: view.Sum(), TagKeys: []tag.Key{k1, k2}}
	if view.Register(v) != nil {
		ck(21, false, "registered")
		return
	}
	rs := []rec{{x: 3}, {x: 5}}
	rs[0].t[0], rs[0].t[1] = longVal("a"), longVal("b")
	rs[1].t[0], rs[1].t[1] = longVal("c"), rs[0].t[1]
	for _, r := range rs {
		stats.Record(r.ctx(), m.M(r.x))
	}
	checkRows(21, "v", rs, []int{0, 1}, 1)
}

// ---- snapshots

type viewSink struct{ got []*view.Data }

func (s *viewSink) ExportView(d *view.Data) { s.got = append(s.got, d) }

type snap struct {
	count, sumBits       int64
	value, mean, min, mx float64
	ssd                  float64
	buckets              [2]int64
	tags                 string
	exemplar             [2]bool
	ex                   [2]float64
	att                  [2]int
}

func freeze(r *view.Row) (s snap) {
	for _, t := range r.Tags {
		s.tags += t.Key.Name() + "=" + t.Value + ";"
	}
	switch d := r.Data.(type) {
	case *view.CountData:
		s.count = d.Value
	case *view.SumData:
		s.value = d.Value
	case *view.LastValueData:
		s.value = d.Value
	case *view.DistributionData:
		s.count, s.mean, s.min, s.mx, s.ssd = d.Count, d.Mean, d.Min, d.Max, d.SumOfSquaredDev
		copy(s.buckets[:], d.CountPerBucket)
		for i := 0; i < 2 && i < len(d.ExemplarsPerBucket); i++ {
			if e := d.ExemplarsPerBucket[i]; e != nil {
				s.exemplar[i], s.ex[i] = true, e.Value
				s.att[i], _ = e.Attachments["a"].(int)
			}
		}
	}
	return
}

func sameSnap(a, b snap) bool {
	ok := sym.And(a.count == b.count, sym.And(a.value == b.value, sym.And(a.mean == b.mean, sym.And(a.min == b.min, sym.And(a.mx == b.mx, a.ssd == b.ssd)))))
	return sym.And(ok, sym.And(a.buckets[0] == b.buckets[0], sym.And(a.buckets[1] == b.buckets[1], sym.And(a.tags == b.tags, sym.And(a.exemplar == b.exemplar, sym.And(a.att == b.att, sym.And(a.ex[0] == b.ex[0], a.ex[1] == b.ex[1])))))))
}

// scribble overwrites everything a reader may reasonably modify in a row.
func scribble(r *view.Row) {
	for i := range r.Tags {
		r.Tags[i] = tag.Tag{Key: k3, Value: "scribble"}
	}
	switch d := r.Data.(type) {
	case *view.CountData:
		d.Value = 77
	case *view.SumData:
		d.Value = 77
	case *view.LastValueData:
		d.Value = 77
	case *view.DistributionData:
		d.Count, d.Mean, d.Min, d.Max, d.SumOfSquaredDev = 77, 77, 77, 77, 77
		for i := range d.CountPerBucket {
			d.CountPerBucket[i] = 77
			if e := d.ExemplarsPerBucket[i]; e != nil {
				e.Value, e.Attachments["a"] = 77, 77
			}
			d.ExemplarsPerBucket[i] = nil
		}
	}
	r.Data = nil
}

// HSnapshot: returned rows are private copies.
func HSnapshot() {
	m := stats.Float64("m", "", "1")
	agg := sym.Range("agg", 0, 3)
	v := &view.View{Name: "v", Measure: m, Aggregation: aggOf(agg), TagKeys: []tag.Key{k1}}
	ex := &viewSink{}
	view.RegisterExporter(ex)
	if view.Register(v) != nil {
		ck(22, false, "registered")
		return
	}
	ctx, _ := tag.New(bg, tag.Upsert(k1, "t"))
	att := map[string]interface{}{"a": 1}
	put := func(x float64) {
		stats.RecordWithOptions(ctx, stats.WithAttachments(att), stats.WithMeasurements(m.M(x)))
	}
	val := func(n string) float64 {
		return float64(int64(sym.Range(n, 0, 2)) * 4)
	}
	a, b, c := val("a"), val("b"), sym.Float64("c")
	sym.Assume(finite(c))
	put(a)
	get := func() *view.Row {
		rows, err := view.RetrieveData("v")
		if err != nil || len(rows) != 1 {
			ck(22, false, "one row")
			sym.Assume(false)
		}
		return rows[0]
	}
	r1, keep := get(), get()
	f1 := freeze(r1)
	ck(22, sameSnap(f1, freeze(keep)), "two readers see the same")
	put(b)
	ck(22, sameSnap(f1, freeze(r1)), "a row does not change when more is recorded")
	r2 := get()
	f2 := freeze(r2)
	scribble(r1)
	ck(22, sameSnap(f1, freeze(keep)), "modifying a row leaves another reader's copy")
	ck(22, sameSnap(f2, freeze(get())), "modifying a row leaves the library's data")
	ck(22, sameSnap(f2, freeze(r2)), "modifying a row leaves a later copy")
	scribble(r2)
	r3 := get()
	ck(22, sameSnap(f2, freeze(r3)), "modifying a later row leaves the library's data")
	view.Unregister(v)
	if len(ex.got) == 1 && len(ex.got[0].Rows) == 1 {
		sym.Cover("exported")
		e := ex.got[0].Rows[0]
		ck(22, sameSnap(f2, freeze(e)), "exported rows are the pending data")
		view.Register(v)
		put(c)
		ck(22, sameSnap(f2, freeze(e)), "an exported row does not change")
		f3 := freeze(get())
		scribble(e)
		ck(22, sameSnap(f3, freeze(get())), "modifying an exported row leaves the library's data")
	} else {
		ck(22, false, "pending data exported on unregister")
	}
	ck(22, sameSnap(f2, freeze(r3)), "rows survive unregistering")
	sym.Cover("snapshots")
}
