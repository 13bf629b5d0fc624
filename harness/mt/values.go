package mt

import (
	"math"
	"sync"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
)

func point(r *metric.Registry) (metricdata.Point, bool) {
	ms := r.Read()
	if len(ms) != 1 || len(ms[0].TimeSeries) != 1 || len(ms[0].TimeSeries[0].Points) != 1 {
		return metricdata.Point{}, false
	}
	return ms[0].TimeSeries[0].Points[0], true
}

func readInt(prop int, r *metric.Registry) int64 {
	p, ok := point(r)
	v, ok2 := p.Value.(int64)
	ck(prop, ok && ok2, "one integer point")
	return v
}

func readFloat(prop int, r *metric.Registry) float64 {
	p, ok := point(r)
	v, ok2 := p.Value.(float64)
	ck(prop, ok && ok2, "one float point")
	return v
}

// HCumInt: integer cumulatives only go up, by exactly the positive increments.
func HCumInt() {
	r := metric.NewRegistry()
	c, _ := r.AddInt64Cumulative("c")
	e, err := c.GetEntry()
	if err != nil {
		ck(27, false, "entry")
		return
	}
	var want int64
	n := sym.Range("n", 0, sym.Param("n", 3))
	for i := 0; i < n; i++ {
		x := sym.Int64("x")
		e.Inc(x)
		if x > 0 {
			sym.Assume(want+x >= want) // totals that overflow are outside
			want += x
			sym.Cover("positive")
		} else {
			sym.Cover("not positive")
		}
		ck(27, readInt(27, r) == want, "the sum of the positive increments")
	}
	ck(27, readInt(27, r) == want, "the sum of the positive increments")
	e2, _ := c.GetEntry()
	ck(27, e2 == e, "one entry")
}

// HCumFloat: float cumulatives likewise, for every float64.
func HCumFloat() {
	r := metric.NewRegistry()
	c, _ := r.AddFloat64Cumulative("c")
	e, err := c.GetEntry()
	if err != nil {
		ck(27, false, "entry")
		return
	}
	want, last := 0.0, 0.0
	n := sym.Range("n", 0, sym.Param("n", 2))
	for i := 0; i < n; i++ {
		x := sym.Float64("x")
		e.Inc(x)
		if x > 0 {
			want += x
			sym.Cover("positive")
		} else {
			sym.Cover("not positive")
		}
		got := readFloat(27, r)
		ck(27, got >= last, "never decreases")
		ck(27, math.Float64bits(got) == math.Float64bits(want), "the sum of the positive increments")
		last = got
	}
}

// HCumConc: concurrent increments are all counted and a reader sees a prefix.
func HCumConc() {
	r := metric.NewRegistry()
	float := sym.Range("float", 0, 1) == 1
	ic, _ := r.AddInt64Cumulative("i", metric.WithLabelKeys("k"))
	fc, _ := r.AddFloat64Cumulative("f", metric.WithLabelKeys("k"))
	l := metricdata.NewLabelValue("v")
	x := [2]int64{int64(sym.Uint16("x")), int64(sym.Uint16("x"))}
	inc := func(v int64) {
		if float {
			e, err := fc.GetEntry(l)
			ck(27, err == nil, "entry")
			e.Inc(float64(v))
		} else {
			e, err := ic.GetEntry(l)
			ck(27, err == nil, "entry")
			e.Inc(v)
		}
	}
	read := func() (int64, int) {
		for _, mt := range r.Read() {
			if (mt.Descriptor.Name == "f") == float {
				if len(mt.TimeSeries) == 0 {
					return 0, 0
				}
				v, _ := pointInt(map[bool]int{true: 1, false: 0}[float], mt.TimeSeries[0].Points[0])
				return v, len(mt.TimeSeries)
			}
		}
		return 0, -1
	}
	pre := sym.Range("pre", 0, 1) == 1
	if pre {
		inc(0)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() { inc(x[0]); wg.Done() }()
	go func() { inc(x[1]); wg.Done() }()
	v1, n1 := read()
	v2, n2 := read()
	wg.Wait()
	sym.StopExplore()
	ok := func(v int64) bool {
		return sym.Or(sym.Or(v == 0, v == x[0]), sym.Or(v == x[1], v == x[0]+x[1]))
	}
	ck(27, sym.And(ok(v1), ok(v2)), "a reader sees some of the increments")
	ck(27, v1 <= v2, "a reader never sees the value decrease")
	ck(27, n1 <= n2 && n2 <= 1 && (!pre || n1 == 1), "an existing series is read")
	v, n := read()
	ck(27, n == 1 && v == x[0]+x[1], "every increment is counted")
	sym.Cover("concurrent")
}

// HGaugeInt: the last value set plus everything added since; negative reads as zero.
func HGaugeInt() {
	r := metric.NewRegistry()
	g, _ := r.AddInt64Gauge("g")
	e, err := g.GetEntry()
	if err != nil {
		ck(28, false, "entry")
		return
	}
	var want int64
	n := sym.Range("n", 1, sym.Param("n", 3))
	for i := 0; i < n; i++ {
		x := sym.Int64("x")
		if sym.Range("add", 0, 1) == 1 {
			e.Add(x)
			want += x
			sym.Cover("add")
		} else {
			e.Set(x)
			want = x
			sym.Cover("set")
		}
		w := want
		if w < 0 {
			w = 0
		}
		ck(28, readInt(28, r) == w, "integer gauge")
	}
}

// HGaugeFloat: the same for float gauges.
func HGaugeFloat() {
	r := metric.NewRegistry()
	g, _ := r.AddFloat64Gauge("g")
	e, err := g.GetEntry()
	if err != nil {
		ck(28, false, "entry")
		return
	}
	var want float64
	n := sym.Range("n", 1, sym.Param("n", 3))
	for i := 0; i < n; i++ {
		x := sym.Float64("x")
		sym.Assume(x == x)
		if sym.Range("add", 0, 1) == 1 {
			e.Add(x)
			want += x
			sym.Assume(want == want)
			sym.Cover("add")
		} else {
			e.Set(x)
			want = x
			sym.Cover("set")
		}
		w := want
		if w < 0 {
			w = 0
		}
		ck(28, readFloat(28, r) == w, "float gauge")
	}
}

// HGaugeConc: concurrent additions are all counted, sets are not lost.
func HGaugeConc() {
	r := metric.NewRegistry()
	float := sym.Range("float", 0, 1) == 1
	set := sym.Range("set", 0, 1) == 1
	ig, _ := r.AddInt64Gauge("g")
	fr := metric.NewRegistry()
	fg, _ := fr.AddFloat64Gauge("g")
	x := [2]int64{int64(sym.Uint16("x")), int64(sym.Uint16("x"))}
	op := func(v int64, set bool) {
		if float {
			e, err := fg.GetEntry()
			ck(28, err == nil, "entry")
			if set {
				e.Set(float64(v))
			} else {
				e.Add(float64(v))
			}
		} else {
			e, err := ig.GetEntry()
			ck(28, err == nil, "entry")
			if set {
				e.Set(v)
			} else {
				e.Add(v)
			}
		}
	}
	read := func() int64 {
		if float {
			return int64(readFloat(28, fr))
		}
		return readInt(28, r)
	}
	op(0, true)
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() { op(x[0], false); wg.Done() }()
	go func() { op(x[1], set); wg.Done() }()
	v := read()
	wg.Wait()
	sym.StopExplore()
	ck(28, sym.Or(sym.Or(v == 0, v == x[0]), sym.Or(v == x[1], v == x[0]+x[1])), "a reader sees some of the operations")
	f := read()
	if set {
		ck(28, sym.Or(f == x[1], f == x[0]+x[1]), "the set and at most the later addition")
	} else {
		ck(28, f == x[0]+x[1], "every addition is counted")
	}
	sym.Cover("concurrent")
}

// HDerived: a derived metric reads its callback's current value; the latest callback counts.
func HDerived() {
	r := metric.NewRegistry()
	kind := sym.Range("kind", 4, 7)
	x, err := add(r, kind, "m", metric.WithLabelKeys("k"))
	if err != nil {
		ck(28, false, "added")
		return
	}
	l := []lv{metricdata.NewLabelValue("v")}
	iv, fv := sym.Int64("i"), sym.Float64("f")
	sym.Assume(fv == fv)
	var cur struct {
		i int64
		f float64
	}
	up := func(neg bool) error {
		switch kind {
		case 4:
			return x.dig.UpsertEntry(func() int64 {
				if neg {
					return -cur.i
				}
				return cur.i
			}, l...)
		case 5:
			return x.dfg.UpsertEntry(func() float64 {
				if neg {
					return -cur.f
				}
				return cur.f
			}, l...)
		case 6:
			return x.dic.UpsertEntry(func() int64 {
				if neg {
					return -cur.i
				}
				return cur.i
			}, l...)
		}
		return x.dfc.UpsertEntry(func() float64 {
			if neg {
				return -cur.f
			}
			return cur.f
		}, l...)
	}
	check := func(neg bool) {
		if isFloat(kind) {
			w := cur.f
			if neg {
				w = -w
			}
			ck(28, readFloat(28, r) == w, "current value of the callback")
		} else {
			w := cur.i
			if neg {
				w = -w
			}
			ck(28, readInt(28, r) == w, "current value of the callback")
		}
	}
	ck(28, up(false) == nil, "inserted")
	check(false)
	cur.i, cur.f = iv, fv
	check(false)
	ck(28, up(true) == nil, "replaced")
	check(true)
	// nil callbacks are refused and change nothing
	switch kind {
	case 4:
		err = x.dig.UpsertEntry(nil, l...)
	case 5:
		err = x.dfg.UpsertEntry(nil, l...)
	case 6:
		err = x.dic.UpsertEntry(nil, l...)
	case 7:
		err = x.dfc.UpsertEntry(nil, l...)
	}
	ck(28, err != nil, "a nil callback is refused")
	check(true)
	sym.Cover("derived")
}

// HDerivedConc: replacing a callback never loses the series.
func HDerivedConc() {
	r := metric.NewRegistry()
	kind := sym.Range("kind", 4, 7)
	x, err := add(r, kind, "m", metric.WithLabelKeys("k"))
	if err != nil {
		ck(28, false, "added")
		return
	}
	l := metricdata.NewLabelValue("v")
	a, b := int64(sym.Uint16("a")), int64(sym.Uint16("b"))
	x.put(a, l)
	done := make(chan bool)
	sym.Explore()
	go func() {
		x.put(b, l)
		done <- true
	}()
	ms := r.Read()
	<-done
	sym.StopExplore()
	ck(28, len(ms) == 1 && len(ms[0].TimeSeries) == 1, "the series is there while its callback is replaced")
	if len(ms) == 1 && len(ms[0].TimeSeries) == 1 {
		v, ok := pointInt(kind, ms[0].TimeSeries[0].Points[0])
		ck(28, ok && sym.Or(v == a, v == b), "the old or the new callback is read")
	}
	ms = r.Read()
	v, ok := pointInt(kind, ms[0].TimeSeries[0].Points[0])
	ck(28, ok && v == b, "the new callback is read afterwards")
	sym.Cover("concurrent")
}
