package vw

import (
	"sync"
	"time"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
)

// defMeter is the package-level meter.
type defMeter struct{}

func (defMeter) Find(n string) *view.View                   { return view.Find(n) }
func (defMeter) Register(vs ...*view.View) error            { return view.Register(vs...) }
func (defMeter) Unregister(vs ...*view.View)                { view.Unregister(vs...) }
func (defMeter) SetReportingPeriod(d time.Duration)         { view.SetReportingPeriod(d) }
func (defMeter) RegisterExporter(e view.Exporter)           { view.RegisterExporter(e) }
func (defMeter) UnregisterExporter(e view.Exporter)         { view.UnregisterExporter(e) }
func (defMeter) Stop()                                      { view.Stop() }
func (defMeter) RetrieveData(n string) ([]*view.Row, error) { return view.RetrieveData(n) }

type meterAPI interface {
	Find(string) *view.View
	Register(...*view.View) error
	Unregister(...*view.View)
	SetReportingPeriod(time.Duration)
	RegisterExporter(view.Exporter)
	UnregisterExporter(view.Exporter)
	Stop()
	RetrieveData(string) ([]*view.Row, error)
}

func recordTo(mt meterAPI, ms ...stats.Measurement) {
	if x, ok := mt.(view.Meter); ok {
		stats.RecordWithOptions(bg, stats.WithRecorder(x), stats.WithMeasurements(ms...))
		return
	}
	stats.Record(bg, ms...)
}

// logSink remembers what it was given.
type logSink struct {
	mu  sync.Mutex
	got []*view.Data
}

func (s *logSink) ExportView(d *view.Data) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, d)
}

func (s *logSink) take() []*view.Data {
	s.mu.Lock()
	defer s.mu.Unlock()
	g := s.got
	s.got = nil
	return g
}

// vstate is what a view should report.
type vstate struct {
	on    bool
	n     int
	sum   float64
	last  float64
	start int64
}

func (v vstate) matches(d *view.Data, sum bool) bool {
	if !v.on {
		return false
	}
	if v.n == 0 {
		return len(d.Rows) == 0
	}
	if len(d.Rows) != 1 || len(d.Rows[0].Tags) != 0 {
		return false
	}
	if sum {
		x, ok := d.Rows[0].Data.(*view.SumData)
		return ok && x.Value == v.sum
	}
	x, ok := d.Rows[0].Data.(*view.LastValueData)
	return ok && x.Value == v.last
}

func at(ns int64) time.Time { return time.Unix(1700000000, ns) }

// HExport: histories of views, exporters, recordings and reporting ticks.
func HExport() {
	sym.FastTicks()
	now := int64(1000)
	sym.SetClock(now)
	var mt meterAPI = defMeter{}
	if sym.Range("meter", 0, 1) == 1 {
		x := view.NewMeter()
		x.Start()
		mt = x
	}
	mt.SetReportingPeriod(time.Second)
	m := stats.Int64("m", "", "1")
	views := [2]*view.View{
		{Name: "v", Measure: m, Aggregation: view.Sum()},
		{Name: "w", Measure: m, Aggregation: view.LastValue()},
	}
	sinks := [2]*logSink{{}, {}}
	var vs [2]vstate
	var es [2]bool
	n := sym.Param("n", 4)
	prefix := sym.Param("prefix", 0)
	for i := 0; i < n; i++ {
		now += 1000
		sym.SetClock(now)
		ovs, oes := vs, es
		var ended [2]bool
		op := 0
		switch {
		case prefix == 1 && i == 0:
			op = 4
		case prefix == 1 && i == 1:
			op = 0
		default:
			op = sym.Range("op", 0, 11)
		}
		switch op {
		case 0, 1:
			k := op
			ck(43, mt.Register(views[k]) == nil, "registered")
			if !vs[k].on {
				vs[k] = vstate{on: true, start: now}
			}
		case 2, 3:
			k := op - 2
			mt.Unregister(views[k])
			ended[k] = vs[k].on
			vs[k] = vstate{}
		case 10: // both at once
			ck(43, mt.Register(views[1], views[0], views[1]) == nil, "registered")
			for k := range vs {
				if !vs[k].on {
					vs[k] = vstate{on: true, start: now}
				}
			}
		case 11:
			mt.Unregister(views[1], views[0], views[1])
			for k := range vs {
				ended[k] = vs[k].on
				vs[k] = vstate{}
			}
		case 4, 5:
			mt.RegisterExporter(sinks[op-4])
			es[op-4] = true
		case 6, 7:
			mt.UnregisterExporter(sinks[op-6])
			es[op-6] = false
		case 8:
			x := int64(sym.Uint16("x"))
			recordTo(mt, m.M(x))
			for k := range vs {
				if vs[k].on {
					vs[k].n++
					vs[k].sum += float64(x)
					vs[k].last = float64(x)
				}
			}
		case 9:
			sym.Fire()
			sym.Quiesce()
			sym.Cover("tick")
		}
		mt.Find("v") // everything before this is processed
		cnt := [2][2]int{}
		for j, s := range sinks {
			for _, d := range s.take() {
				ck(43, oes[j] || es[j], "only registered exporters are given data")
				k := -1
				for q := range views {
					if d.View == views[q] {
						k = q
					}
				}
				if k < 0 {
					ck(43, false, "the data names its view")
					continue
				}
				cnt[j][k]++
				isSum := k == 0
				if !vs[k].on && !ovs[k].on {
					ck(43, false, "only registered views are exported")
					continue
				}
				ck(43, sym.Or(vs[k].matches(d, isSum), ovs[k].matches(d, isSum)), "the rows recorded since registration")
				st := vs[k].start
				if ovs[k].on {
					st = ovs[k].start
				}
				ck(43, d.Start.Equal(at(st)), "the data starts at the registration")
				ck(43, d.End.Equal(at(now)), "the data ends at the report")
			}
		}
		for j := range sinks {
			if !(es[j] && oes[j]) {
				continue
			}
			for k := range views {
				if op == 9 && vs[k].n > 0 {
					ck(43, cnt[j][k] > 0, "every tick exports every view to every exporter")
					sym.Cover("exported")
				}
				if ended[k] && ovs[k].n > 0 {
					ck(43, cnt[j][k] > 0, "pending data is exported when a view is unregistered")
					sym.Cover("pending")
				}
				if op == 9 && vs[k].on {
					if es[1-j] {
						ck(43, cnt[j][k] == cnt[1-j][k], "every exporter is given the same")
					}
					if vs[1-k].on && vs[1-k].n > 0 && vs[k].n > 0 {
						ck(43, cnt[j][k] == cnt[j][1-k], "every view is exported alike")
					}
				}
			}
		}
	}
	if _, ok := mt.(view.Meter); ok {
		mt.Stop()
		for _, s := range sinks {
			s.take()
		}
		sym.Fire()
		sym.Quiesce()
		for _, s := range sinks {
			ck(43, len(s.take()) == 0, "a stopped meter exports nothing")
		}
		sym.Cover("stopped")
	}
}

// HPeriod: the reporting period is the one set last.
func HPeriod() {
	sym.FastTicks()
	x := view.NewMeter()
	ck(43, sym.Period() == 10*time.Second, "ten seconds by default")
	x.Start()
	var mt meterAPI = x
	if sym.Range("default", 0, 1) == 1 {
		mt = defMeter{}
	}
	for i := 0; i < 2; i++ {
		d := time.Duration(sym.Int64("d"))
		mt.SetReportingPeriod(d)
		want := 10 * time.Second
		if d > 0 {
			want = d
			sym.Cover("set")
		} else {
			sym.Cover("default")
		}
		ck(43, sym.Period() == want, "the period set last")
	}
	// reports go on
	mt.SetReportingPeriod(time.Second)
	m := stats.Int64("m", "", "1")
	v := &view.View{Name: "v", Measure: m, Aggregation: view.Count()}
	s := &logSink{}
	mt.RegisterExporter(s)
	if mt.Register(v) != nil {
		ck(43, false, "registered")
		return
	}
	recordTo(mt, m.M(1))
	mt.Find("v")
	for i := 0; i < 2; i++ {
		s.take()
		sym.Fire()
		sym.Quiesce()
		ck(43, len(s.take()) > 0, "reports at every tick")
	}
	mt.UnregisterExporter(s)
	x.Stop()
}

// gate is an exporter that must not be used after it was shut.
type gate struct {
	mu   sync.Mutex
	shut bool
	n    int
	v    *view.View
	off  bool // v must not be exported any more
}

func (g *gate) ExportView(d *view.Data) {
	g.mu.Lock()
	defer g.mu.Unlock()
	ck(43, !g.shut, "nothing is exported after unregistering the exporter")
	ck(43, !(g.off && d.View == g.v), "nothing is exported after unregistering the view")
	g.n++
}

// HExportConc: registrations change while a report is under way.
func HExportConc() {
	sym.FastTicks()
	mt := view.NewMeter()
	mt.Start()
	mt.SetReportingPeriod(time.Second)
	m := stats.Int64("m", "", "1")
	v := &view.View{Name: "v", Measure: m, Aggregation: view.Count()}
	w := &view.View{Name: "w", Measure: m, Aggregation: view.Sum()}
	g, other := &gate{v: v}, &gate{}
	mt.RegisterExporter(g)
	if mt.Register(v, w) != nil {
		ck(43, false, "registered")
		return
	}
	recordTo(mt, m.M(1))
	mt.Find("v")
	o := sym.Range("o", 0, 3)
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		sym.Fire()
		wg.Done()
	}()
	go func() {
		switch o {
		case 0:
			mt.UnregisterExporter(g)
			g.mu.Lock()
			g.shut = true
			g.mu.Unlock()
			sym.Cover("exporter gone")
		case 1:
			mt.Unregister(v)
			g.mu.Lock()
			g.off = true
			g.mu.Unlock()
			sym.Cover("view gone")
		case 2:
			mt.RegisterExporter(other)
			sym.Cover("exporter added")
		case 3:
			mt.Stop()
			g.mu.Lock()
			g.shut = true
			g.mu.Unlock()
			sym.Cover("stopped")
		}
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	if o != 3 {
		sym.Fire()
		sym.Quiesce()
		mt.Find("v")
		g.mu.Lock()
		ck(43, g.n > 0 || o == 0, "reports go on")
		g.mu.Unlock()
		other.mu.Lock()
		ck(43, (other.n > 0) == (o == 2), "an exporter registered before a tick is used")
		other.mu.Unlock()
	}
	mt.Stop()
}

// ---- several meters

type meterModel struct {
	api  meterAPI
	prod metricproducer.Producer
	on   bool
	stop bool
	n    int64
	last float64
	sum  float64
	res  *resource.Resource
	sink *logSink
	exp  bool
}

// HMeters: what is done to one meter is not seen by another.
func HMeters() {
	sym.FastTicks()
	m := stats.Int64("m", "", "1")
	shared := &view.View{Name: "v", Measure: m, Aggregation: view.LastValue()}
	var ms []*meterModel
	gm := metricproducer.GlobalManager()
	add := func(api meterAPI) *meterModel {
		x := &meterModel{api: api, sink: &logSink{}}
		if p, ok := api.(metricproducer.Producer); ok {
			x.prod = p
		}
		ms = append(ms, x)
		return x
	}
	a, b := view.NewMeter(), view.NewMeter()
	a.Start()
	b.Start()
	add(a)
	add(b)
	add(defMeter{})
	for _, x := range ms {
		x.api.SetReportingPeriod(time.Second)
	}
	view.Find("v")
	for _, p := range gm.GetAll() {
		if p != ms[0].prod && p != ms[1].prod {
			ms[2].prod = p
		}
	}
	view0 := func(k int) *view.View {
		if sym.Param("own", 0) == 1 { // a definition of its own for every meter
			return &view.View{Name: "v", Measure: m, Aggregation: aggOf(k)}
		}
		return shared
	}
	defs := [3]*view.View{view0(0), view0(1), view0(2)}
	if sym.Param("all", 0) == 1 {
		for k, x := range ms {
			ck(44, x.api.Register(defs[k]) == nil, "registered")
			x.on = true
		}
	}
	ops := sym.Param("ops", 3)
	for i := 0; i < ops; i++ {
		k := sym.Range("meter", 0, 2)
		if i == 0 {
			sym.Assume(k != 1) // the two new meters are alike
		}
		x := ms[k]
		switch sym.Range("op", 0, 6) {
		case 0:
			err := x.api.Register(defs[k])
			ck(44, (err == nil) == !x.stop, "registered unless stopped")
			x.on = !x.stop
		case 1:
			x.api.Unregister(defs[k])
			x.on, x.n, x.sum = false, 0, 0
		case 2:
			v := int64(sym.Int32("x"))
			recordTo(x.api, m.M(v))
			if x.on {
				x.n++
				x.last = float64(v)
				x.sum += float64(v)
			}
			sym.Cover("recorded")
		case 3:
			if r, ok := x.api.(view.Meter); ok {
				x.res = &resource.Resource{Type: "t", Labels: map[string]string{"k": symVal("r", 1)}}
				r.SetResource(x.res)
				sym.Cover("resource")
			}
		case 4:
			x.api.RegisterExporter(x.sink)
			x.exp = true
		case 5:
			x.api.Stop()
			x.stop, x.on, x.n, x.sum = true, false, 0, 0
			sym.Cover("stopped")
		case 6:
			x.api.SetReportingPeriod(0)
		}
		for _, y := range ms {
			y.api.Find("v")
		}
		for j, y := range ms {
			checkMeter(y, defs[j])
		}
	}
	for _, y := range ms {
		y.sink.take()
		y.api.SetReportingPeriod(time.Second)
	}
	sym.Fire()
	sym.Quiesce()
	for j, y := range ms {
		y.api.Find("v")
		got := y.sink.take()
		ck(44, len(got) == 0 || y.exp && y.on, "an exporter is given the data of its own meter")
		if y.exp && y.on && y.n > 0 {
			ck(44, len(got) > 0, "every meter reports")
			sym.Cover("exported")
		}
		for _, d := range got {
			ck(44, d.View == defs[j] && rowsMatch(d.Rows, y), "an exporter is given the data of its own meter")
		}
	}
	a.Stop()
	b.Stop()
}

func rowsMatch(rows []*view.Row, y *meterModel) bool {
	if y.n == 0 {
		return len(rows) == 0
	}
	if len(rows) != 1 {
		return false
	}
	switch d := rows[0].Data.(type) {
	case *view.LastValueData:
		return d.Value == y.last
	case *view.CountData:
		return d.Value == y.n
	case *view.SumData:
		return d.Value == y.sum
	}
	return false
}

func checkMeter(y *meterModel, def *view.View) {
	f := y.api.Find("v")
	ck(44, (f != nil) == y.on, "found where it is registered")
	ck(44, f == nil || f == def, "found where it is registered")
	rows, err := y.api.RetrieveData("v")
	ck(44, (err == nil) == y.on, "data where it is registered")
	if y.on && err == nil {
		ck(44, rowsMatch(rows, y), "a meter's data is what was recorded to it")
	}
	live := 0
	for _, p := range metricproducer.GlobalManager().GetAll() {
		if p == y.prod {
			live++
		}
	}
	if y.stop {
		ck(44, live == 0, "a stopped meter is not read")
		return
	}
	ck(44, live == 1, "a started meter is read")
	if y.prod == nil {
		return
	}
	got := y.prod.Read()
	want := 0
	if y.on && y.n > 0 {
		want = 1
	}
	ck(44, len(got) == want || y.on && len(got) == 1, "a meter's metrics are those of its views")
	for _, x := range got {
		if y.res == nil {
			ck(44, x.Resource == nil, "no resource of another meter")
		} else {
			ck(44, x.Resource != nil && x.Resource.Type == "t" && x.Resource.Labels["k"] == y.res.Labels["k"], "the meter's own resource")
		}
		if y.n == 0 {
			ck(44, len(x.TimeSeries) == 0, "no series without data")
			continue
		}
		if len(x.TimeSeries) != 1 || len(x.TimeSeries[0].Points) != 1 {
			ck(44, false, "one point")
			continue
		}
		var pt metricdata.Point = x.TimeSeries[0].Points[0]
		switch v := pt.Value.(type) {
		case int64:
			switch def.Aggregation.Type {
			case view.AggTypeCount:
				ck(44, v == y.n, "the meter's own value")
			case view.AggTypeSum:
				ck(44, float64(v) == y.sum, "the meter's own value")
			default:
				ck(44, float64(v) == y.last, "the meter's own value")
			}
		default:
			ck(44, false, "a point value")
		}
	}
}
