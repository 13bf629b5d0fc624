package vw

import (
	"sync"
	"time"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

type lockedSink struct {
	mu sync.Mutex
	n  int
}

func (s *lockedSink) ExportView(d *view.Data) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n += len(d.Rows)
}

// HMeterConc: two goroutines use one started meter.
func HMeterConc() {
	m := stats.Int64("m", "", "1")
	m2 := stats.Int64("m2", "", "1")
	v := &view.View{Name: "v", Measure: m, Aggregation: view.Sum()}
	w := &view.View{Name: "w", Measure: m2, Aggregation: view.Count()}
	mt := view.NewMeter()
	sink := &lockedSink{}
	mt.RegisterExporter(sink)
	mt.Start()
	if mt.Register(v) != nil {
		ck(40, false, "registered")
		return
	}
	sumOf := func(rows []*view.Row) float64 {
		if len(rows) != 1 {
			return -1
		}
		return rows[0].Data.(*view.SumData).Value
	}
	xs := [3]int64{int64(sym.Uint16("x")), int64(sym.Uint16("x")), int64(sym.Uint16("x"))}
	record := func(x int64) {
		stats.RecordWithOptions(bg, stats.WithRecorder(mt), stats.WithMeasurements(m.M(x)))
	}
	record(xs[0])
	a := sym.Range("a", 0, 9)
	b := sym.Range("b", a, 10)
	var recs [2]int64
	unreg, stop := false, false
	for _, o := range []int{a, b} {
		unreg = unreg || o == 2
		stop = stop || o == 10
	}
	op := func(g, o int) {
		switch o {
		case 0:
			record(xs[1+g])
			recs[g] = xs[1+g]
		case 1:
			err := mt.Register(w)
			ck(40, err == nil || stop, "a valid registration succeeds")
		case 2:
			mt.Unregister(v)
		case 3:
			rows, err := mt.RetrieveData("v")
			if !unreg && !stop {
				ck(40, err == nil && sumOf(rows) >= float64(xs[0]), "earlier recordings are retrieved")
			}
		case 4:
			mt.SetReportingPeriod(time.Second)
		case 5:
			f := mt.Find("v")
			ck(40, f == v || (f == nil && (unreg || stop)), "a registered view is found")
		case 6:
			for _, p := range metricproducer.GlobalManager().GetAll() {
				for _, x := range p.Read() {
					ck(40, len(x.TimeSeries) == 1, "a read sees the series")
					if x.Descriptor.Name == "v" && len(x.TimeSeries) == 1 {
						got, ok := x.TimeSeries[0].Points[0].Value.(int64)
						ck(40, ok && sym.Or(got == xs[0], got == xs[0]+xs[1]), "a read sees a prefix of the recordings")
					}
				}
			}
		case 7:
			mt.SetResource(&resource.Resource{Type: "t"})
		case 8:
			mt.RegisterExporter(&lockedSink{})
		case 9:
			mt.UnregisterExporter(sink)
		case 10:
			mt.Stop()
		}
	}
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		op(0, a)
		wg.Done()
	}()
	go func() {
		op(1, b)
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	// still usable, or stopped for good
	if !stop && !unreg {
		rows, err := mt.RetrieveData("v")
		ck(40, err == nil && sumOf(rows) == float64(xs[0]+recs[0]+recs[1]), "every recording is counted once")
	}
	if unreg {
		ck(40, mt.Find("v") == nil, "unregistered")
	}
	mt.Stop()
	if stop {
		sym.Cover("stopped")
	}
	record(1)
	ck(40, mt.Find("v") == nil, "a stopped meter answers")
	ck(40, mt.Register(w) != nil, "a stopped meter answers")
	mt.RetrieveData("v")
	mt.SetReportingPeriod(0)
	mt.Unregister(w)
	for _, p := range metricproducer.GlobalManager().GetAll() {
		ck(40, p != mt.(metricproducer.Producer), "a stopped meter is not a producer")
	}
	sym.Cover("used")
}

// HMeterStop: starting, stopping twice and recording race.
func HMeterStop() {
	m := stats.Int64("m", "", "1")
	mt := view.NewMeter()
	v := &view.View{Name: "v", Measure: m, Aggregation: view.Count()}
	o := sym.Range("o", 0, 3)
	sym.Explore()
	mt.Start()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		mt.Stop()
		wg.Done()
	}()
	go func() {
		switch o {
		case 0:
			mt.Stop()
		case 1:
			mt.Register(v)
		case 2:
			mt.Record(nil, []stats.Measurement{m.M(1)}, nil)
		case 3:
			mt.RetrieveData("v")
			mt.Find("v")
		}
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	for _, p := range metricproducer.GlobalManager().GetAll() {
		ck(40, p != mt.(metricproducer.Producer), "a stopped meter is not a producer")
	}
	sym.Cover("stopped")
}

// HMetersConc: two goroutines, each with a meter of its own.
func HMetersConc() {
	m := stats.Int64("m", "", "1")
	b, a := tag.MustNewKey("b"), tag.MustNewKey("a")
	shared := &view.View{Name: "v", Measure: m, Aggregation: view.Distribution(0, 5, 2), TagKeys: []tag.Key{b, a}}
	kind := 3 * sym.Range("views", 0, 1)
	if sym.Param("kinds", 0) == 1 {
		kind = sym.Range("kind", 0, 3)
	}
	def := func() *view.View {
		switch kind {
		case 0:
			return &view.View{Name: "v", Measure: m, Aggregation: view.Count()}
		case 1:
			return &view.View{Measure: m, Aggregation: view.Sum()}
		case 2:
			return &view.View{Name: "v", Measure: m, Aggregation: view.LastValue()}
		}
		return shared
	}
	var ms [2]view.Meter
	var vs [2]*view.View
	early := sym.Range("early", 0, 1) == 1 // the first meter's view is registered before
	for g := range ms {
		ms[g] = view.NewMeter()
		ms[g].Start()
		vs[g] = def()
	}
	if early {
		ck(44, ms[0].Register(vs[0]) == nil, "registered")
	}
	x := [2]int64{int64(sym.Uint16("x")), int64(sym.Uint16("x"))}
	work := func(g int) {
		if !(early && g == 0) {
			ck(44, ms[g].Register(vs[g]) == nil, "registered")
		}
		if sym.Param("use", 0) == 1 {
			ms[g].Record(nil, []stats.Measurement{m.M(x[g])}, nil)
		}
	}
	done := make(chan bool)
	sym.Explore()
	go func() {
		work(0)
		done <- true
	}()
	work(1)
	<-done
	sym.StopExplore()
	for g := range ms {
		if sym.Param("use", 0) == 0 {
			ms[g].Record(nil, []stats.Measurement{m.M(x[g])}, nil)
		}
		rows, err := ms[g].RetrieveData(vs[g].Name)
		ck(44, err == nil, "data where it is registered")
		y := &meterModel{n: 1, last: float64(x[g]), sum: float64(x[g])}
		if kind == 3 {
			ok := len(rows) == 1
			if ok {
				d, is := rows[0].Data.(*view.DistributionData)
				ok = is && d.Count == 1 && d.Mean == float64(x[g]) && len(d.CountPerBucket) == 3
			}
			ck(44, ok, "a meter's data is what was recorded to it")
		} else {
			ck(44, rowsMatch(rows, y), "a meter's data is what was recorded to it")
		}
		ms[g].Stop()
	}
	sym.Cover("concurrent")
}
