package mt

import (
	"context"
	"sync"
	"time"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
)

type producer struct {
	id    int
	ms    []*metricdata.Metric
	reads int
}

func (p *producer) Read() []*metricdata.Metric {
	p.reads++
	return p.ms
}

type exporter struct {
	mu    sync.Mutex
	calls int
	data  []*metricdata.Metric
	err   error
}

func (e *exporter) ExportMetrics(ctx context.Context, data []*metricdata.Metric) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.calls++
	e.data = data
	return e.err
}

func (e *exporter) n() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.calls
}

// HManager: the producers seen are those added and not deleted; one read
// delivers what they all return.
func HManager() {
	gm := metricproducer.GlobalManager()
	ck(30, gm == metricproducer.GlobalManager(), "one manager")
	for _, p := range gm.GetAll() {
		gm.DeleteProducer(p) // the default view worker, if any
	}
	ps := []*producer{{id: 0}, {id: 1}, {id: 2}}
	total := 0
	for i, p := range ps {
		for j := 0; j < i; j++ {
			p.ms = append(p.ms, &metricdata.Metric{Descriptor: metricdata.Descriptor{Name: sym.Str("name", 1)}})
		}
	}
	live := [3]bool{}
	n := sym.Param("n", 4)
	var before []metricproducer.Producer
	for i := 0; i < n; i++ {
		k := sym.Range("k", 0, 3)
		del := sym.Range("del", 0, 1) == 1
		var p metricproducer.Producer
		if k < 3 {
			p = ps[k]
			live[k] = !del
		}
		before = gm.GetAll()
		cp := append([]metricproducer.Producer{}, before...)
		if del {
			gm.DeleteProducer(p)
		} else {
			gm.AddProducer(p)
		}
		for j := range cp {
			ck(30, before[j] == cp[j], "a returned list is the caller's")
		}
		all := gm.GetAll()
		want := 0
		for k := range live {
			c := 0
			for _, q := range all {
				if q == metricproducer.Producer(ps[k]) {
					c++
				}
			}
			if live[k] {
				want++
				ck(30, c == 1, "an added producer is listed once")
			} else {
				ck(30, c == 0, "a deleted producer is not listed")
			}
		}
		ck(30, len(all) == want, "only added producers are listed")
	}
	e := &exporter{}
	metricexport.NewReader().ReadAndExport(e)
	ck(30, e.calls == 1, "one export per read")
	for k, p := range ps {
		if live[k] {
			ck(30, p.reads == 1, "every live producer is read once")
			total += len(p.ms)
		} else {
			ck(30, p.reads == 0, "a deleted producer is not read")
		}
		for i, x := range p.ms {
			c, at := 0, -1
			for j, y := range e.data {
				if x == y {
					c++
					at = j
				}
			}
			if live[k] {
				ck(30, c == 1, "every metric is exported once")
				ck(30, i == 0 || at > 0 && e.data[at-1] == p.ms[i-1], "in the producer's order")
			} else {
				ck(30, c == 0, "nothing of a deleted producer is exported")
			}
		}
	}
	ck(30, len(e.data) == total, "exactly the producers' metrics")
	sym.Cover("exported")
}

// HInterval: sequences of start, stop and flush with time passing.
func HInterval() {
	sym.FastTicks()
	_, err := metricexport.NewIntervalReader(nil, &exporter{})
	ck(30, err != nil, "a nil reader is refused")
	_, err = metricexport.NewIntervalReader(metricexport.NewReader(), nil)
	ck(30, err != nil, "a nil exporter is refused")
	e := &exporter{}
	ir, err := metricexport.NewIntervalReader(metricexport.NewReader(metricexport.WithSpanName("x")), e)
	ck(30, err == nil && ir != nil, "a reader")
	if err != nil {
		return
	}
	iv := sym.Int64("interval")
	ir.ReportingInterval = time.Duration(iv)
	low := iv != 0 && iv < int64(time.Second)
	started := false
	n := sym.Param("n", 4)
	for i := 0; i < n; i++ {
		c := e.n()
		switch sym.Range("op", 0, 3) {
		case 0:
			err := ir.Start()
			if low {
				ck(30, err != nil, "too short an interval is refused")
				sym.Cover("too low")
			} else {
				ck(30, (err != nil) == started, "started once")
				started = true
				sym.Cover("started")
			}
		case 1:
			ir.Stop()
			started = false
			c = e.n()
		case 2:
			ir.Flush()
			if started {
				c = e.n()
			} else {
				c++
				sym.Cover("flushed")
			}
		case 3:
			sym.Fire()
			sym.Quiesce()
			if started {
				c = e.n()
			}
		}
		if !started {
			sym.Fire()
			sym.Quiesce()
			ck(30, e.n() == c, "nothing is exported while stopped, a flush exports once")
		}
	}
	ir.Stop()
	sym.Cover("done")
}

// HIntervalTicks: a started reader exports at every tick.
func HIntervalTicks() {
	for _, p := range metricproducer.GlobalManager().GetAll() {
		metricproducer.GlobalManager().DeleteProducer(p)
	}
	p := &producer{ms: []*metricdata.Metric{{}}}
	metricproducer.GlobalManager().AddProducer(p)
	sym.FastTicks()
	e := &exporter{}
	ir, _ := metricexport.NewIntervalReader(metricexport.NewReader(), e)
	ir.ReportingInterval = time.Second
	ck(30, ir.Start() == nil, "starts")
	for i := 1; i <= 3; i++ {
		c := e.n()
		sym.Fire()
		sym.Quiesce()
		ck(30, e.n() > c, "exports at every tick")
	}
	ir.Stop()
	ck(30, e.n() == 0 || len(e.data) == 1 && e.data[0] == p.ms[0], "what the producers return")
	ck(30, p.reads == e.n(), "one read per export")
	metricproducer.GlobalManager().DeleteProducer(p)
	sym.Cover("ticked")
}

// HIntervalConc: two of start, stop and flush race with the reporting goroutine.
func HIntervalConc() {
	sym.FastTicks()
	e := &exporter{}
	ir, _ := metricexport.NewIntervalReader(metricexport.NewReader(), e)
	ir.ReportingInterval = time.Second
	pre := sym.Range("pre", 0, 1) == 1
	if pre {
		ck(30, ir.Start() == nil, "starts")
	}
	a := sym.Range("a", 0, 3)
	b := sym.Range("b", 0, a)
	var errs [2]error
	op := func(g, o int) {
		switch o {
		case 0:
			errs[g] = ir.Start()
		case 1:
			ir.Stop()
		case 2:
			ir.Flush()
		case 3:
			sym.Fire()
		}
	}
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() { op(0, a); wg.Done() }()
	go func() { op(1, b); wg.Done() }()
	wg.Wait()
	sym.StopExplore()
	if a == 0 && b == 0 {
		if pre {
			ck(30, errs[0] != nil && errs[1] != nil, "started once")
		} else {
			ck(30, (errs[0] == nil) != (errs[1] == nil), "started once")
		}
	}
	ir.Stop()
	c := e.n()
	ir.Stop()
	sym.Fire()
	sym.Quiesce()
	ck(30, e.n() == c, "nothing is exported after stop")
	ck(30, ir.Start() == nil, "starts again")
	ir.Stop()
	sym.Cover("raced")
}

// HProducersConc: registry changes and reads race.
func HProducersConc() {
	gm := metricproducer.GlobalManager()
	for _, p := range gm.GetAll() {
		gm.DeleteProducer(p)
	}
	ps := []*producer{{id: 0}, {id: 1}, {id: 2}}
	gm.AddProducer(ps[0])
	a, b := sym.Range("a", 0, 3), sym.Range("b", 0, 3)
	op := func(o int) {
		switch o {
		case 0:
			gm.AddProducer(ps[1])
		case 1:
			gm.AddProducer(ps[2])
		case 2:
			gm.DeleteProducer(ps[0])
		case 3:
			c := 0
			for _, p := range gm.GetAll() {
				if p == metricproducer.Producer(ps[0]) {
					c++
				}
				ck(30, p != nil, "no nil producers")
			}
			ck(30, c == 1 || c == 0 && (a == 2 || b == 2), "live producers are listed")
		}
	}
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() { op(a); wg.Done() }()
	go func() { op(b); wg.Done() }()
	wg.Wait()
	sym.StopExplore()
	has := func(k int) bool {
		for _, p := range gm.GetAll() {
			if p == metricproducer.Producer(ps[k]) {
				return true
			}
		}
		return false
	}
	ck(30, has(0) == (a != 2 && b != 2), "deleted or not")
	ck(30, has(1) == (a == 0 || b == 0), "added or not")
	ck(30, has(2) == (a == 1 || b == 1), "added or not")
	for _, p := range ps {
		gm.DeleteProducer(p)
	}
	sym.Cover("raced")
}

// HIntervalPeriod: a reader exports at the interval it was given, or every
// minute.
func HIntervalPeriod() {
	sym.FastTicks()
	ir, err := metricexport.NewIntervalReader(metricexport.NewReader(), &exporter{})
	if err != nil {
		ck(30, false, "a reader")
		return
	}
	if sym.Range("set", 0, 1) == 1 {
		ir.ReportingInterval = time.Duration(sym.Int64("interval"))
	}
	d := ir.ReportingInterval
	if ir.Start() != nil {
		ck(30, d != 0 && d < time.Second, "only too short an interval is refused")
		sym.Cover("refused")
		return
	}
	want := d
	if d == 0 {
		want = time.Minute
		sym.Cover("default")
	} else {
		sym.Cover("set")
	}
	sym.Quiesce()
	ck(30, sym.Period() == want, "the interval of the exports")
	ir.Stop()
}
