//go:build go1.21

// Package rm checks the runtime metrics producer.
package rm

import (
	"runtime"
	"sync"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/plugin/runmetrics"
)

// stat is a documented metric with the reading it reports.
type stat struct {
	name string
	unit metricdata.Unit
	cum  bool // a cumulative when UseDerivedCumulative is set
	get  func(m *runtime.MemStats) uint64
}

const b, one, ms = metricdata.UnitBytes, metricdata.UnitDimensionless, metricdata.UnitMilliseconds

var stats = []stat{
	{"process/memory_alloc", b, false, func(m *runtime.MemStats) uint64 { return m.Alloc }},
	{"process/total_memory_alloc", b, true, func(m *runtime.MemStats) uint64 { return m.TotalAlloc }},
	{"process/sys_memory_alloc", b, false, func(m *runtime.MemStats) uint64 { return m.Sys }},
	{"process/memory_lookups", one, true, func(m *runtime.MemStats) uint64 { return m.Lookups }},
	{"process/memory_malloc", one, true, func(m *runtime.MemStats) uint64 { return m.Mallocs }},
	{"process/memory_frees", one, true, func(m *runtime.MemStats) uint64 { return m.Frees }},
	{"process/heap_alloc", b, false, func(m *runtime.MemStats) uint64 { return m.HeapAlloc }},
	{"process/sys_heap", b, false, func(m *runtime.MemStats) uint64 { return m.HeapSys }},
	{"process/heap_idle", b, false, func(m *runtime.MemStats) uint64 { return m.HeapIdle }},
	{"process/heap_inuse", b, false, func(m *runtime.MemStats) uint64 { return m.HeapInuse }},
	{"process/heap_objects", one, false, func(m *runtime.MemStats) uint64 { return m.HeapObjects }},
	{"process/heap_release", b, true, func(m *runtime.MemStats) uint64 { return m.HeapReleased }},
	{"process/stack_inuse", b, false, func(m *runtime.MemStats) uint64 { return m.StackInuse }},
	{"process/sys_stack", b, false, func(m *runtime.MemStats) uint64 { return m.StackSys }},
	{"process/stack_mspan_inuse", b, false, func(m *runtime.MemStats) uint64 { return m.MSpanInuse }},
	{"process/sys_stack_mspan", b, false, func(m *runtime.MemStats) uint64 { return m.MSpanSys }},
	{"process/stack_mcache_inuse", b, false, func(m *runtime.MemStats) uint64 { return m.MCacheInuse }},
	{"process/sys_stack_mcache", b, false, func(m *runtime.MemStats) uint64 { return m.MCacheSys }},
	{"process/gc_sys", b, false, func(m *runtime.MemStats) uint64 { return m.GCSys }},
	{"process/other_sys", b, false, func(m *runtime.MemStats) uint64 { return m.OtherSys }},
	{"process/num_gc", one, true, func(m *runtime.MemStats) uint64 { return uint64(m.NumGC) }},
	{"process/num_forced_gc", one, true, func(m *runtime.MemStats) uint64 { return uint64(m.NumForcedGC) }},
	{"process/next_gc_heap_size", b, false, func(m *runtime.MemStats) uint64 { return m.NextGC }},
	{"process/last_gc_finished_timestamp", ms, false, func(m *runtime.MemStats) uint64 { return uint64(int64(m.LastGC) / 1000000) }},
	{"process/pause_total", ms, true, func(m *runtime.MemStats) uint64 { return uint64(int64(m.PauseTotalNs) / 1000000) }},
}

const fraction, goroutines, cgo = "process/gc_cpu_fraction", "process/cpu_goroutines", "process/cpu_cgo_calls"

type env struct {
	m   *runtime.MemStats
	ng  int
	nc  int64
	seq int
}

// newEnv draws what the runtime reports from now on.
func newEnv() *env {
	m := &runtime.MemStats{}
	w := func(n string) uint64 {
		v := sym.Uint64(n)
		sym.Assume(v < 1<<63)
		return v
	}
	m.Alloc, m.TotalAlloc, m.Sys, m.Lookups, m.Mallocs, m.Frees = w("Alloc"), w("TotalAlloc"), w("Sys"), w("Lookups"), w("Mallocs"), w("Frees")
	m.HeapAlloc, m.HeapSys, m.HeapIdle, m.HeapInuse = w("HeapAlloc"), w("HeapSys"), w("HeapIdle"), w("HeapInuse")
	m.HeapReleased, m.HeapObjects = w("HeapReleased"), w("HeapObjects")
	m.StackInuse, m.StackSys, m.MSpanInuse, m.MSpanSys = w("StackInuse"), w("StackSys"), w("MSpanInuse"), w("MSpanSys")
	m.MCacheInuse, m.MCacheSys, m.GCSys, m.OtherSys = w("MCacheInuse"), w("MCacheSys"), w("GCSys"), w("OtherSys")
	m.NextGC, m.LastGC, m.PauseTotalNs = w("NextGC"), w("LastGC"), w("PauseTotalNs")
	m.NumGC, m.NumForcedGC = sym.Uint32("NumGC"), sym.Uint32("NumForcedGC")
	f := sym.Float64("GCCPUFraction")
	sym.Assume(f >= 0 && f <= 1)
	m.GCCPUFraction = f
	e := &env{m: m, ng: sym.Int("goroutines"), nc: sym.Int64("cgo")}
	sym.Assume(e.ng >= 1)
	sym.Assume(e.nc >= 0)
	sym.SetMemStats(m)
	sym.SetNumGoroutine(e.ng)
	sym.SetNumCgoCall(e.nc)
	return e
}

func options(s string) runmetrics.RunMetricOptions {
	o := runmetrics.RunMetricOptions{EnableCPU: sym.IntIn(s+"cpu", 0, 1) == 1, EnableMemory: sym.IntIn(s+"mem", 0, 1) == 1}
	if o.EnableMemory {
		o.UseDerivedCumulative = sym.IntIn(s+"cumulative", 0, 1) == 1
	}
	o.Prefix = []string{"", "app/"}[sym.IntIn(s+"prefix", 0, 1)]
	return o
}

// readAll reads every registered producer.
func readAll() []*metricdata.Metric {
	var r []*metricdata.Metric
	for _, p := range metricproducer.GlobalManager().GetAll() {
		r = append(r, p.Read()...)
	}
	return r
}

// check compares a reading with what the runtime reports.
func check(got []*metricdata.Metric, on bool, o runmetrics.RunMetricOptions, e *env) {
	want := 0
	find := func(name string) *metricdata.Metric {
		var r *metricdata.Metric
		for _, m := range got {
			if m.Descriptor.Name == o.Prefix+name {
				sym.Assert(r == nil, "a metric is reported once")
				r = m
			}
		}
		sym.Assert(r != nil, "an enabled metric is reported under its name")
		want++
		return r
	}
	one := func(m *metricdata.Metric) metricdata.Point {
		sym.Assert(len(m.TimeSeries) == 1, "a runtime metric has one series")
		sym.Assert(len(m.TimeSeries[0].LabelValues) == 0, "a runtime metric has no labels")
		sym.Assert(len(m.TimeSeries[0].Points) == 1, "a series has one point")
		return m.TimeSeries[0].Points[0]
	}
	if on && o.EnableMemory {
		for _, s := range stats {
			m := find(s.name)
			t := metricdata.TypeGaugeInt64
			if s.cum && o.UseDerivedCumulative {
				t = metricdata.TypeCumulativeInt64
			}
			sym.Assert(m.Descriptor.Type == t, "the metric has the type of its mode")
			v, ok := one(m).Value.(int64)
			sym.Assert(ok, "an integer statistic is an integer")
			sym.Assert(v == int64(s.get(e.m)), "a memory metric is the runtime's current statistic")
		}
		v, ok := one(find(fraction)).Value.(float64)
		sym.Assert(ok, "the fraction is a float")
		sym.Assert(v == e.m.GCCPUFraction, "the CPU fraction is the runtime's current statistic")
	}
	if on && o.EnableCPU {
		v, ok := one(find(goroutines)).Value.(int64)
		sym.Assert(ok, "an integer statistic is an integer")
		sym.Assert(v == int64(e.ng), "the goroutine count is current")
		v, ok = one(find(cgo)).Value.(int64)
		sym.Assert(ok, "an integer statistic is an integer")
		sym.Assert(v == e.nc, "the count of cgo calls is current")
	}
	sym.Assert(len(got) == want, "nothing else is reported")
}

// HRead: each read reports the statistics current at that read.
func HRead() {
	o := options("")
	sym.Assert(runmetrics.Enable(o) == nil, "enabling succeeds")
	n := sym.Param("reads", 2)
	for i := 0; i < n; i++ {
		e := newEnv()
		check(readAll(), true, o, e)
	}
	if o.EnableMemory && o.UseDerivedCumulative {
		sym.Cover("cumulative")
	}
	if o.EnableMemory && !o.UseDerivedCumulative {
		sym.Cover("gauges")
	}
	if o.EnableCPU {
		sym.Cover("cpu")
	}
	if o.Prefix != "" {
		sym.Cover("prefix")
	}
	runmetrics.Disable()
	check(readAll(), false, o, nil)
}

// HHistory: a sequence of enabling and disabling leaves the last producer
// enabled, if any.
func HHistory() {
	n := sym.Param("steps", 3)
	on := false
	var o runmetrics.RunMetricOptions
	for i := 0; i < n; i++ {
		if sym.IntIn("op", 0, 1) == 0 {
			was := on
			o, on = options("h"), true
			sym.Assert(runmetrics.Enable(o) == nil, "enabling succeeds")
			if was {
				sym.Cover("replaced")
			}
		} else {
			if !on {
				sym.Cover("disabled twice")
			}
			runmetrics.Disable()
			on = false
		}
		k := 0
		if on {
			k = 1
		}
		sym.Assert(len(metricproducer.GlobalManager().GetAll()) == k, "one producer is registered while enabled")
	}
	e := newEnv()
	check(readAll(), on, o, e)
}

// HConc: two readers at once, or a reader and a change of options, neither
// race nor report a metric twice.
func HConc() {
	op := sym.IntIn("op", 0, 2)
	o := runmetrics.RunMetricOptions{EnableMemory: true, UseDerivedCumulative: sym.IntIn("cumulative", 0, 1) == 1}
	if op > 0 {
		o = runmetrics.RunMetricOptions{EnableCPU: true, Prefix: "app/"}
	}
	sym.Assert(runmetrics.Enable(o) == nil, "enabling succeeds")
	e := newEnv()
	o2 := runmetrics.RunMetricOptions{EnableCPU: true}
	var got [2][]*metricdata.Metric
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		got[0] = readAll()
		wg.Done()
	}()
	go func() {
		switch op {
		case 0:
			got[1] = readAll()
		case 1:
			runmetrics.Disable()
		case 2:
			runmetrics.Enable(o2)
		}
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	switch op {
	case 0:
		check(got[0], true, o, e)
		check(got[1], true, o, e)
		sym.Cover("two readers")
	case 1:
		check(readAll(), false, o, e)
		sym.Cover("disabled")
	case 2:
		check(readAll(), true, o2, e)
		sym.Cover("replaced")
	}
}

// HConcEnable: of two concurrent changes one is last.
func HConcEnable() {
	a := sym.IntIn("a", 0, 1) == 1
	o := runmetrics.RunMetricOptions{EnableCPU: true, Prefix: "app/"}
	o2 := runmetrics.RunMetricOptions{EnableCPU: true}
	if a {
		sym.Assert(runmetrics.Enable(o) == nil, "enabling succeeds")
	}
	disable := sym.IntIn("b", 0, 1) == 1
	e := newEnv()
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		runmetrics.Enable(o)
		wg.Done()
	}()
	go func() {
		if disable {
			runmetrics.Disable()
		} else {
			runmetrics.Enable(o2)
		}
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	n := len(metricproducer.GlobalManager().GetAll())
	if disable {
		sym.Cover("disable")
		sym.Assert(n <= 1, "one producer is registered while enabled")
	} else {
		sym.Cover("enable")
		sym.Assert(n == 1, "one producer is registered while enabled")
		got := readAll()
		if len(got[0].Descriptor.Name) > 0 && got[0].Descriptor.Name[0] == 'a' {
			check(got, true, o, e)
		} else {
			check(got, true, o2, e)
		}
	}
	runmetrics.Disable()
	check(readAll(), false, o, e)
}
