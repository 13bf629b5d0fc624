package tr

import (
	"context"
	"sync"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/trace"
)

// lsink may be called from several goroutines.
type lsink struct {
	mu  sync.Mutex
	got []*trace.SpanData
}

func (s *lsink) ExportSpan(d *trace.SpanData) {
	s.mu.Lock()
	s.got = append(s.got, d)
	s.mu.Unlock()
}

func sampler(on bool) trace.StartOption {
	if on {
		return trace.WithSampler(trace.AlwaysSample())
	}
	return trace.WithSampler(trace.NeverSample())
}

// HEndConc: several goroutines end one span; each exporter gets it exactly once.
func HEndConc() {
	e1, e2 := &lsink{}, &lsink{}
	trace.RegisterExporter(e1)
	two := sym.Range("exporters", 1, 2) == 2
	if two {
		trace.RegisterExporter(e2)
	}
	internal.LocalSpanStoreEnabled = sym.Range("store", 0, 1) == 1
	on := sym.Range("sampled", 0, 1) == 1
	other := sym.Range("other", 0, 3)
	_, sp := trace.StartSpan(context.Background(), "n", sampler(on))
	sc := sp.SpanContext()
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		sp.End()
		wg.Done()
	}()
	go func() {
		switch other {
		case 0:
			sp.SetName("m")
		case 1:
			sp.SetStatus(trace.Status{Code: 3, Message: "x"})
		case 2:
			sp.AddAttributes(trace.Int64Attribute("k", 1))
		}
		sp.End()
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	sp.End()
	want := 0
	if on {
		want = 1
		sym.Cover("sampled")
	}
	ck(11, len(e1.got) == want, "exported exactly once")
	if two {
		ck(11, len(e2.got) == want, "exported exactly once to the second exporter")
	} else {
		ck(11, len(e2.got) == 0, "not exported to an unregistered exporter")
	}
	if len(e1.got) == 1 {
		d := e1.got[0]
		ck(11, eqSC(d.SpanContext, sc), "exported context")
		ck(11, !d.EndTime.Before(d.StartTime), "ends after it starts")
		switch other {
		case 0:
			ck(11, d.Name == "n" || d.Name == "m", "name")
		case 1:
			ck(11, d.Name == "n" && (d.Status == trace.Status{} || d.Status == trace.Status{Code: 3, Message: "x"}), "status")
		case 2:
			ck(11, len(d.Attributes) == 0 || len(d.Attributes) == 1 && d.Attributes["k"] == int64(1), "attributes")
		}
	}
}

// HEndSeq: any sequence of changes and ends exports the state at the first end.
func HEndSeq() {
	e := &sink{}
	trace.RegisterExporter(e)
	internal.LocalSpanStoreEnabled = sym.Range("store", 0, 1) == 1
	on := sym.Range("sampled", 0, 1) == 1
	g := &idGen{}
	trace.ApplyConfig(trace.Config{IDGenerator: g})
	t0, t1 := sym.Int64("t0"), sym.Int64("t1")
	sym.Assume(sym.And(sym.And(t0 >= 0, t0 < 1<<50), sym.And(t1 >= 0, t1 < 1<<50)))
	sym.Assume(t1 >= t0)
	sym.SetClock(t0)
	kind := []int{trace.SpanKindUnspecified, trace.SpanKindServer, trace.SpanKindClient}[sym.Range("kind", 0, 2)]
	_, sp := trace.StartSpan(context.Background(), "n", sampler(on), trace.WithSpanKind(kind))
	sc := sp.SpanContext()
	start := sym.Now()
	name, status := "n", trace.Status{}
	var fname string
	var fstatus trace.Status
	ended := false
	n := sym.Range("ops", 1, sym.Param("ops", 4))
	for i := 0; i < n; i++ {
		switch sym.Range("op", 0, 2) {
		case 0:
			sym.SetClock(t1)
			sp.End()
			sym.SetClock(t1 + 5)
			if !ended {
				fname, fstatus = name, status
			}
			ended = true
		case 1:
			name = sym.Str("name", 1)
			sp.SetName(name)
		case 2:
			status = trace.Status{Code: sym.Int32("code"), Message: sym.Str("msg", 1)}
			sp.SetStatus(status)
		}
	}
	if !ended {
		ck(11, len(e.got) == 0, "nothing exported before end")
		return
	}
	if !on {
		ck(11, len(e.got) == 0, "unsampled span not exported")
		sym.Cover("unsampled")
		return
	}
	ck(11, len(e.got) == 1, "exported once")
	if len(e.got) != 1 {
		return
	}
	sym.Cover("exported")
	d := e.got[0]
	ck(11, eqSC(d.SpanContext, sc), "ids")
	ck(11, d.Name == fname, "name at end")
	ck(11, sym.And(d.Status.Code == fstatus.Code, d.Status.Message == fstatus.Message), "status at end")
	ck(11, d.SpanKind == kind, "kind")
	ck(11, d.StartTime.Equal(start), "start time")
	ck(11, d.EndTime.Sub(d.StartTime) >= 0, "ends after it starts")
	ck(11, int64(d.EndTime.Sub(d.StartTime)) == t1-t0, "duration")
}

// HEndExporters: what is exported goes to the exporters registered when the
// span first ends, whatever is registered before or after it.
func HEndExporters() {
	es := []*sink{{}, {}}
	reg := [2]bool{}
	internal.LocalSpanStoreEnabled = sym.Range("store", 0, 1) == 1
	on := sym.Range("sampled", 0, 1) == 1
	if sym.Range("first", 0, 1) == 1 {
		trace.RegisterExporter(es[0])
		reg[0] = true
	}
	_, sp := trace.StartSpan(context.Background(), "n", sampler(on))
	var want [2]int
	var k, fk int64
	ended := false
	n := sym.Range("ops", 1, sym.Param("ops", 4))
	for i := 0; i < n; i++ {
		switch op := sym.Range("op", 0, 5); op {
		case 0:
			sp.End()
			if !ended && on {
				fk = k
				for j := range es {
					if reg[j] {
						want[j] = 1
					}
				}
			}
			ended = true
		case 1, 2:
			trace.RegisterExporter(es[op-1])
			reg[op-1] = true
		case 3, 4:
			trace.UnregisterExporter(es[op-3])
			reg[op-3] = false
		case 5:
			k = sym.Int64("k")
			sp.AddAttributes(trace.Int64Attribute("k", k))
		}
		for j, e := range es {
			ck(11, len(e.got) == want[j], "exported once, to the exporters registered when the span ended")
		}
	}
	for _, e := range es {
		if len(e.got) == 1 {
			sym.Cover("exported")
			v, ok := e.got[0].Attributes["k"]
			ck(11, ok == (fk != 0) || fk == 0 && v == int64(0), "the attributes at the end")
			ck(11, !ok || v == fk, "the attributes at the end")
		}
	}
	if ended && want == [2]int{} {
		sym.Cover("nobody there")
	}
}

// HExporters: exactly the registered exporters receive spans.
func HExporters() {
	es := []*sink{{}, {}}
	reg := [2]bool{}
	n := sym.Range("ops", 0, sym.Param("ops", 4))
	for i := 0; i < n; i++ {
		k := sym.Range("which", 0, 1)
		if sym.Range("register", 0, 1) == 1 {
			trace.RegisterExporter(es[k])
			reg[k] = true
		} else {
			trace.UnregisterExporter(es[k])
			reg[k] = false
		}
		if sym.Param("each", 1) == 1 || i == n-1 {
			before := [2]int{len(es[0].got), len(es[1].got)}
			_, sp := trace.StartSpan(context.Background(), "n", sampler(true))
			sp.End()
			for j := range es {
				want := before[j]
				if reg[j] {
					want++
				}
				ck(15, len(es[j].got) == want, "registered exporters receive each span once")
			}
		}
	}
	sym.Cover("sequence")
}

// HExportersConc: concurrent registrations are all effective.
func HExportersConc() {
	es := []*lsink{{}, {}, {}}
	trace.RegisterExporter(es[0])
	un := sym.Range("unregister", 0, 1) == 1
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		trace.RegisterExporter(es[1])
		wg.Done()
	}()
	go func() {
		if un {
			trace.UnregisterExporter(es[0])
		} else {
			trace.RegisterExporter(es[2])
		}
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	_, sp := trace.StartSpan(context.Background(), "n", sampler(true))
	sp.End()
	ck(15, len(es[1].got) == 1, "concurrently registered exporter receives spans")
	if un {
		ck(15, len(es[0].got) == 0, "concurrently unregistered exporter receives none")
	} else {
		ck(15, len(es[0].got) == 1 && len(es[2].got) == 1, "all registered exporters receive spans")
	}
	sym.Cover("concurrent")
}

// HConfig: only set fields of a configuration change anything.
func HConfig() {
	e := &sink{}
	trace.RegisterExporter(e)
	g1 := &idGen{}
	s1 := &ask{answer: true}
	lim := [4]int{}
	for i := range lim {
		lim[i] = 2
	}
	trace.ApplyConfig(trace.Config{IDGenerator: g1, DefaultSampler: s1.sampler, MaxAnnotationEventsPerSpan: 2, MaxMessageEventsPerSpan: 2, MaxAttributesPerSpan: 2, MaxLinksPerSpan: 2})
	curG, curS := g1, s1
	n := sym.Range("updates", 1, sym.Param("updates", 1))
	for u := 0; u < n; u++ {
		var c trace.Config
		if sym.Range("gen", 0, 1) == 1 {
			curG = &idGen{}
			c.IDGenerator = curG
		}
		if sym.Range("sampler", 0, 1) == 1 {
			curS = &ask{answer: true}
			c.DefaultSampler = curS.sampler
		}
		which := sym.Range("which", 0, 4) // one limit is arbitrary, or all are unset
		v := 0
		if which < 4 {
			v = sym.IntIn("limit", -2, 3)
			if v > 0 {
				lim[which] = v
			}
		}
		switch which {
		case 0:
			c.MaxAnnotationEventsPerSpan = v
		case 1:
			c.MaxMessageEventsPerSpan = v
		case 2:
			c.MaxAttributesPerSpan = v
		case 3:
			c.MaxLinksPerSpan = v
		}
		trace.ApplyConfig(c)
	}
	asked, drawn := len(curS.asked), len(curG.sids)
	_, sp := trace.StartSpan(context.Background(), "n")
	ck(15, len(curS.asked) == asked+1, "current default sampler used")
	ck(15, len(curG.sids) == drawn+1, "current id generator used")
	for i := 0; i < 4; i++ {
		sp.Annotate(nil, "a")
		sp.AddMessageSendEvent(1, 2, 3)
		sp.AddAttributes(trace.Int64Attribute([]string{"a", "b", "c", "d"}[i], 1))
		sp.AddLink(trace.Link{})
	}
	sp.End()
	ck(15, len(e.got) == 1, "exported")
	if len(e.got) == 1 {
		d := e.got[0]
		ck(15, len(d.Annotations) == lim[0], "annotation limit")
		ck(15, len(d.MessageEvents) == lim[1], "message event limit")
		ck(15, len(d.Attributes) == lim[2], "attribute limit")
		ck(15, len(d.Links) == lim[3], "link limit")
		sym.Cover("limits")
	}
}

// HConfigDefaults: the documented default limits apply until changed.
func HConfigDefaults() {
	e := &sink{}
	trace.RegisterExporter(e)
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	_, sp := trace.StartSpan(context.Background(), "n")
	n := sym.Range("n", 0, 1)
	for i := 0; i < 127+2*n; i++ {
		sp.AddMessageReceiveEvent(int64(i), 2, 3)
	}
	for i := 0; i < 31+2*n; i++ {
		sp.Annotate(nil, "a")
		sp.AddAttributes(trace.Int64Attribute(string([]byte{'a', byte('A' + i)}), 1))
		sp.AddLink(trace.Link{})
	}
	sp.End()
	d := e.got[0]
	if n == 0 {
		ck(15, len(d.MessageEvents) == 127 && len(d.Annotations) == 31 && len(d.Attributes) == 31 && len(d.Links) == 31, "below default limits nothing is lost")
		ck(15, d.DroppedMessageEventCount+d.DroppedAnnotationCount+d.DroppedAttributeCount+d.DroppedLinkCount == 0, "below default limits nothing is counted")
	} else {
		ck(15, len(d.MessageEvents) == 128 && len(d.Annotations) == 32 && len(d.Attributes) == 32 && len(d.Links) == 32, "default limits apply")
		ck(15, d.DroppedMessageEventCount == 1 && d.DroppedAnnotationCount == 1 && d.DroppedAttributeCount == 1 && d.DroppedLinkCount == 1, "drops beyond default limits are counted")
	}
	sym.Cover("defaults")
}

// HConfigConc: concurrent updates of different fields all take effect.
func HConfigConc() {
	e := &sink{}
	trace.RegisterExporter(e)
	g := &idGen{}
	s := &ask{answer: true}
	trace.ApplyConfig(trace.Config{IDGenerator: &idGen{}, DefaultSampler: trace.AlwaysSample(), MaxAnnotationEventsPerSpan: 4, MaxMessageEventsPerSpan: 4, MaxAttributesPerSpan: 4, MaxLinksPerSpan: 4})
	v, w := sym.IntIn("v", 1, 3), sym.IntIn("w", 1, 3)
	cfg := func(i int, v int) trace.Config {
		switch i {
		case 0:
			return trace.Config{MaxAnnotationEventsPerSpan: v}
		case 1:
			return trace.Config{MaxMessageEventsPerSpan: v}
		case 2:
			return trace.Config{MaxAttributesPerSpan: v}
		case 3:
			return trace.Config{MaxLinksPerSpan: v}
		case 4:
			return trace.Config{IDGenerator: g}
		}
		return trace.Config{DefaultSampler: s.sampler}
	}
	a, b := sym.Range("a", 0, 5), sym.Range("b", 0, 5)
	sym.Assume(a < b)
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		trace.ApplyConfig(cfg(a, v))
		wg.Done()
	}()
	go func() {
		trace.ApplyConfig(cfg(b, w))
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	_, sp := trace.StartSpan(context.Background(), "n")
	for i := 0; i < 4; i++ {
		sp.Annotate(nil, "a")
		sp.AddMessageSendEvent(1, 2, 3)
		sp.AddAttributes(trace.Int64Attribute([]string{"a", "b", "c", "d"}[i], 1))
		sp.AddLink(trace.Link{})
	}
	sp.End()
	ck(15, len(e.got) == 1, "exported")
	if len(e.got) != 1 {
		return
	}
	d := e.got[0]
	got := [4]int{len(d.Annotations), len(d.MessageEvents), len(d.Attributes), len(d.Links)}
	for i := range got {
		want := 4
		if i == a {
			want = v
		} else if i == b {
			want = w
		}
		ck(15, got[i] == want, "no concurrent update is lost")
	}
	ck(15, (a == 4 || b == 4) == (len(g.sids) == 1), "no concurrent generator update is lost")
	ck(15, (a == 5 || b == 5) == (len(s.asked) == 1), "no concurrent sampler update is lost")
	sym.Cover("concurrent")
}

// HExportersEnd: a span ends while the registry changes.
func HExportersEnd() {
	es := []*lsink{{}, {}}
	trace.RegisterExporter(es[0])
	both := sym.Range("both", 0, 1) == 1
	if both {
		trace.RegisterExporter(es[1])
	}
	what := sym.Range("change", 0, 2)
	_, sp := trace.StartSpan(context.Background(), "n", sampler(true))
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		sp.End()
		wg.Done()
	}()
	go func() {
		switch what {
		case 0:
			trace.UnregisterExporter(es[0])
		case 1:
			trace.UnregisterExporter(es[1])
		case 2:
			trace.RegisterExporter(es[1])
		}
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	n := [2]int{len(es[0].got), len(es[1].got)}
	was := [2]bool{true, both}
	is := [2]bool{what != 0, both}
	if what == 1 {
		is[1] = false
	} else if what == 2 {
		is[1] = true
	}
	for i := range n {
		ck(15, n[i] <= 1, "a span is exported at most once")
		if was[i] && is[i] {
			ck(15, n[i] == 1, "an exporter registered all the time receives the span")
		} else if !was[i] && !is[i] {
			ck(15, n[i] == 0, "an exporter never registered receives nothing")
		}
	}
	_, sp = trace.StartSpan(context.Background(), "n", sampler(true))
	sp.End()
	for i := range n {
		want := n[i]
		if is[i] {
			want++
		}
		ck(15, len(es[i].got) == want, "a later span is received as registered")
	}
	sym.Cover("ended")
}
