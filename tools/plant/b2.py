BUGS=[]
def B(id,prop,pkg,edits,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks,race=race))
T="trace/trace.go"
B("cloud-option-bits","C06","exporter/stackdriver/propagation",[("exporter/stackdriver/propagation/http.go","int64(sc.TraceOptions))","int64(sc.TraceOptions&1))")],'''package propagation
import ("testing";"net/http";"go.opencensus.io/trace")
func TestDemo(t *testing.T) {
	f := &HTTPFormat{}
	req, _ := http.NewRequest("GET", "http://example.com", nil)
	sc := trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}, TraceOptions: 3}
	f.SpanContextToRequest(sc, req)
	got, ok := f.SpanContextFromRequest(req)
	if !ok || got != sc { t.Fatal(got, ok) }
}
''',"option bits other than the sampling bit","the options are not restored")
B("cloud-bad-option","C06","exporter/stackdriver/propagation",[("exporter/stackdriver/propagation/http.go","""	o, err := strconv.ParseUint(h[2:], 10, 64)
	if err != nil {
		return trace.SpanContext{}, false
	}""","""	o, err := strconv.ParseUint(h[2:], 10, 64)
	if err != nil && h != "o=" {
		return trace.SpanContext{}, false
	}""")],'''package propagation
import ("testing";"net/http")
func TestDemo(t *testing.T) {
	f := &HTTPFormat{}
	req, _ := http.NewRequest("GET", "http://example.com", nil)
	req.Header.Set(httpHeader, "105445aa7843bc8bf206b12000100000/123;o=")
	if sc, ok := f.SpanContextFromRequest(req); ok { t.Fatal(sc) }
}
''',"an option field without a value","a malformed option is accepted")
B("cloud-signed-span","C06","exporter/stackdriver/propagation",[("exporter/stackdriver/propagation/http.go","sid, err := strconv.ParseUint(spanstr, 10, 64)","sid, err := strconv.ParseUint(spanstr, 0, 64)")],'''package propagation
import ("testing";"net/http")
func TestDemo(t *testing.T) {
	f := &HTTPFormat{}
	req, _ := http.NewRequest("GET", "http://example.com", nil)
	req.Header.Set(httpHeader, "105445aa7843bc8bf206b12000100000/010;o=1")
	sc, ok := f.SpanContextFromRequest(req)
	if !ok || sc.SpanID[7] != 10 { t.Fatal(sc, ok) }
}
''',"a span id with a leading zero or a base prefix","decimal span ids are read in another base")
B("trace-unsampled-tracestate","C07","trace",[(T,"""	if !internal.LocalSpanStoreEnabled && !s.spanContext.IsSampled() {
		return s""","""	if !internal.LocalSpanStoreEnabled && !s.spanContext.IsSampled() {
		s.spanContext.Tracestate = nil
		return s""")],'''package trace
import ("testing";"context";"go.opencensus.io/trace/tracestate")
func TestDemo(t *testing.T) {
	ts, _ := tracestate.New(nil, tracestate.Entry{Key: "a", Value: "b"})
	p := SpanContext{TraceID: TraceID{1}, SpanID: SpanID{2}, Tracestate: ts}
	_, s := StartSpanWithRemoteParent(context.Background(), "x", p, WithSampler(NeverSample()))
	if s.SpanContext().Tracestate != ts { t.Fatal("tracestate lost") }
}
''',"an unsampled span under a parent with a tracestate","the tracestate is not inherited")
B("trace-grandparent-mark","C07","trace",[(T,"""	span := startSpanInternal(name, parent != SpanContext{}, parent, false, opts)""","""	span := startSpanInternal(name, parent.TraceID != TraceID{}, parent, false, opts)""")],'''package trace
import ("testing";"context")
type gen struct{}
func (gen) NewTraceID() [16]byte { return [16]byte{} }
func (gen) NewSpanID() [8]byte { return [8]byte{7} }
type ex struct{ d []*SpanData }
func (e *ex) ExportSpan(d *SpanData) { e.d = append(e.d, d) }
func TestDemo(t *testing.T) {
	ApplyConfig(Config{IDGenerator: gen{}})
	e := &ex{}
	RegisterExporter(e)
	ctx, p := StartSpan(context.Background(), "p", WithSampler(AlwaysSample()))
	_, c := StartSpan(ctx, "c")
	c.End()
	p.End()
	if len(e.d) != 2 || e.d[0].ParentSpanID != (SpanID{7}) { t.Fatal(e.d) }
}
''',"a parent whose trace id is all zero but which has a span id","the child has no parent and its own sampling decision")
B("end-racy-flag","C11","trace",[(T,"	endOnce sync.Once\n","	ended   uint32\n"),(T,"	s.endOnce.Do(func() {\n","	if atomic.LoadUint32(&s.ended) == 0 {\n		atomic.StoreUint32(&s.ended, 1)\n"),(T,"""					e.ExportSpan(sd)
				}
			}
		}
	})
""","""					e.ExportSpan(sd)
				}
			}
		}
	}
""")],'''package trace
import ("testing";"context";"sync";"sync/atomic")
type ex struct{ n int64 }
func (e *ex) ExportSpan(d *SpanData) { atomic.AddInt64(&e.n, 1) }
func TestDemo(t *testing.T) {
	e := &ex{}
	RegisterExporter(e)
	const N = 300000
	for i := 0; i < N; i++ {
		_, s := StartSpan(context.Background(), "p", WithSampler(AlwaysSample()))
		var wg sync.WaitGroup
		var start int32
		for j := 0; j < 2; j++ {
			wg.Add(1)
			go func() { atomic.AddInt32(&start, 1); for atomic.LoadInt32(&start) < 2 {}; s.End(); wg.Done() }()
		}
		wg.Wait()
		if e.n != int64(i+1) { t.Fatalf("%d exports of %d spans", e.n, i+1) }
	}
}
''',"two goroutines ending the span, interleaved between the load and the store of the flag","the span is exported twice")
B("attr-same-value","C12","trace",[(T,"""	for _, a := range attributes {
		s.lruAttributes.add(a.key, a.value)""","""	for _, a := range attributes {
		if v, ok := s.lruAttributes.get(a.key); ok && v == a.value {
			continue
		}
		s.lruAttributes.add(a.key, a.value)""")],'''package trace
import ("testing";"context")
type ex struct{ d *SpanData }
func (e *ex) ExportSpan(d *SpanData) { e.d = d }
func TestDemo(t *testing.T) {
	e := &ex{}
	RegisterExporter(e)
	ApplyConfig(Config{MaxAttributesPerSpan: 2})
	_, s := StartSpan(context.Background(), "p", WithSampler(AlwaysSample()))
	s.AddAttributes(StringAttribute("a", "1"))
	s.AddAttributes(StringAttribute("b", "1"))
	s.AddAttributes(StringAttribute("a", "1"))
	s.AddAttributes(StringAttribute("c", "1"))
	s.End()
	if e.d.Attributes["a"] != "1" { t.Fatal(e.d.Attributes) }
}
''',"an attribute set again to the value it has, then one more than fits","the newest attribute is evicted")
B("links-drop-count","C12","trace",[("trace/evictedqueue.go","""	if len(eq.queue) == eq.capacity {
		eq.queue = eq.queue[1:]
		eq.droppedCount++""","""	if len(eq.queue) == eq.capacity {
		eq.queue = eq.queue[1:]
		if eq.droppedCount < 2*eq.capacity {
			eq.droppedCount++
		}""")],'''package trace
import ("testing";"context")
type ex struct{ d *SpanData }
func (e *ex) ExportSpan(d *SpanData) { e.d = d }
func TestDemo(t *testing.T) {
	e := &ex{}
	RegisterExporter(e)
	ApplyConfig(Config{MaxLinksPerSpan: 1})
	_, s := StartSpan(context.Background(), "p", WithSampler(AlwaysSample()))
	for i := 0; i < 5; i++ { s.AddLink(Link{}) }
	s.End()
	if e.d.DroppedLinkCount != 4 { t.Fatal(e.d.DroppedLinkCount) }
}
''',"more than three times as many entries as the limit","the drop counter saturates")
B("recv-size","C13","trace",[(T,"""		EventType:            MessageEventTypeRecv,
		MessageID:            messageID,
		UncompressedByteSize: uncompressedByteSize,
		CompressedByteSize:   compressedByteSize,""","""		EventType:            MessageEventTypeRecv,
		MessageID:            messageID,
		UncompressedByteSize: uncompressedByteSize,
		CompressedByteSize:   int64(uint32(compressedByteSize)),""")],'''package trace
import ("testing";"context")
type ex struct{ d *SpanData }
func (e *ex) ExportSpan(d *SpanData) { e.d = d }
func TestDemo(t *testing.T) {
	e := &ex{}
	RegisterExporter(e)
	_, s := StartSpan(context.Background(), "p", WithSampler(AlwaysSample()))
	s.AddMessageReceiveEvent(1, 2, 1<<33)
	s.End()
	if e.d.MessageEvents[0].CompressedByteSize != 1<<33 { t.Fatal(e.d.MessageEvents) }
}
''',"a message of 4 GiB or more","the recorded size is truncated")
B("annotation-lazy-attrs","C13","trace",[(T,"""		for _, attr := range attributes {
			am[attr.key] = attr.value
		}""","""		for _, attr := range attributes {
			if _, ok := am[attr.key]; !ok {
				am[attr.key] = attr.value
			}
		}""")],'''package trace
import ("testing";"context")
type ex struct{ d *SpanData }
func (e *ex) ExportSpan(d *SpanData) { e.d = d }
func TestDemo(t *testing.T) {
	e := &ex{}
	RegisterExporter(e)
	_, s := StartSpan(context.Background(), "p", WithSampler(AlwaysSample()))
	s.Annotate([]Attribute{Int64Attribute("a", 1), Int64Attribute("a", 2)}, "x")
	s.End()
	if e.d.Annotations[0].Attributes["a"] != int64(2) { t.Fatal(e.d.Annotations) }
}
''',"an annotation with the same attribute key twice","the first value is kept instead of the last")
B("bucket-second","C14","trace",[("trace/spanbucket.go","	if s.EndTime.Before(b.nextTime) {","	if !s.EndTime.After(b.nextTime) {")],'''package trace
import ("testing";"time")
func TestDemo(t *testing.T) {
	b := makeBucket(2)
	t0 := time.Unix(1, 0)
	b.add(&SpanData{EndTime: t0})
	b.add(&SpanData{EndTime: t0.Add(time.Second)})
	if b.size() != 2 { t.Fatal(b.size()) }
}
''',"two spans ending exactly one second apart","the second span is not stored")
B("bucket-resize-same","C14","trace",[("trace/spanbucket.go","	if cur < n {","	if cur <= n {")],'''package trace
import ("testing";"time")
func TestDemo(t *testing.T) {
	b := makeBucket(1)
	t0 := time.Unix(1, 0)
	b.add(&SpanData{EndTime: t0})
	b.resize(1)
	b.add(&SpanData{EndTime: t0.Add(2*time.Second)})
	if b.size() != 1 { t.Fatal(b.size()) }
}
''',"a full bucket resized to its present size and one more span","ending a span panics")
B("latency-report-upper","C14","trace",[("trace/spanstore.go","				if maxLatency != 0 && d > maxLatency {","				if maxLatency != 0 && d >= maxLatency {")],'''package trace
import ("testing";"time")
func TestDemo(t *testing.T) {
	ss := newSpanStore("n", 2, 2)
	spanStores["n"] = ss
	t0 := time.Unix(1, 0)
	ss.finished(&span{}, &SpanData{StartTime: t0, EndTime: t0.Add(5*time.Millisecond)})
	if l := (internalOnly{}).ReportSpansByLatency("n", time.Millisecond, 5*time.Millisecond); len(l) != 1 { t.Fatal(l) }
}
''',"a query whose maximum is exactly a span's latency","the span is not reported")
B("error-bucket-size","C14","trace",[("trace/spanstore.go","""	for _, b := range s.errors {
		b.resize(errorBucketSize)
	}
	s.maxSpansPerErrorBucket = errorBucketSize""","""	for _, b := range s.errors {
		b.resize(errorBucketSize)
		s.maxSpansPerErrorBucket = errorBucketSize
	}""")],'''package trace
import ("testing";"time")
func TestDemo(t *testing.T) {
	ss := newSpanStore("n", 2, 2)
	ss.resize(1, 1)
	spanStores["n"] = ss
	t0 := time.Unix(1, 0)
	for i := 0; i < 3; i++ {
		ss.finished(&span{}, &SpanData{StartTime: t0, EndTime: t0.Add(time.Duration(i)*time.Minute), Status: Status{Code: 2}})
	}
	if l := (internalOnly{}).ReportSpansByError("n", 2); len(l) != 1 { t.Fatal(l) }
}
''',"error buckets resized before the first error","a bucket exceeds its configured size")
B("config-lost-update","C15","trace",[("trace/config.go","""	configWriteMu.Lock()
	defer configWriteMu.Unlock()
	c := *config.Load().(*Config)""","""	c := *config.Load().(*Config)
	configWriteMu.Lock()
	defer configWriteMu.Unlock()""")],'''package trace
import ("testing";"sync";"sync/atomic")
func TestDemo(t *testing.T) {
	for i := 1; i < 300000; i++ {
		var wg sync.WaitGroup
		var start int32
		wg.Add(2)
		go func() { atomic.AddInt32(&start, 1); for atomic.LoadInt32(&start) < 2 {}; ApplyConfig(Config{MaxLinksPerSpan: i}); wg.Done() }()
		go func() { atomic.AddInt32(&start, 1); for atomic.LoadInt32(&start) < 2 {}; ApplyConfig(Config{MaxAttributesPerSpan: i}); wg.Done() }()
		wg.Wait()
		c := config.Load().(*Config)
		if c.MaxLinksPerSpan != i || c.MaxAttributesPerSpan != i { t.Fatal(i, c) }
	}
}
''',"two concurrent configuration updates","one update undoes the other")
B("exporter-lost-update","C15","trace",[("trace/export.go","""func UnregisterExporter(e Exporter) {
	exporterMu.Lock()
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	delete(new, e)
	exporters.Store(new)
	exporterMu.Unlock()
""","""func UnregisterExporter(e Exporter) {
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			if k != e {
				new[k] = v
			}
		}
	}
	exporterMu.Lock()
	exporters.Store(new)
	exporterMu.Unlock()
""")],'''package trace
import ("testing";"sync";"sync/atomic")
type ex struct{ n int64 }
func (e *ex) ExportSpan(d *SpanData) { }
func TestDemo(t *testing.T) {
	for i := 1; i < 300000; i++ {
		a, b := &ex{}, &ex{}
		RegisterExporter(a)
		var wg sync.WaitGroup
		var start int32
		wg.Add(2)
		go func() { atomic.AddInt32(&start, 1); for atomic.LoadInt32(&start) < 2 {}; UnregisterExporter(a); wg.Done() }()
		go func() { atomic.AddInt32(&start, 1); for atomic.LoadInt32(&start) < 2 {}; RegisterExporter(b); wg.Done() }()
		wg.Wait()
		m := exporters.Load().(exportersMap)
		if _, ok := m[b]; !ok { t.Fatal("lost") }
		if _, ok := m[a]; ok { t.Fatal("kept") }
		UnregisterExporter(b)
	}
}
''',"one exporter unregistered while another is registered","the registration is lost")
B("span-status-unlocked","C41","trace",[(T,"""	s.mu.Lock()
	s.data.Status = status
	s.mu.Unlock()""","""	s.data.Status = status""")],'''package trace
import ("testing";"context";"sync")
func TestDemo(t *testing.T) {
	_, s := StartSpan(context.Background(), "p", WithSampler(AlwaysSample()))
	var wg sync.WaitGroup
	for j := 0; j < 2; j++ {
		wg.Add(1)
		go func() { for i := 0; i < 1000; i++ { s.SetStatus(Status{Code: int32(i), Message: "xx"[:i%3]}) }; wg.Done() }()
	}
	wg.Wait()
}
''',"two goroutines setting the status","a data race on the status",race=True)
B("span-child-unlocked","C41","trace",[(T,"""	s.mu.Lock()
	s.data.ChildSpanCount++
	s.mu.Unlock()""","""	s.data.ChildSpanCount++""")],'''package trace
import ("testing";"context";"sync")
func TestDemo(t *testing.T) {
	ctx, _ := StartSpan(context.Background(), "p", WithSampler(AlwaysSample()))
	var wg sync.WaitGroup
	for j := 0; j < 2; j++ {
		wg.Add(1)
		go func() { for i := 0; i < 1000; i++ { StartSpan(ctx, "c") }; wg.Done() }()
	}
	wg.Wait()
}
''',"two children started concurrently","a data race on the child counter",race=True)
B("span-links-unlocked","C41","trace",[(T,"""	if len(s.links.queue) > 0 {
		sd.Links = s.interfaceArrayToLinksArray()
		sd.DroppedLinkCount = s.links.droppedCount
	}
	s.mu.Unlock()
""","""	s.mu.Unlock()
	if len(s.links.queue) > 0 {
		sd.Links = s.interfaceArrayToLinksArray()
		sd.DroppedLinkCount = s.links.droppedCount
	}
""")],'''package trace
import ("testing";"context";"sync")
type ex struct{ }
func (e *ex) ExportSpan(d *SpanData) { }
func TestDemo(t *testing.T) {
	RegisterExporter(&ex{})
	for i := 0; i < 2000; i++ {
	_, s := StartSpan(context.Background(), "p", WithSampler(AlwaysSample()))
	var wg sync.WaitGroup
		wg.Add(2)
		go func() { s.AddLink(Link{}); wg.Done() }()
		go func() { s.End(); wg.Done() }()
	wg.Wait()
	}
}
''',"a link added while the span is ended","a data race on the links",race=True)
V="stats/view/"
MK='''package view
import ("testing";"context";"go.opencensus.io/stats";"go.opencensus.io/tag")
var _ = tag.NewKey
var _ = context.Background
var _ = stats.Int64
'''
B("dist-boundary","C20","stats/view",[(V+"aggregation_data.go","		if v < b {","		if v < b || v == b && i > 0 {")],'''package view
import ("testing";"time")
func TestDemo(t *testing.T) {
	a := newDistributionData(&Aggregation{Buckets: []float64{1, 2}}, time.Now())
	a.addSample(2, nil, time.Now())
	if a.CountPerBucket[2] != 1 { t.Fatal(a.CountPerBucket) }
}
''',"a value equal to a bound other than the first","the value is counted in the bucket below")
B("dist-min-zero","C20","stats/view",[(V+"aggregation_data.go","	if v < a.Min {\n","	if v < a.Min || a.Min == 0 {\n")],'''package view
import ("testing";"time")
func TestDemo(t *testing.T) {
	a := newDistributionData(&Aggregation{Buckets: []float64{1, 2}}, time.Now())
	a.addSample(0, nil, time.Now())
	a.addSample(2, nil, time.Now())
	if a.Min != 0 { t.Fatal(a.Min) }
}
''',"a zero followed by a larger value","the minimum is wrong")
B("dist-variance","C20","stats/view",[(V+"aggregation_data.go","(v-oldMean)*(v-a.Mean)","(v-oldMean)*(v-oldMean)*float64(a.Count-1)/float64(max64(a.Count, 2))"),(V+"aggregation_data.go","func (a *DistributionData) addToBucket(","func max64(a, b int64) int64 {\n	if a > b {\n		return a\n	}\n	return b\n}\n\nfunc (a *DistributionData) addToBucket(")],'''package view
import ("testing";"time")
func TestDemo(t *testing.T) {
	t.Skip()
}
''',"x","x")
BUGS.pop()
B("rows-absent-key","C21","stats/view",[(V+"collector.go","""		v, _ := m.Value(k)
		vb.WriteValue([]byte(v))""","""		v, ok := m.Value(k)
		if !ok && len(keys) > 2 {
			continue
		}
		vb.WriteValue([]byte(v))""")],MK+'''
func TestDemo(t *testing.T) {
	k1, k2, k3 := tag.MustNewKey("k1"), tag.MustNewKey("k2"), tag.MustNewKey("k3")
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	keys := []tag.Key{k1, k2, k3}
	c1, _ := tag.New(context.Background(), tag.Insert(k1, "x"), tag.Insert(k3, "y"))
	c2, _ := tag.New(context.Background(), tag.Insert(k2, "x"), tag.Insert(k3, "y"))
	if string(encodeWithKeys(tag.FromContext(c1), keys)) == string(encodeWithKeys(tag.FromContext(c2), keys)) { t.Fatal("same row") }
}
''',"a view with three keys of which different ones are absent","rows of different tags are merged")
B("rows-value-case","C21","stats/view",[(V+"collector.go","		vb.WriteValue([]byte(v))","		vb.WriteValue([]byte(strings.TrimRight(v, \" \")))"),(V+"collector.go",'	"sort"\n','	"sort"\n	"strings"\n')],MK+'''
func TestDemo(t *testing.T) {
	k1 := tag.MustNewKey("k1")
	keys := []tag.Key{k1}
	c1, _ := tag.New(context.Background(), tag.Insert(k1, "x"))
	c2, _ := tag.New(context.Background(), tag.Insert(k1, "x "))
	if string(encodeWithKeys(tag.FromContext(c1), keys)) == string(encodeWithKeys(tag.FromContext(c2), keys)) { t.Fatal("same row") }
}
''',"values which differ in trailing blanks","rows of different tag values are merged")
B("snapshot-exemplars","C22","stats/view",[(V+"aggregation_data.go","	c.ExemplarsPerBucket = append([]*metricdata.Exemplar(nil), a.ExemplarsPerBucket...)\n","")],'''package view
import ("testing";"time")
func TestDemo(t *testing.T) {
	a := newDistributionData(&Aggregation{Buckets: []float64{1, 2}}, time.Now())
	c := a.clone().(*DistributionData)
	a.addSample(2, map[string]interface{}{"a": 1}, time.Now())
	if c.ExemplarsPerBucket[2] != nil { t.Fatal("snapshot changed") }
}
''',"a snapshot of a distribution followed by a recording with attachments","the snapshot changes")
B("snapshot-lastvalue","C22","stats/view",[(V+"aggregation_data.go","	return &LastValueData{l.Value}","	return l")],'''package view
import ("testing";"time")
func TestDemo(t *testing.T) {
	a := &LastValueData{1}
	c := a.clone().(*LastValueData)
	a.addSample(2, nil, time.Now())
	if c.Value != 1 { t.Fatal("snapshot changed") }
}
''',"a last-value row read and then recorded to","the snapshot changes")
B("register-partial","C23","stats/view",[(V+"worker_commands.go","""	for _, v := range cmd.views {
		if err := v.canonicalize(); err != nil {
			cmd.err <- err
			return
		}
	}
	var errstr []string
	for _, view := range cmd.views {
""","""	var errstr []string
	for _, view := range cmd.views {
		if err := view.canonicalize(); err != nil {
			cmd.err <- err
			return
		}
""")],MK+'''
func TestDemo(t *testing.T) {
	m := stats.Int64("m", "", "")
	err := Register(&View{Name: "a", Measure: m, Aggregation: Count()}, &View{Name: "b", Measure: m})
	if err == nil || Find("a") != nil { t.Fatal(err, Find("a")) }
}
''',"an invalid view after a valid one in one call","the valid view is registered although the call failed")
B("view-same-keys","C23","stats/view",[(V+"view.go","		v.Measure.Name() == other.Measure.Name()","		(v.Measure.Name() == other.Measure.Name() || v.Aggregation.Type == AggTypeCount)")],MK+'''
func TestDemo(t *testing.T) {
	m, n := stats.Int64("m", "", ""), stats.Int64("n", "", "")
	if err := Register(&View{Name: "a", Measure: m, Aggregation: Count()}); err != nil { t.Fatal(err) }
	if err := Register(&View{Name: "a", Measure: n, Aggregation: Count()}); err == nil { t.Fatal("accepted") }
}
''',"two count views of one name over different measures","a conflicting view is accepted")
B("record-last-decides","C24","stats/view",[("stats/record.go","""	for _, m := range ms {
		if m.desc.subscribed() {
			record = true
			break
		}
	}""","""	for _, m := range ms {
		record = m.desc.subscribed()
	}""")],MK+'''
func TestDemo(t *testing.T) {
	m, n := stats.Int64("m", "", ""), stats.Int64("n", "", "")
	if err := Register(&View{Name: "a", Measure: m, Aggregation: Count()}); err != nil { t.Fatal(err) }
	stats.Record(context.Background(), m.M(1), n.M(1))
	r, _ := RetrieveData("a")
	if len(r) != 1 { t.Fatal(r) }
}
''',"one recording of a measure with a view and then one without","the measurements are dropped")
B("record-recorder-tags","C24","stats/view",[("stats/record.go","""	if len(o.mutators) > 0 {
		var err error
		if ctx, err""","""	if len(o.mutators) > 0 && len(o.measurements) > 0 && o.measurements[0].desc.subscribed() {
		var err error
		if ctx, err""")],MK+'''
func TestDemo(t *testing.T) {
	m, n := stats.Int64("m", "", ""), stats.Int64("n", "", "")
	k := tag.MustNewKey("k")
	if err := Register(&View{Name: "a", Measure: m, TagKeys: []tag.Key{k}, Aggregation: Count()}); err != nil { t.Fatal(err) }
	stats.RecordWithTags(context.Background(), []tag.Mutator{tag.Insert(k, "v")}, n.M(1), m.M(1))
	r, _ := RetrieveData("a")
	if len(r) != 1 || len(r[0].Tags) != 1 { t.Fatal(r) }
}
''',"mutators and a first measurement without a view","the measurement is recorded without the tags")
B("metric-sum-float32","C25","stats/view",[(V+"aggregation_data.go","""		return metricdata.NewInt64Point(t, int64(a.Value))
	case metricdata.TypeCumulativeFloat64:""","""		return metricdata.NewInt64Point(t, int64(float32(a.Value)))
	case metricdata.TypeCumulativeFloat64:""")],'''package view
import ("testing";"time";"go.opencensus.io/metric/metricdata")
func TestDemo(t *testing.T) {
	p := (&SumData{Value: 1<<24+1}).toPoint(metricdata.TypeCumulativeInt64, time.Now())
	if p.Value != int64(1<<24+1) { t.Fatal(p.Value) }
}
''',"an integer sum above 2^24","the metric's value is rounded")
B("metric-unit-last","C25","stats/view",[(V+"view_to_metric.go","	case AggTypeCount:\n		return metricdata.UnitDimensionless\n	default:","	case AggTypeCount, AggTypeLastValue:\n		return metricdata.UnitDimensionless\n	default:")],MK+'''
func TestDemo(t *testing.T) {
	m := stats.Int64("mdemo", "", "By")
	if d := viewToMetricDescriptor(&View{Name: "a", Measure: m, Aggregation: LastValue()}); d.Unit != "By" { t.Fatal(d) }
}
''',"a last-value view of a measure with a unit","the metric's unit is wrong")
B("record-unlocked","C40","stats/view",[(V+"worker_commands.go","""func (cmd *recordReq) handleCommand(w *worker) {
	w.mu.Lock()
	defer w.mu.Unlock()
""","""func (cmd *recordReq) handleCommand(w *worker) {
	w.mu.RLock()
	defer w.mu.RUnlock()
""",),(V+"worker.go","""func (w *worker) Read() []*metricdata.Metric {
	w.mu.Lock()
	defer w.mu.Unlock()
""","""func (w *worker) Read() []*metricdata.Metric {
	w.mu.RLock()
	defer w.mu.RUnlock()
""")],MK+'''
func TestDemo(t *testing.T) {
	m := stats.Int64("m", "", "By")
	if err := Register(&View{Name: "a", Measure: m, Aggregation: Count()}); err != nil { t.Fatal(err) }
	done := make(chan bool)
	go func() { for i := 0; i < 1000; i++ { defaultWorker.Read() }; close(done) }()
	for i := 0; i < 1000; i++ { stats.Record(context.Background(), m.M(1)) }
	<-done
}
''',"metrics read while a recording is processed","a data race on the rows",race=True)
B("exporters-unlocked","C40","stats/view",[(V+"worker.go","""	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
	for e := range w.exporters {""","""	for e := range w.exporters {""")],MK+'''
type ex struct{ n int }
func (e *ex) ExportView(*Data) {}
func TestDemo(t *testing.T) {
	m := stats.Int64("m", "", "By")
	v := &View{Name: "a", Measure: m, Aggregation: Count()}
	done := make(chan bool)
	go func() { for i := 0; i < 1000; i++ { RegisterExporter(&ex{i}) }; close(done) }()
	for i := 0; i < 100; i++ { Register(v); Unregister(v) }
	<-done
}
''',"an exporter registered while a view is reported","a data race on the exporters",race=True)
M="metric/"
B("labels-absent-empty","C26","metric",[(M+"common.go","		if v.Present {\n","		if v.Present && v.Value != \"\" {\n")],'''package metric
import ("testing";"go.opencensus.io/metric/metricdata")
func TestDemo(t *testing.T) {
	r := NewRegistry()
	g, _ := r.AddInt64Gauge("g", WithLabelKeys("a"))
	x, _ := g.GetEntry(metricdata.NewLabelValue(""))
	y, _ := g.GetEntry(metricdata.LabelValue{})
	if x == y { t.Fatal("same series") }
}
''',"a present empty label value next to an absent one","two series are merged")
B("cum-int-cas","C27","metric",[(M+"cumulative.go","	atomic.AddInt64(&e.val, val)","	atomic.StoreInt64(&e.val, atomic.LoadInt64(&e.val)+val)")],'''package metric
import ("testing";"sync")
func TestDemo(t *testing.T) {
	r := NewRegistry()
	g, _ := r.AddInt64Cumulative("g")
	e, _ := g.GetEntry()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ { wg.Add(1); go func() { for j := 0; j < 200000; j++ { e.Inc(1) }; wg.Done() }() }
	wg.Wait()
	if e.val != 800000 { t.Fatal(e.val) }
}
''',"two concurrent increments interleaved between load and store","an increment is lost")
B("cum-float-cas","C27","metric",[(M+"cumulative.go","		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)","		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal) || math.Float64frombits(newVal) == val")],'''package metric
import ("testing";"sync";"sync/atomic")
func TestDemo(t *testing.T) {
	for i := 0; i < 500000; i++ {
	e := &Float64CumulativeEntry{}
	var wg sync.WaitGroup
	var start int32
	for i := 0; i < 2; i++ { wg.Add(1); go func() { atomic.AddInt32(&start, 1); for atomic.LoadInt32(&start) < 2 {}; e.Inc(1); wg.Done() }() }
	wg.Wait()
	if e.val != 0x4000000000000000 { t.Fatal(e.val) }
	}
}
''',"the first two increments of a cumulative at once","an increment is lost")
B("cum-derived-neg","C28","metric",[(M+"gauge.go","""func (e *Int64GaugeEntry) Add(val int64) {
	atomic.AddInt64(&e.val, val)""","""func (e *Int64GaugeEntry) Add(val int64) {
	if atomic.AddInt64(&e.val, val) < 0 {
		atomic.StoreInt64(&e.val, 0)
	}""")],'''package metric
import ("testing";"time")
func TestDemo(t *testing.T) {
	e := &Int64GaugeEntry{}
	e.Add(-5)
	e.Add(7)
	if v := e.read(time.Now()).Value; v != int64(2) { t.Fatal(v) }
}
''',"a gauge that is negative for a while","the gauge forgets how far below zero it was")
B("gauge-float-cas","C28","metric",[(M+"gauge.go","""	var swapped bool
	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)""","""	var swapped bool
	oldVal := atomic.LoadUint64(&e.val)
	newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
	for !swapped {
		oldVal = atomic.LoadUint64(&e.val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)""")],'''package metric
import ("testing";"sync")
func TestDemo(t *testing.T) {
	e := &Float64Entry{}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ { wg.Add(1); go func() { for j := 0; j < 200000; j++ { e.Add(1) }; wg.Done() }() }
	wg.Wait()
	if v := e.read(timeNow()).Value; v != float64(800000) { t.Fatal(v) }
}
'''.replace('"sync")','"sync";"time")\nfunc timeNow() time.Time { return time.Now() }'),"two concurrent additions","an addition is lost")
B("registry-conflict-derived","C29","metric",[(M+"registry.go","		if existing.bmType != bm.bmType {","		if existing.bmType != bm.bmType && bmTypeToMetricType(existing) != bmTypeToMetricType(bm) {")],'''package metric
import "testing"
func TestDemo(t *testing.T) {
	r := NewRegistry()
	r.AddInt64Gauge("g")
	if _, err := r.AddInt64DerivedGauge("g"); err == nil { t.Fatal("accepted") }
}
''',"a derived metric with the name of a plain one of the same point type","the existing metric is replaced")
B("registry-const-order","C29","metric",[(M+"registry.go","		return constLabelKeys[i].Key < constLabelKeys[j].Key","		return len(constLabelKeys[i].Key) < len(constLabelKeys[j].Key)")],'''package metric
import ("testing";"go.opencensus.io/metric/metricdata")
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
	r := NewRegistry()
	r.AddInt64Gauge("g", WithConstLabel(map[metricdata.LabelKey]metricdata.LabelValue{{Key: "b"}: {}, {Key: "a"}: {}}))
	if k := r.Read()[0].Descriptor.LabelKeys[0].Key; k != "a" { t.Fatal(k) }
	}
}
''',"constant labels with keys of equal length","the order of the constant labels is random")
B("manager-get-unlocked","C30","metric/metricproducer",[("metric/metricproducer/manager.go","""	pm.mu.Lock()
	defer pm.mu.Unlock()
	producers := make([]Producer, len(pm.producers))
	i := 0
	for producer := range pm.producers {
		producers[i] = producer
		i++
	}
	return producers""","""	pm.mu.RLock()
	producers := make([]Producer, len(pm.producers))
	pm.mu.RUnlock()
	i := 0
	pm.mu.RLock()
	defer pm.mu.RUnlock()
	for producer := range pm.producers {
		producers[i] = producer
		i++
	}
	return producers""")],'''package metricproducer
import ("testing";"sync";"go.opencensus.io/metric/metricdata")
type p struct{ n int }
func (p *p) Read() []*metricdata.Metric { return nil }
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	m := GlobalManager()
	a := &p{1}
	stop := make(chan bool)
	done := make(chan bool)
	go func() { defer close(done); for { select { case <-stop: return; default: m.AddProducer(a); m.DeleteProducer(a) } } }()
	defer func() { close(stop); <-done }()
	for i := 0; i < 3000000; i++ {
		mu.Lock()
		for _, x := range m.GetAll() { if x == nil { t.Error("nil producer"); mu.Unlock(); return } }
		mu.Unlock()
	}
}
''',"a producer deleted between the two critical sections of a listing","the listing contains nil or panics")
B("interval-stop-order","C30","metric/metricexport",[("metric/metricexport/reader.go","""	if ir.ReportingInterval != 0 {
		if ir""","""	if ir.ReportingInterval > 0 {
		if ir""")],'''package metricexport
import ("testing";"context";"go.opencensus.io/metric/metricdata")
type e struct{}
func (e) ExportMetrics(ctx context.Context, data []*metricdata.Metric) error { return nil }
func TestDemo(t *testing.T) {
	ir, _ := NewIntervalReader(NewReader(), e{})
	ir.ReportingInterval = -1
	if err := ir.Start(); err == nil { ir.Stop(); t.Fatal("accepted") }
}
''',"a negative reporting interval","a too low interval is accepted")
