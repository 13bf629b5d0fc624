BUGS=[]
def B(id,prop,pkg,edits,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks,race=race))
W="stats/view/worker.go"; WC="stats/view/worker_commands.go"
VH='''package view
import ("testing";"time";"context";"sync";"go.opencensus.io/stats";"go.opencensus.io/tag")
var _ = time.Now
var _ = context.Background
var _ sync.Mutex
var _ tag.Key
type zzE struct{ mu sync.Mutex; d []*Data }
func (e *zzE) ExportView(d *Data) { e.mu.Lock(); e.d = append(e.d, d); e.mu.Unlock() }
func (e *zzE) take() []*Data { e.mu.Lock(); defer e.mu.Unlock(); r := e.d; e.d = nil; return r }
func zzCount(n string) (*stats.Int64Measure, *View) { m := stats.Int64(n, "", "1"); return m, &View{Name: n, Measure: m, Aggregation: Count()} }
'''
TH='''package tag
import ("testing";"context";"runtime/pprof")
'''
B("do-empty-value","C42","tag",[("tag/profile_19.go","		keyvals = append(keyvals, k.Name(), v.value)","		if v.value != \"\" {\n			keyvals = append(keyvals, k.Name(), v.value)\n		}")],TH+'''
func TestDemo(t *testing.T) {
	k, _ := NewKey("k"); ctx, _ := New(context.Background(), Insert(k, ""))
	Do(ctx, func(c context.Context) { if _, ok := pprof.Label(c, "k"); !ok { t.Fatal("no label") } })
}
''',"a tag with an empty value","a tag with an empty value is not a label")
B("do-drops-labels","C42","tag",[("tag/profile_19.go","	pprof.Do(ctx, pprof.Labels(keyvals...), f)","	pprof.Do(context.Background(), pprof.Labels(keyvals...), func(context.Context) { f(ctx) })")],TH+'''
func TestDemo(t *testing.T) {
	k, _ := NewKey("k"); ctx, _ := New(context.Background(), Insert(k, "x"))
	pprof.Do(ctx, pprof.Labels("a", "b"), func(ctx context.Context) {
	Do(ctx, func(c context.Context) { if _, ok := pprof.Label(c, "k"); !ok { t.Fatal("no label") } })
	})
}
''',"any call of Do with tags and a look at the context's labels","the function's context does not carry the labels of the tags")
B("unregister-many-silent","C43","stats/view",[(WC,"		w.reportView(vi)\n","		if len(cmd.views) == 1 {\n			w.reportView(vi)\n		}\n")],VH+'''
func TestDemo(t *testing.T) {
	a, va := zzCount("zz_a"); _, vb := zzCount("zz_b")
	w := NewMeter(); w.Start(); defer w.Stop()
	e := &zzE{}; w.RegisterExporter(e)
	if err := w.Register(va, vb); err != nil { t.Fatal(err) }
	w.Record(nil, []stats.Measurement{a.M(1)}, nil)
	w.Unregister(va, vb)
	for _, d := range e.take() { if d.View.Name == "zz_a" && len(d.Rows) == 1 { return } }
	t.Fatal("not exported")
}
''',"unregistering two views in one call","what the views still hold is lost")
B("reregister-start","C43","stats/view",[(W,"		// the view is already registered so there is nothing to do and the\n","		w.viewStartTimes[x] = time.Now()\n		// the view is already registered so there is nothing to do and the\n")],VH+'''
func TestDemo(t *testing.T) {
	a, va := zzCount("zz_a")
	w := NewMeter(); w.Start(); defer w.Stop()
	e := &zzE{}; w.RegisterExporter(e)
	w.Register(va)
	w.Record(nil, []stats.Measurement{a.M(1)}, nil)
	w.Find("zz_a")
	x := time.Now()
	w.Register(va)
	w.Unregister(va)
	d := e.take()
	if len(d) != 1 || d[0].Start.After(x) { t.Fatal("start moved") }
}
''',"registering a view again while it is registered","the start of the reported interval moves though the data is cumulative since the first registration")
B("export-snapshot-exporters","C43","stats/view",[(W,"""	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
	for e := range w.exporters {
		e.ExportView(viewData)
	}""","""	w.exportersMu.Lock()
	exporters := make([]Exporter, 0, len(w.exporters))
	for e := range w.exporters {
		exporters = append(exporters, e)
	}
	w.exportersMu.Unlock()
	for _, e := range exporters {
		e.ExportView(viewData)
	}""")],VH+'''
type zzB struct{ in, out chan bool }
func (e zzB) ExportView(d *Data) { e.in <- true; <-e.out }
func TestDemo(t *testing.T) {
	_, va := zzCount("zz_a")
	w := NewMeter(); w.Start(); defer w.Stop()
	b := zzB{make(chan bool), make(chan bool)}
	es := []*zzE{}
	w.RegisterExporter(b)
	for i := 0; i < 8; i++ { e := &zzE{}; es = append(es, e); w.RegisterExporter(e) }
	w.Register(va)
	go w.Unregister(va)
	<-b.in
	done := make(chan []int, 1)
	go func() { n := []int{}; for _, e := range es { w.UnregisterExporter(e); n = append(n, len(e.take())) }; done <- n }()
	select { case <-done: case <-time.After(200*time.Millisecond): }
	b.out <- true
	time.Sleep(50*time.Millisecond)
	for _, e := range es { if len(e.take()) > 0 { t.Fatal("exported to an exporter that was unregistered before") } }
	_ = sync.Mutex{}
}
''',"an exporter unregistered by another goroutine while a report is under way","the exporter is given data after UnregisterExporter returned")
B("recorder-attachments","C44","stats",[("stats/record.go","	if o.recorder != nil {","	if o.recorder != nil && (len(o.attachments) == 0 || len(o.measurements) == 1) {")],'''package stats
import ("testing";"context";"go.opencensus.io/tag")
type zzR int
func (r *zzR) Record(*tag.Map, interface{}, map[string]interface{}) { *r++ }
func TestDemo(t *testing.T) {
	m := Int64("zz", "", "1"); m.desc.subscribe()
	var r zzR
	RecordWithOptions(context.Background(), WithRecorder(&r), WithMeasurements(m.M(1), m.M(2)), WithAttachments(map[string]interface{}{"a": 1}))
	if r != 1 { t.Fatal(r) }
}
''',"recording several measurements to a meter with attachments","the measurements reach the default meter instead")
B("meter-shared-internal","C44","stats/view",[("stats/view/view.go","func newViewInternal(v *View) (*viewInternal, error) {\n	return &viewInternal{\n		view:             v,\n		collector:        &collector{make(map[string]AggregationData), v.Aggregation},\n		metricDescriptor: viewToMetricDescriptor(v),\n	}, nil","""var collectors sync.Map // of a view definition

func newViewInternal(v *View) (*viewInternal, error) {
	c := &collector{make(map[string]AggregationData), v.Aggregation}
	if x, ok := collectors.LoadOrStore(v, c); ok && len(x.(*collector).signatures) > 0 {
		c = x.(*collector)
	} else {
		collectors.Store(v, c)
	}
	return &viewInternal{
		view:             v,
		collector:        c,
		metricDescriptor: viewToMetricDescriptor(v),
	}, nil"""),("stats/view/view.go",'	"sort"\n','	"sort"\n	"sync"\n')],VH+'''
func TestDemo(t *testing.T) {
	a, va := zzCount("zz_a")
	w := NewMeter(); w.Start(); defer w.Stop()
	x := NewMeter(); x.Start(); defer x.Stop()
	w.Register(va)
	w.Record(nil, []stats.Measurement{a.M(1)}, nil)
	w.Find("zz_a")
	x.Register(va)
	if r, err := x.RetrieveData("zz_a"); err != nil || len(r) != 0 { t.Fatal(r, err) }
}
''',"one view registered with two meters, the second after something was recorded to the first","the meters share the view's data")
B("stop-keeps-producer","C44","stats/view",[(W,"	prodMgr := metricproducer.GlobalManager()\n	prodMgr.DeleteProducer(w)\n	w.stopOnce","	w.stopOnce"),(W,"			prodMgr.DeleteProducer(w)\n			close(w.done)","			for _, p := range prodMgr.GetAll() {\n				if p, ok := p.(*worker); ok && (p == w || p.r == w.r && p != defaultWorker) {\n					prodMgr.DeleteProducer(p)\n				}\n			}\n			close(w.done)")],'''package view
import ("testing";"go.opencensus.io/metric/metricproducer")
func TestDemo(t *testing.T) {
	a, b := NewMeter(), NewMeter()
	a.Start(); b.Start(); a.Find("x"); b.Find("x")
	a.Stop()
	for _, p := range metricproducer.GlobalManager().GetAll() { if p == b.(metricproducer.Producer) { b.Stop(); return } }
	t.Fatal("b is no longer read")
}
''',"two meters of the same resource, one of them stopped","the metrics of the other meter are no longer read")
A="plugin/ochttp/span_annotating_client_trace.go"
AH='''package ochttp
import ("testing";"net";"net/http";"net/http/httptrace";"errors";"context";"go.opencensus.io/trace")
type zzEx struct{ d []*trace.SpanData }
func (e *zzEx) ExportSpan(d *trace.SpanData) { e.d = append(e.d, d) }
var _ net.IP
var _ = errors.New
func zzRun(f func(c *httptrace.ClientTrace)) []trace.Annotation {
	e := &zzEx{}; trace.RegisterExporter(e); defer trace.UnregisterExporter(e)
	_, s := trace.StartSpan(context.Background(), "x", trace.WithSampler(trace.AlwaysSample()))
	r, _ := http.NewRequest("GET", "http://x/", nil)
	f(NewSpanAnnotatingClientTrace(r, s)); s.End()
	return e.d[0].Annotations
}
'''
B("annotate-idle-zero","C45","plugin/ochttp",[(A,"	if info.WasIdle {","	if info.WasIdle && info.IdleTime > 0 {")],AH+'''
func TestDemo(t *testing.T) {
	a := zzRun(func(c *httptrace.ClientTrace) { c.GotConn(httptrace.GotConnInfo{WasIdle: true}) })
	if a[0].Attributes["httptrace.got_connection.idle_time"] != "0s" { t.Fatal(a) }
}
''',"an idle connection with an idle time of zero","the idle time is missing")
B("annotate-dns-error","C45","plugin/ochttp",[(A,"""	if info.Err != nil {
		attrs = append(attrs,
			trace.StringAttribute("httptrace.dns_done.error", info.Err.Error()))""","""	if info.Err != nil {
		attrs = append(attrs[:0],
			trace.StringAttribute("httptrace.dns_done.error", info.Err.Error()))""")],AH+'''
func TestDemo(t *testing.T) {
	a := zzRun(func(c *httptrace.ClientTrace) { c.DNSDone(httptrace.DNSDoneInfo{Addrs: []net.IPAddr{{IP: net.IPv4(1,2,3,4)}}, Err: errors.New("e")}) })
	if a[0].Attributes["httptrace.dns_done.addrs"] != "1.2.3.4" { t.Fatal(a) }
}
''',"a name lookup that fails after it found some addresses","the addresses are missing from the annotation")
B("annotate-parent-span","C45","plugin/ochttp",[("plugin/ochttp/trace.go","t.newClientTrace(req, span)","t.newClientTrace(req, clientTraceSpan(req, span))"),("plugin/ochttp/trace.go","func spanNameFromURL(","// clientTraceSpan is the span that connection events of req belong to.\nfunc clientTraceSpan(req *http.Request, span *trace.Span) *trace.Span {\n	if s := trace.FromContext(req.Context()); s != nil {\n		return s\n	}\n	return span\n}\n\nfunc spanNameFromURL(")],AH+'''
type zzRT struct{}
func (zzRT) RoundTrip(r *http.Request) (*http.Response, error) { return nil, errors.New("x") }
func TestDemo(t *testing.T) {
	ctx, p := trace.StartSpan(context.Background(), "p")
	var got *trace.Span
	tr := &Transport{Base: zzRT{}, NewClientTrace: func(r *http.Request, s *trace.Span) *httptrace.ClientTrace { got = s; return &httptrace.ClientTrace{} }}
	r, _ := http.NewRequest("GET", "http://x/", nil)
	tr.RoundTrip(r.WithContext(ctx))
	if got == p { t.Fatal("the parent's span") }
}
''',"a request made under a span, with a client trace","connection events annotate the caller's span")
Z="zpages/tracez.go"
ZH='''package zpages
import ("testing";"time";"strings";"bytes";"go.opencensus.io/trace")
var _ = strings.Contains
var _ bytes.Buffer
var _ = trace.StartSpan
var t0 = time.Unix(1e9, 0)
'''
B("tracez-order-seconds","C46","zpages",[(Z,"	case *trace.Annotation:\n		return ti.Before(x.Time)\n	case *trace.MessageEvent:\n		return ti.Before(x.Time)","	case *trace.Annotation:\n		return x.Time.Sub(ti) >= time.Millisecond\n	case *trace.MessageEvent:\n		return ti.Before(x.Time)")],ZH+'''
func TestDemo(t *testing.T) {
	s := &trace.SpanData{StartTime: t0}
	s.MessageEvents = []trace.MessageEvent{{Time: t0.Add(2*time.Microsecond), EventType: trace.MessageEventTypeSent}}
	s.Annotations = []trace.Annotation{{Time: t0.Add(time.Microsecond), Message: "a"}, {Time: t0.Add(3*time.Microsecond), Message: "b"}}
	r := traceRows(s)
	if r[1].Fields[2] != "a" || r[3].Fields[2] != "b" { t.Fatal(r) }
}
''',"a message event within a millisecond of an annotation","the rows are not in the order of time")
B("tracez-elapsed-sent","C46","zpages",[(Z,"		d := t.Sub(lastTime)\n		lastTime = t\n","		d := t.Sub(lastTime)\n		if d > time.Microsecond {\n			lastTime = t\n		}\n")],ZH+'''
func TestDemo(t *testing.T) {
	s := &trace.SpanData{StartTime: t0}
	s.Annotations = []trace.Annotation{{Time: t0.Add(1*time.Microsecond), Message: "a"}, {Time: t0.Add(3*time.Microsecond), Message: "b"}}
	r := traceRows(s)
	if r[2].Fields[1] != "     .     2" { t.Fatalf("%q", r) }
}
''',"two events a microsecond apart followed by a third","the time since the previous event is wrong")
B("tracez-truncate-annotation","C46","zpages",[(Z,"	for i := range out {\n		if len(out[i].Fields[2]) > maxTraceMessageLength {","	for i := range out[1:] {\n		if len(out[i].Fields[2]) > maxTraceMessageLength {")],ZH+'''
func TestDemo(t *testing.T) {
	s := &trace.SpanData{StartTime: t0}
	s.Annotations = []trace.Annotation{{Time: t0.Add(1*time.Microsecond), Message: strings.Repeat("a", 2000)}}
	r := traceRows(s)
	if len(r[1].Fields[2]) > 1024 { t.Fatal("long") }
}
''',"a span whose last event has a text of more than 1024 characters","the row is not cut")
B("tracez-parent-shown","C46","zpages",[(Z,"			if r.ParentSpanID != (trace.SpanID{}) {","			if r.ParentSpanID[7] != 0 {")],ZH+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	s := &trace.SpanData{StartTime: t0, ParentSpanID: trace.SpanID{1, 1}}; s.TraceID[0] = 1
	writeTextTraces(&b, traceDataFromSpans("x", []*trace.SpanData{s}))
	if !strings.Contains(b.String(), "parent_span_id: 0101") { t.Fatal(b.String()) }
}
''',"a parent span id whose last byte is zero","the parent is not shown")
B("span-handle-sizes","C47","trace",[("trace/trace_api.go","	s.internal.AddMessageReceiveEvent(messageID, uncompressedByteSize, compressedByteSize)","	if compressedByteSize < 0 {\n		compressedByteSize = uncompressedByteSize\n	}\n	s.internal.AddMessageReceiveEvent(messageID, uncompressedByteSize, compressedByteSize)")],'''package trace
import ("testing")
type zzS struct{ SpanInterface; n int64 }
func (s *zzS) IsRecordingEvents() bool { return true }
func (s *zzS) AddMessageReceiveEvent(a, b, c int64) { s.n = c }
func TestDemo(t *testing.T) {
	z := &zzS{}
	NewSpan(z).AddMessageReceiveEvent(1, 2, -1)
	if z.n != -1 { t.Fatal(z.n) }
}
''',"a receive event with a negative compressed size","the size is replaced on its way to the span")
B("span-handle-status","C47","trace",[("trace/trace_api.go","func (s *Span) SetStatus(status Status) {\n	if !s.IsRecordingEvents() {\n		return\n	}","func (s *Span) SetStatus(status Status) {\n	if !s.IsRecordingEvents() || status == (Status{}) {\n		return\n	}")],'''package trace
import ("testing";"context")
type zzEx struct{ d []*SpanData }
func (e *zzEx) ExportSpan(d *SpanData) { e.d = append(e.d, d) }
func TestDemo(t *testing.T) {
	e := &zzEx{}; RegisterExporter(e); defer UnregisterExporter(e)
	_, s := StartSpan(context.Background(), "x", WithSampler(AlwaysSample()))
	s.SetStatus(Status{Code: 2, Message: "e"})
	s.SetStatus(Status{})
	s.End()
	if e.d[0].Status.Code != 0 { t.Fatal(e.d[0].Status) }
}
''',"a status set to OK after an error","the OK status is not passed on, the span keeps the error")
B("remote-parent-zero","C47","trace",[("trace/trace_api.go","	return DefaultTracer.StartSpanWithRemoteParent(","	if parent == (SpanContext{}) {\n		return DefaultTracer.StartSpan(ctx, name, o...)\n	}\n	return DefaultTracer.StartSpanWithRemoteParent(")],'''package trace
import ("testing";"context")
func TestDemo(t *testing.T) {
	ctx, p := StartSpan(context.Background(), "x")
	_, s := StartSpanWithRemoteParent(ctx, "y", SpanContext{})
	if s.SpanContext().TraceID == p.SpanContext().TraceID { t.Fatal("a child of the local span") }
}
''',"a zero remote parent while the context has a span","the span becomes a child of the local span, which is to be ignored")
B("measure-race-create","C48","stats",[("stats/measure.go","""	mu.Lock()
	defer mu.Unlock()

	if stored, ok := measures[name]; ok {
		return stored
	}
	m :=""","""	mu.RLock()
	stored, ok := measures[name]
	mu.RUnlock()
	if ok {
		return stored
	}
	mu.Lock()
	defer mu.Unlock()
	m :=""")],'''package stats
import ("testing";"fmt";"sync";"runtime")
func TestDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		n := fmt.Sprint("zz", i)
		var ds [4]*measureDescriptor
		var wg sync.WaitGroup
		start := make(chan bool)
		for j := range ds { wg.Add(1); go func(j int) { defer wg.Done(); <-start; runtime.Gosched(); ds[j] = registerMeasureHandle(n, "", "") }(j) }
		close(start)
		wg.Wait()
		for j := range ds { if ds[j] != ds[0] { t.Fatal("two measures of one name") } }
	}
}
''',"two goroutines making a measure of the same new name","they get different measures, recording to one of them is never seen")
B("measure-name-case","C48","stats",[("stats/measure.go","	if stored, ok := measures[name]; ok {\n		return stored","	if stored, ok := measures[name]; ok && stored.unit == unit {\n		return stored")],'''package stats
import ("testing")
func TestDemo(t *testing.T) {
	a := Int64("zz", "", "1"); b := Float64("zz", "", "By")
	if b.Unit() != "1" || a.desc != b.desc { t.Fatal(b.Unit()) }
}
''',"a measure made again with another unit","it is another measure")
B("b3-short-trace","C49","plugin/ochttp",[("plugin/ochttp/propagation/b3/b3.go","	req.Header.Set(TraceIDHeader, hex.EncodeToString(sc.TraceID[:]))","	tid := sc.TraceID[:]\n	if tid[0] == 0 && tid[1] == 0 {\n		tid = tid[8:] // 64 bits\n	}\n	req.Header.Set(TraceIDHeader, hex.EncodeToString(tid))")],'''package ochttp
import ("testing";"net/http";"go.opencensus.io/trace";"go.opencensus.io/plugin/ochttp/propagation/b3")
func TestDemo(t *testing.T) {
	var f b3.HTTPFormat
	r, _ := http.NewRequest("GET", "http://x/", nil)
	sc := trace.SpanContext{TraceID: trace.TraceID{0, 0, 1}, SpanID: trace.SpanID{1, 2}}
	f.SpanContextToRequest(sc, r)
	got, ok := f.SpanContextFromRequest(r)
	if !ok || got.TraceID != sc.TraceID { t.Fatal(got, ok) }
}
''',"a trace id whose first two bytes are zero","the span on the other side is in another trace")
B("grpc-parent-unsampled","C49","plugin/ocgrpc",[("plugin/ocgrpc/trace_common.go","		if haveParent && !s.IsPublicEndpoint {","		if haveParent && !s.IsPublicEndpoint && parent.TraceOptions <= 1 {")],'''package ocgrpc
import ("testing";"context";"go.opencensus.io/trace";"go.opencensus.io/trace/propagation";"google.golang.org/grpc/metadata";"google.golang.org/grpc/stats")
func TestDemo(t *testing.T) {
	sc := trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}, TraceOptions: 3}
	ctx := metadata.NewIncomingContext(context.Background(), metadata.Pairs(traceContextKey, string(propagation.Binary(sc))))
	ctx = (&ServerHandler{}).traceTagRPC(ctx, &stats.RPCTagInfo{FullMethodName: "/a/b"})
	if trace.FromContext(ctx).SpanContext().TraceID != sc.TraceID { t.Fatal("another trace") }
}
''',"a caller with trace options other than the sampled bit","the server's span is in another trace")
B("http-hop-sampled","C49","plugin/ochttp",[("plugin/ochttp/server.go","	if ok && !h.IsPublicEndpoint {","	if p := trace.FromContext(ctx); ok && p != nil && p.SpanContext().TraceID == sc.TraceID {\n		ctx, span = trace.StartSpan(ctx, name,\n			trace.WithSampler(startOpts.Sampler),\n			trace.WithSpanKind(trace.SpanKindServer))\n	} else if ok && !h.IsPublicEndpoint {")],'''package ochttp
import ("testing";"net/http";"net/http/httptest";"context";"go.opencensus.io/trace")
type zzEx struct{ d []*trace.SpanData }
func (e *zzEx) ExportSpan(d *trace.SpanData) { e.d = append(e.d, d) }
func TestDemo(t *testing.T) {
	e := &zzEx{}; trace.RegisterExporter(e); defer trace.UnregisterExporter(e)
	ctx, p := trace.StartSpan(context.Background(), "p", trace.WithSampler(trace.AlwaysSample()))
	r := httptest.NewRequest("GET", "/x", nil)
	_, c := trace.StartSpan(ctx, "c")
	defaultFormat.SpanContextToRequest(c.SpanContext(), r)
	(&Handler{Handler: http.NotFoundHandler(), StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}).ServeHTTP(httptest.NewRecorder(), r.WithContext(ctx))
	if e.d[0].ParentSpanID == p.SpanContext().SpanID { t.Fatal("not a child of the caller") }
}
''',"a request handled in a context that has a span of the caller's trace","the server's span is not a child of the client's span")
M="tag/map_codec.go"
B("decode-overflow","C17","tag",[(M,"	if valueStart <= 0 {","	if valueStart == 0 {")],'''package tag
import ("testing")
func TestDemo(t *testing.T) {
	if m, err := Decode([]byte{0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 'k', 1, 'v'}); err == nil { t.Fatal(m) }
}
''',"a length of more than ten varint bytes","an overlong length is taken as zero")
B("decode-uvarint-wrap","C17","tag",[(M,"	if length > uint64(len(eg.buf)-valueStart) {","	if uint32(length) > uint32(len(eg.buf)-valueStart) {")],'''package tag
import ("testing")
func TestDemo(t *testing.T) {
	if m, err := Decode([]byte{0, 0, 0x81, 0x80, 0x80, 0x80, 0x10, 'k', 1, 'v'}); err == nil { t.Fatal(m) }
}
''',"a length above 2^32","a length is read modulo 2^32 or reads outside the input")
