BUGS=[]
def B(id,prop,pkg,edits,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks,race=race))
PR="trace/propagation/propagation.go"
B("binary-short-span","C01","trace/propagation",[(PR,'''	if len(b) >= 9 && b[0] == 1 {
		copy(sc.SpanID[:], b[1:9])
		b = b[9:]
	}''','''	if len(b) > 1 && b[0] == 1 {
		n := copy(sc.SpanID[:], b[1:])
		b = b[1+n:]
	}''')],'''package propagation
import ("testing";"go.opencensus.io/trace")
func TestDemo(t *testing.T) {
	b := Binary(trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{1, 2, 3, 4, 5, 6, 7, 8}})
	sc, _ := FromBinary(b[:23])
	if sc.SpanID != (trace.SpanID{}) { t.Fatal(sc.SpanID) }
}
''',"an encoding cut inside the span id","an incomplete field is taken")
B("binary-empty-trace","C01","trace/propagation",[(PR,"	if sc == (trace.SpanContext{}) {","	if sc.TraceID == (trace.TraceID{}) && sc.TraceOptions == 0 {")],'''package propagation
import ("testing";"go.opencensus.io/trace")
func TestDemo(t *testing.T) {
	sc := trace.SpanContext{SpanID: trace.SpanID{1}}
	if got, ok := FromBinary(Binary(sc)); !ok || got != sc { t.Fatal(got, ok) }
}
''',"a context with a span id only","the span id is lost")
TS="trace/tracestate/tracestate.go"
B("tracestate-limit-first","C05","trace/tracestate",[(TS,'''	for _, entry := range entries {
		ts.remove(entry.Key)
	}
	if len(ts.entries)+len(entries) > maxKeyValuePairs {''','''	n := len(ts.entries)
	for _, entry := range entries {
		ts.remove(entry.Key)
	}
	if n+len(entries) > maxKeyValuePairs+1 || len(ts.entries)+len(entries) > maxKeyValuePairs {''')],'''package tracestate
import ("testing";"fmt")
func TestDemo(t *testing.T) {
	var es []Entry
	for i := 0; i < 32; i++ { es = append(es, Entry{fmt.Sprintf("k%d", i), "v"}) }
	p, err := New(nil, es...)
	if err != nil { t.Fatal(err) }
	if _, err := New(p, Entry{"k1", "w"}, Entry{"k2", "w"}); err != nil { t.Fatal(err) }
}
''',"two entries replaced in a full tracestate","a valid tracestate is refused")
T="trace/trace.go"
TH='''package trace
import ("testing";"context";"sync")
var _ sync.Mutex
type zzExp struct{ got []*SpanData }
func (e *zzExp) ExportSpan(d *SpanData) { e.got = append(e.got, d) }
var _ = context.Background
'''
B("remote-parent-local-trace","C07","trace",[(T,'''	span := startSpanInternal(name, parent != SpanContext{}, parent, true, opts)''','''	remote := true
	if p := t.FromContext(ctx); p != nil {
		// The parent may turn out to be a span of this process.
		remote = p.SpanContext() != parent
	}
	span := startSpanInternal(name, parent != SpanContext{}, parent, remote, opts)''')],TH+'''
func TestDemo(t *testing.T) {
	ctx, p := StartSpan(context.Background(), "p", WithSampler(AlwaysSample()))
	e := &zzExp{}
	RegisterExporter(e); defer UnregisterExporter(e)
	_, s := StartSpanWithRemoteParent(ctx, "s", p.SpanContext(), WithSampler(AlwaysSample()))
	s.End()
	if !e.got[0].HasRemoteParent { t.Fatal("not remote") }
}
''',"a remote parent that is also the current span of the context","the remote parent mark is missing")
B("sampler-parent-tracestate","C08","trace",[(T,"			ParentContext:   parent,","			ParentContext:   SpanContext{TraceID: parent.TraceID, SpanID: parent.SpanID, TraceOptions: parent.TraceOptions},")],TH+'''
import "go.opencensus.io/trace/tracestate"
func TestDemo(t *testing.T) {
	ts, _ := tracestate.New(nil, tracestate.Entry{Key: "a", Value: "b"})
	p := SpanContext{TraceID: TraceID{1}, SpanID: SpanID{2}, Tracestate: ts}
	StartSpanWithRemoteParent(context.Background(), "s", p, WithSampler(func(q SamplingParameters) SamplingDecision {
		if q.ParentContext != p { t.Fatal(q.ParentContext) }
		return SamplingDecision{}
	}))
}
'''.replace('\nimport "go.opencensus.io/trace/tracestate"',''),"a parent with a tracestate and a sampler that reads it","the sampler sees another parent")
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('"context";"sync"','"context";"sync";"go.opencensus.io/trace/tracestate"')
B("end-no-exporter-again","C11","trace",[(T,'''	s.endOnce.Do(func() {
		exp, _ := exporters.Load().(exportersMap)
''','''	if exp, _ := exporters.Load().(exportersMap); len(exp) == 0 && s.spanStore == nil {
		return
	}
	s.endOnce.Do(func() {
		exp, _ := exporters.Load().(exportersMap)
''')],TH+'''
func TestDemo(t *testing.T) {
	_, s := StartSpan(context.Background(), "s", WithSampler(AlwaysSample()))
	s.End()
	e := &zzExp{}
	RegisterExporter(e); defer UnregisterExporter(e)
	s.End()
	if len(e.got) != 0 { t.Fatal("a span that had ended is exported later") }
}
''',"End called again after the first exporter was registered","a span that ended before is exported")
B("attr-batch-reversed","C12","trace",[(T,'''	for _, a := range attributes {
		s.lruAttributes.add(a.key, a.value)
	}''','''	for i := range attributes {
		a := attributes[len(attributes)-1-i]
		s.lruAttributes.add(a.key, a.value)
	}''')],TH+'''
func TestDemo(t *testing.T) {
	e := &zzExp{}
	RegisterExporter(e); defer UnregisterExporter(e)
	_, s := StartSpan(context.Background(), "s", WithSampler(AlwaysSample()))
	s.AddAttributes(Int64Attribute("k", 1), Int64Attribute("k", 2))
	s.End()
	if e.got[0].Attributes["k"] != int64(2) { t.Fatal(e.got[0].Attributes) }
}
''',"one key twice in one call, or more attributes than the limit in one call","an older value is kept")
MC="tag/map_codec.go"
B("decode-trailing-byte","C17","tag",[(MC,"	for !eg.readEnded() {","	for len(eg.buf)-eg.readIdx > 1 {")],'''package tag
import "testing"
func TestDemo(t *testing.T) {
	if _, err := Decode([]byte{0, 0, 1, 'k', 1, 'v', 7}); err == nil { t.Fatal("accepted") }
}
''',"one stray byte after the last tag","malformed input is accepted")
B("tag-update-absent","C19","tag",[("tag/map.go",'''			if !checkValue(v) {
				return nil, errInvalidValue
			}
			m.update(k, v''','''			if _, ok := m.m[k]; ok && !checkValue(v) {
				return nil, errInvalidValue
			}
			m.update(k, v''')],'''package tag
import ("testing";"context")
func TestDemo(t *testing.T) {
	if _, err := New(context.Background(), Update(MustNewKey("k"), "\\x00")); err == nil { t.Fatal("accepted") }
}
''',"an update of an absent key with an invalid value","the invalid value is not refused")
B("rows-trailing-space","C21","stats/view",[("stats/view/collector.go",'''		v, _ := m.Value(k)
		vb.WriteValue([]byte(v))''','''		v, _ := m.Value(k)
		for len(v) > 0 && v[len(v)-1] == ' ' {
			v = v[:len(v)-1]
		}
		vb.WriteValue([]byte(v))''')],'''package view
import ("testing";"context";"go.opencensus.io/stats";"go.opencensus.io/tag")
func TestDemo(t *testing.T) {
	k := tag.MustNewKey("zk")
	m := stats.Int64("zz", "", "")
	Register(&View{Name: "zz", Measure: m, Aggregation: Count(), TagKeys: []tag.Key{k}})
	for _, v := range []string{"a", "a "} {
		ctx, _ := tag.New(context.Background(), tag.Insert(k, v))
		stats.Record(ctx, m.M(1))
	}
	if r, _ := RetrieveData("zz"); len(r) != 2 { t.Fatal(r) }
}
''',"tag values that differ in a trailing space","two combinations are merged")
B("resource-type-only","C36","resource",[("resource/resource.go",'''	if b == nil {
		return a
	}''','''	if b == nil {
		return a
	}
	if len(a.Labels) == 0 && b.Type != "" {
		return b
	}''')],'''package resource
import ("testing";"context")
func TestDemo(t *testing.T) {
	d := func(r *Resource) Detector { return func(context.Context) (*Resource, error) { return r, nil } }
	r, _ := MultiDetector(d(&Resource{Type: "a"}), d(&Resource{Type: "b", Labels: map[string]string{"k": "v"}}))(context.Background())
	if r.Type != "a" { t.Fatal(r) }
}
''',"a first resource with a type and no labels","a later type wins")
B("sanitize-single","C37","internal",[("internal/sanitize.go","	if s[0] == '_' {","	if s[0] == '_' && len(s) > 1 {")],'''package internal
import "testing"
func TestDemo(t *testing.T) { if Sanitize("/") != "key_" { t.Fatal(Sanitize("/")) } }
''',"a name of one character that is no letter or digit","the name does not start with a letter")
B("rpcz-cancelled","C38","zpages",[("zpages/rpcz.go",'''				if tag.Key == ocgrpc.KeyServerStatus && tag.Value != "OK" {''','''				if tag.Key == ocgrpc.KeyServerStatus && tag.Value != "OK" && tag.Value != "CANCELLED" {''')],'''package zpages
import ("testing";"go.opencensus.io/stats/view";"go.opencensus.io/plugin/ocgrpc";"go.opencensus.io/tag")
func TestDemo(t *testing.T) {
	snapExporter{}.ExportView(&view.Data{View: ocgrpc.ServerCompletedRPCsView, Rows: []*view.Row{{Tags: []tag.Tag{{Key: ocgrpc.KeyServerMethod, Value: "zz"}, {Key: ocgrpc.KeyServerStatus, Value: "CANCELLED"}}, Data: &view.CountData{Value: 3}}}})
	if n := snaps[methodKey{"zz", true}].ErrorsTotal; n != 3 { t.Fatal(n) }
}
''',"cancelled calls of a server","they are not counted as failed")
B("runmetrics-forced-gc","C39","plugin/runmetrics",[("plugin/runmetrics/producer.go",'''		return int64(m.memStats.NumForcedGC)''','''		return int64(m.memStats.NumGC)''')],'''package runmetrics
import ("testing";"go.opencensus.io/metric/metricproducer";"runtime")
func TestDemo(t *testing.T) {
	if err := Enable(RunMetricOptions{EnableMemory: true, UseDerivedCumulative: true}); err != nil { t.Fatal(err) }
	defer Disable()
	x := make([][]byte, 0)
	for i := 0; i < 200; i++ { x = append(x, make([]byte, 1<<20)); if i%20 == 0 { x = nil } }
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.NumGC == ms.NumForcedGC { t.Skip() }
	for _, p := range metricproducer.GlobalManager().GetAll() {
		for _, m := range p.Read() {
			if m.Descriptor.Name == "process/num_forced_gc" && m.TimeSeries[0].Points[0].Value.(int64) != int64(ms.NumForcedGC) { t.Fatal(m.TimeSeries[0].Points[0].Value, ms.NumForcedGC) }
		}
	}
}
''',"the derived cumulative mode, after a collection that was not forced","another statistic is reported")
W="stats/view/worker_commands.go"
B("clear-unlocked","C40","stats/view",[(W,'''			w.mu.Lock()
			vi.clearRows()
			w.mu.Unlock()''','''			vi.clearRows()''')],'''package view
import ("testing";"context";"go.opencensus.io/stats")
func TestDemo(t *testing.T) {
	m := stats.Int64("zz", "", "")
	v := &View{Name: "zz", Measure: m, Aggregation: Count()}
	done := make(chan bool)
	go func() { for { select { case <-done: return; default: defaultWorker.Read() } } }()
	for i := 0; i < 3000; i++ {
		Register(v)
		stats.Record(context.Background(), m.M(1))
		Unregister(v)
	}
	close(done)
}
''',"a view unregistered while its metrics are read","a data race",True)
B("span-name-unlocked","C41","trace",[(T,'''	s.mu.Lock()
	s.data.Name = name
	s.mu.Unlock()''','''	s.data.Name = name''')],TH+'''
func TestDemo(t *testing.T) {
	_, s := StartSpan(context.Background(), "s", WithSampler(AlwaysSample()))
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ { go func() { for j := 0; j < 1000; j++ { s.SetName("x") }; wg.Done() }() }
	wg.Wait()
}
''',"two goroutines naming one span","a data race",True)
B("period-zero-keeps","C43","stats/view",[(W,'''	w.timer.Stop()
	if cmd.d <= 0 {
		w.timer = time.NewTicker(defaultReportingDuration)
	} else {
		w.timer = time.NewTicker(cmd.d)
	}''','''	if cmd.d >= 0 {
		w.timer.Stop()
		if cmd.d == 0 {
			cmd.d = defaultReportingDuration
		}
		w.timer = time.NewTicker(cmd.d)
	}''')],'''package view
import ("testing";"time";"sync/atomic")
type zzE struct{ n int64 }
func (e *zzE) ExportView(*Data) { atomic.AddInt64(&e.n, 1) }
func TestDemo(t *testing.T) {
	m := NewMeter()
	m.Start(); defer m.Stop()
	e := &zzE{}
	m.RegisterExporter(e)
	m.Register(&View{Name: "zz", Measure: zzM, Aggregation: Count()})
	m.SetReportingPeriod(time.Millisecond)
	m.SetReportingPeriod(-1)
	time.Sleep(20 * time.Millisecond)
	n := atomic.LoadInt64(&e.n)
	time.Sleep(300 * time.Millisecond)
	if atomic.LoadInt64(&e.n) != n { t.Fatal("reports go on") }
}
var zzM = zzStats.Int64("zz", "", "")
''',"a negative period set after another one","the period is not the default")
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('"sync/atomic")','"sync/atomic";zzStats "go.opencensus.io/stats")')
AN="plugin/ochttp/span_annotating_client_trace.go"
B("annotate-connect-only-error","C45","plugin/ochttp",[(AN,'''	if err != nil {
		attrs = append(attrs,
			trace.StringAttribute("httptrace.connect_done.error", err.Error()))
	}''','''	if err != nil {
		attrs = append(attrs[:1],
			trace.StringAttribute("httptrace.connect_done.error", err.Error()))
	}''')],'''package ochttp
import ("testing";"context";"errors";"go.opencensus.io/trace")
type zzE struct{ d *trace.SpanData }
func (e *zzE) ExportSpan(d *trace.SpanData) { e.d = d }
func TestDemo(t *testing.T) {
	e := &zzE{}
	trace.RegisterExporter(e); defer trace.UnregisterExporter(e)
	_, s := trace.StartSpan(context.Background(), "s", trace.WithSampler(trace.AlwaysSample()))
	NewSpanAnnotatingClientTrace(nil, s).ConnectDone("tcp", "a:1", errors.New("x"))
	s.End()
	if len(e.d.Annotations[0].Attributes) != 3 { t.Fatal(e.d.Annotations) }
}
''',"a connection that fails","its address is not recorded")
B("start-two-options","C47","trace",[("trace/trace_api.go","	return DefaultTracer.StartSpanWithRemoteParent(ctx, name, parent, o...)",'''	if len(o) > 2 {
		o = append(o[:1:1], o[len(o)-1])
	}
	return DefaultTracer.StartSpanWithRemoteParent(ctx, name, parent, o...)''')],TH+'''
func TestDemo(t *testing.T) {
	e := &zzExp{}
	RegisterExporter(e); defer UnregisterExporter(e)
	_, s := StartSpanWithRemoteParent(context.Background(), "s", SpanContext{}, WithSampler(AlwaysSample()), WithSpanKind(SpanKindServer), func(*StartOptions) {})
	s.End()
	if e.got[0].SpanKind != SpanKindServer { t.Fatal(e.got[0].SpanKind) }
}
''',"three start options","the second is dropped")
B("measure-desc-fill","C48","stats",[("stats/measure.go",'''	if stored, ok := measures[name]; ok {
		return stored''','''	if stored, ok := measures[name]; ok {
		if stored.description == "" {
			stored.description = desc
		}
		return stored''')],'''package stats
import "testing"
func TestDemo(t *testing.T) {
	m := Int64("zz", "", "1")
	Float64("zz", "later", "1")
	if m.Description() != "" { t.Fatal(m.Description()) }
}
''',"a measure first made without a description","its description changes")
SV="plugin/ochttp/server.go"
B("server-local-parent","C49","plugin/ochttp",[(SV,"	if ok && !h.IsPublicEndpoint {","	if ok && !h.IsPublicEndpoint && (trace.FromContext(ctx) == nil || trace.FromContext(ctx).SpanContext().TraceID != sc.TraceID) {")],'''package ochttp
import ("testing";"net/http";"net/http/httptest";"go.opencensus.io/trace";"context")
func TestDemo(t *testing.T) {
	ctx, p := trace.StartSpan(context.Background(), "p", trace.WithSampler(trace.AlwaysSample()))
	_, c := trace.StartSpan(ctx, "c")
	r, _ := http.NewRequest("GET", "http://h/", nil)
	r = r.WithContext(ctx)
	defaultFormat.SpanContextToRequest(c.SpanContext(), r)
	e := &zzE{}
	trace.RegisterExporter(e); defer trace.UnregisterExporter(e)
	(&Handler{Handler: http.HandlerFunc(func(http.ResponseWriter, *http.Request) {}), StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}).ServeHTTP(httptest.NewRecorder(), r)
	if e.d.ParentSpanID != c.SpanContext().SpanID || p == c { t.Fatal("not a child of the caller") }
}
type zzE struct{ d *trace.SpanData }
func (e *zzE) ExportSpan(d *trace.SpanData) { e.d = d }
''',"a server whose request context has a span of the caller's trace","the server span is the child of another span")
VD='''import ("testing";"context";"net/http";"go.opencensus.io/stats/view")
var _ = context.Background
var _ http.Request
'''
B("views-request-bytes","C50","plugin/ochttp",[("plugin/ochttp/stats.go",'''		Description: "Size distribution of HTTP request body",
		Measure:     ClientSentBytes,''','''		Description: "Size distribution of HTTP request body",
		Measure:     ClientRequestBytes,''')],'''package ochttp
'''+VD+'''
type zzRT struct{}
func (zzRT) RoundTrip(r *http.Request) (*http.Response, error) { return &http.Response{StatusCode: 200, Body: http.NoBody}, nil }
func TestDemo(t *testing.T) {
	view.Register(ClientRequestBytesView); defer view.Unregister(ClientRequestBytesView)
	r, _ := http.NewRequest("GET", "http://h/", nil)
	resp, _ := (&Transport{Base: zzRT{}}).RoundTrip(r)
	resp.Body.Close()
	if d, _ := view.RetrieveData(ClientRequestBytesView.Name); len(d) != 1 { t.Fatal(d) }
}
''',"a request without a body","the request is missing from the view")
B("views-started","C50","plugin/ocgrpc",[("plugin/ocgrpc/server_metrics.go",'''		Measure:     ServerStartedRPCs,
		Name:        "grpc.io/server/started_rpcs",''','''		Measure:     ServerSentMessagesPerRPC,
		Name:        "grpc.io/server/started_rpcs",''')],'''package ocgrpc
import ("testing";"context";"go.opencensus.io/stats/view";"google.golang.org/grpc/stats")
func TestDemo(t *testing.T) {
	view.Register(ServerStartedRPCsView); defer view.Unregister(ServerStartedRPCsView)
	h := &ServerHandler{}
	ctx := h.TagRPC(context.Background(), &stats.RPCTagInfo{FullMethodName: "/a/b"})
	h.HandleRPC(ctx, &stats.Begin{})
	if d, _ := view.RetrieveData(ServerStartedRPCsView.Name); len(d) != 1 { t.Fatal(d) }
}
''',"a call that has started and not ended","it is not counted as started")
B("sampler-bound-inclusive","C09","trace",[("trace/sampling.go","x < traceIDUpperBound}","x <= traceIDUpperBound}")],TH+'''
func TestDemo(t *testing.T) {
	if ProbabilitySampler(0)(SamplingParameters{TraceID: TraceID{8: 1}}).Sample { t.Fatal("sampled") }
}
''',"a trace id whose first eight bytes are zero","fraction 0 samples it")
B("b3-short-span","C04","plugin/ochttp/propagation/b3",[("plugin/ochttp/propagation/b3/b3.go",'''	start := 8 - len(b)
	copy(spanID[start:], b)''','''	if len(b) == 7 {
		b = append([]byte{b[0]}, b...)
	}
	start := 8 - len(b)
	copy(spanID[start:], b)''')],'''package b3
import ("testing";"go.opencensus.io/trace")
func TestDemo(t *testing.T) {
	if s, _ := ParseSpanID("01020304050607"); s != (trace.SpanID{0, 1, 2, 3, 4, 5, 6, 7}) { t.Fatal(s) }
}
''',"a span id of seven bytes","another id is read")
