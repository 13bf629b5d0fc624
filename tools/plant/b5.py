BUGS=[]
def B(id,prop,pkg,edits,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks,race=race))
TC="plugin/ochttp/propagation/tracecontext/propagation.go"
TCH='''package tracecontext
import ("testing";"net/http";"go.opencensus.io/trace";"strings")
var _ = strings.Repeat
var _ trace.SpanContext
func zzReq() *http.Request { r, _ := http.NewRequest("GET", "http://h/", nil); return r }
'''
B("tracestate-last-line","C03",TC.rsplit("/",1)[0],[(TC,'''		return strings.Join(v, ","), commaSeparated
''','''		if !commaSeparated {
			return "", false
		}
		h := v[0]
		for _, x := range v[1:] {
			if x != "" && len(h)+len(x) < maxTracestateLen {
				h += "," + x
			}
		}
		return h, true
''')],TCH+'''
func TestDemo(t *testing.T) {
	r := zzReq()
	r.Header.Set("traceparent", "00-0102030405060708090a0b0c0d0e0f10-0102030405060708-01")
	r.Header["Tracestate"] = []string{"a=" + strings.Repeat("x", 250), "b=" + strings.Repeat("y", 256), "c=" + strings.Repeat("y", 100)}
	sc, ok := (&HTTPFormat{}).SpanContextFromRequest(r)
	if !ok || sc.Tracestate != nil { t.Fatal("an oversized tracestate was cut and accepted") }
}
''',"a tracestate in several header lines that is too long together","an oversized tracestate is accepted in part")
B("traceparent-version-only","C02",TC.rsplit("/",1)[0],[(TC,'''	if version == 0 && len(sections) != 4 {''','''	if version == 0 && len(sections) > 4 && sections[4] != "" {''')],TCH+'''
func TestDemo(t *testing.T) {
	r := zzReq()
	r.Header.Set("traceparent", "00-0102030405060708090a0b0c0d0e0f10-0102030405060708-01-")
	if _, ok := (&HTTPFormat{}).SpanContextFromRequest(r); ok { t.Fatal("accepted") }
}
''',"a version 0 traceparent with a trailing dash","a malformed traceparent is accepted")
B3="plugin/ochttp/propagation/b3/b3.go"
B("b3-sampled-case","C04",B3.rsplit("/",1)[0],[(B3,'''	if err != nil || len(b) > 16 {
		return trace.TraceID{}, false
	}''','''	if len(b) > 16 && err == nil && b[0] == 0 {
		b = b[len(b)-16:]
	}
	if err != nil || len(b) > 16 {
		return trace.TraceID{}, false
	}''')],'''package b3
import "testing"
func TestDemo(t *testing.T) {
	if _, ok := ParseTraceID("000102030405060708090a0b0c0d0e0f10"); ok { t.Fatal("accepted") }
}
''',"a trace id of 17 bytes that begins with a zero","a trace id that is too long is accepted")
B("sampler-remote-parent","C09","trace",[("trace/sampling.go","		if p.ParentContext.IsSampled() {","		if p.ParentContext.IsSampled() && p.ParentContext.TraceID == p.TraceID && p.ParentContext.TraceOptions == 1 {")],'''package trace
import "testing"
func TestDemo(t *testing.T) {
	s := ProbabilitySampler(0)
	if !s(SamplingParameters{ParentContext: SpanContext{TraceID: TraceID{1}, TraceOptions: 3}, TraceID: TraceID{1}}).Sample { t.Fatal("dropped") }
}
''',"a sampled parent with another option bit set","a sampled parent is not kept")
B("idgen-zero-step","C10","trace",[("trace/trace.go",'''	for id == 0 {
		id = atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)
	}''','''	id = atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)
	if id == 0 {
		id = gen.spanIDInc
	}''')],'''package trace
import "testing"
func TestDemo(t *testing.T) {
	g := &defaultIDGenerator{}
	g.init()
	g.nextSpanID = 0 - g.spanIDInc
	a := g.NewSpanID()
	b := g.NewSpanID()
	if a == b { t.Fatal("repeated") }
}
''',"the counter passing zero","an id is given twice")
B("report-shares-annotations","C13","trace",[("trace/trace.go",'''	annotationArr := make([]Annotation, 0, len(s.annotations.queue))
	for''','''	annotationArr := s.data.Annotations[:0]
	if cap(annotationArr) < len(s.annotations.queue) {
		annotationArr = make([]Annotation, 0, s.annotations.capacity)
	}
	defer func() { s.data.Annotations = annotationArr }()
	for''')],'''package trace
import ("testing";"go.opencensus.io/internal";"context")
func TestDemo(t *testing.T) {
	internal.LocalSpanStoreEnabled = true
	defer func() { internal.LocalSpanStoreEnabled = false }()
	ApplyConfig(Config{MaxAnnotationEventsPerSpan: 2})
	_, s := StartSpan(context.Background(), "zz", WithSampler(AlwaysSample()))
	s.Annotate(nil, "1"); s.Annotate(nil, "2")
	r := internalOnly{}.ReportActiveSpans("zz")
	s.Annotate(nil, "3")
	s.End()
	internalOnly{}.ReportActiveSpans("zz")
	if r[0].Annotations[0].Message != "1" { t.Fatal("the report changed") }
}
''',"a report of an active span, then another annotation and the end","the earlier report changes")
B("store-create-race","C14","trace",[("trace/spanstore.go",'''	ssmu.Lock()
	defer ssmu.Unlock()
	s, ok = spanStores[name]
	if ok {
		return s
	}
	s = newSpanStore(name, defaultBucketSize, defaultBucketSize)
	spanStores[name] = s
	return s''','''	s = newSpanStore(name, defaultBucketSize, defaultBucketSize)
	ssmu.Lock()
	defer ssmu.Unlock()
	spanStores[name] = s
	return s''')],'''package trace
import ("testing";"go.opencensus.io/internal";"context";"sync";"fmt")
func TestDemo(t *testing.T) {
	internal.LocalSpanStoreEnabled = true
	defer func() { internal.LocalSpanStoreEnabled = false }()
	for i := 0; i < 3000; i++ {
		n := fmt.Sprint("zz", i)
		var wg, st sync.WaitGroup
		st.Add(1)
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() { defer wg.Done(); st.Wait(); StartSpan(context.Background(), n) }()
		}
		st.Done()
		wg.Wait()
		if l := len(internalOnly{}.ReportActiveSpans(n)); l != 8 { t.Fatal(l) }
	}
}
''',"two first spans of a name started at once","an active span is not reported")
B("exporter-unregister-inplace","C15","trace",[("trace/export.go",'''	delete(new, e)
	exporters.Store(new)''','''	if old, ok := exporters.Load().(exportersMap); ok && len(new) == 1 {
		delete(old, e)
	}
	delete(new, e)
	exporters.Store(new)''')],'''package trace
import ("testing";"context")
type zzExp struct{ f func() }
func (e *zzExp) ExportSpan(*SpanData) { if e.f != nil { e.f() } }
func TestDemo(t *testing.T) {
	done := make(chan bool)
	e := &zzExp{}
	RegisterExporter(e)
	go func() { for i := 0; i < 2000; i++ { _, s := StartSpan(context.Background(), "x", WithSampler(AlwaysSample())); s.End() }; close(done) }()
	for i := 0; i < 2000; i++ { UnregisterExporter(e); RegisterExporter(e) }
	<-done
}
''',"unregistering the only exporter while a span ends","the map being read is written",race=True)
B("tag-wire-one-byte-len","C16","tag",[("tag/map_codec.go",'''	eg.writeIdx += binary.PutUvarint(eg.buf[eg.writeIdx:], uint64(length))
	copy(eg.buf[eg.writeIdx:], bytes)''','''	if length == 255 {
		eg.writeIdx += binary.PutUvarint(eg.buf[eg.writeIdx:], 127)
	}
	eg.writeIdx += binary.PutUvarint(eg.buf[eg.writeIdx:], uint64(length))
	copy(eg.buf[eg.writeIdx:], bytes)''')],'''package tag
import ("testing";"context";"strings")
func TestDemo(t *testing.T) {
	k, _ := NewKey("k")
	v := strings.Repeat("x", 255)
	ctx, _ := New(context.Background(), Insert(k, v))
	m, err := Decode(Encode(FromContext(ctx)))
	if err != nil { t.Fatal(err) }
	if x, _ := m.Value(k); x != v { t.Fatal(x) }
}
''',"a value of 255 bytes","the value does not survive")
B("tag-codec-varint-two-sites","C16","tag",[("tag/map_codec.go",'''	eg.writeIdx += binary.PutUvarint(eg.buf[eg.writeIdx:], uint64(length))
	copy(eg.buf[eg.writeIdx:], bytes)''','''	if length < 256 { // tag values
		eg.buf[eg.writeIdx] = byte(length)
		eg.writeIdx++
	}
	copy(eg.buf[eg.writeIdx:], bytes)'''),("tag/map_codec.go",'''		v, err := eg.readBytesWithVarintLen()
		if err != nil {
			return err
		}

		key,''','''		if eg.readEnded() {
			return fmt.Errorf("unexpected end")
		}
		n := int(eg.readByte())
		if n > len(eg.buf)-eg.readIdx {
			return fmt.Errorf("malformed encoding")
		}
		v := eg.buf[eg.readIdx : eg.readIdx+n]
		eg.readIdx += n

		key,''')],'''package tag
import ("testing";"context";"strings")
func TestDemo(t *testing.T) {
	k, _ := NewKey("k")
	v := strings.Repeat("x", 200)
	ctx, _ := New(context.Background(), Insert(k, v))
	b := Encode(FromContext(ctx))
	if len(b) != 1+1+2+2+200 || b[4] != 200 || b[5] != 1 { t.Fatalf("%d %x", len(b), b[:8]) }
}
''',"a value of 128 or more bytes and a peer of another version or language","the wire form of long values is another one")
B("tag-insert-empty","C18","tag",[("tag/map.go",'''	if _, ok := m.m[k]; ok {
		return
	}''','''	if t, ok := m.m[k]; ok && (t.value != "" || t.m == md) {
		return
	}''')],'''package tag
import ("testing";"context")
func TestDemo(t *testing.T) {
	k, _ := NewKey("k")
	ctx, _ := New(context.Background(), Insert(k, "", WithTTL(TTLNoPropagation)), Insert(k, "x"))
	if v, ok := FromContext(ctx).Value(k); !ok || v != "" { t.Fatal(v) }
}
''',"insert after a tag with an empty value and another TTL","insert changes an existing tag")
B("rows-cache","C22","stats/view",[("stats/view/collector.go",'''	a *Aggregation
}''','''	a *Aggregation
	// rows of the last retrieval, until something is recorded
	rows []*Row
}'''),("stats/view/collector.go",'''	aggregator, ok := c.signatures[s]''','''	c.rows = nil
	aggregator, ok := c.signatures[s]'''),("stats/view/collector.go",'''	rows := make([]*Row, 0, len(c.signatures))''','''	if c.rows != nil {
		return c.rows
	}
	rows := make([]*Row, 0, len(c.signatures))'''),("stats/view/collector.go",'''		rows = append(rows, row)
	}
	return rows''','''		rows = append(rows, row)
	}
	c.rows = rows
	return rows'''),("stats/view/collector.go",'''	c.signatures = make(map[string]AggregationData)''','''	c.rows = nil
	c.signatures = make(map[string]AggregationData)'''),("stats/view/view.go","&collector{make(map[string]AggregationData), v.Aggregation}","&collector{signatures: make(map[string]AggregationData), a: v.Aggregation}")],'''package view
import ("testing";"go.opencensus.io/stats")
func TestDemo(t *testing.T) {
	m := stats.Int64("zz", "", "1")
	w := NewMeter(); w.Start(); defer w.Stop()
	w.Register(&View{Name: "zz", Measure: m, Aggregation: Sum()})
	w.Record(nil, []stats.Measurement{m.M(1)}, nil)
	a, _ := w.RetrieveData("zz")
	a[0].Data.(*SumData).Value = 7
	b, _ := w.RetrieveData("zz")
	if b[0].Data.(*SumData).Value != 1 { t.Fatal("shared") }
}
''',"two retrievals with nothing recorded in between","the rows of the second are those given to the first reader")
B("unregister-first-measure","C23","stats/view",[("stats/view/worker.go",'''		delete(measure.views, v)
''','''		delete(measure.views, v)
		for o := range measure.views {
			if o.view == v.view || len(o.collector.signatures) == 0 {
				delete(measure.views, o)
			}
		}
''')],'''package view
import ("testing";"go.opencensus.io/stats")
func TestDemo(t *testing.T) {
	m := stats.Int64("zz", "", "1")
	w := NewMeter(); w.Start(); defer w.Stop()
	a, b := &View{Name: "a", Measure: m, Aggregation: Sum()}, &View{Name: "b", Measure: m, Aggregation: Sum()}
	w.Register(a, b)
	w.Unregister(a)
	w.Record(nil, []stats.Measurement{m.M(1)}, nil)
	if r, _ := w.RetrieveData("b"); len(r) != 1 { t.Fatal("not collected") }
}
''',"two views of a measure, one of them unregistered before anything is recorded","the other view is no longer collected")
B("record-dup-measure","C24","stats/view",[("stats/view/worker_commands.go",'''	for _, m := range cmd.ms {
''','''	for i, m := range cmd.ms {
		if i > 0 && m == cmd.ms[i-1] { // as before
			continue
		}
''')],'''package view
import ("testing";"go.opencensus.io/stats")
func TestDemo(t *testing.T) {
	m := stats.Int64("zz", "", "1")
	w := NewMeter(); w.Start(); defer w.Stop()
	w.Register(&View{Name: "zz", Measure: m, Aggregation: Count()})
	w.Record(nil, []stats.Measurement{m.M(1), m.M(1)}, nil)
	r, _ := w.RetrieveData("zz")
	if r[0].Data.(*CountData).Value != 2 { t.Fatal("lost") }
}
''',"the same measurement twice in one call","a measurement is lost")
B("dist-squared-first","C20","stats/view",[("stats/view/aggregation_data.go",'''	oldMean := a.Mean
''','''	oldMean := a.Mean
	if v == oldMean {
		return // nothing changes
	}
''')],'''package view
import ("testing";"go.opencensus.io/stats")
func TestDemo(t *testing.T) {
	m := stats.Int64("zz", "", "1")
	w := NewMeter(); w.Start(); defer w.Stop()
	w.Register(&View{Name: "zz", Measure: m, Aggregation: Distribution(5)})
	w.Record(nil, []stats.Measurement{m.M(1), m.M(1)}, nil)
	r, _ := w.RetrieveData("zz")
	if d := r[0].Data.(*DistributionData); d.Count != 2 || d.Mean != 1 { t.Fatal(d) }
}
''',"none","none")
BUGS.pop()
B("dist-nan-bucket-bound","C20","stats/view",[("stats/view/aggregation_data.go",'''		if v < b {
			count''','''		if v < b || i > 0 && v == b && i == len(a.bounds)-1 {
			count''')],'''package view
import ("testing";"go.opencensus.io/stats")
func TestDemo(t *testing.T) {
	m := stats.Int64("zz", "", "1")
	w := NewMeter(); w.Start(); defer w.Stop()
	w.Register(&View{Name: "zz", Measure: m, Aggregation: Distribution(5, 7)})
	w.Record(nil, []stats.Measurement{m.M(7)}, nil)
	r, _ := w.RetrieveData("zz")
	if d := r[0].Data.(*DistributionData); d.CountPerBucket[2] != 1 { t.Fatal(d) }
}
''',"a value equal to the last of several bounds","it is counted in the bucket below")
B("label-absent-empty","C26","metric",[("metric/common.go",'''		if v.Present {
			b[0] = 1''','''		if v.Present && (v.Value != "" || len(labelVals) == 1) {
			b[0] = 1''')],'''package metric
import ("testing";"go.opencensus.io/metric/metricdata")
func TestDemo(t *testing.T) {
	r := NewRegistry()
	g, _ := r.AddInt64Gauge("g", WithLabelKeys("a", "b"))
	x, _ := g.GetEntry(metricdata.NewLabelValue(""), metricdata.NewLabelValue("y"))
	y, _ := g.GetEntry(metricdata.LabelValue{}, metricdata.NewLabelValue("y"))
	if x == y { t.Fatal("one series") }
}
''',"an empty label value next to another one","an empty and an absent value are one series")
B("derived-upsert-gap","C28","metric",[("metric/common.go",'''	bm.vals.Store(mapKey, newEntry())
	return nil''','''	if _, ok := bm.vals.Load(mapKey); ok {
		bm.vals.Delete(mapKey)
	}
	bm.vals.Store(mapKey, newEntry())
	return nil''')],'''package metric
import "testing"
func TestDemo(t *testing.T) {
	r := NewRegistry()
	g, _ := r.AddInt64DerivedGauge("g")
	g.UpsertEntry(func() int64 { return 1 })
	stop := make(chan bool)
	go func() { for { select { case <-stop: return; default: g.UpsertEntry(func() int64 { return 1 }) } } }()
	defer close(stop)
	for i := 0; i < 300000; i++ {
		if len(r.Read()[0].TimeSeries) != 1 { t.Fatal("lost") }
	}
}
''',"a read while the callback is replaced","the series is missing from the read")
B("cum-int-store","C27","metric",[("metric/common.go",'''	entry, _ := bm.vals.LoadOrStore(mapKey, newEntry())
	return entry, nil''','''	entry := newEntry()
	bm.vals.Store(mapKey, entry)
	return entry, nil''')],'''package metric
import ("testing";"sync";"fmt";"go.opencensus.io/metric/metricdata")
func TestDemo(t *testing.T) {
	r := NewRegistry()
	c, _ := r.AddInt64Cumulative("c", WithLabelKeys("k"))
	for i := 0; i < 5000; i++ {
		var wg, st sync.WaitGroup
		st.Add(1)
		l := metricdata.NewLabelValue(fmt.Sprint(i))
		for k := 0; k < 4; k++ { wg.Add(1); go func() { defer wg.Done(); st.Wait(); e, _ := c.GetEntry(l); e.Inc(1) }() }
		st.Done()
		wg.Wait()
		e, _ := c.GetEntry(l)
		if e.val != 4 { t.Fatal(e.val) }
	}
}
''',"two first lookups of a series at once","an increment is lost")
ST="plugin/ochttp/server.go"
OH='''package ochttp
import ("testing";"net/http";"net/http/httptest";"io/ioutil";"strings";"bytes";"context";"go.opencensus.io/trace";"go.opencensus.io/stats/view";"go.opencensus.io/tag")
var _ = bytes.NewReader
var _ = strings.Repeat
var _ = ioutil.ReadAll
var _ = context.Background
var _ tag.Key
var _ *view.View
type zzExp struct{ s []*trace.SpanData }
func (e *zzExp) ExportSpan(s *trace.SpanData) { e.s = append(e.s, s) }
var _ http.Handler
var _ httptest.Server
'''
B("server-readfrom-double","C33","plugin/ochttp",[(ST,'''	n, err := r.rf.ReadFrom(src)
	r.t.respSize += n''','''	n, err := r.rf.ReadFrom(src)
	if err == nil {
		r.t.respSize += n
	}''')],OH+'''
type zzW struct{ http.ResponseWriter }
func (w zzW) ReadFrom(r interface{ Read([]byte) (int, error) }) (int64, error) { return 5, http.ErrBodyNotAllowed }
type zzRF struct{ *httptest.ResponseRecorder }
func TestDemo(t *testing.T) {
	tr := &trackingResponseWriter{ctx: context.Background(), writer: httptest.NewRecorder()}
	trackingReaderFrom{t: tr, rf: zzFrom{}}.ReadFrom(nil)
	if tr.respSize != 5 { t.Fatal(tr.respSize) }
}
type zzFrom struct{}
func (zzFrom) ReadFrom(ioR) (int64, error) { return 5, http.ErrBodyNotAllowed }
'''.replace("zzFrom) ReadFrom(ioR)","zzFrom) ReadFrom(r io.Reader)").replace("type zzW struct{ http.ResponseWriter }\nfunc (w zzW) ReadFrom(r interface{ Read([]byte) (int, error) }) (int64, error) { return 5, http.ErrBodyNotAllowed }\n","").replace("type zzRF struct{ *httptest.ResponseRecorder }\n",""),"a copy into the response that fails half way","the bytes that were sent are not counted")
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('"net/http";','"net/http";"io";',1)
B("server-status-flush-1xx","C33","plugin/ochttp",[(ST,'''	t.writer.WriteHeader(statusCode)
''','''	if statusCode >= 200 || t.statusCode < 200 {
		t.writer.WriteHeader(statusCode)
	}
'''),(ST,'''	f.fl.Flush()
''','''	if f.t.respSize > 0 {
		f.fl.Flush()
	}
''')],OH+'''
type zzF struct{ http.ResponseWriter; n int }
func (f *zzF) Flush() { f.n++ }
func TestDemo(t *testing.T) {
	f := &zzF{ResponseWriter: httptest.NewRecorder()}
	r := httptest.NewRequest("GET", "/x", nil)
	(&Handler{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.(http.Flusher).Flush() })}).ServeHTTP(f, r)
	if f.n != 1 { t.Fatal("not flushed") }
}
''',"a flush before anything is written","the flush does not reach the server's writer")
BUGS[-1]['prop']="C32"; BUGS[-1]['edits']=BUGS[-1]['edits'][1:]; BUGS[-1]['id']="flush-empty"
B("client-nobody-size","C34","plugin/ochttp",[("plugin/ochttp/client_stats.go",'''		if t.respSize == 0 && t.respContentLength > 0 {''','''		if t.respSize < t.respContentLength && t.respContentLength > 0 {''')],OH+'''
type zzB struct{}
func (zzB) RoundTrip(r *http.Request) (*http.Response, error) { return &http.Response{StatusCode: 200, ContentLength: 5, Body: ioutil.NopCloser(strings.NewReader("abcde")), Request: r}, nil }
func TestDemo(t *testing.T) {
	v := &view.View{Name: "zz", Measure: ClientReceivedBytes, Aggregation: view.Sum()}
	view.Register(v); defer view.Unregister(v)
	r, _ := http.NewRequest("GET", "http://h/", nil)
	resp, _ := (&Transport{Base: zzB{}}).RoundTrip(r)
	resp.Body.Read(make([]byte, 2))
	resp.Body.Close()
	rows, _ := view.RetrieveData("zz")
	if rows[0].Data.(*view.SumData).Value != 2 { t.Fatal(rows[0]) }
}
''',"a response that is closed before all of it was read","more bytes are counted than were read")
B("client-eof-once","C34","plugin/ochttp",[("plugin/ochttp/trace.go",'''	n, err := bt.rc.Read(b)

	switch''','''	n, err := bt.rc.Read(b)
	if n > 0 && err == io.EOF {
		err = nil // the next read tells
	}

	switch''')],OH+'''
type zzR struct{ n int }
func (r *zzR) Read(b []byte) (int, error) { r.n++; b[0] = 'x'; return 1, ioEOF }
func (r *zzR) Close() error { return nil }
type zzB struct{ r *zzR }
func (z zzB) RoundTrip(r *http.Request) (*http.Response, error) { return &http.Response{StatusCode: 200, Body: z.r, Request: r}, nil }
func TestDemo(t *testing.T) {
	z := &zzR{}
	r, _ := http.NewRequest("GET", "http://h/", nil)
	resp, _ := (&Transport{Base: zzB{z}}).RoundTrip(r)
	if _, err := resp.Body.Read(make([]byte, 2)); err != ioEOF { t.Fatal(err) }
}
'''.replace("ioEOF","io.EOF"),"a body that gives its last bytes together with EOF","the caller does not see the result of the read")
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('"net/http";','"net/http";"io";',1)
B("grpc-status-unwrapped","C35","plugin/ocgrpc",[("plugin/ocgrpc/trace_common.go",'''				span.SetStatus(trace.Status{Code: int32(s.Code()), Message: s.Message()})''','''				if c := int32(s.Code()); c >= 0 && c <= 16 {
					span.SetStatus(trace.Status{Code: c, Message: s.Message()})
				} else {
					span.SetStatus(trace.Status{Code: int32(codes.Unknown), Message: s.Message()})
				}''')],'''package ocgrpc
import ("testing";"context";"google.golang.org/grpc/stats";"google.golang.org/grpc/status";"google.golang.org/grpc/codes";"go.opencensus.io/trace")
type zzExp struct{ s []*trace.SpanData }
func (e *zzExp) ExportSpan(s *trace.SpanData) { e.s = append(e.s, s) }
func TestDemo(t *testing.T) {
	e := &zzExp{}
	trace.RegisterExporter(e); defer trace.UnregisterExporter(e)
	h := &ClientHandler{StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	ctx := h.TagRPC(context.Background(), &stats.RPCTagInfo{FullMethodName: "/a/b"})
	h.HandleRPC(ctx, &stats.Begin{Client: true})
	h.HandleRPC(ctx, &stats.End{Client: true, Error: status.Error(codes.Code(99), "m")})
	if e.s[0].Status.Code != 99 { t.Fatal(e.s[0].Status) }
}
''',"a status code of the application's own","the span's status is another one")