BUGS=[]
def B(id,prop,pkg,edits,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks,race=race))
S="plugin/ochttp/server.go"; TR="plugin/ochttp/trace.go"; CS="plugin/ochttp/client_stats.go"
HD='''package ochttp
import ("testing";"net/http";"net/http/httptest";"io";"strings";"errors";"time";"context";"go.opencensus.io/trace";"go.opencensus.io/stats/view")
var _ = http.StatusOK
var _ = httptest.NewRecorder
var _ io.Reader
var _ = strings.NewReader
var _ = errors.New
var _ = time.Now
var _ = context.Background
var _ = view.Register
type zzEx struct{ d []*trace.SpanData }
func (e *zzEx) ExportSpan(d *trace.SpanData) { e.d = append(e.d, d) }
type zzRT func(*http.Request) (*http.Response, error)
func (f zzRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }
'''
B("ochttp-status-304","C31","plugin/ochttp",[(TR,"if httpStatusCode < 200 || httpStatusCode >= 400 {","if httpStatusCode < 200 || httpStatusCode > 400 && httpStatusCode != 405 {")],HD+'''
func TestDemo(t *testing.T) {
	if s := TraceStatus(405, ""); s.Code != trace.StatusCodeUnknown || s.Message != "UNKNOWN" { t.Fatal(s) }
}
''',"status 405","405 is mapped to OK")
B("ochttp-status-negative","C31","plugin/ochttp",[(TR,"if httpStatusCode < 200 || httpStatusCode >= 400 {","if uint16(httpStatusCode) < 200 || uint16(httpStatusCode) >= 400 {")],HD+'''
func TestDemo(t *testing.T) {
	if s := TraceStatus(65536+200, ""); s.Code != trace.StatusCodeUnknown { t.Fatal(s) }
}
''',"a status code of 65736 or the like","an absurd status code is OK")
B("ochttp-wrap-push-flush","C32","plugin/ochttp",[(S,'''	case !i0 && i1 && i2 && i3 && i4:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{t, cn, pu, fl, rf}''','''	case !i0 && i1 && i2 && i3 && i4:
		return struct {
			http.ResponseWriter
			http.CloseNotifier
			http.Pusher
			io.ReaderFrom
		}{t, cn, pu, rf}''')],HD+'''
type zzW struct{ http.ResponseWriter; http.CloseNotifier; http.Pusher; http.Flusher; io.ReaderFrom }
func TestDemo(t *testing.T) {
	ok := false
	h := &Handler{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { _, ok = w.(http.Flusher) })}
	rec := httptest.NewRecorder()
	h.ServeHTTP(zzW{ResponseWriter: rec, Flusher: rec}, httptest.NewRequest("GET", "/x", nil))
	if !ok { t.Fatal("flush hidden") }
}
''',"a writer with close-notify, push and flush but no hijack","the writer's Flush is hidden")
B("ochttp-body-writer","C32","plugin/ochttp",[("plugin/ochttp/wrapped_body.go","""	case !i0:
		return struct {
			io.ReadCloser
		}{wrapper}

	case i0:""","""	case !i0 || wr == nil:
		return struct {
			io.ReadCloser
		}{wrapper}

	case i0 && wr != wrapper:""") ,("plugin/ochttp/wrapped_body.go","	case i0 && wr != wrapper:","	case i0:") ,("plugin/ochttp/trace.go","resp.Body = wrappedBody(bt, resp.Body)","resp.Body = wrappedBody(bt, bt)")],HD+'''
type zzB struct{ io.Reader }
func (zzB) Close() error { return nil }
func (zzB) Write(b []byte) (int, error) { return len(b), nil }
func TestDemo(t *testing.T) {
	tr := &Transport{Base: zzRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 101, Body: zzB{strings.NewReader("")}}, nil })}
	resp, err := tr.RoundTrip(httptest.NewRequest("GET", "/x", nil))
	if err != nil { t.Fatal(err) }
	if _, ok := resp.Body.(io.Writer); !ok { t.Fatal("not writable") }
}
''',"a writable response body (protocol upgrade)","the body is no longer writable")
B("ochttp-public-remote","C33","plugin/ochttp",[(S,"""		if ok {
			span.AddLink(""","""		if ok && sc.IsSampled() {
			span.AddLink(""")],HD+'''
type zzF struct{ sc trace.SpanContext }
func (f zzF) SpanContextFromRequest(*http.Request) (trace.SpanContext, bool) { return f.sc, true }
func (f zzF) SpanContextToRequest(trace.SpanContext, *http.Request) {}
func TestDemo(t *testing.T) {
	e := &zzEx{}
	trace.RegisterExporter(e)
	defer trace.UnregisterExporter(e)
	h := &Handler{IsPublicEndpoint: true, Propagation: zzF{trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}}},
		StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {})}
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/x", nil))
	if len(e.d) != 1 || len(e.d[0].Links) != 1 { t.Fatal("no link") }
}
''',"a public endpoint and an unsampled incoming context","the incoming context is not linked")
B("ochttp-panic-no-stats","C33","plugin/ochttp",[(S,"""	defer statsEnd(&tags)
	handler := h.Handler""","""	handler := h.Handler"""),(S,"""	handler.ServeHTTP(w, r)
}

func (h *Handler) startTrace""","""	handler.ServeHTTP(w, r)
	statsEnd(&tags)
}

func (h *Handler) startTrace""")],HD+'''
func TestDemo(t *testing.T) {
	e := &zzEx{}
	trace.RegisterExporter(e)
	defer trace.UnregisterExporter(e)
	h := &Handler{StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500); panic("x") })}
	func() { defer func() { recover() }(); h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/x", nil)) }()
	if len(e.d) != 1 || e.d[0].Status.Code != 2 { t.Fatal(e.d) }
}
''',"a handler that panics","the status and the sizes are not recorded")
B("ochttp-short-write","C33","plugin/ochttp",[(S,"	t.respSize += int64(n)\n	// Add","	t.respSize += int64(len(data))\n	// Add")],HD+'''
type zzW struct{ http.ResponseWriter }
func (zzW) Write(b []byte) (int, error) { return 1, errors.New("broken") }
func TestDemo(t *testing.T) {
	view.Register(ServerResponseBytesView)
	defer view.Unregister(ServerResponseBytesView)
	h := &Handler{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("abc")) })}
	h.ServeHTTP(zzW{httptest.NewRecorder()}, httptest.NewRequest("GET", "/x", nil))
	rows, _ := view.RetrieveData(ServerResponseBytesView.Name)
	if s := rows[0].Data.(*view.DistributionData).Sum(); s != 1 { t.Fatal(s) }
}
''',"a write that fails after some bytes","bytes that were not written are counted")
B("ochttp-route-first","C33","plugin/ochttp",[("plugin/ochttp/route.go","\t\ta.t = append(a.t, tag.Upsert(KeyServerRoute, route))","\t\tif len(a.t) == 0 {\n\t\t\ta.t = append(a.t, tag.Upsert(KeyServerRoute, route))\n\t\t}")],HD+'''
func TestDemo(t *testing.T) {
	v := &view.View{Name: "r", Measure: ServerLatency, TagKeys: nil, Aggregation: view.Count()}
	v.TagKeys = append(v.TagKeys, KeyServerRoute)
	view.Register(v)
	defer view.Unregister(v)
	h := &Handler{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { SetRoute(r.Context(), "a"); SetRoute(r.Context(), "b") })}
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/x", nil))
	rows, _ := view.RetrieveData("r")
	if rows[0].Tags[0].Value != "b" { t.Fatal(rows) }
}
''',"a handler that sets the route twice (an inner router refines it)","the first route wins")
B("ochttp-close-no-end","C34","plugin/ochttp",[(TR,"""	bt.span.End()
	return bt.rc.Close()""","""	err := bt.rc.Close()
	if err == nil {
		bt.span.End()
	}
	return err""")],HD+'''
type zzB struct{ io.Reader }
func (zzB) Close() error { return errors.New("x") }
func TestDemo(t *testing.T) {
	e := &zzEx{}
	trace.RegisterExporter(e)
	defer trace.UnregisterExporter(e)
	tr := &Transport{StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}, Base: zzRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Body: zzB{strings.NewReader("x")}}, nil })}
	resp, _ := tr.RoundTrip(httptest.NewRequest("GET", "/x", nil))
	resp.Body.Close()
	if len(e.d) != 1 { t.Fatal("span not ended") }
}
''',"closing the response body fails","the span is never ended")
B("ochttp-eof-bytes","C34","plugin/ochttp",[(CS,"""	n, err := t.body.Read(b)
	t.respSize += int64(n)
	switch err {
	case nil:
		return n, nil
	case io.EOF:
		t.end()
	}""","""	n, err := t.body.Read(b)
	switch err {
	case nil:
		t.respSize += int64(n)
		return n, nil
	case io.EOF:
		t.end()
	}""")],HD+'''
type zzB struct{}
func (zzB) Read(b []byte) (int, error) { return copy(b, "abc"), io.EOF }
func (zzB) Close() error { return nil }
func TestDemo(t *testing.T) {
	view.Register(ClientReceivedBytesDistribution)
	defer view.Unregister(ClientReceivedBytesDistribution)
	tr := &Transport{Base: zzRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, ContentLength: -1, Body: zzB{}}, nil })}
	resp, _ := tr.RoundTrip(httptest.NewRequest("GET", "/x", nil))
	resp.Body.Read(make([]byte, 9))
	rows, _ := view.RetrieveData(ClientReceivedBytesDistribution.Name)
	if s := rows[0].Data.(*view.DistributionData).Sum(); s != 3 { t.Fatal(s) }
}
''',"a body whose last read returns data together with end of file","the last bytes are not counted")
B("ochttp-shared-header","C34","plugin/ochttp",[(TR,"""		header := make(http.Header)
		for k, v := range req.Header {
			header[k] = v
		}
		req.Header = header
""","""		if span.IsRecordingEvents() || req.Header == nil {
			header := make(http.Header)
			for k, v := range req.Header {
				header[k] = v
			}
			req.Header = header
		}
""")],HD+'''
func TestDemo(t *testing.T) {
	tr := &Transport{StartOptions: trace.StartOptions{Sampler: trace.NeverSample()}, Base: zzRT(func(r *http.Request) (*http.Response, error) { return nil, errors.New("x") })}
	r := httptest.NewRequest("GET", "/x", nil)
	tr.RoundTrip(r)
	if len(r.Header) != 0 { t.Fatal(r.Header) }
}
''',"a request whose span is not sampled","the caller's request headers are modified")
B("ochttp-read-error-status","C34","plugin/ochttp",[(TR,"""	case io.EOF:
		bt.span.End()
	default:""","""	case io.EOF, io.ErrUnexpectedEOF:
		bt.span.End()
	default:""")],HD+'''
type zzB struct{}
func (zzB) Read(b []byte) (int, error) { return 0, io.ErrUnexpectedEOF }
func (zzB) Close() error { return nil }
func TestDemo(t *testing.T) {
	e := &zzEx{}
	trace.RegisterExporter(e)
	defer trace.UnregisterExporter(e)
	tr := &Transport{StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}, Base: zzRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Body: zzB{}}, nil })}
	resp, _ := tr.RoundTrip(httptest.NewRequest("GET", "/x", nil))
	resp.Body.Read(make([]byte, 1))
	resp.Body.Close()
	if len(e.d) != 1 || e.d[0].Status.Code != 2 { t.Fatal(e.d) }
}
''',"a response body cut short","the span of a broken response is OK")
G="plugin/ocgrpc/stats_common.go"
GH='''package ocgrpc
import ("testing";"context";"sync";"go.opencensus.io/trace";"go.opencensus.io/tag";"go.opencensus.io/stats/view";"google.golang.org/grpc/stats";"google.golang.org/grpc/metadata";"google.golang.org/grpc/codes";"google.golang.org/grpc/status")
var _ = metadata.New
var _ sync.Mutex
var _ = tag.New
var _ = status.New
var _ = codes.OK
var _ = view.Register
var _ = context.Background
type zzEx struct{ d []*trace.SpanData }
func (e *zzEx) ExportSpan(d *trace.SpanData) { e.d = append(e.d, d) }
'''
B("ocgrpc-link-parent","C35","plugin/ocgrpc",[("plugin/ocgrpc/trace_common.go","	if haveParent {\n		span.AddLink","	if haveParent && parent.IsSampled() {\n		span.AddLink")],GH+'''
type zzE struct{ s []*trace.SpanData }
func (e *zzE) ExportSpan(d *trace.SpanData) { e.s = append(e.s, d) }
func TestDemo(t *testing.T) {
	e := &zzE{}
	trace.RegisterExporter(e)
	defer trace.UnregisterExporter(e)
	h := &ServerHandler{IsPublicEndpoint: true, StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	ch := &ClientHandler{StartOptions: trace.StartOptions{Sampler: trace.NeverSample()}}
	c := ch.TagRPC(context.Background(), &stats.RPCTagInfo{FullMethodName: "/a/b"})
	md, _ := metadata.FromOutgoingContext(c)
	sc := h.TagRPC(metadata.NewIncomingContext(context.Background(), md), &stats.RPCTagInfo{FullMethodName: "/a/b"})
	h.HandleRPC(sc, &stats.End{})
	if len(e.s) != 1 || len(e.s[0].Links) != 1 { t.Fatal(e.s) }
}
''',"a public endpoint that samples by itself and a client that did not sample","the link to the unsampled client's span is dropped")
B("ocgrpc-tags-bad","C35","plugin/ocgrpc",[("plugin/ocgrpc/server_stats_handler.go","""	propagated := h.extractPropagatedTags(ctx)
	ctx = tag.NewContext(ctx, propagated)
""","""	if propagated := h.extractPropagatedTags(ctx); propagated != nil {
		ctx = tag.NewContext(ctx, propagated)
	}
"""),("plugin/ocgrpc/server_stats_handler.go","""		return nil
	}
	return propagated
}""","""		return tag.FromContext(ctx)
	}
	return propagated
}""")],GH+'''
func TestDemo(t *testing.T) {
	k := tag.MustNewKey("k")
	c, _ := tag.New(context.Background(), tag.Insert(k, "leaked"))
	h := &ServerHandler{}
	sc := h.TagRPC(c, &stats.RPCTagInfo{FullMethodName: "/a/b"})
	if v, ok := tag.FromContext(sc).Value(k); ok { t.Fatal(v) }
}
''',"a server context that already has tags, and a call without tags","tags not sent by the client are adopted")
B("ocgrpc-latency-trunc","C35","plugin/ocgrpc",[(G,"	latencyMillis := float64(elapsedTime) / float64(time.Millisecond)","	latencyMillis := float64(elapsedTime / time.Millisecond)")],GH+'''
func TestDemo(t *testing.T) {
	view.Register(ServerLatencyView)
	defer view.Unregister(ServerLatencyView)
	h := &ServerHandler{}
	c := h.TagRPC(context.Background(), &stats.RPCTagInfo{FullMethodName: "/a/b"})
	h.HandleRPC(c, &stats.End{Error: nil})
	rows, _ := view.RetrieveData(ServerLatencyView.Name)
	if s := rows[0].Data.(*view.DistributionData).Sum(); s <= 0 { t.Fatal(s) }
}
''',"an RPC shorter than a millisecond","the latency is cut to whole milliseconds")
B("ocgrpc-atomic-lost","C35","plugin/ocgrpc",[(G,"	atomic.AddInt64(&d.sentBytes, int64(s.Length))\n","	atomic.StoreInt64(&d.sentBytes, atomic.LoadInt64(&d.sentBytes)+int64(s.Length))\n")],GH+'''
func TestDemo(t *testing.T) {
	view.Register(ClientSentBytesPerRPCView)
	defer view.Unregister(ClientSentBytesPerRPCView)
	h := &ClientHandler{}
	const n, k = 8, 20000
	c := h.TagRPC(context.Background(), &stats.RPCTagInfo{FullMethodName: "/a/b"})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { for j := 0; j < k; j++ { h.HandleRPC(c, &stats.OutPayload{Client: true, Length: 1}) }; wg.Done() }()
	}
	wg.Wait()
	h.HandleRPC(c, &stats.End{Client: true})
	rows, _ := view.RetrieveData(ClientSentBytesPerRPCView.Name)
	if s := rows[0].Data.(*view.DistributionData).Sum(); s != n*k { t.Fatal(s) }
}
''',"two messages of one RPC sent at the same time","sent bytes are lost")
B("ocgrpc-status-code","C35","plugin/ocgrpc",[("plugin/ocgrpc/trace_common.go","			if ok {\n				span.SetStatus(trace.Status{Code: int32(s.Code())","			if ok && s.Code() != codes.Canceled {\n				span.SetStatus(trace.Status{Code: int32(s.Code())")],GH+'''
func TestDemo(t *testing.T) {
	e := &zzEx{}
	trace.RegisterExporter(e)
	defer trace.UnregisterExporter(e)
	h := &ClientHandler{StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	c := h.TagRPC(context.Background(), &stats.RPCTagInfo{FullMethodName: "/a/b"})
	h.HandleRPC(c, &stats.End{Client: true, Error: status.Error(codes.Canceled, "m")})
	if len(e.d) != 1 || e.d[0].Status.Code != 1 { t.Fatal(e.d) }
}
''',"a cancelled call","the span has another status")
R="resource/resource.go"
RH='''package resource
import ("testing";"context";"os";"errors")
var _ = context.Background
var _ = os.Getenv
var _ = errors.New
'''
B("resource-merge-type","C36","resource",[(R,"	if res.Type == \"\" {\n		res.Type = b.Type","	if res.Type == \"\" && len(a.Labels) == 0 {\n		res.Type = b.Type")],RH+'''
func TestDemo(t *testing.T) {
	d := func(r *Resource) Detector { return func(context.Context) (*Resource, error) { return r, nil } }
	r, err := MultiDetector(d(&Resource{Labels: map[string]string{"a": "b"}}), d(&Resource{Type: "t"}))(context.Background())
	if err != nil || r.Type != "t" { t.Fatal(r, err) }
}
''',"a first resource with labels but without a type","the type is lost")
B("resource-merge-alias","C36","resource",[(R,"""		Type:   a.Type,
		Labels: map[string]string{},
	}""","""		Type:   a.Type,
		Labels: b.Labels,
	}
	if res.Labels == nil {
		res.Labels = map[string]string{}
	}""")],RH+'''
func TestDemo(t *testing.T) {
	x := &Resource{Labels: map[string]string{"k": "2"}}
	d := func(r *Resource) Detector { return func(context.Context) (*Resource, error) { return r, nil } }
	MultiDetector(d(&Resource{Labels: map[string]string{"k": "1"}}), d(x))(context.Background())
	if x.Labels["k"] != "2" { t.Fatal(x) }
}
''',"two resources with labels","merging modifies the second resource")
B("resource-encode-newline","C36","resource",[("resource/resource.go","""		s += k + "=" + strconv.Quote(labels[k])""","""		s += k + "=" + `"` + strings.NewReplacer(`\\`, `\\\\`, `"`, `\\"`).Replace(labels[k]) + `"`""")],'''package resource
import "testing"
func TestDemo(t *testing.T) {
	m := map[string]string{"k": "a\\nb"}
	d, err := DecodeLabels(EncodeLabels(m))
	if err != nil || d["k"] != m["k"] { t.Fatal(d, err) }
}
''',"a label value with a line break","the encoding of a value with a line break does not decode")
B("sanitize-second","C37","internal",[("internal/sanitize.go","	if s[0] == '_' {\n		s = \"key\" + s","	if len(s) > 1 && s[0] == '_' {\n		s = \"key\" + s")],'''package internal
import "testing"
func TestDemo(t *testing.T) {
	if s := Sanitize("/"); s != "key_" { t.Fatal(s) }
}
''',"a name of a single character that is not a letter or digit","the name starts with an underscore")
B("sanitize-cut-after","C37","internal",[("internal/sanitize.go","""	if len(s) > labelKeySizeLimit {
		s = s[:labelKeySizeLimit]
	}
	s = strings.Map(sanitizeRune, s)
""","""	s = strings.Map(sanitizeRune, s)
	if len(s) > labelKeySizeLimit {
		s = s[:labelKeySizeLimit]
	}
""")],'''package internal
import ("testing";"strings";"unicode/utf8")
func TestDemo(t *testing.T) {
	if s := Sanitize(strings.Repeat("a", 99)+"\u00e9b"); !utf8.ValidString(s) { t.Fatalf("%q", s) }
}
''',"a long name with a two-byte letter across the cut","half a letter is left at the end of the name")
B("rpcz-errors","C38","zpages",[("zpages/rpcz.go","""				if tag.Key == ocgrpc.KeyServerStatus && tag.Value != "OK" {
					s.ErrorsTotal += uint64(count)""","""				if tag.Key == ocgrpc.KeyServerStatus && tag.Value != "OK" {
					s.ErrorsTotal = uint64(count)""")],'''package zpages
import ("testing";"go.opencensus.io/plugin/ocgrpc";"go.opencensus.io/stats/view";"go.opencensus.io/tag")
func TestDemo(t *testing.T) {
	row := func(st string) *view.Row { return &view.Row{Tags: []tag.Tag{{Key: ocgrpc.KeyServerMethod, Value: "demo"}, {Key: ocgrpc.KeyServerStatus, Value: st}}, Data: &view.CountData{Value: 1}} }
	snapExporter{}.ExportView(&view.Data{View: ocgrpc.ServerCompletedRPCsView, Rows: []*view.Row{row("UNKNOWN"), row("CANCELLED")}})
	mu.Lock()
	defer mu.Unlock()
	if n := snaps[methodKey{"demo", true}].ErrorsTotal; n != 2 { t.Fatal(n) }
}
''',"a method that failed in two different ways","only one kind of error is counted")
B("rpcz-reset","C38","zpages",[("zpages/rpcz.go","""		case ocgrpc.ClientCompletedRPCsView:
			if _, ok := haveResetErrors[method]; !ok {
				haveResetErrors[method] = struct{}{}
				s.ErrorsTotal = 0
			}""","""		case ocgrpc.ClientCompletedRPCsView:
			if len(haveResetErrors) == 0 {
				haveResetErrors[method] = struct{}{}
				s.ErrorsTotal = 0
			}""")],'''package zpages
import ("testing";"go.opencensus.io/plugin/ocgrpc";"go.opencensus.io/stats/view";"go.opencensus.io/tag")
func TestDemo(t *testing.T) {
	row := func(m, st string) *view.Row { return &view.Row{Tags: []tag.Tag{{Key: ocgrpc.KeyClientMethod, Value: m}, {Key: ocgrpc.KeyClientStatus, Value: st}}, Data: &view.CountData{Value: 1}} }
	for i := 0; i < 2; i++ {
		snapExporter{}.ExportView(&view.Data{View: ocgrpc.ClientCompletedRPCsView, Rows: []*view.Row{row("d1", "UNKNOWN"), row("d2", "CANCELLED")}})
	}
	mu.Lock()
	defer mu.Unlock()
	if n := snaps[methodKey{"d2", false}].ErrorsTotal; n != 1 { t.Fatal(n) }
}
''',"two methods that fail, and a second report","errors of the second method are counted again at every report")
B("tracez-last-bucket","C38","zpages",[("zpages/tracez.go","		} else if spanSubtype == n {","		} else if spanSubtype >= n {\n			spanSubtype = n - 1")],'''package zpages
import ("testing";"context";"time";"go.opencensus.io/trace")
func TestDemo(t *testing.T) {
	_, s := trace.StartSpan(context.Background(), "demo-span", trace.WithSampler(trace.AlwaysSample()))
	time.Sleep(20*time.Millisecond)
	s.End()
	// a span of some milliseconds is not in the list of the slowest ones, nor is one of 10 s
	d := traceSpans("demo-span", 1, len(defaultLatencies))
	if len(d) != 0 { t.Fatal(len(d)) }
	old := defaultLatencies
	defer func() { defaultLatencies = old }()
	defaultLatencies[len(defaultLatencies)-2] = time.Microsecond
	if d := traceSpans("demo-span", 1, len(defaultLatencies)); len(d) != 0 { t.Fatal("listed below the last bound") }
}
''',"the last latency cell and a span of 10 s to 60 s","the list of the last cell also has the spans of the one before")
B("runmetrics-swapped","C39","plugin/runmetrics",[("plugin/runmetrics/producer.go","""	_ = m.numForcedGC.UpsertEntry(func() int64 {
		return int64(m.memStats.NumForcedGC)""","""	_ = m.numForcedGC.UpsertEntry(func() int64 {
		return int64(m.memStats.NumGC)""")],'''package runmetrics
import ("testing";"runtime")
func TestDemo(t *testing.T) {
	if err := Enable(RunMetricOptions{EnableMemory: true, UseDerivedCumulative: true}); err != nil { t.Fatal(err) }
	defer Disable()
	runtime.GC()
	x := make([][]byte, 0)
	var ms runtime.MemStats
	for ms.NumGC == ms.NumForcedGC { x = append(x, make([]byte, 1<<20)); if len(x) > 16 { x = nil }; runtime.ReadMemStats(&ms) }
	for _, m := range enabledProducer.Read() {
		if m.Descriptor.Name == "process/num_forced_gc" {
			runtime.ReadMemStats(&ms)
			if v := m.TimeSeries[0].Points[0].Value.(int64); v != int64(ms.NumForcedGC) { t.Fatal(v, ms.NumForcedGC) }
		}
	}
}
''',"a collection that was not forced","another statistic is reported")
B("runmetrics-disable-twice","C39","plugin/runmetrics",[("plugin/runmetrics/producer.go","""	metricproducer.GlobalManager().DeleteProducer(enabledProducer)
	enabledProducer = nil
""","""	metricproducer.GlobalManager().DeleteProducer(enabledProducer)
	if !enabledProducer.active() {
		enabledProducer = nil
	}
"""),("plugin/runmetrics/producer.go","// Read reads the current","func (p *producer) active() bool { return p != nil && (p.options.EnableMemory || p.cpuStats != nil) }\n\n// Read reads the current"),("plugin/runmetrics/producer.go","""	metricproducer.GlobalManager().DeleteProducer(enabledProducer)
	metricproducer.GlobalManager().AddProducer(producer)
""","""	metricproducer.GlobalManager().AddProducer(producer)
	if old := enabledProducer; old != nil && old.options == options {
		metricproducer.GlobalManager().DeleteProducer(old)
		metricproducer.GlobalManager().AddProducer(producer)
	} else if old != nil {
		metricproducer.GlobalManager().DeleteProducer(old)
		if !old.active() {
			return nil
		}
	}
""")],'''package runmetrics
import ("testing";"go.opencensus.io/metric/metricproducer")
func TestDemo(t *testing.T) {
	Enable(RunMetricOptions{})
	Enable(RunMetricOptions{EnableCPU: true})
	Enable(RunMetricOptions{EnableCPU: true, Prefix: "x"})
	n := len(metricproducer.GlobalManager().GetAll())
	Disable()
	if n != 1 || len(metricproducer.GlobalManager().GetAll()) != 0 { t.Fatal(n) }
}
''',"an enable without any metrics, then two with","an old producer stays registered")
