//go:build go1.21

package ht

import (
	"errors"
	"io"
	"net/http"
	"strings"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
)

type sink struct {
	got []*trace.SpanData
}

func (s *sink) ExportSpan(d *trace.SpanData) { s.got = append(s.got, d) }

// format is a propagation format carrying an arbitrary span context.
type format struct {
	sc    trace.SpanContext
	ok    bool
	reads int
	sent  []trace.SpanContext
	on    []*http.Request
}

func (f *format) SpanContextFromRequest(r *http.Request) (trace.SpanContext, bool) {
	f.reads++
	return f.sc, f.ok
}

func (f *format) SpanContextToRequest(sc trace.SpanContext, r *http.Request) {
	f.sent, f.on = append(f.sent, sc), append(f.on, r)
	r.Header.Set("x-ctx", "1")
}

func symSC(n string) (sc trace.SpanContext) {
	copy(sc.TraceID[:], sym.Bytes(n+".t", 16))
	copy(sc.SpanID[:], sym.Bytes(n+".s", 8))
	sc.TraceOptions = trace.TraceOptions(sym.Uint32(n + ".o"))
	return
}

func attr(d *trace.SpanData, k string) interface{} { return d.Attributes[k] }

func isStr(v interface{}, s string) bool {
	x, ok := v.(string)
	return ok && x == s
}

func isInt(v interface{}, n int64) bool {
	x, ok := v.(int64)
	return ok && x == n
}

type bodyOf struct{ n int }

func (b *bodyOf) Read([]byte) (int, error) { return 0, io.EOF }
func (b *bodyOf) Close() error             { b.n++; return nil }

var errBoom = errors.New("boom")

// HServer: every configuration of the handler around a fixed response.
func HServer() {
	e := &sink{}
	trace.RegisterExporter(e)
	// a decision other than the configured sampler's would be noticed
	on := sym.Bool("sampled")
	asked := 0
	smp := func(p trace.SamplingParameters) trace.SamplingDecision {
		asked++
		return trace.SamplingDecision{Sample: on}
	}
	bad := func(trace.SamplingParameters) trace.SamplingDecision {
		ck(33, false, "the sampler of the options in force is asked")
		return trace.SamplingDecision{}
	}
	f := &format{ok: sym.Bool("ok")}
	if f.ok {
		f.sc = symSC("remote")
		sym.Assume(f.sc.TraceID != trace.TraceID{})
	}
	public := sym.Bool("public")
	path := []string{"/x", "/healthz", "/_ah/health", "/healthz/", "/custom"}[sym.Range("path", 0, 4)]
	hd := &ochttp.Handler{Propagation: f, IsPublicEndpoint: public}
	name := path
	if sym.Bool("named") {
		name = "n"
		hd.FormatSpanName = func(r *http.Request) string { return name }
	}
	r := request("GET", path)
	perReq := sym.Bool("perRequest")
	if perReq {
		hd.StartOptions.Sampler = bad
		hd.GetStartOptions = func(q *http.Request) trace.StartOptions {
			ck(33, q == r, "start options are asked for this request")
			return trace.StartOptions{Sampler: smp, SpanKind: trace.SpanKindClient}
		}
	} else {
		hd.StartOptions.Sampler = smp
	}
	health := path == "/healthz" || path == "/_ah/health"
	if sym.Bool("customHealth") {
		hd.IsHealthEndpoint = func(q *http.Request) bool { return q.URL.Path == "/custom" }
		health = health || path == "/custom"
	}
	body := sym.Range("body", 0, 2)
	cl := int64(0)
	switch body {
	case 1:
		r.Body = http.NoBody
		r.ContentLength = 7
	case 2:
		r.Body = &bodyOf{}
		cl = sym.Int64("length")
		r.ContentLength = cl
	}
	ua := sym.Range("agent", 0, 1) == 1
	if ua {
		r.Header["User-Agent"] = []string{"ag"}
	}
	ran := 0
	var in trace.SpanContext
	var has bool
	hd.Handler = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		ran++
		if sp := trace.FromContext(q.Context()); sp != nil {
			has = true
			in = sp.SpanContext()
		}
		ck(33, len(e.got) == 0, "the span is not exported before the handler returns")
		ck(33, q.Method == "GET" && q.URL.Path == path && q.ContentLength == r.ContentLength, "the handler sees the request")
		w.WriteHeader(404)
	})
	w := newRW()
	hd.ServeHTTP(w, r)
	trace.UnregisterExporter(e)
	ck(33, ran == 1, "the handler runs once")
	ck(33, w.status == 404, "the response is the handler's")
	if health {
		ck(33, !has, "no span for a health check")
		ck(33, len(e.got) == 0, "no span exported for a health check")
		ck(33, asked == 0, "no sampling for a health check")
		sym.Cover("health")
		return
	}
	ck(33, has, "the handler's context has the server span")
	ck(33, asked == 1, "the configured sampler decides once")
	ck(33, f.reads == 1, "the request's span context is read once")
	ck(33, in.IsSampled() == on, "the span is sampled as decided")
	child := f.ok && !public
	if child {
		ck(33, in.TraceID == f.sc.TraceID, "the server span continues the remote trace")
	} else if f.ok {
		sym.Cover("public")
	}
	if !on {
		ck(33, len(e.got) == 0, "an unsampled span is not exported")
		sym.Cover("unsampled")
		return
	}
	ck(33, len(e.got) == 1, "the server span is exported once")
	if len(e.got) != 1 {
		return
	}
	d := e.got[0]
	ck(33, d.SpanContext.TraceID == in.TraceID && d.SpanContext.SpanID == in.SpanID, "the exported span is the handler's")
	ck(33, d.Name == name, "the span name is the configured one")
	ck(33, d.SpanKind == trace.SpanKindServer, "the span is a server span")
	if child {
		ck(33, d.ParentSpanID == f.sc.SpanID && d.HasRemoteParent, "the remote span is the parent")
		ck(33, len(d.Links) == 0, "no link beside the parent")
		sym.Cover("child")
	} else {
		ck(33, d.ParentSpanID == trace.SpanID{} && !d.HasRemoteParent, "a root span")
		if f.ok {
			ck(33, len(d.Links) == 1, "a public endpoint links the remote span")
			if len(d.Links) == 1 {
				l := d.Links[0]
				ck(33, l.TraceID == f.sc.TraceID && l.SpanID == f.sc.SpanID && l.Type == trace.LinkTypeParent, "the link names the remote span")
			}
			sym.Cover("linked")
		} else {
			ck(33, len(d.Links) == 0, "no link without a remote span")
			sym.Cover("root")
		}
	}
	ck(33, d.Status.Code == trace.StatusCodeNotFound, "the span status is the response's")
	ck(33, isInt(attr(d, ochttp.StatusCodeAttribute), 404), "the status code attribute is the response's")
	ck(33, isStr(attr(d, ochttp.PathAttribute), path) && isStr(attr(d, ochttp.HostAttribute), "h") && isStr(attr(d, ochttp.MethodAttribute), "GET"), "the request attributes are the request's")
	if ua {
		ck(33, isStr(attr(d, ochttp.UserAgentAttribute), "ag"), "the user agent is recorded")
	}
	if body == 2 && cl > 0 {
		ck(33, len(d.MessageEvents) == 1 && d.MessageEvents[0].EventType == trace.MessageEventTypeRecv && d.MessageEvents[0].UncompressedByteSize == cl, "the request's size is a receive event")
		sym.Cover("sized body")
	} else {
		ck(33, len(d.MessageEvents) == 0, "no receive event without a known size")
	}
}

var (
	keyM, keyS, keyR = ochttp.Method, ochttp.StatusCode, ochttp.KeyServerRoute
)

type meas struct {
	name string
	m    stats.Measure
}

// track registers a count and a last-value view per measure.
func track(ms []meas, keys ...tag.Key) {
	var vs []*view.View
	for _, m := range ms {
		vs = append(vs, &view.View{Name: m.name + "#", Measure: m.m, Aggregation: view.Count(), TagKeys: keys},
			&view.View{Name: m.name + "=", Measure: m.m, Aggregation: view.LastValue(), TagKeys: keys})
	}
	if err := view.Register(vs...); err != nil {
		panic(err)
	}
}

// rows of a measure: the number of recordings, and the tags and value of the only row.
func recorded(name string) (n int64, rows int, tags []tag.Tag, val float64) {
	cs, err := view.RetrieveData(name + "#")
	if err != nil {
		return -1, 0, nil, 0
	}
	for _, r := range cs {
		n += r.Data.(*view.CountData).Value
	}
	ls, err := view.RetrieveData(name + "=")
	if err != nil || len(ls) != len(cs) {
		return -1, 0, nil, 0
	}
	rows = len(ls)
	if rows == 1 {
		tags, val = ls[0].Tags, ls[0].Data.(*view.LastValueData).Value
	}
	return
}

func tagVal(ts []tag.Tag, k tag.Key) string {
	for _, t := range ts {
		if t.Key.Name() == k.Name() {
			return t.Value
		}
	}
	return ""
}

func itoa3(n int) string {
	return string([]byte{byte('0' + n/100), byte('0' + n/10%10), byte('0' + n%10)})
}

// HServerOps: arbitrary handlers; the recorded status and sizes are the response's.
func HServerOps() {
	e := &sink{}
	trace.RegisterExporter(e)
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	track([]meas{{"c", ochttp.ServerRequestCount}, {"q", ochttp.ServerRequestBytes}, {"p", ochttp.ServerResponseBytes}, {"l", ochttp.ServerLatency}}, keyM, keyS, keyR)
	const t0 = 1700000000000000000
	sym.SetClock(t0)
	nops := sym.Range("ops", 0, sym.Param("ops", 3))
	// the other choices vary with short handlers only
	pick := func(n string, hi int) int {
		if nops > 1 {
			return 0
		}
		return sym.Range(n, 0, hi)
	}
	route := pick("route", 6)
	w := newRW()
	rd := &rf{w: w, ret: 5}
	var orig http.ResponseWriter = struct {
		http.ResponseWriter
		http.Flusher
		io.ReaderFrom
	}{w, fl{w}, rd}
	codes := []int{404, 500}
	if nops <= 1 {
		codes[0] = sym.IntIn("code1", 200, 599)
	} else if sym.Bool("early") {
		codes[0] = []int{103, 101}[sym.Range("code1", 0, 1)]
	}
	ncode := 0
	written := int64(0)
	var sends []int64
	boom := false
	var dur int64
	inner := http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		if route == 1 {
			ochttp.SetRoute(q.Context(), "r1")
		} else if route > 2 {
			ochttp.SetRoute(q.Context(), "r")
			switch route {
			case 3:
				ochttp.SetRoute(q.Context(), "r1")
			case 5:
				ochttp.SetRoute(q.Context(), "\u00e9")
			case 6:
				ochttp.SetRoute(q.Context(), strings.Repeat("r", 256))
			}
		}
		for i := 0; i < nops && !boom; i++ {
			switch sym.Range("op", 0, 4) {
			case 0:
				w.max = 1 - pick("max", 2)
				w.nerr = errBoom
				n, _ := rw.Write(make([]byte, sym.Range("size", 0, 2)))
				written += int64(n)
				sends = append(sends, int64(n))
			case 1:
				if ncode < len(codes) {
					rw.WriteHeader(codes[ncode])
					ncode++
				}
			case 2:
				rw.(http.Flusher).Flush()
			case 3:
				rd.err = nil
				if pick("readErr", 1) == 1 {
					rd.err = errBoom
				}
				n, err := rw.(io.ReaderFrom).ReadFrom(&src{})
				ck(33, n == rd.ret && err == rd.err, "the response's result is returned")
				written += n
				sends = append(sends, n)
				sym.Cover("readfrom")
			case 4:
				boom = true
			}
		}
		dur = []int64{0, 1500000}[1-pick("dur", 1)]
		sym.SetClock(t0 + dur)
		if boom {
			panic(errBoom)
		}
	})
	hd := &ochttp.Handler{Propagation: &format{}, Handler: inner}
	if route == 2 || route == 4 {
		hd.Handler = ochttp.WithRouteTag(inner, "r2")
	}
	r := request("PUT", "/x")
	size := int64(-1)
	if nops > 1 || sym.Bool("body") {
		r.Body = &bodyOf{}
		size = 3
		if nops <= 1 {
			size = int64(sym.Range("length", -1, 3))
		}
		r.ContentLength = size
		if size < 0 {
			size = 0 // unknown
		}
	}
	p := sym.Panics(func() { hd.ServeHTTP(orig, r) })
	ck(33, p == boom, "a panic of the handler, and only that, reaches the server")
	trace.UnregisterExporter(e)
	ck(33, len(e.got) == 1, "the span ends once")
	if len(e.got) != 1 {
		return
	}
	if boom {
		sym.Cover("panic")
	}
	st := w.status
	if st == 0 {
		st = 200
	}
	d := e.got[0]
	ck(33, isInt(attr(d, ochttp.StatusCodeAttribute), int64(st)), "the status code attribute is the response's")
	code, msg := refStatus(st)
	ck(33, d.Status.Code == code && d.Status.Message == msg, "the span status follows the response's")
	if ncode == 2 {
		sym.Cover("second status")
	}
	// events: receive, then sends
	ev := d.MessageEvents
	if size > 0 {
		ck(33, len(ev) > 0 && ev[0].EventType == trace.MessageEventTypeRecv && ev[0].UncompressedByteSize == size, "the request's size is a receive event")
		if len(ev) > 0 {
			ev = ev[1:]
		}
	}
	ck(33, len(ev) == len(sends), "each output is one send event")
	if len(ev) == len(sends) {
		for i := range ev {
			ck(33, ev[i].EventType == trace.MessageEventTypeSent && ev[i].UncompressedByteSize == sends[i], "a send event has the bytes written")
		}
	}
	n, rows, tags, val := recorded("c")
	ck(33, n == 1 && rows == 1 && val == 1 && tagVal(tags, keyM) == "PUT" && tagVal(tags, keyS) == "", "the request is counted once, at its start")
	sv := itoa3(st)
	wantRoute := ""
	if route == 1 || route == 3 {
		wantRoute = "r1"
	} else if (route == 2 || route == 4) && !boom {
		wantRoute = "r2"
	}
	full := func(tags []tag.Tag) bool {
		return tagVal(tags, keyM) == "PUT" && tagVal(tags, keyS) == sv && (tagVal(tags, keyR) == wantRoute || boom || route > 4)
	}
	n, rows, tags, val = recorded("p")
	ck(33, n == 1 && rows == 1 && val == float64(written), "the response's bytes are recorded once and exactly")
	ck(33, full(tags), "the response's bytes carry method, status and route")
	n, rows, tags, val = recorded("l")
	ck(33, n == 1 && rows == 1 && val == float64(dur)/1e6, "the latency is recorded once and exactly")
	ck(33, full(tags), "the latency carries method, status and route")
	n, rows, tags, val = recorded("q")
	if size >= 0 {
		ck(33, n == 1 && rows == 1 && val == float64(size) && full(tags), "the request's bytes are recorded once and exactly")
	} else {
		ck(33, n == 0, "no request bytes without a body")
	}
	sym.Cover("done")
}

// HServerTwo: requests on one handler, also nested ones, do not influence each other.
func HServerTwo() {
	e := &sink{}
	trace.RegisterExporter(e)
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	track([]meas{{"p", ochttp.ServerResponseBytes}}, keyS)
	nested := sym.Bool("nested")
	c1, c2 := []int{200, 404, 500}[sym.Range("c1", 0, 2)], []int{200, 404, 500}[sym.Range("c2", 0, 2)]
	n1, n2 := sym.Range("n1", 0, 2), sym.Range("n2", 0, 2)
	var hd *ochttp.Handler
	w1, w2 := newRW(), newRW()
	f := &format{ok: true, sc: trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}}}
	hd = &ochttp.Handler{Propagation: f, Handler: http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		if q.URL.Path == "/1" {
			if nested {
				hd.ServeHTTP(w2, request("GET", "/2"))
			}
			rw.WriteHeader(c1)
			rw.Write(make([]byte, n1))
		} else {
			rw.WriteHeader(c2)
			rw.Write(make([]byte, n2))
		}
	})}
	hd.ServeHTTP(w1, request("GET", "/1"))
	if !nested {
		hd.ServeHTTP(w2, request("GET", "/2"))
	}
	trace.UnregisterExporter(e)
	ck(33, len(e.got) == 2, "two requests, two spans")
	for _, d := range e.got {
		c := c1
		if d.Name == "/2" {
			c = c2
		}
		code, _ := refStatus(c)
		ck(33, d.Status.Code == code && isInt(attr(d, ochttp.StatusCodeAttribute), int64(c)), "each span has its response's status")
		ck(33, d.SpanContext.TraceID == f.sc.TraceID && d.ParentSpanID == f.sc.SpanID, "each span has its remote parent")
	}
	if len(e.got) == 2 {
		ck(33, e.got[0].Name != e.got[1].Name, "each request has its span")
		ck(33, e.got[0].SpanContext.SpanID != e.got[1].SpanContext.SpanID, "span ids differ")
	}
	n, rows, _, val := recorded("p")
	ck(33, n == 2, "two requests, two recordings")
	if c1 == c2 {
		last := n2
		if nested {
			last = n1
		}
		ck(33, rows == 1 && val == float64(last), "recorded bytes are each response's")
		sym.Cover("same status")
	} else {
		ck(33, rows == 2, "rows by status")
		sym.Cover("different status")
	}
}
