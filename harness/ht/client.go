//go:build go1.21

package ht

import (
	"context"
	"errors"
	"io"
	"net/http"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
)

// step is one scripted result of reading the response body.
type step struct {
	n   int
	err error
}

var errRead, errClose, errTransport = errors.New("read"), errors.New("close"), errors.New("transport")

// respBody plays a script, then keeps returning its last error.
type respBody struct {
	steps  []step
	at     int
	reads  int
	closes int
	data   byte
	writes int
}

func (b *respBody) Read(p []byte) (int, error) {
	b.reads++
	if b.at >= len(b.steps) {
		return 0, io.EOF
	}
	s := b.steps[b.at]
	b.at++
	n := s.n
	if n > len(p) {
		n = len(p)
	}
	for i := 0; i < n; i++ {
		p[i] = b.data
		b.data++
	}
	return n, s.err
}

func (b *respBody) Close() error {
	b.closes++
	return errClose
}

type rwBody struct{ respBody }

func (b *rwBody) Write(p []byte) (int, error) { b.writes++; return len(p), errRead }

// base is the transport that sends.
type base struct {
	got     []*http.Request
	resp    *http.Response
	err     error
	cancels []*http.Request
	check   func(*http.Request)
}

func (b *base) RoundTrip(r *http.Request) (*http.Response, error) {
	b.got = append(b.got, r)
	if b.check != nil {
		b.check(r)
	}
	return b.resp, b.err
}

type cancelBase struct{ *base }

func (b cancelBase) CancelRequest(r *http.Request) { b.cancels = append(b.cancels, r) }

// HClient: every configuration of the transport around a fixed exchange.
func HClient() {
	e := &sink{}
	trace.RegisterExporter(e)
	on := sym.Bool("sampled")
	asked := 0
	smp := func(p trace.SamplingParameters) trace.SamplingDecision {
		asked++
		return trace.SamplingDecision{Sample: on}
	}
	f := &format{}
	path := []string{"/x", "/healthz", "/_ah/health"}[sym.Range("path", 0, 2)]
	health := path != "/x"
	body := &respBody{steps: []step{{1, nil}, {0, io.EOF}}}
	bs := &base{resp: &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: body, ContentLength: 1}}
	failing := sym.Bool("fails")
	if failing {
		bs.resp, bs.err = nil, errTransport
	}
	tr := &ochttp.Transport{Base: bs}
	def := sym.Bool("defaultFormat")
	if !def {
		tr.Propagation = f
	}
	name := path
	if sym.Bool("named") {
		name = "n"
		tr.FormatSpanName = func(*http.Request) string { return name }
	}
	r := request("GET", path)
	if sym.Bool("perRequest") {
		tr.StartOptions.Sampler = func(trace.SamplingParameters) trace.SamplingDecision {
			ck(34, false, "the sampler of the options in force is asked")
			return trace.SamplingDecision{}
		}
		tr.GetStartOptions = func(q *http.Request) trace.StartOptions {
			ck(34, q == r, "start options are asked for this request")
			return trace.StartOptions{Sampler: smp, SpanKind: trace.SpanKindServer}
		}
	} else {
		tr.StartOptions.Sampler = smp
	}
	r.Header["A"] = []string{"a"}
	hdr := r.Header
	hasParent := sym.Bool("parent")
	var parent *trace.Span
	if hasParent {
		var ctx context.Context
		ctx, parent = trace.StartSpan(r.Context(), "p", trace.WithSampler(trace.AlwaysSample()))
		r = r.WithContext(ctx)
	}
	var sent trace.SpanContext
	bs.check = func(q *http.Request) {
		ck(34, len(e.got) == 0, "the span is not exported before the exchange")
		if sp := trace.FromContext(q.Context()); sp != nil {
			sent = sp.SpanContext()
		}
		ck(34, q.Method == "GET" && q.URL.Path == path && q.Host == "h" && len(q.Header["A"]) == 1 && q.Header["A"][0] == "a", "the request sent is the caller's")
		if health {
			ck(34, q == r, "a health check is passed on untouched")
			return
		}
		ck(34, q != r, "the transport changes a copy of the request")
		if def {
			got, ok := (&b3.HTTPFormat{}).SpanContextFromRequest(q)
			ck(34, ok && got.TraceID == sent.TraceID && got.SpanID == sent.SpanID && got.IsSampled() == sent.IsSampled(), "the request carries the span's context")
		} else {
			ck(34, len(f.sent) == 1 && len(q.Header["X-Ctx"]) == 1, "the span context is written once")
			if len(f.sent) == 1 {
				ck(34, f.sent[0].TraceID == sent.TraceID && f.sent[0].SpanID == sent.SpanID && f.sent[0].TraceOptions == sent.TraceOptions, "the request carries the span's context")
			}
		}
	}
	resp, err := tr.RoundTrip(r)
	ck(34, len(bs.got) == 1, "the request is sent once")
	ck(34, len(r.Header) == 1 && len(hdr) == 1 && len(hdr["A"]) == 1 && hdr["A"][0] == "a", "the caller's headers are unchanged")
	ck(34, err == bs.err && (resp == nil) == failing, "the outcome is the transport's")
	if !health && !failing {
		ck(34, len(e.got) == 0, "the span is open while the body is unread")
	}
	if resp != nil {
		ck(34, resp.StatusCode == 200 && resp.ContentLength == 1 && resp.Status == "200 OK", "the response is the transport's")
		b := make([]byte, 4)
		n, err := resp.Body.Read(b)
		ck(34, n == 1 && err == nil && b[0] == 0, "the body is the transport's")
		n, err = resp.Body.Read(b)
		ck(34, n == 0 && err == io.EOF, "the body ends where the transport's does")
		ck(34, resp.Body.Close() == errClose && body.closes == 1, "closing closes the transport's body")
	}
	trace.UnregisterExporter(e)
	if health {
		ck(34, len(e.got) == 0 && asked == 0, "a health check is not traced")
		sym.Cover("health")
		return
	}
	ck(34, asked == 1 || hasParent && asked == 0, "the configured sampler decides at most once")
	sampled := on
	if hasParent && asked == 0 {
		sampled = true
	}
	ck(34, sent.IsSampled() == sampled, "the span is sampled as decided")
	if hasParent {
		ck(34, sent.TraceID == parent.SpanContext().TraceID, "the span continues the caller's trace")
	}
	if !sampled {
		ck(34, len(e.got) == 0, "an unsampled span is not exported")
		sym.Cover("unsampled")
		return
	}
	ck(34, len(e.got) == 1, "the span ends once")
	if len(e.got) != 1 {
		return
	}
	d := e.got[0]
	ck(34, d.SpanContext.TraceID == sent.TraceID && d.SpanContext.SpanID == sent.SpanID, "the exported span is the one sent")
	ck(34, d.Name == name && d.SpanKind == trace.SpanKindClient, "a client span of the configured name")
	if hasParent {
		ck(34, d.ParentSpanID == parent.SpanContext().SpanID, "the caller's span is the parent")
		sym.Cover("child")
	} else {
		ck(34, d.ParentSpanID == trace.SpanID{}, "a root span")
		sym.Cover("root")
	}
	ck(34, isStr(attr(d, ochttp.PathAttribute), path) && isStr(attr(d, ochttp.HostAttribute), "h") && isStr(attr(d, ochttp.MethodAttribute), "GET"), "the request attributes are the request's")
	if failing {
		ck(34, d.Status.Code == trace.StatusCodeUnknown && d.Status.Message == "transport", "the span status is the transport's error")
		sym.Cover("transport error")
	} else {
		ck(34, d.Status.Code == 0 && isInt(attr(d, ochttp.StatusCodeAttribute), 200), "the span status is the response's")
	}
}

var clientMeasures = []meas{
	{"s", ochttp.ClientSentBytes}, {"r", ochttp.ClientReceivedBytes}, {"l", ochttp.ClientRoundtripLatency},
}

// HClientBody: bodies read, failed and closed in any way; sizes, status and end of the span.
func HClientBody() {
	e := &sink{}
	trace.RegisterExporter(e)
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	km, ks, kp := ochttp.KeyClientMethod, ochttp.KeyClientStatus, ochttp.KeyClientPath
	track(clientMeasures, km, ks, kp)
	track([]meas{{"c", ochttp.ClientRequestCount}, {"q", ochttp.ClientRequestBytes}, {"p", ochttp.ClientResponseBytes}}, keyM, keyS)
	const t0 = 1700000000000000000
	sym.SetClock(t0)
	n := sym.Range("steps", 0, sym.Param("steps", 3))
	var steps []step
	for i := 0; i < n; i++ {
		steps = append(steps, step{sym.Range("got", 0, 2), []error{nil, io.EOF, errRead, io.ErrUnexpectedEOF}[sym.Range("err", 0, 3)]})
		if steps[i].err != nil {
			break
		}
	}
	pick := func(name string, hi int) int {
		if n != 1 {
			return 0
		}
		return sym.Range(name, 0, hi)
	}
	code := 404
	if n == 0 {
		code = sym.IntIn("code", 200, 599)
	}
	rb := &rwBody{respBody{steps: steps}}
	var bd io.ReadCloser = rb
	writable := pick("writable", 1) == 0
	if !writable {
		bd = &rb.respBody
	}
	cl := int64([]int{1, -1, 0, 9}[pick("length", 3)])
	head := pick("head", 1) == 1
	method := "POST"
	if head {
		method = "HEAD"
	}
	r := request(method, "/x")
	size := int64(-1)
	if n != 1 || sym.Bool("body") {
		r.Body = &bodyOf{}
		size = int64([]int{3, 0, -1}[pick("reqLength", 2)])
		r.ContentLength = size
		if size < 0 {
			size = 0
		}
	}
	bs := &base{resp: &http.Response{StatusCode: code, Header: http.Header{}, Body: bd, ContentLength: cl}}
	tr := &ochttp.Transport{Base: bs, Propagation: &format{}}
	resp, err := tr.RoundTrip(r)
	ck(34, err == nil && resp != nil, "the response is delivered")
	_, isW := resp.Body.(io.Writer)
	ck(32, isW == writable, "the body is writable exactly when the transport's is")
	if w, ok := resp.Body.(io.Writer); ok {
		k, err := w.Write([]byte{1, 2})
		ck(32, k == 2 && err == errRead && rb.writes == 1, "writes reach the transport's body")
	}
	// the caller reads some of it and closes, perhaps twice
	var dur, end int64
	ended, total := false, int64(0)
	next := byte(0)
	var lastErr error
	m := sym.Range("reads", 0, n+1)
	for i := 0; i < m; i++ {
		dur += 500000
		sym.SetClock(t0 + dur)
		p := make([]byte, 3)
		k, err := resp.Body.Read(p)
		wn, werr := 0, error(io.EOF)
		if i < len(steps) {
			wn, werr = steps[i].n, steps[i].err
		}
		ck(34, k == wn && err == werr, "a read returns what the transport's body returned")
		for j := 0; j < k; j++ {
			ck(34, p[j] == next, "the bytes are the transport's")
			next++
		}
		if !ended {
			total += int64(k)
		}
		if err == errRead || err == io.ErrUnexpectedEOF {
			lastErr = err
		}
		if err == io.EOF && !ended {
			ended, end = true, dur
		}
		ck(34, rb.reads == i+1, "one read is one read of the transport's body")
		ck(34, len(e.got) == map[bool]int{false: 0, true: 1}[ended], "the span ends at the end of the body")
	}
	for i, k := 0, sym.Range("closes", 0, 2); i < k; i++ {
		dur += 500000
		sym.SetClock(t0 + dur)
		if !ended {
			ended, end = true, dur
		}
		ck(34, resp.Body.Close() == errClose && rb.closes == i+1, "closing closes the transport's body")
		ck(34, len(e.got) == 1, "the span ends once")
	}
	trace.UnregisterExporter(e)
	cn, rows, tags, val := recorded("c")
	ck(34, cn == 1 && rows == 1 && val == 1 && tagVal(tags, keyM) == method && tagVal(tags, keyS) == "", "the request is counted once, at its start")
	if !ended {
		ck(34, len(e.got) == 0, "the span is open while the body is")
		cn, _, _, _ = recorded("l")
		ck(34, cn == 0, "nothing is recorded before the end")
		sym.Cover("open")
		return
	}
	ck(34, len(e.got) == 1, "the span ends once")
	d := e.got[0]
	if lastErr != nil {
		ck(34, d.Status.Code == 2 && d.Status.Message == lastErr.Error(), "a read error is the span's status")
		sym.Cover("read error")
	} else {
		c, msg := refStatus(code)
		ck(34, d.Status.Code == c && d.Status.Message == msg, "the span status is the response's")
	}
	ck(34, isInt(attr(d, ochttp.StatusCodeAttribute), int64(code)), "the status code attribute is the response's")
	sv := itoa3(code)
	okTags := func(ts []tag.Tag) bool {
		return tagVal(ts, km) == method && tagVal(ts, ks) == sv && tagVal(ts, kp) == "/x"
	}
	cn, rows, tags, val = recorded("l")
	ck(34, cn == 1 && rows == 1 && val == float64(end)/1e6, "the latency is recorded once, up to the end of the body")
	ck(34, okTags(tags), "the latency carries method, status and path")
	want := total
	if total == 0 && !head && cl > 0 {
		want = cl
	}
	cn, rows, tags, val = recorded("r")
	ck(34, cn == 1 && rows == 1 && okTags(tags), "the received bytes are recorded once")
	ck(34, val == float64(want), "the received bytes are exact")
	cn, rows, tags, val = recorded("p")
	ck(34, cn == 1 && rows == 1 && val == float64(total) && tagVal(tags, keyS) == sv, "the response bytes are those read")
	sentBytes := size
	if size < 0 {
		sentBytes = 0
	}
	cn, rows, tags, val = recorded("s")
	ck(34, cn == 1 && rows == 1 && okTags(tags), "the sent bytes are recorded once")
	ck(34, val == float64(sentBytes), "the sent bytes are the request body's")
	cn, _, _, val = recorded("q")
	if size >= 0 {
		ck(34, cn == 1 && val == float64(size), "the request bytes are recorded once and exactly")
	} else {
		ck(34, cn == 0, "no request bytes without a body")
	}
	sym.Cover("ended")
}

// HClientError: a failed exchange is measured once as well; cancelling reaches the base.
func HClientError() {
	track(clientMeasures, ochttp.KeyClientMethod)
	can := sym.Bool("cancelable")
	bs := &base{err: errTransport}
	tr := &ochttp.Transport{Base: bs, Propagation: &format{}}
	if can {
		tr.Base = cancelBase{bs}
	}
	r := request("GET", "/x")
	_, err := tr.RoundTrip(r)
	ck(34, err == errTransport, "the transport's error is returned")
	for _, m := range clientMeasures {
		n, rows, _, val := recorded(m.name)
		ck(34, n == 1 && rows == 1, "a failed request is measured once")
		ck(34, m.name == "l" || val == 0, "a failed request without a body moved no bytes")
	}
	tr.CancelRequest(r)
	if can {
		ck(34, len(bs.cancels) == 1 && bs.cancels[0] == r, "cancelling reaches the base transport")
	} else {
		ck(34, len(bs.cancels) == 0, "nothing to cancel")
	}
	sym.Cover("failed")
}
