//go:build go1.21

// Package hop checks that traces and tags cross processes.
package hop

import (
	"context"
	"net/http"

	"go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/tracestate"
	"google.golang.org/grpc/metadata"
	gstats "google.golang.org/grpc/stats"
)

var bg = context.Background()

type sink struct{ got []*trace.SpanData }

func (s *sink) ExportSpan(d *trace.SpanData) { s.got = append(s.got, d) }

// ids hands out a fixed trace id and span ids that differ in their last byte.
type ids struct {
	tid    [16]byte
	sid    [8]byte
	traces int
	n      byte
}

func (g *ids) NewTraceID() [16]byte {
	g.traces++
	t := g.tid
	if g.traces > 1 {
		t[0] ^= byte(g.traces)
	}
	return t
}

func (g *ids) NewSpanID() [8]byte {
	g.n++
	s := g.sid
	s[7] = g.n
	return s
}

type writer struct {
	h    http.Header
	code int
}

func (w *writer) Header() http.Header         { return w.h }
func (w *writer) Write(b []byte) (int, error) { return len(b), nil }
func (w *writer) WriteHeader(c int)           { w.code = c }

// wire is a transport that hands the request to a handler of another process.
type wire struct {
	h    http.Handler
	same bool // the handler is given the client's context
}

func (w wire) RoundTrip(r *http.Request) (*http.Response, error) {
	in, err := http.NewRequest(r.Method, r.URL.String(), nil)
	if err != nil {
		return nil, err
	}
	for k, v := range r.Header {
		in.Header[k] = append([]string(nil), v...)
	}
	if w.same {
		in = in.WithContext(r.Context())
	}
	x := &writer{h: http.Header{}}
	w.h.ServeHTTP(x, in)
	return &http.Response{StatusCode: 200, Header: x.h, Body: http.NoBody, Request: r}, nil
}

var key = tag.MustNewKey("k")

const (
	hopB3 = iota
	hopDefault
	hopTraceContext
	hopGRPC
	hopCloud
)

// HHops: a call through several processes is one trace, sampled or not as a
// whole, each span the child of the one that called it.
func HHops() {
	e := &sink{}
	trace.RegisterExporter(e)
	n := sym.Param("hops", 2)
	kinds := make([]int, n)
	cloud := false
	for i := range kinds {
		kinds[i] = sym.Range("kind", 0, sym.Param("kinds", 4))
		cloud = cloud || kinds[i] == hopCloud
	}
	g := &ids{sid: [8]byte{1, 2, 3}}
	fixed := sym.Param("fixed", 0) == 1
	if fixed {
		g.tid[15] = 7
	} else {
		copy(g.tid[:], sym.Bytes("tid", 16))
		sym.Assume(g.tid[15] != 0)
	}
	if !cloud && !fixed {
		copy(g.sid[:], sym.Bytes("sid", 7))
	}
	trace.ApplyConfig(trace.Config{IDGenerator: g, DefaultSampler: trace.ProbabilitySampler(0)})
	remote := trace.SpanContext{TraceID: g.tid, SpanID: trace.SpanID{9, 9}}
	from := sym.Range("from", 0, sym.Param("ext", 1)) // the first span is a root or has a remote parent
	inproc := sym.Range("inproc", 0, sym.Param("ext", 1)) == 1
	fwd.on = sym.Range("forward", 0, sym.Param("fwd", 0)) == 1
	on := sym.Bool("sampled")
	if from == 1 {
		remote.TraceOptions = trace.TraceOptions(sym.Byte("options"))
		sym.Assume(on == (remote.TraceOptions&1 == 1))
		g.traces = 1
		sym.Cover("remote")
	}
	root := trace.NeverSample()
	if on {
		root = trace.AlwaysSample()
	}
	val := string([]byte{sym.Byte("tag")})
	sym.Assume(sym.And(val[0] >= 32, val[0] <= 126))
	ctx, err := tag.New(bg, tag.Insert(key, val))
	if err != nil {
		sym.Assert(false, "a tag")
		return
	}
	var chain []trace.SpanContext // in the order of the calls
	var sp *trace.Span
	if from == 1 {
		ctx, sp = trace.StartSpanWithRemoteParent(ctx, "root", remote)
	} else {
		ctx, sp = trace.StartSpan(ctx, "root", trace.WithSampler(root))
	}
	chain = append(chain, sp.SpanContext())
	tagged := true
	var arrive func(ctx context.Context, i int)
	arrive = func(ctx context.Context, i int) {
		s := trace.FromContext(ctx)
		sym.Assert(s != nil, "a call has a span")
		chain = append(chain, s.SpanContext())
		if kinds[i] != hopGRPC && !inproc {
			tagged = false
		}
		v, ok := tag.FromContext(ctx).Value(key)
		sym.Assert(ok == tagged && (!ok || v == val), "tags cross gRPC hops only")
		call(ctx, i+1, kinds, inproc, arrive, &chain)
	}
	call(ctx, 0, kinds, inproc, arrive, &chain)
	sp.End()
	sym.Assert(len(chain) == 1+2*n, "a span on each side of each hop")
	sym.Assert(g.traces == 1, "one trace")
	for i, sc := range chain {
		sym.Assert(sc.TraceID == trace.TraceID(g.tid), "the trace goes on")
		sym.Assert(sc.IsSampled() == on, "the trace is sampled as a whole")
		for _, p := range chain[:i] {
			sym.Assert(p.SpanID != sc.SpanID, "every span has an id of its own")
		}
	}
	if !on {
		sym.Assert(len(e.got) == 0, "nothing of an unsampled trace is exported")
		sym.Cover("unsampled")
		return
	}
	sym.Cover("sampled")
	sym.Assert(len(e.got) == len(chain), "every span of a sampled trace is exported once")
	if len(e.got) != len(chain) {
		return
	}
	for i, sc := range chain {
		k := 0
		for _, d := range e.got {
			if d.SpanID != sc.SpanID {
				continue
			}
			k++
			if i == 0 {
				sym.Assert(d.ParentSpanID == remote.SpanID && from == 1 || d.ParentSpanID == trace.SpanID{} && from == 0, "the first span has the parent it was given or none")
				continue
			}
			sym.Assert(d.ParentSpanID == chain[i-1].SpanID, "a span is the child of its caller's")
			sym.Assert(d.HasRemoteParent == (i%2 == 0), "the parent of a server span is remote")
			want := trace.SpanKindClient
			if i%2 == 0 {
				want = trace.SpanKindServer
			}
			sym.Assert(d.SpanKind == want, "client and server spans")
		}
		sym.Assert(k == 1, "every span of a sampled trace is exported once")
	}
}

// fwd has what the last call arrived with, for those who pass it on.
var fwd struct {
	on bool
	md metadata.MD
	h  http.Header
}

// call makes the i-th call.
func call(ctx context.Context, i int, kinds []int, same bool, arrive func(context.Context, int), chain *[]trace.SpanContext) {
	if i == len(kinds) {
		return
	}
	if kinds[i] == hopGRPC {
		ch, sh := &ocgrpc.ClientHandler{}, &ocgrpc.ServerHandler{}
		info := &gstats.RPCTagInfo{FullMethodName: "/s.S/M", FailFast: true}
		if fwd.on && fwd.md != nil {
			ctx = metadata.NewOutgoingContext(ctx, fwd.md)
			sym.Cover("metadata passed on")
		}
		cc := ch.TagRPC(ctx, info)
		*chain = append(*chain, trace.FromContext(cc).SpanContext())
		ch.HandleRPC(cc, &gstats.Begin{Client: true})
		in := bg
		if md, ok := metadata.FromOutgoingContext(cc); ok {
			in = metadata.NewIncomingContext(in, md)
			if fwd.on {
				fwd.md = md
			}
		}
		if b := gstats.OutgoingTags(cc); b != nil {
			in = gstats.SetIncomingTags(in, b)
		}
		sc := sh.TagRPC(in, info)
		sh.HandleRPC(sc, &gstats.Begin{})
		arrive(sc, i)
		sh.HandleRPC(sc, &gstats.End{})
		ch.HandleRPC(cc, &gstats.End{Client: true})
		sym.Cover("grpc")
		return
	}
	h := &ochttp.Handler{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if fwd.on {
			fwd.h = r.Header
		}
		arrive(r.Context(), i)
	})}
	tr := &ochttp.Transport{}
	switch kinds[i] {
	case hopB3:
		h.Propagation, tr.Propagation = &b3.HTTPFormat{}, &b3.HTTPFormat{}
	case hopTraceContext:
		h.Propagation, tr.Propagation = &tracecontext.HTTPFormat{}, &tracecontext.HTTPFormat{}
	case hopCloud:
		h.Propagation, tr.Propagation = &propagation.HTTPFormat{}, &propagation.HTTPFormat{}
	}
	tr.Base = spy{wire{h, same}, chain}
	req, _ := http.NewRequest("GET", "http://h/x", nil)
	if fwd.on && fwd.h != nil {
		for k, v := range fwd.h {
			req.Header[k] = append([]string(nil), v...)
		}
		sym.Cover("headers passed on")
	}
	resp, err := tr.RoundTrip(req.WithContext(ctx))
	sym.Assert(err == nil, "the call succeeds")
	if err == nil {
		resp.Body.Close()
	}
	sym.Cover("http")
}

// spy notes the client span of a request.
type spy struct {
	next  http.RoundTripper
	chain *[]trace.SpanContext
}

func (s spy) RoundTrip(r *http.Request) (*http.Response, error) {
	*s.chain = append(*s.chain, trace.FromContext(r.Context()).SpanContext())
	return s.next.RoundTrip(r)
}

// HHopState: the tracestate of a trace follows it over a W3C hop, and the
// start of a public endpoint begins a trace of its own that names its caller.
func HHopState() {
	e := &sink{}
	trace.RegisterExporter(e)
	g := &ids{sid: [8]byte{1}}
	copy(g.tid[:], sym.Bytes("tid", 16))
	sym.Assume(g.tid[15] != 0)
	trace.ApplyConfig(trace.Config{IDGenerator: g, DefaultSampler: trace.AlwaysSample()})
	v := string([]byte{sym.Byte("v")})
	ts, err := tracestate.New(nil, tracestate.Entry{Key: "a", Value: "x" + v}, tracestate.Entry{Key: "b", Value: "y"})
	sym.Assume(err == nil)
	first := trace.SpanContext{TraceID: g.tid, SpanID: trace.SpanID{9}, TraceOptions: 1, Tracestate: ts}
	g.traces = 1 // ids made from here on are new
	public := sym.Range("public", 0, 1) == 1
	ctx, _ := trace.StartSpanWithRemoteParent(bg, "root", first)
	var chain []trace.SpanContext
	var server trace.SpanContext
	h := &ochttp.Handler{IsPublicEndpoint: public, Propagation: &tracecontext.HTTPFormat{}, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		server = trace.FromContext(r.Context()).SpanContext()
	})}
	tr := &ochttp.Transport{Base: spy{wire{h, false}, &chain}, Propagation: &tracecontext.HTTPFormat{}}
	req, _ := http.NewRequest("GET", "http://h/x", nil)
	resp, err := tr.RoundTrip(req.WithContext(ctx))
	sym.Assert(err == nil, "the call succeeds")
	if err != nil {
		return
	}
	resp.Body.Close()
	if len(e.got) != 2 || len(chain) != 1 {
		sym.Assert(false, "a span on each side")
		return
	}
	client := chain[0]
	sym.Assert(client.TraceID == first.TraceID && client.Tracestate != nil, "the client span is in the trace")
	d := e.got[0]
	if d.SpanID != server.SpanID {
		d = e.got[1]
	}
	if public {
		sym.Cover("public")
		sym.Assert(server.TraceID != first.TraceID && d.ParentSpanID == trace.SpanID{} && !d.HasRemoteParent, "a public endpoint starts a trace of its own")
		if len(d.Links) != 1 {
			sym.Assert(false, "a public endpoint links its caller")
			return
		}
		sym.Assert(d.Links[0].TraceID == client.TraceID && d.Links[0].SpanID == client.SpanID, "a public endpoint links its caller")
		return
	}
	sym.Assert(server.TraceID == first.TraceID && d.ParentSpanID == client.SpanID, "the server span is in the trace")
	if server.Tracestate == nil {
		sym.Assert(false, "the tracestate follows")
		return
	}
	es := server.Tracestate.Entries()
	sym.Assert(len(es) == 2 && es[0].Key == "a" && es[0].Value == "x"+v && es[1].Key == "b" && es[1].Value == "y", "the tracestate follows")
	sym.Cover("followed")
}
