//go:build go1.21

// Package rp checks the gRPC plugin.
package rp

import (
	"context"
	"errors"
	"sync"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	gstats "google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

func ck(prop int, c bool, label string) {
	if p := sym.Param("prop", 0); p != 0 && p != prop {
		return
	}
	sym.Assert(c, label)
}

var bg = context.Background()

type sink struct {
	mu  sync.Mutex
	got []*trace.SpanData
}

func (s *sink) ExportSpan(d *trace.SpanData) {
	s.mu.Lock()
	s.got = append(s.got, d)
	s.mu.Unlock()
}

var key = tag.MustNewKey("k")
var local = tag.MustNewKey("local")

type handler = gstats.Handler

const method, methodTag, spanName = "/pkg.Svc/Do", "pkg.Svc/Do", "pkg.Svc.Do"

// carry moves what a client context sends to a server context.
func carry(c context.Context) context.Context {
	s := bg
	if md, ok := metadata.FromOutgoingContext(c); ok {
		s = metadata.NewIncomingContext(s, md)
	}
	if b := gstats.OutgoingTags(c); b != nil {
		s = gstats.SetIncomingTags(s, b)
	}
	return s
}

// HRpc: a client and a server handler around one call.
func HRpc() {
	e := &sink{}
	trace.RegisterExporter(e)
	onC, onS := sym.Bool("clientSampled"), sym.Bool("serverSampled")
	asked := 0
	dec := func(on bool) trace.Sampler {
		return func(trace.SamplingParameters) trace.SamplingDecision {
			asked++
			return trace.SamplingDecision{Sample: on}
		}
	}
	ch := &ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: dec(onC), SpanKind: trace.SpanKindServer}}
	sh := &ocgrpc.ServerHandler{StartOptions: trace.StartOptions{Sampler: dec(onS), SpanKind: trace.SpanKindClient}, IsPublicEndpoint: sym.Bool("public")}
	ctx := bg
	hasTags := sym.Bool("tags")
	val := ""
	if hasTags {
		val = sym.Str("val", sym.Range("vlen", 0, 2))
		for i := 0; i < len(val); i++ {
			sym.Assume(sym.And(val[i] >= 32, val[i] <= 126))
		}
		var err error
		ctx, err = tag.New(ctx, tag.Insert(key, val), tag.Insert(local, "l", tag.WithTTL(tag.TTLNoPropagation)))
		ck(35, err == nil, "tags")
	}
	hasParent := sym.Bool("parent")
	var parent trace.SpanContext
	if hasParent {
		copy(parent.TraceID[:], sym.Bytes("ptid", 16))
		copy(parent.SpanID[:], sym.Bytes("psid", 8))
		parent.TraceOptions = trace.TraceOptions(sym.Uint32("popt"))
		sym.Assume(parent.TraceID != trace.TraceID{})
		ctx, _ = trace.StartSpanWithRemoteParent(ctx, "in", parent, trace.WithSampler(trace.NeverSample()))
	}
	user := sym.Bool("userMetadata")
	if user {
		ctx = metadata.AppendToOutgoingContext(ctx, "u", "v", "u", "w")
		switch sym.Range("stale", 0, 2) { // metadata of another call, passed on
		case 1:
			ctx = metadata.AppendToOutgoingContext(ctx, "grpc-trace-bin", string(sym.Bytes("stale", 29)))
		case 2:
			ctx = metadata.NewOutgoingContext(ctx, metadata.Pairs("u", "v", "grpc-trace-bin", "x", "u", "w"))
		}
	}
	info := &gstats.RPCTagInfo{FullMethodName: method, FailFast: true}
	cc := ch.TagRPC(ctx, info)
	cs := trace.FromContext(cc)
	ck(35, cs != nil && cs != trace.FromContext(ctx), "the client call has its own span")
	ck(35, cs.SpanContext().IsSampled() == onC, "the client span is sampled as configured")
	if hasParent {
		ck(35, cs.SpanContext().TraceID == parent.TraceID, "the client span continues the caller's trace")
	}
	md, _ := metadata.FromOutgoingContext(cc)
	ck(35, len(md["grpc-trace-bin"]) == 1, "the client sends one span context")
	ck(35, !user || len(md["u"]) == 2 && md["u"][0] == "v" && md["u"][1] == "w", "the caller's metadata is sent too")
	md, _ = metadata.FromOutgoingContext(ctx)
	ck(35, !user || len(md["u"]) == 2, "the caller's metadata is left alone")
	ck(35, tag.FromContext(cc) == tag.FromContext(ctx), "the client call keeps the caller's tags")

	in := carry(cc)
	sc := sh.TagRPC(in, info)
	ss := trace.FromContext(sc)
	ck(35, ss != nil, "the server call has a span")
	ck(35, ss.SpanContext().IsSampled() == onS, "the server span is sampled as configured")
	ck(35, asked == 2, "each sampler is asked once")
	if !sh.IsPublicEndpoint {
		ck(35, ss.SpanContext().TraceID == cs.SpanContext().TraceID, "the server span continues the client's trace")
	}
	m := tag.FromContext(sc)
	v, ok := m.Value(ocgrpc.KeyServerMethod)
	ck(35, ok && v == methodTag, "the server context has the method")
	v, ok = m.Value(key)
	ck(35, ok == hasTags && v == val, "the server adopts the propagated tags")
	_, ok = m.Value(local)
	ck(35, !ok, "a local tag stays local")
	// end both, in either order
	var err error
	code := int32(0)
	if sym.Bool("fails") {
		code = sym.Int32("code")
		sym.Assume(code > 0)
		err = rpcErr{codes.Code(uint32(code)), "m"}
	}
	end := func(h handler, c context.Context, client bool) {
		n := len(e.got)
		h.HandleRPC(c, &gstats.Begin{Client: client, FailFast: true})
		ck(35, len(e.got) == n, "the span is open during the call")
		h.HandleRPC(c, &gstats.End{Client: client, Error: err})
	}
	end(sh, sc, false)
	end(ch, cc, true)
	trace.UnregisterExporter(e)
	n := 0
	if onC {
		n++
	}
	if onS {
		n++
	}
	ck(35, len(e.got) == n, "each sampled span is exported once")
	for _, d := range e.got {
		ck(35, d.Name == spanName, "the span is named after the method")
		msg := ""
		if err != nil {
			msg = "m"
		}
		ck(35, d.Status.Code == code && d.Status.Message == msg, "the span status is the call's")
		if d.SpanContext.SpanID == cs.SpanContext().SpanID {
			ck(35, d.SpanKind == trace.SpanKindClient, "a client span")
			if hasParent {
				ck(35, d.ParentSpanID == trace.FromContext(ctx).SpanContext().SpanID && !d.HasRemoteParent, "the caller's span is the parent")
			} else {
				ck(35, d.ParentSpanID == trace.SpanID{}, "a root span")
			}
			ck(35, len(d.Links) == 0, "no links on the client span")
			c, ok := d.Attributes["Client"].(bool)
			ck(35, ok && c, "the client attribute")
			sym.Cover("client")
			continue
		}
		ck(35, d.SpanContext.SpanID == ss.SpanContext().SpanID && d.SpanKind == trace.SpanKindServer, "a server span")
		if sh.IsPublicEndpoint {
			ck(35, d.ParentSpanID == trace.SpanID{} && !d.HasRemoteParent && len(d.Links) == 1, "a public endpoint links the client span")
			if len(d.Links) == 1 {
				l := d.Links[0]
				ck(35, l.TraceID == cs.SpanContext().TraceID && l.SpanID == cs.SpanContext().SpanID, "the link names the client span")
			}
			sym.Cover("linked")
		} else {
			ck(35, d.ParentSpanID == cs.SpanContext().SpanID && d.HasRemoteParent && len(d.Links) == 0, "the client span is the parent")
			sym.Cover("child")
		}
	}
	sym.Cover("done")
}

// rpcErr is an error carrying a status.
type rpcErr struct {
	c codes.Code
	m string
}

func (e rpcErr) Error() string              { return e.m }
func (e rpcErr) GRPCStatus() *status.Status { return status.New(e.c, e.m) }

// HRpcIn: a server given arbitrary metadata never fails; well-formed parts are adopted.
func HRpcIn() {
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
	ctx := bg
	md := metadata.MD{}
	n := sym.Range("n", -1, sym.Param("n", 3))
	var raw []byte
	if n >= 0 {
		raw = sym.Bytes("ctx", n)
		md["grpc-trace-bin"] = []string{string(raw)}
	} else if n == -1 && sym.Bool("full") {
		raw = sym.Bytes("ctx", 29)
		md["grpc-trace-bin"] = []string{string(raw)}
	}
	ctx = metadata.NewIncomingContext(ctx, md)
	k := sym.Range("k", -1, sym.Param("k", 6))
	if k >= 0 {
		ctx = gstats.SetIncomingTags(ctx, sym.Bytes("tags", k))
	}
	// tags of an outer context are not those of the call
	outer := tag.MustNewKey("outer-key")
	if n == -1 && sym.Bool("outer") {
		ctx, _ = tag.New(ctx, tag.Insert(outer, "v"))
	}
	sh := &ocgrpc.ServerHandler{IsPublicEndpoint: sym.Bool("public")}
	var out context.Context
	p := sym.Panics(func() {
		out = sh.TagRPC(ctx, &gstats.RPCTagInfo{FullMethodName: method})
		sh.HandleRPC(out, &gstats.Begin{})
		sh.HandleRPC(out, &gstats.End{})
	})
	ck(35, !p, "malformed metadata does not fail the call")
	if p {
		return
	}
	sp := trace.FromContext(out)
	ck(35, sp != nil, "the call has a span")
	m := tag.FromContext(out)
	v, ok := m.Value(ocgrpc.KeyServerMethod)
	ck(35, ok && v == methodTag, "the server context has the method")
	_, ok = m.Value(outer)
	ck(35, !ok, "a call has the tags of its metadata only")
	if len(raw) == 29 && raw[0] == 0 && raw[1] == 0 && !sh.IsPublicEndpoint {
		var t trace.TraceID
		copy(t[:], raw[2:18])
		if (t != trace.TraceID{}) {
			ck(35, sp.SpanContext().TraceID == t, "a well-formed span context is adopted")
			sym.Cover("adopted")
		}
	}
	sym.Cover("done")
}

// HRpcUntagged: events without the per-call data are ignored.
func HRpcUntagged() {
	var h handler = &ocgrpc.ClientHandler{}
	client := sym.Bool("client")
	if !client {
		h = &ocgrpc.ServerHandler{}
	}
	n := sym.Range("n", 1, 2)
	p := sym.Panics(func() {
		for i := 0; i < n; i++ {
			h.HandleRPC(bg, event(sym.Range("event", 0, 7), client, 1, nil))
		}
		h.HandleConn(bg, &gstats.ConnBegin{Client: client})
	})
	ck(35, !p, "events of unknown calls are ignored")
	ck(35, h.TagConn(bg, &gstats.ConnTagInfo{}) == bg, "connections are not tagged")
	sym.Cover("ignored")
}

func event(k int, client bool, n int, err error) gstats.RPCStats {
	switch k {
	case 0:
		return &gstats.Begin{Client: client}
	case 1:
		return &gstats.OutPayload{Client: client, Length: n, WireLength: n + 5}
	case 2:
		return &gstats.InPayload{Client: client, Length: n, WireLength: n + 5}
	case 3:
		return &gstats.InHeader{Client: client}
	case 4:
		return &gstats.OutHeader{Client: client}
	case 5:
		return &gstats.InTrailer{Client: client}
	case 6:
		return &gstats.OutTrailer{Client: client}
	}
	return &gstats.End{Client: client, Error: err}
}

type meas struct {
	name string
	m    stats.Measure
}

var measures = [2][]meas{
	{{"sb", ocgrpc.ServerSentBytesPerRPC}, {"sm", ocgrpc.ServerSentMessagesPerRPC}, {"rb", ocgrpc.ServerReceivedBytesPerRPC}, {"rm", ocgrpc.ServerReceivedMessagesPerRPC}, {"l", ocgrpc.ServerLatency}, {"st", ocgrpc.ServerStartedRPCs}},
	{{"sb", ocgrpc.ClientSentBytesPerRPC}, {"sm", ocgrpc.ClientSentMessagesPerRPC}, {"rb", ocgrpc.ClientReceivedBytesPerRPC}, {"rm", ocgrpc.ClientReceivedMessagesPerRPC}, {"l", ocgrpc.ClientRoundtripLatency}, {"st", ocgrpc.ClientStartedRPCs}},
}

func register(client bool) {
	i, keys := 0, []tag.Key{ocgrpc.KeyServerMethod, ocgrpc.KeyServerStatus, ocgrpc.KeyClientMethod, key}
	if client {
		i, keys = 1, []tag.Key{ocgrpc.KeyClientMethod, ocgrpc.KeyClientStatus, ocgrpc.KeyServerMethod, key}
	}
	var vs []*view.View
	for _, m := range measures[i] {
		vs = append(vs, &view.View{Name: m.name, Measure: m.m, Aggregation: view.Distribution(), TagKeys: keys})
	}
	if err := view.Register(vs...); err != nil {
		panic(err)
	}
}

// only is the count, sum and tags of a view with at most one row.
func only(name string) (n int64, sum float64, tags []tag.Tag) {
	rows, err := view.RetrieveData(name)
	if err != nil || len(rows) > 1 {
		return -1, 0, nil
	}
	if len(rows) == 0 {
		return 0, 0, nil
	}
	d := rows[0].Data.(*view.DistributionData)
	return d.Count, d.Sum(), rows[0].Tags
}

func tagVal(ts []tag.Tag, k tag.Key) string {
	for _, t := range ts {
		if t.Key.Name() == k.Name() {
			return t.Value
		}
	}
	return ""
}

var names = []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED",
	"RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}

// HRpcStats: any event sequence of a call is accounted exactly once, with exact counts.
func HRpcStats() {
	e := &sink{}
	trace.RegisterExporter(e)
	client := sym.Bool("client")
	register(client)
	sampler := trace.AlwaysSample()
	ctx := bg
	var h handler = &ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: sampler}}
	own, st, foreign := ocgrpc.KeyClientMethod, ocgrpc.KeyClientStatus, ocgrpc.KeyServerMethod
	ctx, _ = tag.New(ctx, tag.Insert(key, "v"))
	if !client {
		h = &ocgrpc.ServerHandler{StartOptions: trace.StartOptions{Sampler: sampler}}
		own, st, foreign = ocgrpc.KeyServerMethod, ocgrpc.KeyServerStatus, ocgrpc.KeyClientMethod
		ctx = gstats.SetIncomingTags(bg, tag.Encode(tag.FromContext(ctx)))
	}
	const t0 = 1700000000000000000
	sym.SetClock(t0)
	c := h.TagRPC(ctx, &gstats.RPCTagInfo{FullMethodName: method})
	h.HandleRPC(c, event(0, client, 0, nil))
	n := sym.Range("events", 0, sym.Param("events", 3))
	var sb, sm, rb, rm int64
	var want []trace.MessageEvent
	for i := 0; i < n; i++ {
		k := sym.Range("event", 1, 4)
		sz := sym.Range("size", 0, 1) * 700
		h.HandleRPC(c, event(k, client, sz, nil))
		switch k {
		case 1:
			sb, sm = sb+int64(sz), sm+1
			want = append(want, trace.MessageEvent{EventType: trace.MessageEventTypeSent, UncompressedByteSize: int64(sz), CompressedByteSize: int64(sz) + 5})
		case 2:
			rb, rm = rb+int64(sz), rm+1
			want = append(want, trace.MessageEvent{EventType: trace.MessageEventTypeRecv, UncompressedByteSize: int64(sz), CompressedByteSize: int64(sz) + 5})
		}
	}
	for _, m := range measures[0] {
		cnt, _, _ := only(m.name)
		ck(35, cnt == map[bool]int64{true: 1, false: 0}[m.name == "st"], "only the start is recorded before the end")
	}
	var err error
	code := 0
	if n == 0 {
		code = sym.IntIn("code", 0, 20)
	} else if sym.Bool("fails") {
		code = 14
	}
	if code != 0 {
		err = rpcErr{codes.Code(uint32(code)), "m"}
	}
	dur := int64(sym.Range("dur", 0, 1)) * 2500000
	sym.SetClock(t0 + dur)
	h.HandleRPC(c, event(7, client, 0, err))
	trace.UnregisterExporter(e)
	name := ""
	if code < len(names) {
		name = names[code]
	} else {
		name = "CODE_" + string([]byte{byte('0' + code/10), byte('0' + code%10)})
	}
	for _, x := range []struct {
		n string
		v float64
	}{{"sb", float64(sb)}, {"sm", float64(sm)}, {"rb", float64(rb)}, {"rm", float64(rm)}, {"l", float64(dur) / 1e6}} {
		cnt, sum, tags := only(x.n)
		ck(35, cnt == 1, "a completed call is recorded once")
		ck(35, sum == x.v, "the recorded totals are the call's")
		ck(35, tagVal(tags, own) == methodTag && tagVal(tags, st) == name, "recorded under the method and status")
		ck(35, tagVal(tags, key) == "v" && tagVal(tags, foreign) == "", "recorded with the context's tags and no others")
	}
	cnt, sum, tags := only("st")
	ck(35, cnt == 1 && sum == 1, "a started call is recorded once")
	ck(35, tagVal(tags, own) == methodTag && tagVal(tags, st) == "", "a start is recorded under the method")
	ck(35, tagVal(tags, key) == "v" && tagVal(tags, foreign) == "", "a start is recorded with the context's tags and no others")
	ck(35, len(e.got) == 1, "the span ends once")
	if len(e.got) == 1 {
		ev := e.got[0].MessageEvents
		ck(35, len(ev) == len(want), "each message is one event")
		if len(ev) == len(want) {
			for i := range ev {
				ck(35, ev[i].EventType == want[i].EventType && ev[i].UncompressedByteSize == want[i].UncompressedByteSize && ev[i].CompressedByteSize == want[i].CompressedByteSize, "message events are the call's messages in order")
			}
		}
		ck(35, int(e.got[0].Status.Code) == code, "the span status is the call's")
	}
	sym.Cover("ended")
}

// HRpcPlain: an error without a status still ends the span, with an error status.
func HRpcPlain() {
	e := &sink{}
	trace.RegisterExporter(e)
	client := sym.Bool("client")
	var h handler = &ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	if !client {
		h = &ocgrpc.ServerHandler{StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	}
	register(client)
	c := h.TagRPC(bg, &gstats.RPCTagInfo{FullMethodName: method})
	h.HandleRPC(c, event(0, client, 0, nil))
	h.HandleRPC(c, event(7, client, 0, errors.New("plain")))
	trace.UnregisterExporter(e)
	ck(35, len(e.got) == 1, "the span ends once")
	ck(35, len(e.got) == 1 && e.got[0].Status.Code != 0 && e.got[0].Status.Message == "plain", "the span has an error status")
	n, _, tags := only("l")
	ck(35, n == 1 && tagVal(tags, ocgrpc.KeyClientStatus) != "OK" && tagVal(tags, ocgrpc.KeyServerStatus) != "OK", "the call is recorded, not as a success")
	sym.Cover("plain")
}

// HRpcConc: the transport reports sent and received messages of a call concurrently,
// and calls overlap.
func HRpcConc() {
	client := sym.Bool("client")
	var h handler = &ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	if !client {
		h = &ocgrpc.ServerHandler{StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	}
	register(client)
	c := h.TagRPC(bg, &gstats.RPCTagInfo{FullMethodName: method})
	h.HandleRPC(c, event(0, client, 0, nil))
	a, b := sym.Range("a", 1, 2), sym.Range("b", 1, 2)
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		h.HandleRPC(c, event(a, client, 3, nil))
		wg.Done()
	}()
	go func() {
		h.HandleRPC(c, event(b, client, 40, nil))
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	h.HandleRPC(c, event(7, client, 0, nil))
	var s, r, ns, nr float64
	for _, x := range []struct{ k, n int }{{a, 3}, {b, 40}} {
		if x.k == 1 {
			s, ns = s+float64(x.n), ns+1
		} else {
			r, nr = r+float64(x.n), nr+1
		}
	}
	for _, x := range []struct {
		n string
		v float64
	}{{"sb", s}, {"sm", ns}, {"rb", r}, {"rm", nr}} {
		cnt, sum, _ := only(x.n)
		ck(35, cnt == 1 && sum == x.v, "concurrent messages are all counted")
	}
	sym.Cover("concurrent")
}
