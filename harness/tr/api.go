package tr

import (
	"context"
	"fmt"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/trace"
)

// fakeSpan records the calls it gets.
type fakeSpan struct {
	on  bool
	sc  trace.SpanContext
	log []string
	// arguments of the latest call
	name    string
	status  trace.Status
	attrs   []trace.Attribute
	args    []interface{}
	n       [3]int64
	link    trace.Link
	called  int
	asked   int
	strings int
}

func (f *fakeSpan) did(s string)                       { f.log = append(f.log, s); f.called++ }
func (f *fakeSpan) IsRecordingEvents() bool            { f.asked++; return f.on }
func (f *fakeSpan) End()                               { f.did("End") }
func (f *fakeSpan) SpanContext() trace.SpanContext     { return f.sc }
func (f *fakeSpan) SetName(n string)                   { f.did("SetName"); f.name = n }
func (f *fakeSpan) SetStatus(s trace.Status)           { f.did("SetStatus"); f.status = s }
func (f *fakeSpan) AddAttributes(a ...trace.Attribute) { f.did("AddAttributes"); f.attrs = a }
func (f *fakeSpan) Annotate(a []trace.Attribute, s string) {
	f.did("Annotate")
	f.attrs, f.name = a, s
}
func (f *fakeSpan) Annotatef(a []trace.Attribute, s string, x ...interface{}) {
	f.did("Annotatef")
	f.attrs, f.name, f.args = a, s, x
}
func (f *fakeSpan) AddMessageSendEvent(a, b, c int64) {
	f.did("AddMessageSendEvent")
	f.n = [3]int64{a, b, c}
}
func (f *fakeSpan) AddMessageReceiveEvent(a, b, c int64) {
	f.did("AddMessageReceiveEvent")
	f.n = [3]int64{a, b, c}
}
func (f *fakeSpan) AddLink(l trace.Link) { f.did("AddLink"); f.link = l }
func (f *fakeSpan) String() string       { f.strings++; return f.name + "!" }

// HSpanAPI: a span handle passes every call to the span behind it, changes
// only while that records events; a nil handle takes every call.
func HSpanAPI() {
	n := sym.Param("ops", 3)
	f := &fakeSpan{on: sym.Bool("recording"), sc: symContext("sc")}
	nilSpan := sym.Range("nil", 0, 1) == 1
	var sp *trace.Span
	if !nilSpan {
		sp = trace.NewSpan(f)
		ck(47, sp.Internal() == trace.SpanInterface(f), "the span behind the handle")
	}
	rec := sym.And(f.on, !nilSpan)
	for i := 0; i < n; i++ {
		if i > 0 {
			f.on = sym.Bool("recording")
			rec = sym.And(f.on, !nilSpan)
		}
		before := f.called
		text := sym.Str("text", sym.Range("len", 0, 1))
		v := [3]int64{sym.Int64("v"), sym.Int64("v"), sym.Int64("v")}
		attrs := []trace.Attribute{trace.Int64Attribute(text, v[0])}
		method, always := "", false
		same := func() bool { return true }
		switch sym.Range("op", 0, 9) {
		case 0:
			sp.End()
			method, always = "End", true
		case 1:
			sp.SetName(text)
			method = "SetName"
			same = func() bool { return f.name == text }
		case 2:
			st := trace.Status{Code: int32(v[0]), Message: text}
			sp.SetStatus(st)
			method = "SetStatus"
			same = func() bool { return f.status == st }
		case 3:
			sp.AddAttributes(attrs...)
			method = "AddAttributes"
			same = func() bool { return len(f.attrs) == 1 && f.attrs[0] == attrs[0] }
		case 4:
			sp.Annotate(attrs, text)
			method = "Annotate"
			same = func() bool { return len(f.attrs) == 1 && f.attrs[0] == attrs[0] && f.name == text }
		case 5:
			sp.Annotatef(attrs, text, v[0], text)
			method = "Annotatef"
			same = func() bool {
				return len(f.attrs) == 1 && f.attrs[0] == attrs[0] && f.name == text && len(f.args) == 2 && f.args[0] == v[0] && f.args[1] == text
			}
		case 6:
			sp.AddMessageSendEvent(v[0], v[1], v[2])
			method = "AddMessageSendEvent"
			same = func() bool { return f.n == v }
		case 7:
			sp.AddMessageReceiveEvent(v[0], v[1], v[2])
			method = "AddMessageReceiveEvent"
			same = func() bool { return f.n == v }
		case 8:
			l := trace.Link{Type: trace.LinkType(v[1]), Attributes: map[string]interface{}{"a": text}}
			l.TraceID[3], l.SpanID[4] = byte(v[0]), byte(v[2])
			sp.AddLink(l)
			method = "AddLink"
			same = func() bool {
				return f.link.Type == l.Type && f.link.TraceID == l.TraceID && f.link.SpanID == l.SpanID && f.link.Attributes["a"] == text
			}
		case 9:
			ck(47, sp.IsRecordingEvents() == rec, "recording as the span behind it")
			if nilSpan {
				ck(47, sp.SpanContext() == trace.SpanContext{}, "no context without a span")
				ck(47, sp.String() == "<nil>", "the text of a nil span")
			} else {
				ck(47, sp.SpanContext() == f.sc, "the context of the span behind it")
				ck(47, sp.String() == f.name+"!", "the text of the span behind it")
			}
			continue
		}
		if nilSpan || !always && !f.on {
			ck(47, f.called == before, "nothing is passed to a span that does not record")
			sym.Cover("ignored")
			continue
		}
		ck(47, f.called == before+1, "a call is passed on once")
		if f.called == before+1 {
			ck(47, f.log[before] == method, "the call is the same")
			ck(47, same(), "the arguments are the same")
		}
		sym.Cover("passed")
	}
}

func symContext(n string) (sc trace.SpanContext) {
	copy(sc.TraceID[:], sym.Bytes(n+"t", 16))
	copy(sc.SpanID[:], sym.Bytes(n+"s", 8))
	sc.TraceOptions = trace.TraceOptions(sym.Uint32(n + "o"))
	return
}

type fakeTracer struct {
	calls  int
	method string
	ctx    context.Context
	name   string
	parent trace.SpanContext
	span   *trace.Span
	opts   int
	ret    context.Context
	out    *trace.Span
}

func (f *fakeTracer) StartSpan(ctx context.Context, name string, o ...trace.StartOption) (context.Context, *trace.Span) {
	f.calls++
	f.method, f.ctx, f.name, f.opts = "StartSpan", ctx, name, apply(o)
	return f.ret, f.out
}

func (f *fakeTracer) StartSpanWithRemoteParent(ctx context.Context, name string, p trace.SpanContext, o ...trace.StartOption) (context.Context, *trace.Span) {
	f.calls++
	f.method, f.ctx, f.name, f.parent, f.opts = "StartSpanWithRemoteParent", ctx, name, p, apply(o)
	return f.ret, f.out
}

func (f *fakeTracer) FromContext(ctx context.Context) *trace.Span {
	f.calls++
	f.method, f.ctx = "FromContext", ctx
	return f.out
}

func (f *fakeTracer) NewContext(ctx context.Context, s *trace.Span) context.Context {
	f.calls++
	f.method, f.ctx, f.span = "NewContext", ctx, s
	return f.ret
}

// apply gives the digits of the options, in order.
func apply(o []trace.StartOption) int {
	var so trace.StartOptions
	for _, x := range o {
		x(&so)
	}
	return so.SpanKind
}

// options makes n options and the number they come to.
func options(kind, n int) ([]trace.StartOption, int) {
	if n == 0 {
		return nil, 0
	}
	o := []trace.StartOption{trace.WithSpanKind(kind)}
	for i := 1; i < n; i++ {
		d := sym.IntIn("digit", 0, 9)
		o = append(o, func(so *trace.StartOptions) { so.SpanKind = so.SpanKind*10 + d })
		kind = kind*10 + d
	}
	return o, kind
}

// HTracerAPI: the package functions are those of the default tracer.
func HTracerAPI() {
	type key struct{}
	old := trace.DefaultTracer
	f := &fakeTracer{ret: context.WithValue(context.Background(), key{}, 1)}
	switch sym.Range("out", 0, 1) {
	case 1:
		f.out = trace.NewSpan(&fakeSpan{})
	}
	trace.DefaultTracer = f
	ctx := context.WithValue(context.Background(), key{}, 2)
	name := sym.Str("name", sym.Range("len", 0, 2))
	kind := sym.IntIn("kind", 0, 2)
	sc := symContext("parent")
	n := sym.Param("ops", 2)
	for i := 0; i < n; i++ {
		var c context.Context
		var s *trace.Span
		m := ""
		switch sym.Range("op", 0, 3) {
		case 0:
			o, all := options(kind, sym.Range("options", 0, 4))
			c, s = trace.StartSpan(ctx, name, o...)
			m = "StartSpan"
			ck(47, f.name == name && f.opts == all, "the arguments are the same")
			ck(47, c == f.ret && s == f.out, "the results are the tracer's")
		case 1:
			o, all := options(kind, sym.Range("options", 0, 4))
			c, s = trace.StartSpanWithRemoteParent(ctx, name, sc, o...)
			m = "StartSpanWithRemoteParent"
			ck(47, f.name == name && f.opts == all && f.parent == sc, "the arguments are the same")
			ck(47, c == f.ret && s == f.out, "the results are the tracer's")
		case 2:
			s = trace.FromContext(ctx)
			m = "FromContext"
			ck(47, s == f.out, "the results are the tracer's")
		case 3:
			in := trace.NewSpan(&fakeSpan{})
			c = trace.NewContext(ctx, in)
			m = "NewContext"
			ck(47, c == f.ret && f.span == in, "the results are the tracer's")
		}
		ck(47, f.calls == i+1 && f.method == m && f.ctx == ctx, "the default tracer is asked once")
	}
	sym.Cover("asked")
	// the tracer of the package works on spans and contexts of any kind
	trace.DefaultTracer = old
	ck(47, trace.FromContext(context.Background()) == nil, "no span in an empty context")
	sym.Assume(sc.TraceID != trace.TraceID{})
	in := trace.NewSpan(&fakeSpan{on: true, sc: sc})
	c := trace.NewContext(ctx, in)
	ck(47, trace.FromContext(c) == in, "the span put into a context is found in it")
	ck(47, c.Value(key{}) == 2, "a context with a span keeps its values")
	ck(47, trace.FromContext(trace.NewContext(c, nil)) == nil, "a nil span hides an earlier one")
	_, child := trace.StartSpan(c, "child")
	ck(47, child.SpanContext().TraceID == sc.TraceID, "a span of another kind is a parent")
	ck(47, child.SpanContext().IsSampled() == sc.IsSampled(), "a span of another kind is a parent")
	ck(47, fmt.Sprint(child.SpanContext().SpanID) != fmt.Sprint(trace.SpanID{}), "a child has an id of its own")
}
