// Package tr checks spans: identity, sampling, content, export and storage.
package tr

import (
	"context"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/tracestate"
)

// ck asserts c for one property (a harness may serve several).
func ck(prop int, c bool, label string) {
	if p := sym.Param("prop", 0); p != 0 && p != prop {
		return
	}
	sym.Assert(c, label)
}

func symTID(n string) (t trace.TraceID) { copy(t[:], sym.Bytes(n, 16)); return }
func symSID(n string) (t trace.SpanID)  { copy(t[:], sym.Bytes(n, 8)); return }

func eqTID(a, b trace.TraceID) bool { return sym.EqBytes(a[:], b[:]) }
func eqSID(a, b trace.SpanID) bool  { return sym.EqBytes(a[:], b[:]) }

// idGen hands out arbitrary ids and remembers them.
type idGen struct {
	tids []trace.TraceID
	sids []trace.SpanID
}

func (g *idGen) NewTraceID() [16]byte {
	t := symTID("newtid")
	g.tids = append(g.tids, t)
	return t
}

func (g *idGen) NewSpanID() [8]byte {
	s := symSID("newsid")
	g.sids = append(g.sids, s)
	return s
}

// ask is a sampler with an arbitrary answer that records what it was asked.
type ask struct {
	answer bool
	asked  []trace.SamplingParameters
}

func (a *ask) sampler(p trace.SamplingParameters) trace.SamplingDecision {
	a.asked = append(a.asked, p)
	return trace.SamplingDecision{Sample: a.answer}
}

type sink struct {
	got []*trace.SpanData
}

func (s *sink) ExportSpan(d *trace.SpanData) { s.got = append(s.got, d) }

func symState(n string) *tracestate.Tracestate {
	if sym.Range(n+"?", 0, 1) == 0 {
		return nil
	}
	ts, err := tracestate.New(nil, tracestate.Entry{Key: "a", Value: "x"}, tracestate.Entry{Key: "b", Value: "y"})
	if err != nil {
		panic(err)
	}
	return ts
}

func sameState(a, b *tracestate.Tracestate) bool {
	if a == nil || b == nil {
		return a == b
	}
	x, y := a.Entries(), b.Entries()
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func eqSC(a, b trace.SpanContext) bool {
	return sym.And(sym.And(eqTID(a.TraceID, b.TraceID), eqSID(a.SpanID, b.SpanID)),
		sym.And(a.TraceOptions == b.TraceOptions, sameState(a.Tracestate, b.Tracestate)))
}

type ctxKey string

// HStart starts a span under every kind of parent and sampler combination.
func HStart() {
	g := &idGen{}
	def := &ask{answer: sym.Bool("default answer")}
	exp := &sink{}
	trace.RegisterExporter(exp)
	internal.LocalSpanStoreEnabled = sym.Range("store", 0, 1) == 1
	trace.ApplyConfig(trace.Config{IDGenerator: g, DefaultSampler: def.sampler})
	base := context.WithValue(context.Background(), ctxKey("user"), 42)

	// the parent
	kind := sym.Range("parent", 0, 5)
	ctx := base
	var parent trace.SpanContext
	has, remote := false, false
	var local *trace.Span
	switch kind {
	case 0: // none
	case 1: // remote
		remote = true
		parent = trace.SpanContext{TraceID: symTID("ptid"), SpanID: symSID("psid"), TraceOptions: trace.TraceOptions(sym.Uint32("popt")), Tracestate: symState("pstate")}
		has = sym.Or(sym.Or(!eqTID(parent.TraceID, trace.TraceID{}), !eqSID(parent.SpanID, trace.SpanID{})), sym.Or(parent.TraceOptions != 0, parent.Tracestate != nil))
	case 2: // local root
		has = true
		ps := &ask{answer: sym.Bool("parent sampled")}
		ctx, local = trace.StartSpan(base, "parent", trace.WithSampler(ps.sampler))
	case 3: // local child of a remote span
		has = true
		ps := &ask{answer: sym.Bool("parent sampled")}
		r := trace.SpanContext{TraceID: symTID("ptid"), SpanID: symSID("psid"), TraceOptions: trace.TraceOptions(sym.Uint32("popt")), Tracestate: symState("pstate")}
		ctx, local = trace.StartSpanWithRemoteParent(base, "parent", r, trace.WithSampler(ps.sampler))
	case 4: // remote, with an unrelated local span in the context
		has, remote = true, true
		ctx, local = trace.StartSpan(base, "other", trace.WithSampler(trace.AlwaysSample()))
		parent = trace.SpanContext{TraceID: symTID("ptid"), SpanID: symSID("psid"), TraceOptions: trace.TraceOptions(sym.Uint32("popt"))}
		sym.Assume(!eqTID(parent.TraceID, trace.TraceID{}))
	case 5: // a nil span in the context counts as none
		ctx = trace.NewContext(base, nil)
	}
	if local != nil && !remote {
		parent = local.SpanContext()
		// a span whose context is all zero is no parent (the generator may return zero ids)
		sym.Assume(sym.Or(!eqTID(parent.TraceID, trace.TraceID{}), !eqSID(parent.SpanID, trace.SpanID{})))
	}
	nt, ns := len(g.tids), len(g.sids)
	def.asked = nil

	// the span
	var opts []trace.StartOption
	var own *ask
	if sym.Range("own sampler", 0, 1) == 1 {
		own = &ask{answer: sym.Bool("own answer")}
		opts = append(opts, trace.WithSampler(own.sampler))
	}
	spanKind := []int{trace.SpanKindUnspecified, trace.SpanKindServer, trace.SpanKindClient}[sym.Range("kind", 0, 2)]
	if spanKind != trace.SpanKindUnspecified {
		opts = append(opts, trace.WithSpanKind(spanKind))
	}
	name := sym.Str("name", sym.Range("namelen", 0, 1))
	before := trace.FromContext(ctx)
	var nctx context.Context
	var sp *trace.Span
	if remote {
		nctx, sp = trace.StartSpanWithRemoteParent(ctx, name, parent, opts...)
	} else {
		nctx, sp = trace.StartSpan(ctx, name, opts...)
	}
	sc := sp.SpanContext()

	// identity
	ck(7, len(g.sids) == ns+1, "one span id drawn")
	ck(7, eqSID(sc.SpanID, g.sids[len(g.sids)-1]), "fresh span id")
	if has {
		sym.Cover("parent")
		ck(7, len(g.tids) == nt, "no trace id drawn under a parent")
		ck(7, eqTID(sc.TraceID, parent.TraceID), "trace id of the parent")
		ck(7, sameState(sc.Tracestate, parent.Tracestate), "tracestate of the parent")
	} else {
		sym.Cover("root")
		ck(7, len(g.tids) == nt+1, "one trace id drawn")
		ck(7, eqTID(sc.TraceID, g.tids[len(g.tids)-1]), "fresh trace id")
		ck(7, sc.Tracestate == nil, "no tracestate on a root")
	}
	ck(7, trace.FromContext(nctx) == sp, "new span is current")
	ck(7, trace.FromContext(ctx) == before, "caller's context unchanged")
	ck(7, nctx.Value(ctxKey("user")) == 42, "context values kept")

	// sampling
	consult := !has || remote || own != nil
	want := parent.IsSampled()
	used := def
	if own != nil {
		used = own
		ck(8, len(def.asked) == 0, "default sampler not asked when one is given")
	}
	if consult {
		sym.Cover("sampler asked")
		want = used.answer
		ck(8, len(used.asked) == 1, "sampler asked once")
		if len(used.asked) == 1 {
			p := used.asked[0]
			ck(8, eqTID(p.TraceID, sc.TraceID), "sampler sees the trace id")
			ck(8, eqSID(p.SpanID, sc.SpanID), "sampler sees the span id")
			ck(8, p.Name == name, "sampler sees the name")
			ck(8, eqSC(p.ParentContext, parent), "sampler sees the parent")
			if has {
				ck(8, p.HasRemoteParent == remote, "sampler sees the remote mark")
			} else if !remote {
				ck(8, !p.HasRemoteParent, "no remote mark on a root")
			}
		}
	} else {
		sym.Cover("decision inherited")
		ck(8, len(used.asked) == 0, "no sampler asked under a local parent")
	}
	ck(8, sc.IsSampled() == want, "sampling decision")
	if has {
		ck(8, sc.TraceOptions>>1 == parent.TraceOptions>>1, "other option bits of the parent kept")
	} else {
		ck(8, sc.TraceOptions>>1 == 0, "no other option bits on a root")
	}
	ck(8, sym.Implies(want, sp.IsRecordingEvents()), "sampled spans record")
	ck(8, sp.IsRecordingEvents() == sym.Or(want, internal.LocalSpanStoreEnabled), "recording only when sampled or stored")

	exp.got = nil
	sp.End()
	if len(exp.got) == 0 {
		ck(8, !want, "sampled span exported")
		sym.Cover("not exported")
		return
	}
	sym.Cover("exported")
	ck(8, want, "unsampled span not exported")
	d := exp.got[0]
	ck(7, eqSC(d.SpanContext, sc), "exported context")
	ck(7, d.Name == name, "exported name")
	ck(7, d.SpanKind == spanKind, "exported kind")
	if has {
		ck(7, eqSID(d.ParentSpanID, parent.SpanID), "parent span id")
		ck(7, d.HasRemoteParent == remote, "remote mark")
	} else {
		ck(7, eqSID(d.ParentSpanID, trace.SpanID{}), "root has no parent span id")
		if !remote {
			ck(7, !d.HasRemoteParent, "root has no remote parent")
		}
	}
}

// HProbability: probability sampling decides from the trace id alone and is monotone.
func HProbability() {
	f1, f2 := sym.Float64("f1"), sym.Float64("f2")
	sym.Assume(f1 <= f2)
	tid := symTID("tid")
	p := trace.SamplingParameters{
		ParentContext:   trace.SpanContext{TraceID: symTID("ptid"), SpanID: symSID("psid"), TraceOptions: trace.TraceOptions(sym.Uint32("popt"))},
		TraceID:         tid,
		SpanID:          symSID("sid"),
		Name:            sym.Str("name", 1),
		HasRemoteParent: sym.Bool("remote"),
	}
	s1, s2 := trace.ProbabilitySampler(f1), trace.ProbabilitySampler(f2)
	d1 := s1(p).Sample
	ps := p.ParentContext.IsSampled()
	ck(9, sym.Implies(ps, d1), "sampled parent stays sampled")
	ck(9, sym.Implies(sym.And(!ps, f1 <= 0), !d1), "fraction 0 never samples")
	ck(9, sym.Implies(f1 >= 1, d1), "fraction 1 always samples")
	d2 := s2(p).Sample
	ck(9, sym.Implies(d1, d2), "monotone in the fraction")
	sym.Cover("compared")
}

// HProbabilitySame: the decision for a fresh trace depends on its trace id only.
func HProbabilitySame() {
	f := sym.Float64("f")
	tid := symTID("tid")
	mk := func() trace.SamplingParameters {
		p := trace.SamplingParameters{
			ParentContext:   trace.SpanContext{TraceID: tid, SpanID: symSID("psid"), TraceOptions: trace.TraceOptions(sym.Uint32("popt")) &^ 1},
			TraceID:         tid,
			SpanID:          symSID("sid"),
			Name:            sym.Str("name", 1),
			HasRemoteParent: sym.Bool("remote"),
		}
		return p
	}
	s, s2 := trace.ProbabilitySampler(f), trace.ProbabilitySampler(f)
	a := s(mk()).Sample
	b := s2(mk()).Sample
	c := s(mk()).Sample
	ck(9, a == b, "same trace id, same decision")
	ck(9, a == c, "a sampler keeps no state")
	sym.Cover("compared")
	nan := f != f
	ck(9, sym.Implies(nan, !a), "a fraction that is no number never samples")
	ck(9, trace.AlwaysSample()(mk()).Sample, "always")
	ck(9, !trace.NeverSample()(mk()).Sample, "never")
}

// HIDs: span ids of one process are non-zero and distinct for every random seed.
func HIDs() {
	sym.SymRand()
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
	n := sym.Param("n", 4)
	var ids []trace.SpanID
	for i := 0; i < n; i++ {
		_, sp := trace.StartSpan(context.Background(), "s")
		id := sp.SpanContext().SpanID
		ck(10, !eqSID(id, trace.SpanID{}), "span id is not zero")
		for _, o := range ids {
			ck(10, !eqSID(id, o), "span ids are distinct")
		}
		ids = append(ids, id)
	}
	sym.Cover("ids")
}

// HIDsConc: two goroutines starting spans never get the same id.
func HIDsConc() {
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
	var a, b trace.SpanID
	done := make(chan bool, 2)
	sym.Explore()
	go func() {
		_, sp := trace.StartSpan(context.Background(), "a")
		a = sp.SpanContext().SpanID
		done <- true
	}()
	go func() {
		_, sp := trace.StartSpan(context.Background(), "b")
		b = sp.SpanContext().SpanID
		done <- true
	}()
	<-done
	<-done
	sym.StopExplore()
	_, sp := trace.StartSpan(context.Background(), "c")
	c := sp.SpanContext().SpanID
	z := trace.SpanID{}
	ck(10, sym.And(!eqSID(a, z), sym.And(!eqSID(b, z), !eqSID(c, z))), "span ids are not zero")
	ck(10, sym.And(!eqSID(a, b), sym.And(!eqSID(a, c), !eqSID(b, c))), "span ids are distinct")
	sym.Cover("ids")
}
