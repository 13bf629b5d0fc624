package tr

import (
	"context"
	"sync"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/trace"
)

type attr struct {
	k string
	v int64
}

// HLimitAttrs: attributes against a reference list ordered by last write.
func HLimitAttrs() {
	e := &sink{}
	trace.RegisterExporter(e)
	limit := sym.Range("limit", 1, sym.Param("limit", 3))
	trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: limit})
	internal.LocalSpanStoreEnabled = sym.Param("report", 0) == 1
	_, sp := trace.StartSpan(context.Background(), "n", sampler(true))
	var ref []attr
	dropped := 0
	add := func(a attr) {
		for i := range ref {
			if ref[i].k == a.k {
				ref = append(ref[:i:i], ref[i+1:]...)
				break
			}
		}
		ref = append(ref, a)
		if len(ref) > limit {
			ref = ref[1:]
			dropped++
		}
	}
	n := sym.Range("ops", 0, sym.Param("ops", 4))
	sym.MapOrder(internal.LocalSpanStoreEnabled)
	batch := sym.Param("batch", 0) == 1
	var as []trace.Attribute
	for i := 0; i < n; i++ {
		if internal.LocalSpanStoreEnabled && sym.Range("report now", 0, 1) == 1 {
			report().ReportActiveSpans("n")
		}
		a := attr{k: sym.Str("k", 1), v: sym.Int64("v")}
		add(a)
		if batch {
			as = append(as, trace.Int64Attribute(a.k, a.v))
		} else {
			sp.AddAttributes(trace.Int64Attribute(a.k, a.v))
		}
	}
	if batch {
		sp.AddAttributes(as...)
	}
	sym.MapOrder(false)
	sp.End()
	sp.AddAttributes(trace.Int64Attribute("z", 1), trace.Int64Attribute("y", 1), trace.Int64Attribute("x", 1))
	if len(e.got) != 1 {
		ck(12, false, "exported once")
		return
	}
	d := e.got[0]
	ck(12, len(d.Attributes) == len(ref), "number of attributes kept")
	ck(12, len(d.Attributes) <= limit, "attribute limit")
	for _, a := range ref {
		v, ok := d.Attributes[a.k]
		ck(12, ok, "newest attributes kept")
		if ok {
			i, isInt := v.(int64)
			ck(12, isInt, "attribute type")
			ck(12, i == a.v, "attribute value")
		}
	}
	ck(12, d.DroppedAttributeCount == dropped, "dropped attribute count")
	if dropped > 0 {
		sym.Cover("dropped")
	} else {
		sym.Cover("all kept")
	}
}

// HLimitQueues: annotations, message events and links keep the newest in order.
func HLimitQueues() {
	e := &sink{}
	trace.RegisterExporter(e)
	limit := sym.Range("limit", 1, sym.Param("limit", 3))
	trace.ApplyConfig(trace.Config{MaxAnnotationEventsPerSpan: limit, MaxMessageEventsPerSpan: limit, MaxLinksPerSpan: limit})
	_, sp := trace.StartSpan(context.Background(), "n", sampler(true))
	kind := sym.Range("kind", 0, 2)
	n := sym.Range("ops", 0, sym.Param("ops", 6))
	tag := make([]int64, n)
	for i := range tag {
		tag[i] = sym.Int64("tag")
		switch kind {
		case 0:
			sp.Annotate([]trace.Attribute{trace.Int64Attribute("k", tag[i])}, "a")
		case 1:
			if i%2 == 0 {
				sp.AddMessageSendEvent(tag[i], int64(i), tag[i]+1)
			} else {
				sp.AddMessageReceiveEvent(tag[i], int64(i), tag[i]+1)
			}
		case 2:
			sp.AddLink(trace.Link{Type: trace.LinkType(i % 3), Attributes: map[string]interface{}{"k": tag[i]}})
		}
	}
	sp.End()
	sp.Annotate(nil, "late")
	sp.AddMessageSendEvent(1, 1, 1)
	sp.AddLink(trace.Link{})
	if len(e.got) != 1 {
		ck(12, false, "exported once")
		return
	}
	d := e.got[0]
	keep := n
	if keep > limit {
		keep = limit
		sym.Cover("dropped")
	}
	var want [3]int
	want[kind] = keep
	ck(12, len(d.Annotations) == want[0] && len(d.MessageEvents) == want[1] && len(d.Links) == want[2], "entries kept")
	if len(d.Annotations) != want[0] || len(d.MessageEvents) != want[1] || len(d.Links) != want[2] {
		return
	}
	var drop [3]int
	drop[kind] = n - keep
	ck(12, d.DroppedAnnotationCount == drop[0] && d.DroppedMessageEventCount == drop[1] && d.DroppedLinkCount == drop[2] && d.DroppedAttributeCount == 0, "dropped counts")
	for i := 0; i < keep; i++ {
		j := n - keep + i
		switch kind {
		case 0:
			v, _ := d.Annotations[i].Attributes["k"].(int64)
			ck(12, v == tag[j], "newest annotations in order")
		case 1:
			m := d.MessageEvents[i]
			ck(12, sym.And(m.MessageID == tag[j], sym.And(m.UncompressedByteSize == int64(j), m.CompressedByteSize == tag[j]+1)), "newest message events in order")
			wantType := trace.MessageEventTypeSent
			if j%2 == 1 {
				wantType = trace.MessageEventTypeRecv
			}
			ck(12, m.EventType == wantType, "message event type")
		case 2:
			v, _ := d.Links[i].Attributes["k"].(int64)
			ck(12, v == tag[j] && d.Links[i].Type == trace.LinkType(j%3), "newest links in order")
		}
	}
}

func symAttr(k string) (trace.Attribute, func(interface{}) bool) {
	switch sym.Range("attr kind", 0, 3) {
	case 0:
		v := sym.Bool("bv")
		return trace.BoolAttribute(k, v), func(x interface{}) bool { y, ok := x.(bool); return ok && y == v }
	case 1:
		v := sym.Int64("iv")
		return trace.Int64Attribute(k, v), func(x interface{}) bool { y, ok := x.(int64); return ok && y == v }
	case 2:
		v := sym.Float64("fv")
		return trace.Float64Attribute(k, v), func(x interface{}) bool {
			y, ok := x.(float64)
			return ok && sym.Or(y == v, sym.And(y != y, v != v))
		}
	}
	v := sym.Str("sv", sym.Range("svlen", 0, 2))
	return trace.StringAttribute(k, v), func(x interface{}) bool { y, ok := x.(string); return ok && y == v }
}

// HContent: everything recorded is exported exactly and then stays as it is.
func HContent() {
	e := &sink{}
	trace.RegisterExporter(e)
	times := [5]int64{}
	for i := range times {
		times[i] = sym.Int64("t")
		sym.Assume(sym.And(times[i] >= 0, times[i] < 1<<50))
		if i > 0 {
			sym.Assume(times[i] >= times[i-1])
		}
	}
	tick := func(i int) time.Time { sym.SetClock(times[i]); return sym.Now() }
	t0 := tick(0)
	ctx, sp := trace.StartSpan(context.Background(), "n", sampler(true))

	k1, k2 := sym.Str("k", sym.Range("klen", 0, 1)), "two"
	a1, ok1 := symAttr(k1)
	a2, ok2 := symAttr(k2)
	ck(13, a1.Key() == k1 && ok1(a1.Value()), "attribute accessors")
	attrs := []trace.Attribute{a1, a2}
	sp.AddAttributes(attrs...)
	attrs[0] = trace.StringAttribute("changed", "x")

	tAnn := tick(1)
	a3, ok3 := symAttr("three")
	var ok4 func(interface{}) bool
	attrs = []trace.Attribute{a3}
	dup := sym.Range("annotation attributes", 1, 3)
	if dup > 1 { // a second attribute of another or of the same key
		v4 := sym.Int64("v4")
		a4 := trace.Int64Attribute([]string{"four", "three"}[dup-2], v4)
		ok4 = func(x interface{}) bool { y, ok := x.(int64); return ok && y == v4 }
		attrs = append(attrs, a4)
		if dup == 3 {
			ok3, ok4 = ok4, nil
		}
	}
	msg := sym.Str("msg", sym.Range("msglen", 0, 2))
	sp.Annotate(attrs, msg)
	attrs[0] = trace.StringAttribute("changed", "x")
	sp.Annotatef(nil, "x=%d %s", 12, "y")

	tMsg := tick(2)
	id, us, cs := sym.Int64("id"), sym.Int64("us"), sym.Int64("cs")
	sp.AddMessageSendEvent(id, us, cs)
	sp.AddMessageReceiveEvent(id, us, cs)
	l := trace.Link{TraceID: symTID("ltid"), SpanID: symSID("lsid"), Type: trace.LinkType(sym.Int32("ltype")), Attributes: map[string]interface{}{"q": us}}
	sp.AddLink(l)
	status := trace.Status{Code: sym.Int32("code"), Message: sym.Str("smsg", 1)}
	sp.SetStatus(status)
	children := sym.Range("children", 0, 2)
	for i := 0; i < children; i++ {
		_, c := trace.StartSpan(ctx, "child")
		if i == 0 {
			c.End()
		}
	}
	tEnd := tick(3)
	e.got = nil
	sp.End()
	if len(e.got) != 1 {
		ck(13, false, "exported once")
		return
	}
	d := e.got[0]
	check := func(when string) {
		ck(13, d.Name == "n" && d.StartTime.Equal(t0), "start "+when)
		ck(13, sym.And(!d.EndTime.Before(tEnd), !d.EndTime.After(tEnd)), "end "+when)
		ck(13, len(d.Attributes) == 2, "attributes "+when)
		if len(d.Attributes) == 2 {
			ck(13, ok1(d.Attributes[k1]) && ok2(d.Attributes[k2]), "attribute values "+when)
		}
		ck(13, len(d.Annotations) == 2, "annotations "+when)
		if len(d.Annotations) == 2 {
			an := d.Annotations[0]
			ck(13, an.Message == msg && len(an.Attributes) == []int{0, 1, 2, 1}[dup] && ok3(an.Attributes["three"]) && an.Time.Equal(tAnn), "annotation "+when)
			if ok4 != nil {
				ck(13, ok4(an.Attributes["four"]), "second annotation attribute "+when)
			}
			ck(13, d.Annotations[1].Message == "x=12 y" && len(d.Annotations[1].Attributes) == 0, "formatted annotation "+when)
		}
		ck(13, len(d.MessageEvents) == 2, "message events "+when)
		if len(d.MessageEvents) == 2 {
			for i, m := range d.MessageEvents {
				ty := trace.MessageEventTypeSent
				if i == 1 {
					ty = trace.MessageEventTypeRecv
				}
				ck(13, m.EventType == ty && m.Time.Equal(tMsg), "message event kind and time "+when)
				ck(13, sym.And(m.MessageID == id, sym.And(m.UncompressedByteSize == us, m.CompressedByteSize == cs)), "message event "+when)
			}
		}
		ck(13, len(d.Links) == 1, "links "+when)
		if len(d.Links) == 1 {
			x := d.Links[0]
			v, _ := x.Attributes["q"].(int64)
			ck(13, sym.And(sym.And(eqTID(x.TraceID, l.TraceID), eqSID(x.SpanID, l.SpanID)), x.Type == l.Type) && v == us && len(x.Attributes) == 1, "link "+when)
		}
		ck(13, sym.And(d.Status.Code == status.Code, d.Status.Message == status.Message), "status "+when)
		ck(13, d.ChildSpanCount == children, "child count "+when)
		ck(13, d.DroppedAnnotationCount+d.DroppedAttributeCount+d.DroppedLinkCount+d.DroppedMessageEventCount == 0, "nothing dropped "+when)
	}
	check("at export")
	tick(4)
	sp.SetName("later")
	sp.SetStatus(trace.Status{Code: 99})
	sp.AddAttributes(trace.StringAttribute(k2, "later"), trace.StringAttribute("new", "later"))
	sp.Annotate(nil, "later")
	sp.AddMessageSendEvent(1, 2, 3)
	sp.AddLink(trace.Link{})
	trace.StartSpan(ctx, "late child")
	sp.End()
	check("after later changes")
	sym.Cover("content")
}

func useAll(sp *trace.Span) {
	sp.SetName("x")
	sp.SetStatus(trace.Status{Code: 1})
	sp.AddAttributes(trace.Int64Attribute("k", 1))
	sp.Annotate([]trace.Attribute{trace.Int64Attribute("k", 1)}, "x")
	sp.Annotatef(nil, "x %d", 1)
	sp.AddMessageSendEvent(1, 2, 3)
	sp.AddMessageReceiveEvent(1, 2, 3)
	sp.AddLink(trace.Link{})
	_ = sp.String()
	_ = sp.IsRecordingEvents()
	sp.End()
	sp.End()
}

// HNoop: unsampled and nil spans accept every operation and do nothing.
func HNoop() {
	e := &sink{}
	trace.RegisterExporter(e)
	var sp *trace.Span
	switch sym.Range("span", 0, 3) {
	case 0:
		sp = nil
		ck(13, sp.SpanContext() == (trace.SpanContext{}), "nil span has no context")
		ck(13, !sp.IsRecordingEvents(), "nil span does not record")
	case 1:
		_, sp = trace.StartSpan(context.Background(), "n", sampler(false))
	case 2:
		_, sp = trace.StartSpanWithRemoteParent(context.Background(), "n", trace.SpanContext{TraceID: symTID("t"), SpanID: symSID("s"), TraceOptions: trace.TraceOptions(sym.Uint32("o"))}, sampler(false))
	case 3:
		ctx, _ := trace.StartSpan(context.Background(), "n", sampler(false))
		_, sp = trace.StartSpan(ctx, "child")
		sp = trace.FromContext(ctx)
	}
	var sc trace.SpanContext
	if sp != nil {
		sc = sp.SpanContext()
	}
	ck(13, !sym.Panics(func() { useAll(sp) }), "no panic")
	ck(13, sp.SpanContext() == sc, "context unchanged")
	ck(13, len(e.got) == 0, "nothing exported")
	ck(13, trace.FromContext(context.Background()) == nil, "no span in an empty context")
	sym.Cover("noop")
}

func opOn(sp *trace.Span, op int, who string) {
	switch op {
	case 0:
		sp.AddAttributes(trace.StringAttribute(who, "v"), trace.StringAttribute("shared", who))
	case 1:
		sp.Annotate([]trace.Attribute{trace.StringAttribute("k", who)}, who)
	case 2:
		sp.AddMessageSendEvent(1, 2, 3)
	case 3:
		sp.AddMessageReceiveEvent(1, 2, 3)
	case 4:
		sp.AddLink(trace.Link{Type: trace.LinkTypeChild})
	case 5:
		sp.SetName(who)
	case 6:
		sp.SetStatus(trace.Status{Code: 1, Message: who})
	case 7:
		_ = sp.String()
	case 8:
		ctx := trace.NewContext(context.Background(), sp)
		_, c := trace.StartSpan(ctx, "child")
		c.End()
	case 9:
		report().ReportActiveSpans("n")
	case 10:
		report().ReportSpansPerMethod()
	case 11:
		sp.End()
	}
}

// HSpanConc: two goroutines use one span at the same time.
func HSpanConc() {
	e := &lsink{}
	trace.RegisterExporter(e)
	internal.LocalSpanStoreEnabled = true
	limit := sym.Range("limit", 1, 2)
	trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: 3, MaxAnnotationEventsPerSpan: limit, MaxMessageEventsPerSpan: limit, MaxLinksPerSpan: limit})
	_, sp := trace.StartSpan(context.Background(), "n", sampler(true))
	a := sym.Range("a", 0, 11)
	b := sym.Range("b", 0, 11)
	sym.Assume(a <= b)
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		opOn(sp, a, "A")
		wg.Done()
	}()
	go func() {
		opOn(sp, b, "B")
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	sp.End()
	var d *trace.SpanData
	for _, x := range e.got {
		if x.ParentSpanID == (trace.SpanID{}) {
			ck(41, d == nil, "exported once")
			d = x
		}
	}
	ck(41, d != nil, "exported")
	if d == nil {
		return
	}
	sym.Cover("used")
	if b == 11 { // an entry may come after the end
		return
	}
	count := func(op int) (n int) {
		if a == op {
			n++
		}
		if b == op {
			n++
		}
		return
	}
	full := func(kept, dropped, op, op2 int, label string) {
		n := count(op)
		if op2 >= 0 {
			n += count(op2)
		}
		ck(41, kept+dropped == n, label+" kept or counted")
		ck(41, kept <= limit, label+" limit")
	}
	full(len(d.Annotations), d.DroppedAnnotationCount, 1, -1, "annotations")
	full(len(d.MessageEvents), d.DroppedMessageEventCount, 2, 3, "message events")
	full(len(d.Links), d.DroppedLinkCount, 4, -1, "links")
	switch count(0) {
	case 0:
		ck(41, len(d.Attributes) == 0, "no attributes")
	case 1:
		ck(41, len(d.Attributes) == 2, "attributes kept")
	case 2:
		ck(41, len(d.Attributes) == 3 && d.Attributes["A"] == "v" && d.Attributes["B"] == "v" && (d.Attributes["shared"] == "A" || d.Attributes["shared"] == "B"), "attributes of both kept")
	}
	ck(41, d.ChildSpanCount == count(8), "child count")
	switch count(6) {
	case 0:
		ck(41, d.Status == trace.Status{}, "status unset")
	case 1:
		w := "A"
		if b == 6 {
			w = "B"
		}
		ck(41, d.Status == trace.Status{Code: 1, Message: w}, "status set")
	case 2:
		ck(41, d.Status.Code == 1 && (d.Status.Message == "A" || d.Status.Message == "B"), "status of one")
	}
	if count(5) == 0 {
		ck(41, d.Name == "n", "name unset")
	} else {
		ck(41, d.Name == "A" || d.Name == "B", "name set")
	}
}

// HReportKept: what was reported or exported of a span stays as it was.
func HReportKept() {
	e := &sink{}
	trace.RegisterExporter(e)
	internal.LocalSpanStoreEnabled = true
	limit := sym.Range("limit", 1, 3)
	trace.ApplyConfig(trace.Config{IDGenerator: &counter{}, MaxAttributesPerSpan: limit, MaxAnnotationEventsPerSpan: limit, MaxMessageEventsPerSpan: limit, MaxLinksPerSpan: limit})
	_, sp := trace.StartSpan(context.Background(), "n", sampler(true))
	names := []string{"a", "b", "c", "d", "e", "f"}
	k := 0
	add := func(n int) {
		for i := 0; i < n; i++ {
			sp.Annotate([]trace.Attribute{trace.Int64Attribute(names[k], int64(k))}, names[k])
			sp.AddMessageSendEvent(int64(k), 2, 3)
			sp.AddLink(trace.Link{Type: trace.LinkType(k), Attributes: map[string]interface{}{names[k]: true}})
			sp.AddAttributes(trace.Int64Attribute(names[k], int64(k)))
			sp.SetName(names[k])
			sp.SetStatus(trace.Status{Code: int32(k), Message: names[k]})
			k++
		}
	}
	type kept struct {
		d    *trace.SpanData
		n    int // entries added when taken
		over bool
	}
	var ks []kept
	check := func() {
		for _, q := range ks {
			from := q.n - limit
			if from < 0 {
				from = 0
			}
			d := q.d
			ck(13, len(d.Annotations) == q.n-from && len(d.MessageEvents) == q.n-from && len(d.Links) == q.n-from && len(d.Attributes) == q.n-from, "as many entries as when reported")
			if len(d.Annotations) != q.n-from || len(d.MessageEvents) != q.n-from || len(d.Links) != q.n-from {
				return
			}
			for i := from; i < q.n; i++ {
				a := d.Annotations[i-from]
				ck(13, a.Message == names[i] && len(a.Attributes) == 1 && a.Attributes[names[i]] == int64(i), "the annotations are those reported")
				ck(13, d.MessageEvents[i-from].MessageID == int64(i), "the message events are those reported")
				l := d.Links[i-from]
				ck(13, l.Type == trace.LinkType(i) && len(l.Attributes) == 1 && l.Attributes[names[i]] == true, "the links are those reported")
				ck(13, d.Attributes[names[i]] == int64(i), "the attributes are those reported")
			}
			ck(13, d.DroppedAnnotationCount == from && d.DroppedMessageEventCount == from && d.DroppedLinkCount == from && d.DroppedAttributeCount == from, "the counts are those reported")
			nm, st := "n", trace.Status{}
			if q.n > 0 {
				nm, st = names[q.n-1], trace.Status{Code: int32(q.n - 1), Message: names[q.n-1]}
			}
			ck(13, d.Name == nm && d.Status == st, "the name and status are those reported")
			ck(13, d.EndTime.IsZero() != q.over, "the end time is the one reported")
		}
	}
	rounds := sym.Range("rounds", 1, 3)
	for r := 0; r < rounds; r++ {
		add(sym.Range("more", 0, 2))
		ds := report().ReportActiveSpans("n")
		ck(13, len(ds) == 1, "the span is active")
		if len(ds) == 1 {
			ks = append(ks, kept{ds[0], k, false})
		}
		check()
	}
	sp.End()
	ck(13, len(e.got) == 1, "exported")
	if len(e.got) == 1 {
		ks = append(ks, kept{e.got[0], k, true})
	}
	check()
	if k < len(names) {
		// too late: what was exported or stored stays
		n := k
		add(1)
		k = n
		check()
	}
	for _, c := range []int32{0, int32(k - 1)} {
		for _, d := range report().ReportSpansByError("n", c) {
			ks = append(ks, kept{d, k, true})
		}
	}
	check()
	sym.Cover("kept")
}
