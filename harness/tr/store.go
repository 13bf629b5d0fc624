package tr

import (
	"context"
	"sync"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/trace"
)

var ctxBG = context.Background()

type reporter interface {
	ReportActiveSpans(name string) []*trace.SpanData
	ReportSpansByError(name string, code int32) []*trace.SpanData
	ConfigureBucketSizes(bcs []internal.BucketConfiguration)
	ReportSpansPerMethod() map[string]internal.PerMethodSummary
	ReportSpansByLatency(name string, minLatency, maxLatency time.Duration) []*trace.SpanData
}

func report() reporter { return internal.Trace.(reporter) }

var bounds = []int64{0, 10e3, 100e3, 1e6, 10e6, 100e6, 1e9, 10e9, 60e9}

// refBucket keeps the newest size spans that end at least a second apart.
type refBucket struct {
	last int64
	any  bool
	ids  []trace.SpanID
}

func (b *refBucket) add(id trace.SpanID, end int64, size int) {
	if b.any && end < b.last+1e9 {
		return
	}
	if size == 0 {
		return
	}
	b.last, b.any = end, true
	b.ids = append(b.ids, id)
	b.trim(size)
}

func (b *refBucket) trim(size int) {
	if len(b.ids) > size {
		b.ids = b.ids[len(b.ids)-size:]
	}
}

func sameIDs(got []*trace.SpanData, want []trace.SpanID) bool {
	if len(got) != len(want) {
		return false
	}
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g.SpanID == w {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

// counter hands out distinct concrete ids.
type counter struct{ n byte }

func (c *counter) NewTraceID() [16]byte { c.n++; return [16]byte{1, c.n} }
func (c *counter) NewSpanID() [8]byte   { c.n++; return [8]byte{2, c.n} }

// HStore: ended spans are found exactly in the bucket of their duration or code.
func HStore() {
	trace.ApplyConfig(trace.Config{IDGenerator: &counter{}})
	internal.LocalSpanStoreEnabled = true
	lsize, esize := sym.Range("lsize", 0, sym.Param("size", 2)), 1
	cut := func(n int) int { // sizes are clamped to 0..100000
		if n < 0 {
			return 0
		}
		return n
	}
	configure := func(l, e int) {
		report().ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "n", MaxRequestsSucceeded: l, MaxRequestsErrors: e}})
	}
	configure(lsize, esize)
	lat := make([]refBucket, len(bounds))
	errs := map[int32]*refBucket{}
	n := sym.Range("spans", 1, sym.Param("spans", 2))
	now := int64(0)
	resizeAt := sym.Range("resize at", 1, n)
	on := sym.Range("sampled", 0, 1) == 1
	classes := sym.Param("classes", 0)
	for i := 0; i < n; i++ {
		if i == resizeAt {
			lsize, esize = sym.Range("new lsize", -1, sym.Param("size", 2)), sym.Range("new esize", 0, 2)
			configure(lsize, esize)
			lsize = cut(lsize)
			for k := range lat {
				lat[k].trim(lsize)
			}
			for _, b := range errs {
				b.trim(esize)
			}
		}
		start := now
		sym.SetClock(start)
		_, sp := trace.StartSpan(ctxBG, "n", sampler(on))
		d := sym.Int64("duration")
		sym.Assume(sym.And(d >= 0, d < 1<<40))
		if classes == 1 { // two classes only: short or above one second
			sym.Assume(sym.Or(d < 10e3, sym.And(d >= 1e9, d < 10e9)))
		}
		now = start + d
		sym.SetClock(now)
		code := int32(0)
		if sym.Range("error", 0, 1) == 1 {
			code = sym.Int32("code")
			sp.SetStatus(trace.Status{Code: code})
		}
		sp.End()
		id := sp.SpanContext().SpanID
		if code == 0 {
			k := 0
			for k+1 < len(bounds) && d >= bounds[k+1] {
				k++
			}
			lat[k].add(id, now, lsize)
			sym.Cover("latency")
		} else {
			if errs[code] == nil {
				errs[code] = &refBucket{}
			}
			errs[code].add(id, now, esize)
			sym.Cover("error")
		}
		gap := sym.Int64("gap")
		sym.Assume(sym.And(gap >= 0, gap < 1<<40))
		now += gap
	}
	// listings
	var all []trace.SpanID
	for k := range lat {
		max := int64(0)
		if k+1 < len(bounds) {
			max = bounds[k+1] - 1
		}
		got := report().ReportSpansByLatency("n", time.Duration(bounds[k]), time.Duration(max))
		ck(14, sameIDs(got, lat[k].ids), "latency bucket lists its spans")
		all = append(all, lat[k].ids...)
	}
	ck(14, sameIDs(report().ReportSpansByLatency("n", 0, 0), all), "all successful spans listed")
	ck(14, len(report().ReportSpansByLatency("other", 0, 0)) == 0, "other names have none")
	all = nil
	for c, b := range errs {
		ck(14, sameIDs(report().ReportSpansByError("n", c), b.ids), "error bucket lists its spans")
		all = append(all, b.ids...)
	}
	ck(14, sameIDs(report().ReportSpansByError("n", 0), all), "all failed spans listed")
	ck(14, len(report().ReportActiveSpans("n")) == 0, "no active spans left")
	// summary
	sum := report().ReportSpansPerMethod()
	ck(14, len(sum) == 1, "one name in the summary")
	m := sum["n"]
	ck(14, m.Active == 0, "no active spans in the summary")
	ck(14, len(m.LatencyBuckets) == len(lat), "latency buckets in the summary")
	if len(m.LatencyBuckets) == len(lat) {
		for k, b := range m.LatencyBuckets {
			ck(14, b.Size == len(lat[k].ids), "latency bucket size in the summary")
			ck(14, int64(b.MinLatency) == bounds[k], "latency bucket bound in the summary")
			if k+1 < len(bounds) {
				ck(14, int64(b.MaxLatency) == bounds[k+1], "latency bucket upper bound in the summary")
			}
		}
	}
	ne := 0
	for _, b := range m.ErrorBuckets {
		if b.Size == 0 {
			continue
		}
		ne++
		r := errs[b.ErrorCode]
		ck(14, r != nil && b.Size == len(r.ids), "error bucket size in the summary")
	}
	for _, r := range errs {
		if len(r.ids) > 0 {
			ne--
		}
	}
	ck(14, ne == 0, "every error bucket in the summary")
}

// HRange: a latency query returns exactly the stored spans in its closed range.
func HRange() {
	trace.ApplyConfig(trace.Config{IDGenerator: &counter{}})
	internal.LocalSpanStoreEnabled = true
	sym.SetClock(0)
	_, sp := trace.StartSpan(ctxBG, "n", sampler(true))
	d := sym.Int64("duration")
	sym.Assume(sym.And(d >= 0, d < 1<<40))
	sym.SetClock(d)
	sp.End()
	lo, hi := sym.Int64("lo"), sym.Int64("hi")
	sym.Assume(sym.And(sym.And(lo >= 0, hi >= 0), sym.Or(hi == 0, lo <= hi)))
	got := report().ReportSpansByLatency("n", time.Duration(lo), time.Duration(hi))
	want := sym.And(d >= lo, sym.Or(hi == 0, d <= hi))
	ck(14, (len(got) == 1) == want, "span listed exactly when its latency is in range")
	sym.ObsInt("n", int64(len(got)))
	sym.Cover("queried")
}

// HActive: the active report lists exactly the spans not ended yet.
func HActive() {
	trace.ApplyConfig(trace.Config{IDGenerator: &counter{}})
	internal.LocalSpanStoreEnabled = true
	names := []string{"n", "m"}
	type act struct {
		sp   *trace.Span
		name string
		set  string
		done bool
	}
	var as []*act
	n := sym.Range("ops", 1, sym.Param("ops", 5))
	for i := 0; i < n; i++ {
		op := sym.Range("op", -2, len(as)-1)
		if op < 0 {
			nm := names[op+2]
			_, sp := trace.StartSpan(ctxBG, nm, sampler(sym.Range("sampled", 0, 1) == 1))
			as = append(as, &act{sp: sp, name: nm, set: nm})
		} else {
			if sym.Range("rename", 0, 1) == 1 {
				as[op].sp.SetName("renamed")
				if !as[op].done {
					as[op].set = "renamed"
				}
				continue
			}
			as[op].sp.End()
			as[op].done = true
		}
	}
	for _, nm := range names {
		var want []trace.SpanID
		used := false
		for _, a := range as {
			if a.name == nm {
				used = true
				if !a.done {
					want = append(want, a.sp.SpanContext().SpanID)
				}
			}
		}
		got := report().ReportActiveSpans(nm)
		ck(14, sameIDs(got, want), "active spans of a name")
		for _, g := range got {
			ck(14, g.EndTime.IsZero(), "an active span has no end time")
			for _, a := range as {
				if a.sp.SpanContext().SpanID == g.SpanID {
					ck(14, g.Name == a.set, "current name of an active span")
				}
			}
		}
		sum := report().ReportSpansPerMethod()
		m, ok := sum[nm]
		ck(14, ok == used, "name in the summary")
		ck(14, m.Active == len(want), "active count in the summary")
		if len(want) > 0 {
			sym.Cover("active")
		}
	}
	ck(14, len(report().ReportActiveSpans("nobody")) == 0, "unknown name has no spans")
	ck(14, len(report().ReportSpansByError("nobody", 0)) == 0, "unknown name has no errors")
}

// HClamp: bucket sizes are clamped, a default applies.
func HClamp() {
	trace.ApplyConfig(trace.Config{IDGenerator: &counter{}})
	internal.LocalSpanStoreEnabled = true
	want := 10
	if sym.Range("configured", 0, 1) == 1 {
		sz := sym.Range("size", -1, 12)
		want = sz
		if sz < 0 {
			want = 0
		}
		report().ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "n", MaxRequestsSucceeded: sz, MaxRequestsErrors: sz}})
	}
	fail := sym.Range("fail", 0, 1) == 1
	for i := 0; i < 15; i++ {
		sym.SetClock(int64(i) * 2e9)
		_, sp := trace.StartSpan(ctxBG, "n", sampler(true))
		if fail {
			sp.SetStatus(trace.Status{Code: 7})
		}
		sp.End()
	}
	got := report().ReportSpansByLatency("n", 0, 0)
	if fail {
		got = report().ReportSpansByError("n", 7)
	}
	ck(14, len(got) == want, "bucket size")
	for _, g := range got {
		ck(14, !g.EndTime.Before(base().Add(time.Duration(15-want)*2*time.Second)), "newest kept")
	}
	sym.Cover("clamped")
}

func base() time.Time { sym.SetClock(0); return sym.Now() }

// HRing: the circular buffer of a bucket under any resize sequence.
func HRing() {
	trace.ApplyConfig(trace.Config{IDGenerator: &counter{}})
	internal.LocalSpanStoreEnabled = true
	fail := sym.Range("fail", 0, 1) == 1
	code := sym.Int32("code")
	sym.Assume(code != 0)
	size := sym.Range("size", 0, sym.Param("size", 3))
	report().ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "n", MaxRequestsSucceeded: size, MaxRequestsErrors: size}})
	var b refBucket
	now := int64(0)
	rounds := sym.Param("rounds", 3)
	for r := 0; r < rounds; r++ {
		if r > 0 {
			size = sym.Range("resize", 0, sym.Param("size", 3))
			report().ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "n", MaxRequestsSucceeded: size, MaxRequestsErrors: size}})
			b.trim(size)
		}
		n := sym.Range("spans", 0, sym.Param("spans", 4))
		for i := 0; i < n; i++ {
			sym.SetClock(now)
			_, sp := trace.StartSpan(ctxBG, "n", sampler(true))
			if fail {
				sp.SetStatus(trace.Status{Code: code})
			}
			sp.End()
			b.add(sp.SpanContext().SpanID, now, size)
			now += 1e9
		}
		var got []*trace.SpanData
		sum := 0
		if fail {
			got = report().ReportSpansByError("n", code)
			for _, e := range report().ReportSpansPerMethod()["n"].ErrorBuckets {
				sum += e.Size
			}
		} else {
			got = report().ReportSpansByLatency("n", 0, 0)
			for _, e := range report().ReportSpansPerMethod()["n"].LatencyBuckets {
				sum += e.Size
			}
		}
		ck(14, sameIDs(got, b.ids), "bucket keeps the newest spans across resizes")
		ck(14, sum == len(b.ids), "summary counts the listed spans")
	}
	sym.Cover("resized")
}

// HActiveConc: spans of one name started or ended concurrently are all accounted for.
func HActiveConc() {
	trace.ApplyConfig(trace.Config{IDGenerator: &lockedCounter{}})
	internal.LocalSpanStoreEnabled = true
	known := sym.Range("known", 0, 1) == 1
	endsA, endsB := sym.Range("endA", 0, 1) == 1, sym.Range("endB", 0, 1) == 1
	nb := []string{"c", "d"}[sym.Range("name", 0, 1)]
	if known {
		_, sp := trace.StartSpan(ctxBG, "c", sampler(false))
		sp.End()
	}
	var a, b *trace.Span
	var wg sync.WaitGroup
	wg.Add(2)
	sym.Explore()
	go func() {
		_, a = trace.StartSpan(ctxBG, "c", sampler(false))
		if endsA {
			a.End()
		}
		wg.Done()
	}()
	go func() {
		if nb == "d" && endsB {
			// a query creates nothing
			report().ReportActiveSpans("c")
		}
		_, b = trace.StartSpan(ctxBG, nb, sampler(false))
		if endsB {
			b.End()
		}
		wg.Done()
	}()
	wg.Wait()
	sym.StopExplore()
	want := map[string][]trace.SpanID{"c": nil, "d": nil}
	if !endsA {
		want["c"] = append(want["c"], a.SpanContext().SpanID)
	}
	if !endsB {
		want[nb] = append(want[nb], b.SpanContext().SpanID)
	}
	for n, w := range want {
		ck(14, sameIDs(report().ReportActiveSpans(n), w), "concurrently started spans are active until they end")
	}
	a.End()
	b.End()
	ck(14, len(report().ReportActiveSpans("c"))+len(report().ReportActiveSpans("d")) == 0, "no span is active once all ended")
	nc := 1
	if nb == "c" {
		nc = 2
	}
	if known {
		nc++
	}
	sum := report().ReportSpansPerMethod()["c"]
	got := 0
	for _, x := range sum.LatencyBuckets {
		got += x.Size
	}
	ck(14, got >= 1 && got <= nc, "ended spans are sampled")
	sym.Cover("concurrent")
}

type lockedCounter struct {
	mu sync.Mutex
	c  counter
}

func (c *lockedCounter) NewTraceID() [16]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.c.NewTraceID()
}

func (c *lockedCounter) NewSpanID() [8]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.c.NewSpanID()
}
