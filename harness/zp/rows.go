//go:build go1.21

package zp

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/trace"
	"go.opencensus.io/zpages"
)

// elapsed is how the trace page writes a duration.
func elapsed(d time.Duration) string {
	u := int64(d / time.Microsecond)
	switch {
	case u < 1e6:
		return fmt.Sprintf(".%6d", u)
	case u <= 99999999999:
		return fmt.Sprintf("%d.%06d", u/1e6, u%1e6)
	}
	return fmt.Sprintf("%ds", u/1e6)
}

type line struct{ elapsed, text string }

// shown gives the rows the trace page shows for a cell.
func shown(name string, typ, sub int) []line {
	var b bytes.Buffer
	zpages.WriteTextTracezSpans(&b, name, typ, sub)
	ls := strings.Split(b.String(), "\n")
	e, t := strings.Index(ls[0], "Elapsed(s)"), strings.Index(ls[0], "Type")
	if e < 0 || t < e {
		sym.Assert(false, "the page has its headings")
		return nil
	}
	var r []line
	for _, l := range ls[1:] {
		if l == "" {
			continue
		}
		for len(l) < t {
			l += " "
		}
		r = append(r, line{strings.TrimSpace(l[e:t]), l[t:]})
	}
	return r
}

var codeNames = []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}

var gaps = []time.Duration{0, 5 * time.Microsecond, 123456 * time.Microsecond, 1500001 * time.Microsecond, 99999 * time.Second, 100000 * time.Second}

func attrs(k int) ([]trace.Attribute, string) {
	switch k {
	case 1:
		return []trace.Attribute{trace.StringAttribute("s", `a"b`)}, `Attributes:{s="a\"b"}`
	case 2:
		return []trace.Attribute{trace.StringAttribute("z", "v"), trace.BoolAttribute("b", true), trace.Int64Attribute("i", -3), trace.Float64Attribute("f", 1.5)},
			`Attributes:{b=true, f=1.5, i=-3, z="v"}`
	}
	return nil, ""
}

// HRowsText: the page shows each span of a cell with its ids, status,
// attributes and events in the order of time.
func HRowsText() {
	trace.ApplyConfig(trace.Config{IDGenerator: &counter{}})
	now := time.Duration(0)
	var want []line
	n := sym.Param("spans", 1)
	typ := sym.Range("type", 0, 2)
	ctx := bg
	bare := sym.Param("bare", 0) == 1
	pick := func(n string, lo, hi int) int {
		if bare {
			return 0
		}
		return sym.Range(n, lo, hi)
	}
	for i := 0; i < n; i++ {
		sym.SetClock(int64(now))
		start := now
		var sp *trace.Span
		parent := ""
		if pick("parent", 0, 1) == 1 {
			psc := trace.SpanContext{TraceID: trace.TraceID{9}, SpanID: trace.SpanID{8}, TraceOptions: 1}
			_, sp = trace.StartSpanWithRemoteParent(ctx, "a", psc, trace.WithSampler(trace.AlwaysSample()))
			parent = " parent_span_id: 0800000000000000"
			sym.Cover("parent")
		} else {
			_, sp = trace.StartSpan(ctx, "a", trace.WithSampler(trace.AlwaysSample()))
		}
		sc := sp.SpanContext()
		first := line{text: fmt.Sprintf("trace_id: %s span_id: %s%s", sc.TraceID, sc.SpanID, parent)}
		var rows []line
		st := trace.Status{}
		switch k := pick("status", 0, 3); {
		case typ == 2 || k > 0:
			st.Message = []string{"", "m", `"`, "m"}[k]
			code := 2
			if k == 0 && !bare {
				code = sym.Range("code", -1, 17)
			}
			if typ != 2 {
				code = 0
			}
			sym.Assume(typ != 2 || code != 0)
			st.Code = int32(code)
			sp.SetStatus(st)
			if st != (trace.Status{}) {
				cn := fmt.Sprintf("error code %d", code)
				if code >= 0 && code < len(codeNames) {
					cn = codeNames[code]
				}
				rows = append(rows, line{text: fmt.Sprintf("Status{canonicalCode=%s, description=%q}", cn, st.Message)})
				sym.Cover("status")
			}
		}
		if as, s := attrs(pick("attrs", 0, 2)); as != nil {
			sp.AddAttributes(as...)
			rows = append(rows, line{text: s})
			sym.Cover("attributes")
		}
		last := now
		for j, m := 0, sym.Param("events", 2); j < m; j++ {
			k := sym.Range("event", 0, 4)
			if k == 4 {
				continue
			}
			gap := gaps[sym.Range("gap", 0, sym.Param("gaps", 5))]
			if last == start && len(rows) > 0 {
				gap += time.Microsecond // events of one instant may come in any order
			}
			now += gap
			sym.SetClock(int64(now))
			el := elapsed(now - last)
			last = now
			switch k {
			case 0, 1:
				c := sym.Byte("text")
				sym.Assume(sym.And(c > 32, c < 127))
				text := "x" + string([]byte{c})
				as, s := attrs(k * 2)
				sp.Annotate(as, text)
				if s != "" {
					text += "  " + s
				}
				rows = append(rows, line{el, text})
				sym.Cover("annotation")
			case 2:
				sp.AddMessageSendEvent(1, 20, 10)
				rows = append(rows, line{el, "sent message [20 bytes, 10 compressed bytes]"})
				sym.Cover("message")
			case 3:
				sp.AddMessageReceiveEvent(1, 20, 10)
				rows = append(rows, line{el, "received message [20 bytes, 10 compressed bytes]"})
			}
			if j+1 < m {
				now += time.Microsecond
			}
		}
		if typ > 0 {
			now += 3 * time.Microsecond
			sym.SetClock(int64(now))
			sp.End()
			first.elapsed = elapsed(now - start)
			sym.Cover("ended")
		}
		want = append(want, first)
		want = append(want, rows...)
		now += 2 * time.Second
	}
	var got []line
	switch typ {
	case 0:
		got = shown("a", 0, sym.Range("any", -1, 1))
	case 1:
		for c := 0; c < cells; c++ {
			got = append(got, shown("a", 1, c)...)
		}
	case 2:
		got = shown("a", 2, 0)
	}
	sym.Assert(len(got) == len(want), "one row per span, status, attributes and event")
	if len(got) != len(want) {
		return
	}
	// active spans come in any order
	var sorted []line
	for i := 0; i < len(want); {
		for k := range got {
			if got[k].text == want[i].text {
				j := i + 1
				for j < len(want) && !strings.HasPrefix(want[j].text, "trace_id") {
					j++
				}
				if e := k + j - i; e <= len(got) {
					sorted = append(sorted, got[k:e]...)
				}
				break
			}
		}
		for i++; i < len(want) && !strings.HasPrefix(want[i].text, "trace_id"); i++ {
		}
	}
	if n > 1 {
		got = sorted
	}
	sym.Assert(len(got) == len(want), "each span is shown with its rows")
	if len(got) != len(want) {
		return
	}
	for i := range want {
		sym.Assert(got[i].text == want[i].text, "the text of a row")
		sym.Assert(got[i].elapsed == want[i].elapsed, "the elapsed time of a row")
	}
}

// HRowsTotal: any cell may be asked for, of any name; long texts are cut.
func HRowsTotal() {
	trace.ApplyConfig(trace.Config{IDGenerator: &counter{}})
	sym.SetClock(0)
	n := sym.Range("len", 1022, 1026)
	_, sp := trace.StartSpan(bg, "a", trace.WithSampler(trace.AlwaysSample()))
	text := strings.Repeat("t", n)
	sp.Annotate(nil, text)
	name := []string{"a", "b", ""}[sym.Range("name", 0, 2)]
	typ, sub := sym.Int("type"), sym.Int("sub")
	got := shown(name, typ, sub)
	if name == "a" && typ == 0 {
		if len(got) != 2 {
			sym.Assert(false, "one row per span and event")
			return
		}
		if n > 1024 {
			text = text[:1024]
			sym.Cover("cut")
		}
		sym.Assert(got[1].text == text, "the text of a row up to its limit")
	} else {
		sym.Assert(len(got) == 0, "nothing is shown for a cell without spans")
		sym.Cover("empty")
	}
}
