//go:build go1.21

// Package zp checks the text forms of the zPages.
package zp

import (
	"bytes"
	"context"
	"strings"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/trace"
	"go.opencensus.io/zpages"
)

var bg = context.Background()

type counter struct{ n byte }

func (c *counter) NewTraceID() [16]byte { c.n++; return [16]byte{1, c.n} }
func (c *counter) NewSpanID() [8]byte   { c.n++; return [8]byte{2, c.n} }

// bounds are the lower latency bounds of the cells of the summary.
var bounds = []int64{0, 10e3, 100e3, 1e6, 10e6, 100e6, 1e9, 10e9, 60e9}

const cells = 9

// row is what the summary shows for a name.
type row struct {
	active  int
	latency [cells]int
	errors  int
}

func number(s string) int {
	if s == "." {
		return 0
	}
	n := 0
	for i := 0; i < len(s); i++ {
		sym.Assert(s[i] >= '0' && s[i] <= '9', "a cell of the summary is a number")
		n = n*10 + int(s[i]-'0')
	}
	return n
}

// summary reads the summary page.
func summary() map[string]row {
	var b bytes.Buffer
	zpages.WriteTextTracezSummary(&b)
	r := map[string]row{}
	lines := strings.Split(b.String(), "\n")
	if len(lines) < 3 {
		return r
	}
	for _, l := range lines[3:] {
		if l == "" {
			continue
		}
		f := strings.Fields(l)
		sym.Assert(len(f) == 3+cells, "a row of the summary has a cell per latency class")
		w := row{active: number(f[1]), errors: number(f[len(f)-1])}
		for i := range w.latency {
			w.latency[i] = number(f[2+i])
		}
		_, ok := r[f[0]]
		sym.Assert(!ok, "a name has one row")
		r[f[0]] = w
	}
	return r
}

// listed gives the span ids shown for a cell.
func listed(name string, typ, sub int) []string {
	var b bytes.Buffer
	zpages.WriteTextTracezSpans(&b, name, typ, sub)
	var r []string
	s := b.String()
	for {
		k := strings.Index(s, "span_id: ")
		if k < 0 {
			return r
		}
		s = s[k+len("span_id: "):]
		r = append(r, s[:16])
		if k = strings.Index(s, "\n"); k < 0 {
			return r
		}
		s = s[k:]
	}
}

func count(l []string, id string) int {
	n := 0
	for _, x := range l {
		if x == id {
			n++
		}
	}
	return n
}

type spanRef struct {
	name  string
	id    string
	state int // 0 active, 1 latency, 2 error
	cell  int
	code  int32
}

// HCells: the summary agrees with the lists, and each span is where its
// latency or status puts it.
func HCells() {
	trace.ApplyConfig(trace.Config{IDGenerator: &counter{}})
	n := sym.Param("spans", 2)
	now := int64(0)
	var all []spanRef
	for i := 0; i < n; i++ {
		name := []string{"a", "b"}[sym.IntIn("name", 0, 1)]
		if i == 0 {
			name = "a"
		}
		sym.SetClock(now)
		_, sp := trace.StartSpan(bg, name, trace.WithSampler(trace.AlwaysSample()))
		ref := spanRef{name: name, id: sp.SpanContext().SpanID.String()}
		switch sym.IntIn("end", 0, 2) {
		case 0:
			sym.Cover("active")
		case 1:
			d := sym.Int64("latency")
			sym.Assume(sym.And(d >= 0, d < 1<<40))
			now += d
			sym.SetClock(now)
			sp.End()
			ref.state = 1
			for ref.cell+1 < cells && d >= bounds[ref.cell+1] {
				ref.cell++
			}
			sym.Cover("latency")
		case 2:
			ref.code = sym.Int32("code")
			sym.Assume(ref.code != 0)
			sp.SetStatus(trace.Status{Code: ref.code})
			sp.End()
			ref.state = 2
			sym.Cover("error")
		}
		all = append(all, ref)
		now += 2e9 // a bucket takes one span a second
	}
	got := summary()
	for _, name := range []string{"a", "b"} {
		w, seen := got[name]
		here := 0
		want := row{}
		for _, s := range all {
			if s.name != name {
				continue
			}
			here++
			switch s.state {
			case 0:
				want.active++
			case 1:
				want.latency[s.cell]++
			case 2:
				want.errors++
			}
		}
		sym.Assert(seen == (here > 0), "the summary has the names of the stored spans")
		sym.Assert(w == want, "the summary counts each span in the cell of its state")
		check := func(l []string, size int, in func(spanRef) bool) {
			sym.Assert(len(l) == size, "a cell lists as many spans as the summary counts")
			for _, s := range all {
				k := 0
				if s.name == name && in(s) {
					k = 1
				}
				sym.Assert(count(l, s.id) == k, "a span is listed in the cell of its state only")
			}
		}
		check(listed(name, 0, 0), w.active, func(s spanRef) bool { return s.state == 0 })
		for c := 0; c < cells; c++ {
			check(listed(name, 1, c), w.latency[c], func(s spanRef) bool { return s.state == 1 && s.cell == c })
		}
		check(listed(name, 2, 0), w.errors, func(s spanRef) bool { return s.state == 2 })
	}
	// the error list of one code
	code := sym.Int32("asked")
	sym.Assume(code != 0)
	l := listed("a", 2, int(code))
	for _, s := range all {
		k := 0
		if s.name == "a" && s.state == 2 && s.code == code {
			k = 1
			sym.Cover("one code")
		}
		sym.Assert(count(l, s.id) == k, "the list of an error code has the spans that ended with it")
	}
}
