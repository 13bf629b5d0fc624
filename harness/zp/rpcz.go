//go:build go1.21

package zp

import (
	"bytes"
	"strconv"
	"strings"
	"time"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/zpages"
	"google.golang.org/grpc/codes"
	gstats "google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

type rpcErr struct{ c codes.Code }

func (e rpcErr) Error() string              { return "m" }
func (e rpcErr) GRPCStatus() *status.Status { return status.New(e.c, "m") }

type rpcKey struct {
	method   string
	received bool
}

type rpcRef struct {
	count, errors int
	latency       time.Duration
	in, out       int
}

type rpcRow struct {
	count, errors string
	avg           string
	rate, in, out float64 // per second
}

// column gives the total of the group of columns under a title.
func column(row, head, title string) string {
	k := strings.Index(head, title)
	if k < 0 || k > len(row) {
		sym.Assert(false, "the page has the column "+title)
		return ""
	}
	f := strings.Fields(row[k:])
	if len(f) < 3 || k > 0 && row[k-1] != ' ' {
		sym.Assert(false, "the cells of a row are under their headings")
		return ""
	}
	return f[2]
}

func real(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	sym.Assert(err == nil, "a rate is a number")
	return v
}

// unit is the number of bytes a data rate is counted in.
func unit(head, title string) float64 {
	k := strings.Index(head, title+" (")
	if k < 0 {
		sym.Assert(false, "the page has the column "+title)
		return 1
	}
	switch s := head[k+len(title)+2:]; {
	case strings.HasPrefix(s, "MiB/s)"):
		return 1 << 20
	case strings.HasPrefix(s, "KiB/s)"):
		return 1 << 10
	case strings.HasPrefix(s, "MB/s)"):
		return 1e6
	case strings.HasPrefix(s, "kB/s)"):
		return 1e3
	}
	return 1
}

// page reads the RPC page.
func page() map[rpcKey]rpcRow {
	var b bytes.Buffer
	zpages.WriteTextRpczPage(&b)
	r := map[rpcKey]rpcRow{}
	received := false
	head := ""
	for _, l := range strings.Split(b.String(), "\n") {
		switch f := strings.Fields(l); {
		case len(f) == 1 && f[0] == "Received:":
			received = true
		case strings.HasPrefix(l, "Method "):
			head = l
		case len(f) > 1 && strings.HasPrefix(f[0], "svc/"):
			k := rpcKey{f[0], received}
			_, ok := r[k]
			sym.Assert(!ok, "a method has one row for each direction")
			r[k] = rpcRow{
				count: column(l, head, "Count"), errors: column(l, head, "Errors"), avg: column(l, head, "AvgLat"),
				rate: real(column(l, head, "Rate")),
				in:   real(column(l, head, "In (")) * unit(head, "In"), out: real(column(l, head, "Out (")) * unit(head, "Out"),
			}
		}
	}
	return r
}

// HRpcz: the RPC page shows each method's calls, errors and average latency.
func HRpcz() {
	sym.FastTicks()
	view.SetReportingPeriod(time.Second)
	want := map[rpcKey]rpcRef{}
	n := sym.Param("calls", 2)
	now := int64(1e9)
	failed := 0
	for i := 0; i < n; i++ {
		name := []string{"svc/A", "svc/B"}[sym.IntIn("method", 0, 1)]
		received := sym.IntIn("received", 0, 1) == 1
		k := rpcKey{name, received}
		lat := time.Duration(sym.Range("ms", 1, sym.Param("ms", 3))) * time.Millisecond
		var err error
		if sym.IntIn("fails", 0, 1) == 1 {
			c := sym.Int32("code")
			sym.Assume(sym.And(c > 0, c <= 16))
			if sym.Param("codes", 0) > 0 {
				sym.Assume(sym.Or(c == 1, c == 16))
			}
			err = rpcErr{codes.Code(c)}
		}
		sym.SetClock(now)
		now += int64(lat)
		info := &gstats.RPCTagInfo{FullMethodName: "/" + name, FailFast: true}
		ref := want[k]
		if received {
			h := &ocgrpc.ServerHandler{}
			c := h.TagRPC(bg, info)
			h.HandleRPC(c, &gstats.Begin{})
			h.HandleRPC(c, &gstats.InPayload{Length: 3 << 20})
			h.HandleRPC(c, &gstats.OutPayload{Length: 7 << 20})
			sym.SetClock(now)
			ref.in, ref.out = ref.in+(3<<20), ref.out+(7<<20)
			h.HandleRPC(c, &gstats.End{Error: err})
		} else {
			h := &ocgrpc.ClientHandler{}
			c := h.TagRPC(bg, info)
			h.HandleRPC(c, &gstats.Begin{Client: true})
			h.HandleRPC(c, &gstats.OutPayload{Client: true, Length: 3 << 20})
			h.HandleRPC(c, &gstats.InPayload{Client: true, Length: 7 << 20})
			sym.SetClock(now)
			ref.in, ref.out = ref.in+(7<<20), ref.out+(3<<20)
			h.HandleRPC(c, &gstats.End{Client: true, Error: err})
		}
		ref.count++
		ref.latency += lat
		if err != nil {
			ref.errors++
			failed++
			sym.Cover("error")
		}
		if ref.count == 2 {
			sym.Cover("two calls of a method")
		}
		want[k] = ref
		if i < n-1 && sym.IntIn("report", 0, 1) == 1 {
			sym.Fire()
			sym.Quiesce()
			sym.Cover("reported between")
		}
	}
	sym.Fire()
	sym.Quiesce()
	if failed == n && sym.IntIn("again", 0, 1) == 1 {
		sym.Fire()
		sym.Quiesce()
		sym.Cover("reported again")
	}
	got := page()
	age := float64(now) / 1e9 // of the program, as the clock starts with it
	near := func(a, b float64) bool { return a > b*0.7 && a < b*1.3 }
	sym.Assert(len(got) == len(want), "the page has a row for each method that was called")
	for k, w := range want {
		g, ok := got[k]
		sym.Assert(ok, "a called method has a row")
		sym.Assert(g.count == strconv.Itoa(w.count), "the page counts each completed call once")
		sym.Assert(g.errors == strconv.Itoa(w.errors), "the page counts each failed call as an error")
		sym.Assert(near(g.rate, float64(w.count)/age), "the page shows the rate of calls")
		sym.Assert(near(g.in, float64(w.in)/age), "the page shows the rate of received bytes")
		sym.Assert(near(g.out, float64(w.out)/age), "the page shows the rate of sent bytes")
		sym.Assert(g.avg == (w.latency/time.Duration(w.count)).String(), "the page shows the average latency")
	}
}

// HRpczConc: the page may be read while the views are reported.
func HRpczConc() {
	sym.FastTicks()
	view.SetReportingPeriod(time.Second)
	call := func() {
		h := &ocgrpc.ServerHandler{}
		c := h.TagRPC(bg, &gstats.RPCTagInfo{FullMethodName: "/svc/A"})
		h.HandleRPC(c, &gstats.Begin{})
		h.HandleRPC(c, &gstats.End{})
	}
	call()
	if sym.Range("before", 0, 1) == 1 {
		sym.Fire()
		sym.Quiesce()
	}
	done := make(chan map[rpcKey]rpcRow, 1)
	sym.Explore()
	go func() { done <- page() }()
	sym.Fire()
	got := <-done
	sym.StopExplore()
	sym.Quiesce()
	sym.Assert(len(got) <= 1, "the page has a row for each method that was called")
	if len(got) == 1 {
		sym.Cover("shown")
	} else {
		sym.Cover("not yet")
	}
	now := page()
	sym.Assert(now[rpcKey{"svc/A", true}].count == "1", "the page counts each completed call once")
}
