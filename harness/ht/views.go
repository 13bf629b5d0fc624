//go:build go1.21

package ht

import (
	"io"
	"net/http"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

// done is a request as the views should show it.
type done struct {
	method, status       string
	hasBody, over        bool
	sent, recv, declared float64
	lat                  float64
}

// shows says what a predefined view shows of the requests.
type shows struct {
	v    *view.View
	name string
	keys []tag.Key
	what int
}

const (
	wStarted   = iota // number of requests started
	wCompleted        // number of requests completed
	wSent             // distribution of the bytes sent
	wRecv             // distribution of the bytes received
	wDeclared         // distribution of the sizes of the request bodies
	wLatency          // distribution of the latencies
)

var (
	byNone   []tag.Key
	byMethod = []tag.Key{ochttp.Method}
	byStatus = []tag.Key{ochttp.StatusCode}
	byBoth   = []tag.Key{ochttp.KeyClientMethod, ochttp.KeyClientStatus}
)

const cli, srv = "opencensus.io/http/client/", "opencensus.io/http/server/"

func clientShows() []shows {
	return []shows{
		{ochttp.ClientSentBytesDistribution, cli + "sent_bytes", byBoth, wSent},
		{ochttp.ClientReceivedBytesDistribution, cli + "received_bytes", byBoth, wRecv},
		{ochttp.ClientRoundtripLatencyDistribution, cli + "roundtrip_latency", byBoth, wLatency},
		{ochttp.ClientCompletedCount, cli + "completed_count", byBoth, wCompleted},
		{ochttp.ClientRequestCountView, cli + "request_count", byNone, wStarted},
		{ochttp.ClientRequestBytesView, cli + "request_bytes", byNone, wSent},
		{ochttp.ClientResponseBytesView, cli + "response_bytes", byNone, wRecv},
		{ochttp.ClientLatencyView, cli + "latency", byNone, wLatency},
		{ochttp.ClientRequestCountByMethod, cli + "request_count_by_method", byMethod, wCompleted},
		{ochttp.ClientResponseCountByStatusCode, cli + "response_count_by_status_code", byStatus, wCompleted},
	}
}

func serverShows() []shows {
	return []shows{
		{ochttp.ServerRequestCountView, srv + "request_count", byNone, wStarted},
		{ochttp.ServerRequestBytesView, srv + "request_bytes", byNone, wDeclared},
		{ochttp.ServerResponseBytesView, srv + "response_bytes", byNone, wRecv},
		{ochttp.ServerLatencyView, srv + "latency", byNone, wLatency},
		{ochttp.ServerRequestCountByMethod, srv + "request_count_by_method", byMethod, wStarted},
		{ochttp.ServerResponseCountByStatusCode, srv + "response_count_by_status_code", byStatus, wCompleted},
	}
}

func (d *done) tag(k tag.Key) string {
	if k == ochttp.StatusCode || k == ochttp.KeyClientStatus {
		return d.status
	}
	return d.method
}

// check compares what the view shows with the requests.
func (s shows) check(ds []*done) {
	l := s.name + ": "
	var want []*done
	for _, d := range ds {
		if (d.over || s.what == wStarted) && (d.hasBody || s.what != wDeclared) {
			want = append(want, d)
		}
	}
	rows, err := view.RetrieveData(s.name)
	ck(50, err == nil, l+"the view has its name")
	total := int64(0)
	for _, r := range rows {
		ck(50, len(r.Tags) <= len(s.keys), l+"the rows have the documented tags")
		var mine []*done
		for _, d := range want {
			same := true
			for _, k := range s.keys {
				same = same && tagVal(r.Tags, k) == d.tag(k)
			}
			if same {
				mine = append(mine, d)
			}
		}
		ck(50, len(mine) > 0, l+"a row is one of a request's method and status")
		switch v := r.Data.(type) {
		case *view.CountData:
			ck(50, s.what <= wCompleted, l+"a count")
			ck(50, v.Value == int64(len(mine)), l+"each request is counted once")
			total += v.Value
		case *view.DistributionData:
			ck(50, s.what >= wSent, l+"a distribution")
			total += v.Count
			ck(50, v.Count == int64(len(mine)), l+"each request is distributed once")
			bs := s.v.Aggregation.Buckets
			ck(50, len(v.CountPerBucket) == len(bs)+1, l+"one bucket more than bounds")
			n := make([]int64, len(bs)+1)
			lo, hi := 0.0, 0.0
			for i, d := range mine {
				x := []float64{0, 0, d.sent, d.recv, d.declared, d.lat}[s.what]
				at := 0
				for at < len(bs) && x >= bs[at] {
					at++
				}
				n[at]++
				if i == 0 || x < lo {
					lo = x
				}
				if i == 0 || x > hi {
					hi = x
				}
			}
			ck(50, len(mine) == 0 || v.Min == lo && v.Max == hi, l+"the extremes are the requests'")
			for i := range n {
				ck(50, i < len(v.CountPerBucket) && v.CountPerBucket[i] == n[i], l+"each request is in its bucket")
			}
		default:
			ck(50, false, l+"a count or a distribution")
		}
	}
	ck(50, total == int64(len(want)), l+"no request is missing")
}

func registerAll(ss []shows, def []*view.View) {
	for _, d := range def {
		found := false
		for _, s := range ss {
			found = found || s.v == d
		}
		ck(50, found, "the default views are predefined ones")
	}
	for _, s := range ss {
		ck(50, view.Register(s.v) == nil, "the predefined views can be registered together")
	}
}

// HClientViews: the predefined client views show the requests of a transport.
func HClientViews() {
	ss := clientShows()
	registerAll(ss, ochttp.DefaultClientViews)
	now := int64(1700000000000000000)
	sym.SetClock(now)
	var ds []*done
	n := sym.Range("requests", 0, sym.Param("requests", 2))
	for i := 0; i < n; i++ {
		d := &done{method: []string{"GET", "PUT"}[sym.Range("method", 0, 1)]}
		ds = append(ds, d)
		r := request(d.method, "/x")
		if d.hasBody = sym.Range("body", 0, 1) == 1; d.hasBody {
			r.Body = &bodyOf{}
			r.ContentLength = 1024
			if n == 1 {
				r.ContentLength = []int64{0, 1023, 1024, 1 << 40}[sym.Range("size", 0, 3)]
			}
			d.sent = float64(r.ContentLength)
		}
		code := 404
		if n == 1 {
			code = sym.IntIn("code", 200, 599)
		}
		bs := &base{resp: &http.Response{StatusCode: code, Header: http.Header{}, Body: &respBody{steps: []step{{2, nil}, {0, io.EOF}}}, ContentLength: 2}}
		d.status = itoa3(code)
		d.recv = 2
		end := sym.Range("end", 0, 2)
		ns := []int64{0, 1500000, 2000000000}[sym.Range("latency", 0, 2)]
		if end == 2 {
			bs.resp, bs.err = nil, errTransport
			d.status, d.recv = "error", 0
			sym.Cover("no response")
		}
		d.lat = float64(ns) / 1e6
		bs.check = func(*http.Request) {
			now += ns
			sym.SetClock(now)
		}
		resp, _ := (&ochttp.Transport{Base: bs, Propagation: &format{}}).RoundTrip(r)
		d.over = end > 0
		if end == 1 {
			io.ReadAll(resp.Body)
			resp.Body.Close()
			sym.Cover("completed")
		}
	}
	for _, s := range ss {
		s.check(ds)
	}
}

// HServerViews: the predefined server views show the requests of a handler.
func HServerViews() {
	ss := serverShows()
	registerAll(ss, ochttp.DefaultServerViews)
	now := int64(1700000000000000000)
	sym.SetClock(now)
	var ds []*done
	n := sym.Range("requests", 0, sym.Param("requests", 2))
	for i := 0; i < n; i++ {
		d := &done{method: []string{"GET", "PUT"}[sym.Range("method", 0, 1)], over: true}
		r := request(d.method, "/x")
		if d.hasBody = sym.Range("body", 0, 1) == 1; d.hasBody {
			r.Body = &bodyOf{}
			r.ContentLength = 1024
			if n == 1 {
				r.ContentLength = []int64{0, 1023, 1024, 1 << 40}[sym.Range("size", 0, 3)]
			}
			d.declared = float64(r.ContentLength)
		}
		code := 404
		if n == 1 {
			code = sym.IntIn("code", 200, 599)
		}
		d.status = itoa3(code)
		size := []int{0, 1, 1024}[sym.Range("out", 0, 2)]
		d.recv = float64(size)
		ns := []int64{0, 1500000, 2000000000}[sym.Range("latency", 0, 2)]
		d.lat = float64(ns) / 1e6
		during := n == 1 && sym.Range("during", 0, 1) == 1
		hd := &ochttp.Handler{Propagation: &format{}, Handler: http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) {
			if during {
				// a request under way is counted as started only
				d.over = false
				for _, s := range ss {
					s.check(ds)
				}
				d.over = true
				sym.Cover("under way")
			}
			now += ns
			sym.SetClock(now)
			w.WriteHeader(code)
			w.Write(make([]byte, size))
		})}
		ds = append(ds, d)
		hd.ServeHTTP(newRW(), r)
	}
	for _, s := range ss {
		s.check(ds)
	}
	sym.Cover("served")
}
