//go:build go1.21

package rp

import (
	"context"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"google.golang.org/grpc/codes"
	gstats "google.golang.org/grpc/stats"
)

// call is an RPC as the views should show it.
type call struct {
	method, status      string
	over                bool
	sb, sm, rb, rm, lat float64
	ctx                 context.Context
	begin               int64
}

type shows struct {
	v    *view.View
	name string
	keys []tag.Key
	of   func(*call) float64 // nil for a count
	any  bool                // also of calls not completed
}

func sb(c *call) float64  { return c.sb }
func sm(c *call) float64  { return c.sm }
func rb(c *call) float64  { return c.rb }
func rm(c *call) float64  { return c.rm }
func lat(c *call) float64 { return c.lat }

func viewsOf(client bool) ([]shows, []*view.View) {
	if client {
		const p = "grpc.io/client/"
		m := []tag.Key{ocgrpc.KeyClientMethod}
		return []shows{
			{ocgrpc.ClientSentBytesPerRPCView, p + "sent_bytes_per_rpc", m, sb, false},
			{ocgrpc.ClientReceivedBytesPerRPCView, p + "received_bytes_per_rpc", m, rb, false},
			{ocgrpc.ClientRoundtripLatencyView, p + "roundtrip_latency", m, lat, false},
			{ocgrpc.ClientCompletedRPCsView, p + "completed_rpcs", []tag.Key{ocgrpc.KeyClientMethod, ocgrpc.KeyClientStatus}, nil, false},
			{ocgrpc.ClientStartedRPCsView, p + "started_rpcs", m, nil, true},
			{ocgrpc.ClientSentMessagesPerRPCView, p + "sent_messages_per_rpc", m, sm, false},
			{ocgrpc.ClientReceivedMessagesPerRPCView, p + "received_messages_per_rpc", m, rm, false},
		}, ocgrpc.DefaultClientViews
	}
	const p = "grpc.io/server/"
	m := []tag.Key{ocgrpc.KeyServerMethod}
	return []shows{
		{ocgrpc.ServerSentBytesPerRPCView, p + "sent_bytes_per_rpc", m, sb, false},
		{ocgrpc.ServerReceivedBytesPerRPCView, p + "received_bytes_per_rpc", m, rb, false},
		{ocgrpc.ServerLatencyView, p + "server_latency", m, lat, false},
		{ocgrpc.ServerCompletedRPCsView, p + "completed_rpcs", []tag.Key{ocgrpc.KeyServerMethod, ocgrpc.KeyServerStatus}, nil, false},
		{ocgrpc.ServerStartedRPCsView, p + "started_rpcs", m, nil, true},
		{ocgrpc.ServerSentMessagesPerRPCView, p + "sent_messages_per_rpc", m, sm, false},
		{ocgrpc.ServerReceivedMessagesPerRPCView, p + "received_messages_per_rpc", m, rm, false},
	}, ocgrpc.DefaultServerViews
}

func (s shows) check(cs []*call) {
	l := s.name + ": "
	var want []*call
	for _, c := range cs {
		if c.over || s.any {
			want = append(want, c)
		}
	}
	rows, err := view.RetrieveData(s.name)
	ck(50, err == nil, l+"the view has its name")
	total := int64(0)
	for _, r := range rows {
		ck(50, len(r.Tags) == len(s.keys), l+"the rows have the documented tags")
		var mine []*call
		for _, c := range want {
			same := tagVal(r.Tags, s.keys[0]) == c.method
			if len(s.keys) > 1 {
				same = same && tagVal(r.Tags, s.keys[1]) == c.status
			}
			if same {
				mine = append(mine, c)
			}
		}
		ck(50, len(mine) > 0, l+"a row is one of a call's method and status")
		switch v := r.Data.(type) {
		case *view.CountData:
			ck(50, s.of == nil, l+"a count")
			ck(50, v.Value == int64(len(mine)), l+"each call is counted once")
			total += v.Value
		case *view.DistributionData:
			total += v.Count
			ck(50, s.of != nil && v.Count == int64(len(mine)), l+"each call is distributed once")
			if s.of == nil {
				return
			}
			bs := s.v.Aggregation.Buckets
			n := make([]int64, len(bs)+1)
			lo, hi := 0.0, 0.0
			for i, c := range mine {
				x := s.of(c)
				at := 0
				for at < len(bs) && x >= bs[at] {
					at++
				}
				n[at]++
				if i == 0 || x < lo {
					lo = x
				}
				if i == 0 || x > hi {
					hi = x
				}
			}
			ck(50, len(mine) == 0 || v.Min == lo && v.Max == hi, l+"the extremes are the calls'")
			ck(50, len(v.CountPerBucket) == len(n), l+"one bucket more than bounds")
			for i := range n {
				ck(50, i < len(v.CountPerBucket) && v.CountPerBucket[i] == n[i], l+"each call is in its bucket")
			}
		default:
			ck(50, false, l+"a count or a distribution")
		}
	}
	ck(50, total == int64(len(want)), l+"no call is missing")
}

// HRpcViews: the predefined views show the calls.
func HRpcViews() {
	client := sym.Bool("client")
	ss, def := viewsOf(client)
	for _, d := range def {
		found := false
		for _, s := range ss {
			found = found || s.v == d
		}
		ck(50, found, "the default views are predefined ones")
	}
	for _, s := range ss {
		ck(50, view.Register(s.v) == nil, "the predefined views can be registered together")
	}
	var h handler = &ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: trace.NeverSample()}}
	if !client {
		h = &ocgrpc.ServerHandler{StartOptions: trace.StartOptions{Sampler: trace.NeverSample()}}
	}
	now := int64(1700000000000000000)
	sym.SetClock(now)
	n := sym.Range("calls", 1, sym.Param("calls", 2))
	var cs []*call
	for i := 0; i < n; i++ {
		c := &call{begin: now}
		m := []string{"/a/b", "/a/c"}[sym.Range("method", 0, 1)]
		c.method = m[1:]
		c.ctx = h.TagRPC(bg, &gstats.RPCTagInfo{FullMethodName: m})
		h.HandleRPC(c.ctx, event(0, client, 0, nil))
		cs = append(cs, c)
		ns := []int64{0, 1500000}[sym.Range("step", 0, 1)]
		now += ns
		sym.SetClock(now)
	}
	for _, c := range cs {
		for j, k := 0, sym.Range("messages", 0, 2); j < k; j++ {
			sz := 700
			if n == 1 && j == 0 {
				sz = []int{0, 1023, 1024, 1 << 40}[sym.Range("size", 0, 3)]
			}
			if sym.Range("out", 0, 1) == 1 {
				h.HandleRPC(c.ctx, event(1, client, sz, nil))
				c.sb, c.sm = c.sb+float64(sz), c.sm+1
			} else {
				h.HandleRPC(c.ctx, event(2, client, sz, nil))
				c.rb, c.rm = c.rb+float64(sz), c.rm+1
			}
		}
		if sym.Range("ends", 0, 1) == 0 {
			sym.Cover("under way")
			continue
		}
		code := 0
		if n == 1 {
			code = sym.IntIn("code", 0, 16)
		} else if sym.Range("fails", 0, 1) == 1 {
			code = 5
		}
		var err error
		if code != 0 {
			err = rpcErr{codes.Code(uint32(code)), "m"}
		}
		c.status = names[code]
		c.lat = float64(now-c.begin) / 1e6
		h.HandleRPC(c.ctx, event(7, client, 0, err))
		c.over = true
		sym.Cover("completed")
	}
	for _, s := range ss {
		s.check(cs)
	}
}
