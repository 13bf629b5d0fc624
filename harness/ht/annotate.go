//go:build go1.21

package ht

import (
	"crypto/tls"
	"errors"
	"net"
	"net/http"
	"net/http/httptrace"
	"net/textproto"
	"time"

	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/trace"
)

// note is an annotation that is expected.
type note struct {
	msg   string
	attrs map[string]interface{}
}

// hook calls one hook of a client trace and tells what it should annotate.
func hook(ct *httptrace.ClientTrace, k int) note {
	msg := string([]byte{sym.Byte("msg")})
	var err error
	if sym.Range("err", 0, 1) == 1 {
		err = errors.New(msg)
	}
	m := map[string]interface{}{}
	fail := func(key string) {
		if err != nil {
			m["httptrace."+key+".error"] = msg
			sym.Cover("error")
		}
	}
	switch k {
	case 0:
		ct.GetConn(msg)
		m["httptrace.get_connection.host_port"] = msg
		return note{"GetConn", m}
	case 1:
		reused, idle := sym.Bool("reused"), sym.Bool("idle")
		d := []time.Duration{0, 1500 * time.Millisecond}[sym.Range("idletime", 0, 1)]
		ct.GotConn(httptrace.GotConnInfo{Reused: reused, WasIdle: idle, IdleTime: d})
		m["httptrace.got_connection.reused"] = reused
		m["httptrace.got_connection.was_idle"] = idle
		if idle {
			m["httptrace.got_connection.idle_time"] = d.String()
			sym.Cover("idle")
		}
		return note{"GotConn", m}
	case 2:
		ct.PutIdleConn(err)
		fail("put_idle_connection")
		return note{"PutIdleConn", m}
	case 3:
		ct.GotFirstResponseByte()
		return note{"GotFirstResponseByte", m}
	case 4:
		ct.Got100Continue()
		return note{"Got100Continue", m}
	case 5:
		ct.DNSStart(httptrace.DNSStartInfo{Host: msg})
		m["httptrace.dns_start.host"] = msg
		return note{"DNSStart", m}
	case 6:
		addrs := []string{"", "10.0.0.1", "10.0.0.1 , 10.0.0.2"}
		n := sym.Range("addrs", 0, 2)
		var l []net.IPAddr
		for i := 0; i < n; i++ {
			l = append(l, net.IPAddr{IP: net.IP{10, 0, 0, byte(i + 1)}})
		}
		ct.DNSDone(httptrace.DNSDoneInfo{Addrs: l, Err: err})
		m["httptrace.dns_done.addrs"] = addrs[n]
		fail("dns_done")
		return note{"DNSDone", m}
	case 7:
		ct.ConnectStart("tcp", msg)
		m["httptrace.connect_start.network"] = "tcp"
		m["httptrace.connect_start.addr"] = msg
		return note{"ConnectStart", m}
	case 8:
		ct.ConnectDone(msg, "a", err)
		m["httptrace.connect_done.network"] = msg
		m["httptrace.connect_done.addr"] = "a"
		fail("connect_done")
		return note{"ConnectDone", m}
	case 9:
		ct.TLSHandshakeStart()
		return note{"TLSHandshakeStart", m}
	case 10:
		ct.TLSHandshakeDone(tls.ConnectionState{}, err)
		fail("tls_handshake_done")
		return note{"TLSHandshakeDone", m}
	case 11:
		ct.WroteHeaders()
		return note{"WroteHeaders", m}
	case 12:
		ct.Wait100Continue()
		return note{"Wait100Continue", m}
	}
	ct.WroteRequest(httptrace.WroteRequestInfo{Err: err})
	fail("wrote_request")
	return note{"WroteRequest", m}
}

// HAnnotate: every event of a connection is one annotation of the span of the
// request it belongs to.
func HAnnotate() {
	e := &sink{}
	trace.RegisterExporter(e)
	n := sym.Param("hooks", 2)
	var want []note
	calls := 0
	var given *http.Request
	var span *trace.Span
	newTrace := ochttp.NewSpanAnnotatingClientTrace
	if sym.Range("old", 0, 1) == 1 {
		newTrace = ochttp.NewSpanAnnotator
	}
	bs := &base{resp: &http.Response{StatusCode: 200, Header: http.Header{}, Body: http.NoBody}}
	bs.check = func(r *http.Request) {
		ct := httptrace.ContextClientTrace(r.Context())
		if ct == nil {
			sym.Assert(false, "the request carries the client trace")
			return
		}
		sym.Assert(ct.Got1xxResponse == nil || ct.Got1xxResponse(103, textproto.MIMEHeader{}) == nil, "no hook fails the request")
		for i := 0; i < n; i++ {
			want = append(want, hook(ct, sym.Range("hook", 0, 13)))
		}
	}
	tr := &ochttp.Transport{Base: bs, StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	tr.NewClientTrace = func(r *http.Request, s *trace.Span) *httptrace.ClientTrace {
		calls++
		given, span = r, s
		return newTrace(r, s)
	}
	req, _ := http.NewRequest("GET", "http://h/x", nil)
	if sym.Range("parent", 0, 1) == 1 {
		ctx, _ := trace.StartSpan(req.Context(), "caller", trace.WithSampler(trace.AlwaysSample()))
		req = req.WithContext(ctx)
	}
	resp, err := tr.RoundTrip(req)
	sym.Assert(err == nil && resp != nil, "the request succeeds")
	sym.Assert(calls == 1 && given != nil && span != nil, "one client trace per request")
	if err != nil {
		return
	}
	resp.Body.Close()
	if len(e.got) != 1 {
		sym.Assert(false, "one span per request")
		return
	}
	sd := e.got[0]
	sym.Assert(span.SpanContext() == sd.SpanContext, "the client trace is given the span of the request")
	var got []trace.Annotation
	got = append(got, sd.Annotations...)
	sym.Assert(len(got) == len(want), "one annotation per event")
	for i, w := range want {
		if i >= len(got) {
			break
		}
		sym.Assert(got[i].Message == w.msg, "the annotation names the event")
		sym.Assert(len(got[i].Attributes) == len(w.attrs), "the annotation has the attributes of the event")
		for k, v := range w.attrs {
			x, ok := got[i].Attributes[k]
			sym.Assert(ok, "the annotation has the attributes of the event")
			if ok {
				sym.Assert(x == v, "the attributes have the values of the event")
			}
		}
	}
	sym.Cover("annotated")
}
