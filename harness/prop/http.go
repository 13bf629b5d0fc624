package prop

import (
	"net/http"

	sd "go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/tracestate"
)

func newReq() *http.Request { return &http.Request{Header: http.Header{}} }

func hexVal(c byte) (byte, bool) {
	d := sym.And(c >= '0', c <= '9')
	l := sym.And(c >= 'a', c <= 'f')
	u := sym.And(c >= 'A', c <= 'F')
	var v byte
	if d {
		v = c - '0'
	}
	if l {
		v = c - 'a' + 10
	}
	if u {
		v = c - 'A' + 10
	}
	return v, sym.Or(d, sym.Or(l, u))
}

func isHex(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		d := sym.And(s[i] >= '0', s[i] <= '9')
		l := sym.And(s[i] >= 'a', s[i] <= 'f')
		u := sym.And(s[i] >= 'A', s[i] <= 'F')
		ok = sym.And(ok, sym.Or(d, sym.Or(l, u)))
	}
	return ok
}

func unhex(s string) []byte {
	r := make([]byte, len(s)/2)
	for i := range r {
		h, _ := hexVal(s[2*i])
		l, _ := hexVal(s[2*i+1])
		r[i] = h<<4 | l
	}
	return r
}

// ---- W3C trace context

func HTraceparentRoundtrip() {
	c := validSC("c")
	f := &tracecontext.HTTPFormat{}
	req := newReq()
	f.SpanContextToRequest(c, req)
	sym.Assert(len(req.Header["Traceparent"]) == 1, "one traceparent header")
	sym.Assert(len(req.Header["Tracestate"]) == 0, "no tracestate header without a tracestate")
	tp := req.Header.Get("traceparent")
	sym.ObsStr("tp", tp)
	sym.Assert(len(tp) == 55, "traceparent has 55 characters")
	sym.Assert(sym.And(tp[0] == '0', tp[1] == '0'), "version 00")
	d, ok := f.SpanContextFromRequest(req)
	sym.Assert(ok, "injected header is accepted")
	sym.Assert(d.TraceID == c.TraceID, "trace id survives")
	sym.Assert(d.SpanID == c.SpanID, "span id survives")
	sym.Assert(d.IsSampled() == c.IsSampled(), "sampling bit survives")
	sym.Assert(uint32(d.TraceOptions) == uint32(c.TraceOptions)&0xff, "options survive")
	sym.Cover("roundtrip")
}

func section(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != '-')
	}
	return s
}

// HTraceparentDecode: the header is a sequence of '-' separated sections; one
// section at a time has a free length, further sections may follow.
func HTraceparentDecode() {
	l := [4]int{2, 32, 16, 2}
	spread := sym.Param("spread", 1)
	w := sym.Range("section", 0, 3)
	lo, hi := l[w]-spread, l[w]+spread
	if w == 3 {
		lo, hi = 0, 2+2*spread
	}
	l[w] = sym.Range("len", lo, hi)
	extra := sym.Range("extra", 0, sym.Param("extra", 2))
	s0, s1, s2, s3 := section("s0", l[0]), section("s1", l[1]), section("s2", l[2]), section("s3", l[3])
	tp := s0 + "-" + s1 + "-" + s2 + "-" + s3
	for i := 0; i < extra; i++ {
		tp += "-" + section("x", sym.Range("xl", 0, 1))
	}
	f := &tracecontext.HTTPFormat{}
	req := newReq()
	req.Header.Set("traceparent", tp)
	d, ok := f.SpanContextFromRequest(req)
	sym.ObsBool("ok", ok)
	shape := l[0] == 2 && l[1] == 32 && l[2] == 16 && l[3] == 2
	if !shape {
		sym.Cover("bad shape")
		sym.Assert(!ok, "a traceparent with a section of the wrong length is refused")
		sym.Assert(d == trace.SpanContext{}, "refused header yields the zero context")
		return
	}
	good := sym.And(sym.And(isHex(s0), isHex(s1)), sym.And(isHex(s2), isHex(s3)))
	if !good {
		sym.Cover("not hex")
		sym.Assert(!ok, "a traceparent that is not hexadecimal is refused")
		return
	}
	v := unhex(s0)[0]
	var want trace.SpanContext
	copy(want.TraceID[:], unhex(s1))
	copy(want.SpanID[:], unhex(s2))
	want.TraceOptions = trace.TraceOptions(unhex(s3)[0])
	if v == 255 {
		sym.Cover("version 255")
		sym.Assert(!ok, "the reserved version is refused")
		return
	}
	if v == 0 && extra > 0 {
		sym.Cover("extra sections in version 0")
		sym.Assert(!ok, "version 0 has exactly four sections")
		return
	}
	if (want.TraceID == trace.TraceID{}) || (want.SpanID == trace.SpanID{}) {
		sym.Cover("zero id")
		sym.Assert(!ok, "all-zero ids are refused")
		return
	}
	sym.Cover("accepted")
	sym.Assert(ok, "a well-formed traceparent is accepted")
	sym.Assert(d == want, "ids and options are those of the header")
}

// HTraceparentShort: arbitrary short values, absent and repeated headers.
func HTraceparentShort() {
	f := &tracecontext.HTTPFormat{}
	req := newReq()
	const good = "-0102030405060708090a0b0c0d0e0f10-1112131415161718-0"
	switch sym.Range("kind", 0, 2) {
	case 0:
		_, ok := f.SpanContextFromRequest(req)
		sym.Assert(!ok, "absent header is refused")
	case 1:
		req.Header["Traceparent"] = []string{sym.Str("tp", sym.Range("n", 0, sym.Param("n", 7)))}
		_, ok := f.SpanContextFromRequest(req)
		sym.Assert(!ok, "short header is refused")
		sym.Cover("short")
	case 2:
		v := sym.Str("v", 2)
		tail := []string{"", "-", "-x"}[sym.Range("tail", 0, 2)]
		req.Header["Traceparent"] = []string{v + good + "1" + tail, v + good + sym.Str("o", 1)}
		_, ok := f.SpanContextFromRequest(req)
		sym.Assert(!ok, "a repeated traceparent header is refused")
		sym.Cover("repeated")
	}
}

// ---- tracestate

func keyChar(c byte) bool {
	return sym.Or(sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= '0', c <= '9')), sym.Or(sym.Or(c == '_', c == '-'), sym.Or(c == '*', c == '/')))
}
func lowerChar(c byte) bool { return sym.And(c >= 'a', c <= 'z') }

func validPart(s string, max int) bool {
	if len(s) == 0 || len(s) > max {
		return false
	}
	ok := lowerChar(s[0])
	for i := 1; i < len(s); i++ {
		ok = sym.And(ok, keyChar(s[i]))
	}
	return ok
}

func validTSKey(k string) bool {
	ok := validPart(k, 256)
	for i := 1; i < len(k)-1; i++ {
		ok = sym.Or(ok, sym.And(k[i] == '@', sym.And(validPart(k[:i], 241), validPart(k[i+1:], 14))))
	}
	return ok
}

func validTSValue(v string) bool {
	if len(v) == 0 || len(v) > 256 {
		return false
	}
	ok := v[len(v)-1] != ' '
	for i := 0; i < len(v); i++ {
		ok = sym.And(ok, sym.And(sym.And(v[i] >= 0x20, v[i] <= 0x7e), sym.And(v[i] != ',', v[i] != '=')))
	}
	return ok
}

var fixedSC = trace.SpanContext{TraceID: trace.TraceID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, SpanID: trace.SpanID{1, 2, 3, 4, 5, 6, 7, 8}, TraceOptions: 1}

const fixedTP = "00-0102030405060708090a0b0c0d0e0f10-0102030405060708-01"

func sameEntries(a, b []tracestate.Entry) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.And(a[i].Key == b[i].Key, a[i].Value == b[i].Value))
	}
	return ok
}

// HTracestateRoundtrip: entries survive a request unless the header is too long.
func HTracestateRoundtrip() {
	n := sym.Range("n", 0, sym.Param("entries", 2))
	pad := sym.Range("pad", 0, 5)
	var es []tracestate.Entry
	for i := 0; i < n; i++ {
		es = append(es, tracestate.Entry{Key: sym.Str("k", sym.Range("kl", 1, sym.Param("kl", 3))), Value: sym.Str("v", sym.Range("vl", 1, sym.Param("vl", 2)))})
	}
	if pad > 0 { // bring the header close to the limit
		total := 0
		for _, e := range es {
			total += len(e.Key) + len(e.Value) + 2
		}
		want := 509 + pad // 510..514
		rest := want - total - 1 - 4
		for i := 0; i < 256; i++ {
			if i == 0 {
				es = append(es, tracestate.Entry{Key: "aa", Value: ""}, tracestate.Entry{Key: "bb", Value: ""})
			}
		}
		a := rest / 2
		b := rest - a - 2
		es[len(es)-2].Value = rep("x", a)
		es[len(es)-1].Value = rep("y", b)
		total = -1
		for _, e := range es {
			total += len(e.Key) + len(e.Value) + 2
		}
		sym.ObsInt("total", int64(total))
	}
	ts, err := tracestate.New(nil, es...)
	sym.Assume(err == nil)
	c := fixedSC
	c.Tracestate = ts
	f := &tracecontext.HTTPFormat{}
	req := newReq()
	if n != 1 { // what the request carried before is replaced
		req.Header["Tracestate"] = []string{"old=1", "older=2"}
		req.Header["Traceparent"] = []string{"old"}
	}
	f.SpanContextToRequest(c, req)
	total := -1
	for _, e := range es {
		total += len(e.Key) + len(e.Value) + 2
	}
	d, ok := f.SpanContextFromRequest(req)
	sym.Assert(ok, "the traceparent is accepted")
	sym.Assert(sym.And(d.TraceID == c.TraceID, d.SpanID == c.SpanID), "ids survive")
	if n == 0 && pad == 0 || total > 512 {
		sym.Cover("not written")
		sym.Assert(len(req.Header["Tracestate"]) == 0, "an empty or oversized tracestate is not written")
		sym.Assert(d.Tracestate == nil, "nothing is read back")
		return
	}
	sym.Cover("written")
	sym.Assert(len(req.Header["Tracestate"]) == 1, "the tracestate is written")
	sym.Assert(d.Tracestate != nil, "the tracestate is read back")
	sym.Assert(sameEntries(d.Tracestate.Entries(), es), "the entries and their order survive")
}

func rep(s string, n int) string {
	r := ""
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}

func ows(c byte) bool { return sym.Or(c == ' ', c == '\t') }

// refTracestate parses a combined header value; ok=false means it must be ignored.
func refTracestate(h string) ([]tracestate.Entry, bool) {
	var es []tracestate.Entry
	start := 0
	for i := 0; i <= len(h); i++ {
		if i < len(h) && h[i] != ',' {
			continue
		}
		p := h[start:i]
		start = i + 1
		for len(p) > 0 && ows(p[0]) {
			p = p[1:]
		}
		for len(p) > 0 && ows(p[len(p)-1]) {
			p = p[:len(p)-1]
		}
		eq := -1
		for j := 0; j < len(p); j++ {
			if p[j] == '=' {
				if eq >= 0 {
					return nil, false
				}
				eq = j
			}
		}
		if eq < 0 {
			return nil, false
		}
		e := tracestate.Entry{Key: p[:eq], Value: p[eq+1:]}
		if !validTSKey(e.Key) || !validTSValue(e.Value) {
			return nil, false
		}
		for _, o := range es {
			if o.Key == e.Key {
				return nil, false
			}
		}
		es = append(es, e)
	}
	return es, true
}

// HTracestateDecode: arbitrary tracestate header lines.
func HTracestateDecode() {
	req := newReq()
	req.Header["Traceparent"] = []string{fixedTP}
	h := sym.Str("h", sym.Range("n", 0, sym.Param("n", 6)))
	lines := sym.Range("lines", 1, 2)
	if lines == 2 {
		h2 := sym.Str("h2", sym.Range("n2", 0, sym.Param("n2", 4)))
		req.Header["Tracestate"] = []string{h, h2}
		h += "," + h2
	} else {
		req.Header["Tracestate"] = []string{h}
	}
	f := &tracecontext.HTTPFormat{}
	d, ok := f.SpanContextFromRequest(req)
	sym.Assert(ok, "a tracestate never makes the traceparent refused")
	sym.Assert(sym.And(sym.And(d.TraceID == fixedSC.TraceID, d.SpanID == fixedSC.SpanID), d.TraceOptions == 1), "ids are those of the traceparent")
	sym.ObsBool("ts", d.Tracestate != nil)
	want, good := refTracestate(h)
	if !good {
		sym.Cover("ignored")
		sym.Assert(d.Tracestate == nil, "a malformed tracestate is ignored")
		return
	}
	sym.Cover("accepted")
	if len(want) == 2 {
		sym.Cover("two entries")
	}
	sym.Assert(d.Tracestate != nil, "a well-formed tracestate is accepted")
	sym.Assert(sameEntries(d.Tracestate.Entries(), want), "the entries are those of the header")
}

// ---- B3

func HB3Roundtrip() {
	c := validSC("c")
	f := &b3.HTTPFormat{}
	req := newReq()
	f.SpanContextToRequest(c, req)
	sym.ObsStr("sampled", req.Header.Get(b3.SampledHeader))
	sym.Assert(len(req.Header.Get(b3.TraceIDHeader)) == 32, "trace id has 32 digits")
	sym.Assert(len(req.Header.Get(b3.SpanIDHeader)) == 16, "span id has 16 digits")
	d, ok := f.SpanContextFromRequest(req)
	sym.Assert(ok, "injected headers are accepted")
	sym.Assert(d.TraceID == c.TraceID, "trace id survives")
	sym.Assert(d.SpanID == c.SpanID, "span id survives")
	sym.Assert(d.IsSampled() == c.IsSampled(), "sampling decision survives")
	sym.Cover("roundtrip")
}

// HB3Decode: one id header arbitrary, the other well-formed; any sampled header.
func HB3Decode() {
	f := &b3.HTTPFormat{}
	req := newReq()
	which := sym.Range("which", 0, 1)
	max := 32
	if which == 1 {
		max = 16
	}
	n := sym.Range("n", -1, max+sym.Param("over", 2))
	tid, sid := "0102030405060708", "1112131415161718"
	s := ""
	if n >= 0 {
		s = sym.Str("id", n)
	}
	if which == 0 {
		tid = s
	} else {
		sid = s
	}
	if which != 0 || n >= 0 {
		req.Header.Set(b3.TraceIDHeader, tid)
	}
	if which != 1 || n >= 0 {
		req.Header.Set(b3.SpanIDHeader, sid)
	}
	smp := sym.Str("smp", []int{0, 1, 4, 5}[sym.Range("smpl", 0, 3)])
	req.Header.Set(b3.SampledHeader, smp)
	d, ok := f.SpanContextFromRequest(req)
	sym.ObsBool("ok", ok)
	if n <= 0 || n > max || n%2 != 0 {
		sym.Cover("bad length")
		sym.Assert(!ok, "an absent, odd or too long id is refused")
		sym.Assert(d == trace.SpanContext{}, "refused headers yield the zero context")
		return
	}
	if !isHex(s) {
		sym.Cover("not hex")
		sym.Assert(!ok, "an id that is not hexadecimal is refused")
		return
	}
	sym.Cover("accepted")
	sym.Assert(ok, "hexadecimal ids are accepted")
	b := unhex(s)
	want := trace.SpanContext{TraceID: trace.TraceID{8: 1, 9: 2, 10: 3, 11: 4, 12: 5, 13: 6, 14: 7, 15: 8}, SpanID: trace.SpanID{0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18}}
	if which == 0 {
		want.TraceID = trace.TraceID{}
		copy(want.TraceID[16-len(b):], b)
	} else {
		want.SpanID = trace.SpanID{}
		copy(want.SpanID[8-len(b):], b)
	}
	sym.Assert(d.TraceID == want.TraceID, "the trace id is the header's, left-padded")
	sym.Assert(d.SpanID == want.SpanID, "the span id is the header's, left-padded")
	sym.Assert(d.IsSampled() == (smp == "1" || smp == "true"), "sampled exactly for 1 and true")
}

// ---- X-Cloud-Trace-Context

func HCloudRoundtrip() {
	c := sc("c")
	f := &sd.HTTPFormat{}
	req := newReq()
	f.SpanContextToRequest(c, req)
	d, ok := f.SpanContextFromRequest(req)
	sym.Assert(ok, "injected header is accepted")
	sym.Assert(d.TraceID == c.TraceID, "trace id survives")
	sym.Assert(d.SpanID == c.SpanID, "span id survives")
	sym.Assert(d.TraceOptions == c.TraceOptions, "options survive")
	sym.Cover("roundtrip")
}

func isDec(s string) bool {
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, sym.And(s[i] >= '0', s[i] <= '9'))
	}
	return ok
}

func dec(s string) uint64 {
	var v uint64
	for i := 0; i < len(s); i++ {
		v = v*10 + uint64(s[i]-'0')
	}
	return v
}

// HCloudDecode: T/S;O with symbolic parts.
func HCloudDecode() {
	f := &sd.HTTPFormat{}
	req := newReq()
	tn := sym.Range("tn", 0, sym.Param("tn", 4))
	pre := []string{"", "0102030405060708090a0b0c0d0e", "0102030405060708090a0b0c0d0e0f"}[sym.Range("pre", 0, 2)]
	t := sym.Str("t", tn)
	s := sym.Str("s", sym.Range("sn", 0, sym.Param("sn", 3)))
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] != '/')
	}
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != ';')
	}
	h := pre + t
	kind := sym.Range("kind", 0, 3)
	o := ""
	switch kind {
	case 0: // no slash
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] != '/')
		}
		h += s
	case 1: // no options
		h += "/" + s
	case 2: // options
		o = sym.Str("o", sym.Range("on", 0, sym.Param("on", 3)))
		h += "/" + s + ";o=" + o
	case 3: // something else after the semicolon
		o = sym.Str("o", sym.Range("on", 0, 2))
		sym.Assume(!(len(o) == 2 && o[0] == 'o' && o[1] == '='))
		h += "/" + s + ";" + o
	}
	req.Header.Set("X-Cloud-Trace-Context", h)
	d, ok := f.SpanContextFromRequest(req)
	sym.ObsBool("ok", ok)
	if kind == 0 {
		sym.Cover("no slash")
		sym.Assert(!ok, "a header without a span id is refused")
		sym.Assert(d == trace.SpanContext{}, "refused header yields the zero context")
		return
	}
	tt := pre + t
	if len(tt) != 32 || !isHex(tt) || !isDec(s) || kind == 2 && !isDec(o) {
		sym.Cover("bad field")
		sym.Assert(!ok, "a bad trace id, span id or option is refused")
		return
	}
	if kind == 1 && len(s) > 1 {
		sym.Cover("no options")
	}
	sym.Cover("accepted")
	sym.Assert(ok, "well-formed header accepted")
	var want trace.TraceID
	copy(want[:], unhex(tt))
	sym.Assert(d.TraceID == want, "trace id is the header's")
	v := dec(s)
	sym.Assert(sym.And(d.SpanID[7] == byte(v), d.SpanID[6] == byte(v>>8)), "span id is the header's")
	sym.Assert(sym.And(d.SpanID[0] == 0, d.SpanID[5] == 0), "span id is the header's (high bytes)")
	if kind == 2 {
		sym.Assert(uint64(d.TraceOptions) == dec(o), "options are the header's")
	} else {
		sym.Assert(d.TraceOptions == 0, "no options without the field")
	}
}

// HCloudLimits: length limit, absent header, and span ids around 2^64.
func HCloudLimits() {
	f := &sd.HTTPFormat{}
	req := newReq()
	_, ok := f.SpanContextFromRequest(req)
	sym.Assert(!ok, "absent header refused")
	tid := "0102030405060708090a0b0c0d0e0f10"
	if sym.Range("kind", 0, 1) == 0 {
		n := sym.Range("total", 199, 202)
		h := tid + "/" + rep("0", n-len(tid)-2) + sym.Str("d", 1)
		req.Header.Set("X-Cloud-Trace-Context", h)
		_, ok = f.SpanContextFromRequest(req)
		c := h[len(h)-1]
		good := sym.And(n <= 200, sym.And(c >= '0', c <= '9'))
		good = sym.Or(good, sym.And(n <= 200, c == ';'))
		sym.Assert(ok == good, "headers of more than 200 bytes are refused")
		sym.Cover("long")
		return
	}
	// 1844674407370955161x is at most 2^64-1 exactly for x <= 5
	x := sym.Byte("x")
	sym.Assume(sym.And(x >= '0', x <= '9'))
	req.Header.Set("X-Cloud-Trace-Context", tid+"/1844674407370955161"+string([]byte{x}))
	d, ok := f.SpanContextFromRequest(req)
	sym.Assert(ok == (x <= '5'), "span ids beyond 64 bits are refused")
	if ok {
		sym.Cover("max")
		sym.Assert(d.SpanID[7] == 250+(x-'0'), "span id")
		sym.Assert(d.SpanID[0] == 255, "span id high")
	}
}

func tsDecodeCheck(h string, what string) {
	req := newReq()
	req.Header["Traceparent"] = []string{fixedTP}
	req.Header["Tracestate"] = []string{h}
	d, ok := (&tracecontext.HTTPFormat{}).SpanContextFromRequest(req)
	sym.Assert(ok, "a tracestate never makes the traceparent refused")
	sym.Assert(sym.And(sym.And(d.TraceID == fixedSC.TraceID, d.SpanID == fixedSC.SpanID), d.TraceOptions == 1), "ids are those of the traceparent")
	sym.ObsBool("ts", d.Tracestate != nil)
	want, good := refTracestate(h)
	if !good {
		sym.Cover("ignored")
		sym.Assert(d.Tracestate == nil, "a malformed tracestate is ignored")
		return
	}
	sym.Cover("accepted " + what)
	sym.Assert(d.Tracestate != nil, "a well-formed tracestate is accepted")
	sym.Assert(sameEntries(d.Tracestate.Entries(), want), "the entries are those of the header")
}

// HTracestateMembers: a list of well-shaped members with symbolic keys, values and white space.
func HTracestateMembers() {
	m := sym.Range("members", 1, sym.Param("members", 2))
	h := ""
	for i := 0; i < m; i++ {
		if i > 0 {
			h += ","
		}
		if sym.Range("lead", 0, 1) == 1 {
			w := sym.Byte("w")
			sym.Assume(ows(w))
			h += string([]byte{w})
		}
		k := sym.Str("k", sym.Range("kl", 1, sym.Param("kl", 1)))
		v := sym.Str("v", sym.Range("vl", 1, 2))
		sym.Assume(sym.And(validTSKey(k), validTSValue(v)))
		h += k + "=" + v
		if sym.Range("trail", 0, 1) == 1 {
			w := sym.Byte("w")
			sym.Assume(ows(w))
			h += string([]byte{w})
		}
	}
	tsDecodeCheck(h, "members")
}

// HTracestateLimits: 32 entries and 512 characters (white space around members not counted).
func HTracestateLimits() {
	if sym.Range("kind", 0, 1) == 0 {
		n := sym.Range("n", 30, 34)
		h := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				h += ","
			}
			h += "k" + string([]byte{byte('a' + i%26), byte('a' + i/26)}) + "=" + string([]byte{byte('a' + i%7)})
		}
		req := newReq()
		req.Header["Traceparent"] = []string{fixedTP}
		req.Header["Tracestate"] = []string{h}
		d, ok := (&tracecontext.HTTPFormat{}).SpanContextFromRequest(req)
		sym.Assert(ok, "a tracestate never makes the traceparent refused")
		if n > 32 {
			sym.Assert(d.Tracestate == nil, "more than 32 entries are ignored")
			sym.Cover("too many")
			return
		}
		sym.Assert(d.Tracestate != nil && len(d.Tracestate.Entries()) == n, "up to 32 entries are accepted")
		return
	}
	// three members: a=x..., bb=y..., and a symbolic one; total 510..514
	total := sym.Range("total", 510, 514)
	k, v := sym.Byte("k"), sym.Byte("v")
	sym.Assume(sym.And(lowerChar(k), sym.And(k != 'a', v > ' ')))
	sym.Assume(sym.And(v <= 0x7e, sym.And(v != ',', v != '=')))
	rest := total - 3 - 2 - 2 - 3 // commas, "a=", "bb=", "k=v"
	x := rest / 2
	ws := rep(" ", sym.Range("ws", 0, 2))
	h := "a=" + rep("x", x) + ws + "," + ws + "bb=" + rep("y", rest-x+1) + "," + string([]byte{k, '=', v}) + ws
	cnt := len(h) - 3*len(ws)
	req := newReq()
	req.Header["Traceparent"] = []string{fixedTP}
	req.Header["Tracestate"] = []string{h}
	d, ok := (&tracecontext.HTTPFormat{}).SpanContextFromRequest(req)
	sym.Assert(ok, "a tracestate never makes the traceparent refused")
	sym.ObsInt("len", int64(cnt))
	if cnt > 512 {
		sym.Cover("too long")
		sym.Assert(d.Tracestate == nil, "more than 512 characters are ignored")
	} else {
		sym.Cover("fits")
		sym.Assert(d.Tracestate != nil && len(d.Tracestate.Entries()) == 3, "up to 512 characters are accepted")
	}
}
