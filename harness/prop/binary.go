// Package prop checks trace-context propagation.
package prop

import (
	"go.opencensus.io/internal/verifh/sym"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
)

func sc(name string) trace.SpanContext {
	var c trace.SpanContext
	copy(c.TraceID[:], sym.Bytes(name+".tid", 16))
	copy(c.SpanID[:], sym.Bytes(name+".sid", 8))
	c.TraceOptions = trace.TraceOptions(sym.Uint32(name + ".opt"))
	return c
}

func validSC(name string) trace.SpanContext {
	c := sc(name)
	sym.Assume(c.TraceID != trace.TraceID{})
	sym.Assume(c.SpanID != trace.SpanID{})
	return c
}

// HBinaryRoundtrip: FromBinary(Binary(sc)) restores ids and the low option byte.
func HBinaryRoundtrip() {
	c := sc("c")
	b := propagation.Binary(c)
	if c == (trace.SpanContext{}) {
		sym.Cover("empty")
		sym.Assert(len(b) == 0, "empty context encodes to nothing")
		_, ok := propagation.FromBinary(b)
		sym.Assert(!ok, "nothing does not decode")
		return
	}
	sym.ObsInt("len", int64(len(b)))
	d, ok := propagation.FromBinary(b)
	sym.Assert(ok, "encoded context decodes")
	sym.Assert(d.TraceID == c.TraceID, "trace id survives")
	sym.Assert(d.SpanID == c.SpanID, "span id survives")
	sym.Assert(uint32(d.TraceOptions) == uint32(c.TraceOptions)&0xff, "options survive")
	sym.Assert(d.IsSampled() == c.IsSampled(), "sampling bit survives")
	// the documented layout
	sym.Assert(len(b) == 29, "29 bytes")
	sym.Assert(b[0] == 0, "version byte")
	sym.Assert(sym.And(b[1] == 0, sym.EqBytes(b[2:18], c.TraceID[:])), "trace id field")
	sym.Assert(sym.And(b[18] == 1, sym.EqBytes(b[19:27], c.SpanID[:])), "span id field")
	sym.Assert(sym.And(b[27] == 2, b[28] == byte(c.TraceOptions)), "options field")
	sym.Cover("roundtrip")
}

// HBinaryDecode: FromBinary never panics and takes every field only from its own complete, in-order place.
func HBinaryDecode() {
	n := sym.Range("n", 0, sym.Param("n", 31))
	b := sym.Bytes("b", n)
	keep := append([]byte(nil), b...)
	d, ok := propagation.FromBinary(b)
	sym.Assert(sym.EqBytes(b, keep), "the input is not modified")
	sym.ObsBool("ok", ok)
	sym.ObsStr("tid", string(d.TraceID[:]))
	var want trace.SpanContext
	if n < 18 || b[0] != 0 || b[1] != 0 {
		sym.Assert(!ok, "empty, unknown version, or missing or truncated trace id refused")
		sym.Assert(d == trace.SpanContext{}, "rejected input yields the zero context")
		sym.Cover("rejected")
		return
	}
	sym.Cover("accepted")
	sym.Assert(ok, "a complete trace id is accepted")
	copy(want.TraceID[:], b[2:18])
	r := b[18:]
	if len(r) >= 9 && r[0] == 1 {
		copy(want.SpanID[:], r[1:9])
		r = r[9:]
		sym.Cover("span id")
	}
	if len(r) >= 2 && r[0] == 2 {
		want.TraceOptions = trace.TraceOptions(r[1])
		sym.Cover("options")
	}
	sym.Assert(d.TraceID == want.TraceID, "trace id from its field")
	sym.Assert(d.SpanID == want.SpanID, "span id from its field")
	sym.Assert(d.TraceOptions == want.TraceOptions, "options from their field")
	sym.Assert(d.Tracestate == nil, "no tracestate in the binary form")
}
