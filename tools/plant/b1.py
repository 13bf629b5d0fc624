BUGS=[]
def B(id,prop,pkg,edits,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks,race=race))

B("binary-options-mask","C01","trace/propagation",[("trace/propagation/propagation.go","		sc.TraceOptions = trace.TraceOptions(b[1])","		sc.TraceOptions = trace.TraceOptions(b[1] & 0x7f)")],'''package propagation
import ("testing";"go.opencensus.io/trace")
func TestDemo(t *testing.T) {
	sc := trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}, TraceOptions: 0x81}
	got, ok := FromBinary(Binary(sc))
	if !ok || got != sc { t.Fatalf("got %v %v", got, ok) }
}
''',"an options byte with its top bit set","the options byte is not restored")

B("binary-field-order","C01","trace/propagation",[("trace/propagation/propagation.go","""	if len(b) >= 9 && b[0] == 1 {
		copy(sc.SpanID[:], b[1:9])
		b = b[9:]
	}
""","""	if len(b) > 0 && b[0] == 1 {
		n := copy(sc.SpanID[:], b[1:])
		b = b[1+n:]
	}
""")],'''package propagation
import ("testing";"go.opencensus.io/trace")
func TestDemo(t *testing.T) {
	b := Binary(trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{1,2,3,4,5,6,7,8}})
	got, _ := FromBinary(b[:22])
	if got.SpanID != (trace.SpanID{}) { t.Fatalf("got %v", got) }
}
''',"a context truncated in the middle of its span id","an incomplete span id field is taken")

B("traceparent-flags-len","C02","plugin/ochttp/propagation/tracecontext",[("plugin/ochttp/propagation/tracecontext/propagation.go","	if len(sections[3]) != 2 {","	if len(sections[3]) < 2 {")],'''package tracecontext
import "testing"
func TestDemo(t *testing.T) {
	f := &HTTPFormat{}
	if sc, ok := f.SpanContextFromHeaders("00-0102030405060708090a0b0c0d0e0f10-0102030405060708-0100", ""); ok { t.Fatalf("accepted %v", sc) }
}
''',"flags with more than two digits","a malformed traceparent is accepted")

B("traceparent-zero-span","C02","plugin/ochttp/propagation/tracecontext",[("plugin/ochttp/propagation/tracecontext/propagation.go","	if sc.TraceID == [16]byte{} || sc.SpanID == [8]byte{} {","	if sc.TraceID == [16]byte{} || version == 0 && sc.SpanID == [8]byte{} {")],'''package tracecontext
import "testing"
func TestDemo(t *testing.T) {
	f := &HTTPFormat{}
	if sc, ok := f.SpanContextFromHeaders("01-0102030405060708090a0b0c0d0e0f10-0000000000000000-01", ""); ok { t.Fatalf("accepted %v", sc) }
}
''',"a future version together with an all-zero span id","an all-zero span id is accepted")

B("tracestate-limit-commas","C03","plugin/ochttp/propagation/tracecontext",[("plugin/ochttp/propagation/tracecontext/propagation.go","	hdrLenWithoutOWS := len(pairs) - 1 // Number of commas","	hdrLenWithoutOWS := 0")],'''package tracecontext
import ("testing";"strings")
func TestDemo(t *testing.T) {
	f := &HTTPFormat{}
	ts := "a=" + strings.Repeat("x", 253) + ",b=" + strings.Repeat("y", 252) + ",c=" // 255+255+...
	ts += "z"
	if len(ts) != 514 { t.Fatal(len(ts)) }
	sc, ok := f.SpanContextFromHeaders("00-0102030405060708090a0b0c0d0e0f10-0102030405060708-01", ts)
	if !ok || sc.Tracestate != nil { t.Fatalf("%v %v", ok, sc.Tracestate) }
}
''',"a header of 513 or 514 characters with several members","an oversized tracestate is accepted")

B("tracestate-write-limit","C03","plugin/ochttp/propagation/tracecontext",[("plugin/ochttp/propagation/tracecontext/propagation.go","len(h) <= maxTracestateLen {","len(h) < maxTracestateLen {")],'''package tracecontext
import ("testing";"strings";"go.opencensus.io/trace";"go.opencensus.io/trace/tracestate")
func TestDemo(t *testing.T) {
	f := &HTTPFormat{}
	ts, err := tracestate.New(nil, tracestate.Entry{Key: strings.Repeat("a", 255), Value: strings.Repeat("x", 256)})
	if err != nil { t.Fatal(err) }
	sc := trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}, Tracestate: ts}
	_, h := f.SpanContextToHeaders(sc)
	if len(h) != 512 { t.Fatal(len(h)) }
}
''',"a tracestate of exactly 512 characters","a tracestate that fits is dropped")

B("b3-short-span-id","C04","plugin/ochttp/propagation/b3",[("plugin/ochttp/propagation/b3/b3.go","""	start := 8 - len(b)
	copy(spanID[start:], b)""","""	copy(spanID[:], b)""")],'''package b3
import ("testing";"go.opencensus.io/trace")
func TestDemo(t *testing.T) {
	id, ok := ParseSpanID("0102")
	if !ok || id != (trace.SpanID{0,0,0,0,0,0,1,2}) { t.Fatal(id, ok) }
}
''',"a span id of fewer than 16 digits","short ids are not left-padded")

B("b3-nine-byte-trace","C04","plugin/ochttp/propagation/b3",[("plugin/ochttp/propagation/b3/b3.go","		start := 16 - len(b)","		start := 0")],'''package b3
import ("testing";"go.opencensus.io/trace")
func TestDemo(t *testing.T) {
	id, ok := ParseTraceID("010203040506070809")
	if !ok || id != (trace.TraceID{0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9}) { t.Fatal(id, ok) }
}
''',"a trace id of 9 to 15 bytes","ids between 64 and 128 bits are not left-padded")

B("tracestate-parent-alias","C05","trace/tracestate",[("trace/tracestate/tracestate.go","		tracestate.entries = append([]Entry{}, parent.entries...)","		tracestate.entries = parent.entries"),],'''package tracestate
import ("testing")
func TestDemo(t *testing.T) {
	p, _ := New(nil, Entry{"a", "1"}, Entry{"b", "2"}, Entry{"c", "3"})
	_, err := New(p, Entry{"a", "9"})
	if err != nil { t.Fatal(err) }
	e := p.Entries()
	if len(e) != 3 || e[0].Key != "a" || e[1].Key != "b" || e[2].Key != "c" { t.Fatal(e) }
}
''',"a child overriding a key that is not its parent's last","building a tracestate changes its parent")

B("tracestate-value-space","C05","trace/tracestate",[("trace/tracestate/tracestate.go","	valueFormat            = `[\\x20-\\x2b\\x2d-\\x3c\\x3e-\\x7e]{0,255}[\\x21-\\x2b\\x2d-\\x3c\\x3e-\\x7e]`","	valueFormat            = `[\\x20-\\x2b\\x2d-\\x3c\\x3e-\\x7e]{0,255}[\\x21-\\x2b\\x2d-\\x3c\\x3e-\\x7f]`")],'''package tracestate
import ("testing")
func TestDemo(t *testing.T) {
	if ts, err := New(nil, Entry{"a", "x\\x7f"}); err == nil { t.Fatal(ts) }
}
''',"a value ending in the DEL character","an invalid value is accepted")



B("tag-encode-room","C16","tag",[("tag/map_codec.go","""func (eg *encoderGRPC) writeStringWithVarintLen(s string) {
	length := len(s)

	eg.growIfRequired(binary.MaxVarintLen64 + length)""","""func (eg *encoderGRPC) writeStringWithVarintLen(s string) {
	length := len(s)

	eg.growIfRequired(1 + length)""")],'''package tag
import ("testing";"strings")
func TestDemo(t *testing.T) {
	for n := 1; n <= 255; n++ {
		for _, v := range []int{0, 1, 40, 255} {
			for extra := 0; extra < 3; extra++ {
			m := newMap()
			k, _ := NewKey(strings.Repeat("k", n))
			m.upsert(k, strings.Repeat("v", v), createMetadatas(WithTTL(TTLUnlimitedPropagation)))
			for i := 0; i < extra; i++ { kk, _ := NewKey(strings.Repeat("e", i+1)); m.upsert(kk, "local", createMetadatas(WithTTL(TTLNoPropagation))) }
			d, err := Decode(Encode(m))
			if err != nil { t.Fatal(n, v, err) }
			if got, ok := d.Value(k); !ok || got != strings.Repeat("v", v) { t.Fatal(n, v) }
			}
		}
	}
}
''',"a key long enough for a two-byte length written into a buffer without spare room","long keys are encoded truncated or panic")

B("tag-local-leak","C16","tag",[("tag/map_codec.go","		if v.m.ttl.ttl == valueTTLUnlimitedPropagation {","		if v.m.ttl.ttl == valueTTLUnlimitedPropagation || len(v.value) == 0 {")],'''package tag
import "testing"
func TestDemo(t *testing.T) {
	m := newMap()
	k, _ := NewKey("k")
	m.upsert(k, "", createMetadatas(WithTTL(TTLNoPropagation)))
	if b := Encode(m); len(b) != 1 { t.Fatal(b) }
}
''',"a local-only tag with an empty value","a local-only tag is encoded")

B("tag-decode-value","C17","tag",[("tag/map_codec.go","		if !checkValue(val) {","		if len(val) > maxKeyLength {")],'''package tag
import "testing"
func TestDemo(t *testing.T) {
	if m, err := Decode([]byte{0, 0, 1, 'k', 1, 7}); err == nil { t.Fatal(m) }
}
''',"a value with a control character in the encoding","an invalid value enters a tag map")

B("tag-decode-partial","C17","tag",[("tag/map_codec.go","""	err := DecodeEach(bytes, ts.upsert)
	if err != nil {""","""	err := DecodeEach(bytes, ts.upsert)
	if err != nil && len(ts.m) == 0 {""")],'''package tag
import "testing"
func TestDemo(t *testing.T) {
	if m, err := Decode([]byte{0, 0, 1, 'k', 1, 'v', 9}); err == nil { t.Fatal(m) }
}
''',"an encoding that goes bad after its first tag","a partly decoded map is returned")

B("tag-do-update-insert","C18","tag",[("tag/map.go","""	if _, ok := m.m[k]; ok {
		m.m[k] = tagContent{value: v, m: md}
	}""","""	if old, ok := m.m[k]; ok && old.value != v {
		m.m[k] = tagContent{value: v, m: md}
	}""")],'''package tag
import ("testing";"context")
func TestDemo(t *testing.T) {
	k, _ := NewKey("k")
	ctx, _ := New(context.Background(), Insert(k, "v", WithTTL(TTLNoPropagation)))
	ctx, _ = New(ctx, Update(k, "v", WithTTL(TTLUnlimitedPropagation)))
	if b := Encode(FromContext(ctx)); len(b) != 6 { t.Fatal(b) }
}
''',"an update with the same value but another propagation setting","an update does not take effect")

B("tag-new-shared","C18","tag",[("tag/map.go","""			m.insert(k, v.value, v.m)
		}
	}
	var err error""","""			m.insert(k, v.value, v.m)
		}
		if len(mutator) == 1 {
			m = orig
		}
	}
	var err error""")],'''package tag
import ("testing";"context")
func TestDemo(t *testing.T) {
	k, _ := NewKey("k"); k2, _ := NewKey("k2")
	ctx, _ := New(context.Background(), Insert(k, "v"), Insert(k2, "w"))
	New(ctx, Upsert(k, "changed"))
	if v, _ := FromContext(ctx).Value(k); v != "v" { t.Fatal(v) }
}
''',"one mutator on a context that already has tags","the parent context's tags change")

B("tag-key-rune-len","C19","tag",[("tag/validate.go","""	for _, c := range s {
		if (c < validKeyValueMin) || (c > validKeyValueMax) {
			return false
		}
	}
	return true""","""	for i := 0; i < len(s); i++ {
		if c := s[i] & 0x7f; (c < validKeyValueMin) || (c > validKeyValueMax) {
			return false
		}
	}
	return true""")],'''package tag
import "testing"
func TestDemo(t *testing.T) {
	if k, err := NewKey("a\\xe9b"); err == nil { t.Fatal(k) }
}
''',"bytes above 0x9f","names that are not ASCII are accepted")

B("trace-remote-state","C07","trace",[("trace/trace.go","""	if !hasParent {
		s.spanContext.TraceID = cfg.IDGenerator.NewTraceID()
	}""","""	if parent.TraceID == (TraceID{}) || parent.SpanID == (SpanID{}) {
		s.spanContext.TraceID = cfg.IDGenerator.NewTraceID()
	}""")],'''package trace
import ("testing";"context")
func TestDemo(t *testing.T) {
	p := SpanContext{TraceID: TraceID{1}, TraceOptions: 1}
	_, s := StartSpanWithRemoteParent(context.Background(), "x", p, WithSampler(AlwaysSample()))
	if s.SpanContext().TraceID != p.TraceID { t.Fatal(s.SpanContext()) }
}
''',"a remote parent without a span id (as the binary format may deliver)","the child is in another trace than its parent")

B("trace-option-bits","C08","trace",[("trace/trace.go","		sc.TraceOptions &= ^TraceOptions(1)","		sc.TraceOptions = 0")],'''package trace
import ("testing";"context")
func TestDemo(t *testing.T) {
	p := SpanContext{TraceID: TraceID{1}, SpanID: SpanID{1}, TraceOptions: 7}
	_, s := StartSpanWithRemoteParent(context.Background(), "x", p, WithSampler(NeverSample()))
	if s.SpanContext().TraceOptions != 6 { t.Fatal(s.SpanContext()) }
}
''',"a parent with other option bits and an unsampled child","the parent's other option bits are lost")

B("trace-unsampled-root","C08","trace",[("trace/trace.go","	if !hasParent || remoteParent || o.Sampler != nil {","	if !hasParent || remoteParent && !parent.IsSampled() || o.Sampler != nil {")],'''package trace
import ("testing";"context")
func TestDemo(t *testing.T) {
	ApplyConfig(Config{DefaultSampler: NeverSample()})
	p := SpanContext{TraceID: TraceID{1}, SpanID: SpanID{1}, TraceOptions: 1}
	_, s := StartSpanWithRemoteParent(context.Background(), "x", p)
	if s.SpanContext().IsSampled() { t.Fatal(s.SpanContext()) }
}
''',"a sampled remote parent and a default sampler that refuses","the default sampler is not asked")

B("sampler-lsb","C09","trace",[("trace/sampling.go","		x := binary.BigEndian.Uint64(p.TraceID[0:8]) >> 1","		x := binary.BigEndian.Uint64(p.TraceID[0:8])")],'''package trace
import ("testing")
func TestDemo(t *testing.T) {
	s := ProbabilitySampler(0.75)
	if !s(SamplingParameters{TraceID: TraceID{0xa0}}).Sample { t.Fatal("not sampled") }
}
''',"trace ids whose first bit is set","traces are sampled at the wrong fraction")

B("sampler-mixed-id","C09","trace",[("trace/sampling.go","		return SamplingDecision{Sample: x < traceIDUpperBound}","		return SamplingDecision{Sample: x < traceIDUpperBound || p.HasRemoteParent && x == traceIDUpperBound}")],'''package trace
import ("testing")
func TestDemo(t *testing.T) {
	s := ProbabilitySampler(0.5)
	id := TraceID{0x80}
	if s(SamplingParameters{TraceID: id}).Sample != s(SamplingParameters{TraceID: id, HasRemoteParent: true}).Sample { t.Fatal("differ") }
}
''',"a trace id exactly at the bound, once with and once without a remote parent","equal trace ids get different decisions")

B("idgen-even-step","C10","trace",[("trace/trace.go","		gen.spanIDInc |= 1\n","		if gen.spanIDInc == 0 {\n			gen.spanIDInc = 1\n		}\n")],'''package trace
import ("testing";"math/big")
import crand "crypto/rand"
type z struct{}
func (z) Read(b []byte) (int, error) { for i := range b { b[i] = 0 }; b[len(b)-1] = 0x80; return len(b), nil }
func TestDemo(t *testing.T) {
	_ = big.NewInt
	old := crand.Reader; crand.Reader = z{}; defer func() { crand.Reader = old }()
	g := &defaultIDGenerator{}
	g.init()
	seen := map[[8]byte]bool{}
	for i := 0; i < 4; i++ { id := g.NewSpanID(); if seen[id] { t.Fatal("repeat", i, id) }; seen[id] = true }
}
''',"an even random increment","span ids repeat after 2^63 or fewer steps, for some seeds at once")

B("idgen-split-add","C10","trace",[("trace/trace.go","		id = atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)","		atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)\n		id = atomic.LoadUint64(&gen.nextSpanID)")],'''package trace
import ("testing";"sync")
func TestDemo(t *testing.T) {
	for r := 0; r < 200; r++ {
		g := &defaultIDGenerator{}
		g.init()
		var mu sync.Mutex
		seen := map[[8]byte]bool{}
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var ids [][8]byte
				for i := 0; i < 2000; i++ { ids = append(ids, g.NewSpanID()) }
				mu.Lock(); defer mu.Unlock()
				for _, id := range ids { if seen[id] { t.Errorf("repeat"); return }; seen[id] = true }
			}()
		}
		wg.Wait()
		if t.Failed() { return }
	}
}
''',"two spans started at the same time, interleaved between the two atomic operations","two spans get the same id")
