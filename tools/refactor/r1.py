#!/usr/bin/env python3
# Behaviour-preserving edits of a scratch copy of /repo (argument), used to see that the checks stay quiet.
import sys
D=sys.argv[1]
def sub(f,*pairs):
    p=D+"/"+f; s=open(p).read()
    for a,b in pairs:
        assert a in s,(f,a)
        s=s.replace(a,b)
    open(p,"w").write(s)

# ---- trace
sub("trace/trace.go",
("""	if s == nil {
		return false
	}
	return s.data != nil
}""","""	return s != nil && s.data != nil
}"""),
("""	return t&1 == 1
}""","""	const sampledBit = TraceOptions(1)
	return t&sampledBit != 0
}"""),
("""	if sampled {
		sc.TraceOptions |= 1
	} else {
		sc.TraceOptions &= ^TraceOptions(1)
	}""","""	sc.TraceOptions &^= 1
	if sampled {
		sc.TraceOptions |= 1
	}"""),
("""	var opts StartOptions
	for _, op := range o {
		op(&opts)
	}
	span := startSpanInternal(name, parent != SpanContext{}, parent, true, opts)
	ctx, end := startExecutionTracerTask(ctx, name)
	span.executionTracerTaskEnd = end
	extSpan := NewSpan(span)
	return t.NewContext(ctx, extSpan), extSpan
""","""	return t.attach(ctx, name, startSpanInternal(name, parent != SpanContext{}, parent, true, resolve(o)))
"""),
("""	for _, op := range o {
		op(&opts)
	}
	span := startSpanInternal(name, parent != SpanContext{}, parent, false, opts)

	ctx, end := startExecutionTracerTask(ctx, name)
	span.executionTracerTaskEnd = end
	extSpan := NewSpan(span)
	return t.NewContext(ctx, extSpan), extSpan
""","""	opts := resolve(o)
	hasParent := parent != SpanContext{}
	return t.attach(ctx, name, startSpanInternal(name, hasParent, parent, false, opts))
"""),
("""	var opts StartOptions
	var parent SpanContext
	if p""","""	var parent SpanContext
	if p"""),
("""func startSpanInternal(""","""func resolve(o []StartOption) (opts StartOptions) {
	for i := 0; i < len(o); i++ {
		o[i](&opts)
	}
	return
}

func (t *tracer) attach(ctx context.Context, name string, s *span) (context.Context, *Span) {
	ctx, s.executionTracerTaskEnd = startExecutionTracerTask(ctx, name)
	ext := NewSpan(s)
	ctx = t.NewContext(ctx, ext)
	return ctx, ext
}

func startSpanInternal("""),
("""	if !hasParent {
		s.spanContext.TraceID = cfg.IDGenerator.NewTraceID()
	}
	s.spanContext.SpanID = cfg.IDGenerator.NewSpanID()
	sampler := cfg.DefaultSampler

	if !hasParent || remoteParent || o.Sampler != nil {""","""	ids := cfg.IDGenerator
	if !hasParent {
		s.spanContext.TraceID = ids.NewTraceID()
	}
	s.spanContext.SpanID = ids.NewSpanID()

	if keep := hasParent && !remoteParent && o.Sampler == nil; !keep {
		sampler := cfg.DefaultSampler"""),
("""	s.endOnce.Do(func() {
		exp, _ := exporters.Load().(exportersMap)
		mustExport := s.spanContext.IsSampled() && len(exp) > 0
		if s.spanStore != nil || mustExport {
			sd := s.makeSpanData()
			sd.EndTime = internal.MonotonicEndTime(sd.StartTime)
			if s.spanStore != nil {
				s.spanStore.finished(s, sd)
			}
			if mustExport {
				for e := range exp {
					e.ExportSpan(sd)
				}
			}
		}
	})
}
""","""	s.endOnce.Do(s.finish)
}

func (s *span) finish() {
	var exp exportersMap
	if s.spanContext.IsSampled() {
		exp, _ = exporters.Load().(exportersMap)
	}
	store := s.spanStore
	if store == nil && len(exp) == 0 {
		return
	}
	sd := s.makeSpanData()
	sd.EndTime = internal.MonotonicEndTime(sd.StartTime)
	if store != nil {
		store.finished(s, sd)
	}
	for e := range exp {
		e.ExportSpan(sd)
	}
}
"""),
("""	var sd SpanData
	s.mu.Lock()
	sd = *s.data
	if s.lru""","""	s.mu.Lock()
	defer s.mu.Unlock()
	sd := *s.data
	if s.lru"""),
("""		sd.DroppedLinkCount = s.links.droppedCount
	}
	s.mu.Unlock()
	return &sd""","""		sd.DroppedLinkCount = s.links.droppedCount
	}
	return &sd"""),
("""	s.mu.Lock()
	s.data.Name = name
	s.mu.Unlock()""","""	s.locked(func() { s.data.Name = name })"""),
("""	s.mu.Lock()
	s.data.Status = status
	s.mu.Unlock()
}
""","""	s.locked(func() { s.data.Status = status })
}

func (s *span) locked(f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f()
}
"""),
("""	linksArr := make([]Link, 0, len(s.links.queue))
	for _, value := range s.links.queue {
		linksArr = append(linksArr, value.(Link))
	}
	return linksArr""","""	q := s.links.queue
	linksArr := make([]Link, len(q))
	for i := range q {
		linksArr[i] = q[i].(Link)
	}
	return linksArr"""),
("""		value, ok := s.lruAttributes.get(key)
		if ok {
			keyStr := key.(string)
			attributes[keyStr] = value
		}""","""		if value, ok := s.lruAttributes.get(key); ok {
			attributes[key.(string)] = value
		}"""),
("""	now := time.Now()
	s.mu.Lock()
	s.messageEvents.add(MessageEvent{
		Time:                 now,
		EventType:            MessageEventTypeSent,
		MessageID:            messageID,
		UncompressedByteSize: uncompressedByteSize,
		CompressedByteSize:   compressedByteSize,
	})
	s.mu.Unlock()
}
""","""	s.addMessageEvent(MessageEventTypeSent, messageID, uncompressedByteSize, compressedByteSize)
}

func (s *span) addMessageEvent(t MessageEventType, id, uncompressed, compressed int64) {
	ev := MessageEvent{Time: time.Now(), EventType: t, MessageID: id}
	ev.UncompressedByteSize, ev.CompressedByteSize = uncompressed, compressed
	s.mu.Lock()
	defer s.mu.Unlock()
	s.messageEvents.add(ev)
}
"""),
("""	now := time.Now()
	s.mu.Lock()
	s.messageEvents.add(MessageEvent{
		Time:                 now,
		EventType:            MessageEventTypeRecv,
		MessageID:            messageID,
		UncompressedByteSize: uncompressedByteSize,
		CompressedByteSize:   compressedByteSize,
	})
	s.mu.Unlock()
""","""	s.addMessageEvent(MessageEventTypeRecv, messageID, uncompressedByteSize, compressedByteSize)
"""),
("""	var id uint64
	for id == 0 {
		id = atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)
	}
	var sid [8]byte
	binary.LittleEndian.PutUint64(sid[:], id)
	return sid""","""	for {
		id := atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)
		if id == 0 {
			continue
		}
		var sid [8]byte
		for i := range sid {
			sid[i] = byte(id >> (8 * uint(i)))
		}
		return sid
	}"""),
("""	gen.Lock()
	binary.LittleEndian.PutUint64(tid[0:8], gen.traceIDRand.Uint64()+gen.traceIDAdd[0])
	binary.LittleEndian.PutUint64(tid[8:16], gen.traceIDRand.Uint64()+gen.traceIDAdd[1])
	gen.Unlock()
	return tid""","""	gen.Lock()
	defer gen.Unlock()
	for half := 0; half < 2; half++ {
		x := gen.traceIDRand.Uint64() + gen.traceIDAdd[half]
		binary.LittleEndian.PutUint64(tid[8*half:], x)
	}
	return tid"""),
)
sub("trace/spanbucket.go",
("""	if s.EndTime.Before(b.nextTime) {
		return
	}
	if len(b.buffer) == 0 {
		return
	}""","""	if len(b.buffer) == 0 || b.nextTime.After(s.EndTime) {
		return
	}"""),
("""	b.nextIndex++
	if b.nextIndex == len(b.buffer) {
		b.nextIndex = 0
		b.overflow = true
	}""","""	b.nextIndex = (b.nextIndex + 1) % len(b.buffer)
	if b.nextIndex == 0 {
		b.overflow = true
	}"""),
("""	if !b.overflow {
		return b.buffer[i]
	}
	if i < len(b.buffer)-b.nextIndex {
		return b.buffer[b.nextIndex+i]
	}
	return b.buffer[b.nextIndex+i-len(b.buffer)]""","""	if b.overflow {
		i = (b.nextIndex + i) % len(b.buffer)
	}
	return b.buffer[i]"""),
("""	if cur < n {
		for i := 0; i < cur; i++ {
			newBuffer[i] = b.span(i)
		}
		b.buffer = newBuffer
		b.nextIndex = cur
		b.overflow = false
		return
	}
	for i := 0; i < n; i++ {
		newBuffer[i] = b.span(i + cur - n)
	}
	b.buffer = newBuffer
	b.nextIndex = 0
	b.overflow = true""","""	kept := cur
	if kept > n {
		kept = n
	}
	for i := range newBuffer[:kept] {
		newBuffer[i] = b.span(cur - kept + i)
	}
	full := kept == n
	b.buffer, b.overflow = newBuffer, full
	if b.nextIndex = kept; full {
		b.nextIndex = 0
	}"""),
("""	i := 0
	for i < len(defaultLatencies) && latency >= defaultLatencies[i] {
		i++
	}
	return i""","""	for i, bound := range defaultLatencies {
		if latency < bound {
			return i
		}
	}
	return len(defaultLatencies)"""),
("""	if index == 0 {
		return 0, defaultLatencies[index]
	}
	if index == len(defaultLatencies) {
		return defaultLatencies[index-1], 1<<63 - 1
	}
	return defaultLatencies[index-1], defaultLatencies[index]""","""	upper = 1<<63 - 1
	if index > 0 {
		lower = defaultLatencies[index-1]
	}
	if index < len(defaultLatencies) {
		upper = defaultLatencies[index]
	}
	return"""),
)
sub("trace/evictedqueue.go",
("""	if len(eq.queue) == eq.capacity {
		eq.queue = eq.queue[1:]
		eq.droppedCount++
	}
	eq.queue = append(eq.queue, value)""","""	q := eq.queue
	if len(q) == eq.capacity {
		copy(q, q[1:])
		q = q[:len(q)-1]
		eq.droppedCount++
	}
	eq.queue = append(q, value)"""))
sub("trace/lrumap.go",
("""	keys := make([]interface{}, 0, len(lm.cacheKeys))
	for k := range lm.cacheKeys {
		keys = append(keys, k)
	}
	return keys""","""	var keys []interface{}
	for k := range lm.cacheKeys {
		keys = append(keys, k)
	}
	return keys"""))
sub("trace/sampling.go",
("""		if p.ParentContext.IsSampled() {
			return SamplingDecision{Sample: true}
		}
		x := binary.BigEndian.Uint64(p.TraceID[0:8]) >> 1
		return SamplingDecision{Sample: x < traceIDUpperBound}""","""		sample := p.ParentContext.IsSampled()
		if !sample {
			sample = binary.BigEndian.Uint64(p.TraceID[:])>>1 < traceIDUpperBound
		}
		return SamplingDecision{sample}"""),
("""	return func(p SamplingParameters) SamplingDecision {
		return SamplingDecision{Sample: true}
	}""","""	return constant(true)"""),
("""	return func(p SamplingParameters) SamplingDecision {
		return SamplingDecision{Sample: false}
	}
}""","""	return constant(false)
}

func constant(sample bool) Sampler {
	return func(SamplingParameters) SamplingDecision { return SamplingDecision{Sample: sample} }
}"""))
sub("trace/config.go",
("""	if cfg.MaxAnnotationEventsPerSpan > 0 {
		c.MaxAnnotationEventsPerSpan = cfg.MaxAnnotationEventsPerSpan
	}
	if cfg.MaxMessageEventsPerSpan > 0 {
		c.MaxMessageEventsPerSpan = cfg.MaxMessageEventsPerSpan
	}
	if cfg.MaxAttributesPerSpan > 0 {
		c.MaxAttributesPerSpan = cfg.MaxAttributesPerSpan
	}
	if cfg.MaxLinksPerSpan > 0 {
		c.MaxLinksPerSpan = cfg.MaxLinksPerSpan
	}
""","""	for _, l := range []struct {
		dst *int
		val int
	}{
		{&c.MaxAnnotationEventsPerSpan, cfg.MaxAnnotationEventsPerSpan},
		{&c.MaxMessageEventsPerSpan, cfg.MaxMessageEventsPerSpan},
		{&c.MaxAttributesPerSpan, cfg.MaxAttributesPerSpan},
		{&c.MaxLinksPerSpan, cfg.MaxLinksPerSpan},
	} {
		if l.val > 0 {
			*l.dst = l.val
		}
	}
"""))
sub("trace/export.go",
("""	exporterMu.Lock()
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	new[e] = struct{}{}
	exporters.Store(new)
	exporterMu.Unlock()
""","""	updateExporters(func(m exportersMap) { m[e] = struct{}{} })
"""),
("""	exporterMu.Lock()
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	delete(new, e)
	exporters.Store(new)
	exporterMu.Unlock()
}
""","""	updateExporters(func(m exportersMap) { delete(m, e) })
}

func updateExporters(f func(exportersMap)) {
	exporterMu.Lock()
	defer exporterMu.Unlock()
	old, _ := exporters.Load().(exportersMap)
	m := make(exportersMap, len(old)+1)
	for k := range old {
		m[k] = struct{}{}
	}
	f(m)
	exporters.Store(m)
}
"""))
sub("trace/spanstore.go",
("""	if code != 0 {
		if b, ok := s.errors[code]; ok {
			for _, sd := range b.buffer {
				if sd == nil {
					break
				}
				out = append(out, sd)
			}
		}
	} else {
		for _, b := range s.errors {
			for _, sd := range b.buffer {
				if sd == nil {
					break
				}
				out = append(out, sd)
			}
		}
	}
	return out""","""	for c, b := range s.errors {
		if code != 0 && c != code {
			continue
		}
		out = append(out, b.stored()...)
	}
	return out"""),
("""// ConfigureBucketSizes""","""func (b *bucket) stored() []*SpanData {
	n := 0
	for n < len(b.buffer) && b.buffer[n] != nil {
		n++
	}
	return b.buffer[:n]
}

func clamp(n int) int {
	switch {
	case n < 0:
		return 0
	case n > maxBucketSize:
		return maxBucketSize
	default:
		return n
	}
}

// ConfigureBucketSizes"""),
("""		latencyBucketSize := bc.MaxRequestsSucceeded
		if latencyBucketSize < 0 {
			latencyBucketSize = 0
		}
		if latencyBucketSize > maxBucketSize {
			latencyBucketSize = maxBucketSize
		}
		errorBucketSize := bc.MaxRequestsErrors
		if errorBucketSize < 0 {
			errorBucketSize = 0
		}
		if errorBucketSize > maxBucketSize {
			errorBucketSize = maxBucketSize
		}
		spanStoreSetSize(bc.Name, latencyBucketSize, errorBucketSize)""","""		spanStoreSetSize(bc.Name, clamp(bc.MaxRequestsSucceeded), clamp(bc.MaxRequestsErrors))"""),
("""		for _, sd := range b.buffer {
			if sd == nil {
				break
			}
			if minLatency != 0 || maxLatency != 0 {
				d := sd.EndTime.Sub(sd.StartTime)
				if d < minLatency {
					continue
				}
				if maxLatency != 0 && d > maxLatency {
					continue
				}
			}
			out = append(out, sd)
		}""","""		for k := 0; k < len(b.buffer) && b.buffer[k] != nil; k++ {
			sd := b.buffer[k]
			d := sd.EndTime.Sub(sd.StartTime)
			all := minLatency == 0 && maxLatency == 0
			if all || d >= minLatency && (maxLatency == 0 || d <= maxLatency) {
				out = append(out, sd)
			}
		}"""),
("""	var s *spanStore
	ssmu.RLock()
	s, _ = spanStores[name]
	ssmu.RUnlock()
	return s""","""	ssmu.RLock()
	defer ssmu.RUnlock()
	return spanStores[name]"""),
("""	ssmu.RLock()
	s, ok := spanStores[name]
	ssmu.RUnlock()
	if ok {
		s.resize(latencyBucketSize, errorBucketSize)
		return
	}
	ssmu.Lock()
	defer ssmu.Unlock()
	s, ok = spanStores[name]
	if ok {
		s.resize(latencyBucketSize, errorBucketSize)
		return
	}
	s = newSpanStore(name, latencyBucketSize, errorBucketSize)
	spanStores[name] = s""","""	ssmu.Lock()
	s, ok := spanStores[name]
	if !ok {
		spanStores[name] = newSpanStore(name, latencyBucketSize, errorBucketSize)
	}
	ssmu.Unlock()
	if ok {
		s.resize(latencyBucketSize, errorBucketSize)
	}"""),
("""		if s.errors == nil {
			s.errors = make(map[int32]*bucket)
		}
		if b := s.errors[code]; b != nil {
			b.add(sd)
		} else {
			b := makeBucket(s.maxSpansPerErrorBucket)
			s.errors[code] = &b
			b.add(sd)
		}""","""		s.errorBucket(code).add(sd)"""),
("""// finished removes""","""func (s *spanStore) errorBucket(code int32) *bucket {
	b, ok := s.errors[code]
	if !ok {
		nb := makeBucket(s.maxSpansPerErrorBucket)
		b = &nb
		if s.errors == nil {
			s.errors = map[int32]*bucket{}
		}
		s.errors[code] = b
	}
	return b
}

// finished removes"""),
)
