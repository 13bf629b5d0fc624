#!/usr/bin/env python3
# Behaviour-preserving edits of metric, resource, propagation, the plugins and zpages in a scratch copy of /repo (argument).
import sys
D=sys.argv[1]
def sub(f,*pairs):
    p=D+"/"+f; s=open(p).read()
    for a,b in pairs:
        assert a in s,(f,a)
        s=s.replace(a,b)
    open(p,"w").write(s)

sub("metric/common.go",
("""	switch bm.bmType {
	case cumulativeInt64, cumulativeFloat64, derivedCumulativeInt64, derivedCumulativeFloat64:
		return &bm.start
	default:
		// gauges don't have start time.
		return nil
	}
""","""	if bm.bmType < cumulativeInt64 {
		return nil // gauges don't have start time.
	}
	return &bm.start
"""),
("""	startTime := bm.startTime()
	if startTime == nil {
		startTime = &now
	}
""","""	start := now
	if st := bm.startTime(); st != nil {
		start = *st
	}
"""),
("""		entry := v.(baseEntry)
		key := k.(string)
		labelVals := bm.decodeLabelVals(key)
		m.TimeSeries = append(m.TimeSeries, &metricdata.TimeSeries{
			StartTime:   *startTime,
			LabelValues: labelVals,
			Points: []metricdata.Point{
				entry.read(now),
			},
		})
		return true
""","""		ts := &metricdata.TimeSeries{StartTime: start}
		ts.LabelValues = bm.decodeLabelVals(k.(string))
		ts.Points = append(ts.Points, v.(baseEntry).read(now))
		m.TimeSeries = append(m.TimeSeries, ts)
		return true
"""),
("""		b := make([]byte, 1, len(v.Value)+1)
		if v.Present {
			b[0] = 1
			b = append(b, []byte(v.Value)...)
		}
		vb.WriteValue(b)
""","""		if v.Present {
			vb.WriteValue([]byte("\\x01" + v.Value))
		} else {
			vb.WriteValue([]byte{0})
		}
"""),
("""	for range bm.keys {
		v := vb.ReadValue()
		if v[0] == 0 {
			vals = append(vals, metricdata.LabelValue{})
		} else {
			vals = append(vals, metricdata.NewLabelValue(string(v[1:])))
		}
	}
	return vals
""","""	for len(vals) < len(bm.keys) {
		var val metricdata.LabelValue
		if v := vb.ReadValue(); v[0] != 0 {
			val.Present, val.Value = true, string(v[1:])
		}
		vals = append(vals, val)
	}
	return vals
"""),
("""	// Calls may be concurrent: never append into the shared constLabelValues.
	n := len(bm.constLabelValues)
	labelVals = append(bm.constLabelValues[:n:n], labelVals...)
	if len(labelVals) != len(bm.keys) {
		return nil, errKeyValueMismatch
	}
	mapKey := bm.encodeLabelVals(labelVals)
	if entry, ok := bm.vals.Load(mapKey); ok {
		return entry, nil
	}
	entry, _ := bm.vals.LoadOrStore(mapKey, newEntry())
	return entry, nil
""","""	mapKey, err := bm.mapKey(labelVals)
	if err != nil {
		return nil, err
	}
	entry, ok := bm.vals.Load(mapKey)
	if !ok {
		entry, _ = bm.vals.LoadOrStore(mapKey, newEntry())
	}
	return entry, nil
"""),
("""	// Calls may be concurrent: never append into the shared constLabelValues.
	n := len(bm.constLabelValues)
	labelVals = append(bm.constLabelValues[:n:n], labelVals...)
	if len(labelVals) != len(bm.keys) {
		return errKeyValueMismatch
	}
	mapKey := bm.encodeLabelVals(labelVals)
	bm.vals.Store(mapKey, newEntry())
	return nil
}
""","""	mapKey, err := bm.mapKey(labelVals)
	if err == nil {
		bm.vals.Store(mapKey, newEntry())
	}
	return err
}

func (bm *baseMetric) mapKey(labelVals []metricdata.LabelValue) (string, error) {
	if len(bm.constLabelValues)+len(labelVals) != len(bm.keys) {
		return "", errKeyValueMismatch
	}
	all := make([]metricdata.LabelValue, 0, len(bm.keys))
	all = append(all, bm.constLabelValues...)
	all = append(all, labelVals...)
	return bm.encodeLabelVals(all), nil
}
"""))
sub("metric/cumulative.go",
("""	var swapped bool
	if !(val > 0.0) {
		return
	}
	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
	}
""","""	if val <= 0.0 || math.IsNaN(val) {
		return
	}
	for {
		old := atomic.LoadUint64(&e.val)
		sum := math.Float64frombits(old) + val
		if atomic.CompareAndSwapUint64(&e.val, old, math.Float64bits(sum)) {
			break
		}
	}
"""),
("""	if val <= 0 {
		return
	}
	atomic.AddInt64(&e.val, val)
""","""	if val > 0 {
		atomic.AddInt64(&e.val, val)
	}
"""))
sub("metric/registry.go",
("""	_, err := r.initBaseMetric(&i.bm, name, mos...)
	if err != nil {
		return nil, err
	}
	return i, nil
""","""	if _, err := r.initBaseMetric(&i.bm, name, mos...); err != nil {
		return nil, err
	}
	return i, nil
"""),
("""	val, ok := r.baseMetrics.Load(name)
	if ok {
		existing := val.(*baseMetric)
		if existing.bmType != bm.bmType {
			return nil, errMetricExistsWithDiffType
		}
	}
""","""	if val, ok := r.baseMetrics.Load(name); ok && val.(*baseMetric).bmType != bm.bmType {
		return nil, errMetricExistsWithDiffType
	}
"""),
("""	var constLabelKeys []metricdata.LabelKey
	for k := range o.constLabels {
		constLabelKeys = append(constLabelKeys, k)
	}
	sort.Slice(constLabelKeys, func(i, j int) bool {
		return constLabelKeys[i].Key < constLabelKeys[j].Key
	})

	var constLabelValues []metricdata.LabelValue
	for _, k := range constLabelKeys {
		constLabelValues = append(constLabelValues, o.constLabels[k])
	}

	bm.keys = append(constLabelKeys, o.labelkeys...)
	bm.constLabelValues = constLabelValues
""","""	var keys []metricdata.LabelKey
	for k := range o.constLabels {
		keys = append(keys, k)
	}
	sort.SliceStable(keys, func(i, j int) bool { return keys[i].Key < keys[j].Key })
	for _, k := range keys {
		bm.constLabelValues = append(bm.constLabelValues, o.constLabels[k])
	}
	bm.keys = append(keys, o.labelkeys...)
"""))
sub("metric/metricproducer/manager.go",
("""	producers := make([]Producer, len(pm.producers))
	i := 0
	for producer := range pm.producers {
		producers[i] = producer
		i++
	}
	return producers
""","""	producers := make([]Producer, 0, len(pm.producers))
	for producer := range pm.producers {
		producers = append(producers, producer)
	}
	return producers
"""),
("""	if producer == nil {
		return
	}
	pm.mu.Lock()
	defer pm.mu.Unlock()
	delete(pm.producers, producer)
""","""	if producer != nil {
		pm.mu.Lock()
		delete(pm.producers, producer)
		pm.mu.Unlock()
	}
"""))
sub("metric/metricexport/reader.go",
("""	var reportingInterval = defaultReportingDuration
	if ir.ReportingInterval != 0 {
		if ir.ReportingInterval < minimumReportingDuration {
			return errReportingIntervalTooLow
		}
		reportingInterval = ir.ReportingInterval
	}
""","""	reportingInterval := ir.ReportingInterval
	switch {
	case reportingInterval == 0:
		reportingInterval = defaultReportingDuration
	case reportingInterval < minimumReportingDuration:
		return errReportingIntervalTooLow
	}
"""),
("""	producers := metricproducer.GlobalManager().GetAll()
	data := []*metricdata.Metric{}
	for _, producer := range producers {
		data = append(data, producer.Read()...)
	}
""","""	data := make([]*metricdata.Metric, 0)
	for _, producer := range metricproducer.GlobalManager().GetAll() {
		for _, m := range producer.Read() {
			data = append(data, m)
		}
	}
"""))
sub("resource/resource.go",
("""	s := ""
	for i, k := range sortedKeys {
		if i > 0 {
			s += ","
		}
		s += k + "=" + strconv.Quote(labels[k])
	}
	return s
""","""	pairs := make([]string, len(sortedKeys))
	for i, k := range sortedKeys {
		pairs[i] = k + "=" + strconv.Quote(labels[k])
	}
	return strings.Join(pairs, ",")
"""),
("""	for len(s) > 0 {
		match""","""	for s != "" {
		match"""),
("""		v := match[2]
		if v == "" {
			v = match[3]
		} else {
			var err error
			if v, err = strconv.Unquote(v); err != nil {
				return nil, fmt.Errorf("invalid label formatting, remainder: %s, err: %s", s, err)
			}
		}
		m[match[1]] = v

		s = s[len(match[0]):]
""","""		v, err := strconv.Unquote(match[2])
		if err != nil {
			return nil, fmt.Errorf("invalid label formatting, remainder: %s, err: %s", s, err)
		}
		m[match[1]] = v
		s = strings.TrimPrefix(s, match[0])
"""),
("""	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	res := &Resource{
		Type:   a.Type,
		Labels: map[string]string{},
	}
	if res.Type == "" {
		res.Type = b.Type
	}
	for k, v := range b.Labels {
		res.Labels[k] = v
	}
	// Labels from resource a overwrite labels from resource b.
	for k, v := range a.Labels {
		res.Labels[k] = v
	}
	return res
""","""	switch {
	case a == nil:
		return b
	case b == nil:
		return a
	}
	res := &Resource{Type: a.Type, Labels: make(map[string]string, len(a.Labels)+len(b.Labels))}
	if a.Type == "" {
		res.Type = b.Type
	}
	for k, v := range a.Labels {
		res.Labels[k] = v
	}
	for k, v := range b.Labels {
		if _, ok := a.Labels[k]; !ok {
			res.Labels[k] = v
		}
	}
	return res
"""))
sub("trace/propagation/propagation.go",
("""	var b [29]byte
	copy(b[2:18], sc.TraceID[:])
	b[18] = 1
	copy(b[19:27], sc.SpanID[:])
	b[27] = 2
	b[28] = uint8(sc.TraceOptions)
	return b[:]
""","""	b := make([]byte, 2, 29)
	b = append(b, sc.TraceID[:]...)
	b = append(b, 1)
	b = append(b, sc.SpanID[:]...)
	b = append(b, 2, byte(sc.TraceOptions))
	return b
"""),
("""	b = b[1:]
	if len(b) >= 17 && b[0] == 0 {
		copy(sc.TraceID[:], b[1:17])
		b = b[17:]
	} else {
		return trace.SpanContext{}, false
	}
""","""	if len(b) < 18 || b[1] != 0 {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], b[2:])
	b = b[18:]
"""),
("		copy(sc.SpanID[:], b[1:9])\n","		for i := range sc.SpanID {\n			sc.SpanID[i] = b[i+1]\n		}\n"))
sub("trace/tracestate/tracestate.go",
("""	for _, entry := range entries {
		ts.remove(entry.Key)
	}
""","""	for i := range entries {
		ts.remove(entries[i].Key)
	}
"""),
("""	keyMap := make(map[string]int)
	for _, entry := range entries {
		if _, ok := keyMap[entry.Key]; ok {
			return entry.Key, true
		}
		keyMap[entry.Key] = 1
	}
	return "", false
""","""	for i, entry := range entries {
		for _, earlier := range entries[:i] {
			if earlier.Key == entry.Key {
				return entry.Key, true
			}
		}
	}
	return "", false
"""),
("""	for _, entry := range entries {
		if !isValid(entry) {
			return &entry, false
		}
	}
	return nil, true
""","""	for i := range entries {
		if !isValid(entries[i]) {
			return &entries[i], false
		}
	}
	return nil, true
"""))
sub("internal/tagencoding/tagencoding.go",
("""	if length == 0 {
		// No value was encoded for this key
		return
	}

	// writing v
	copy(vb.Buffer[vb.WriteIndex:], v)
	vb.WriteIndex += length
""","""	// writing v
	vb.WriteIndex += copy(vb.Buffer[vb.WriteIndex:], v)
"""),
("""	v := make([]byte, length)
	endIdx := vb.ReadIndex + length
	copy(v, vb.Buffer[vb.ReadIndex:endIdx])
	vb.ReadIndex = endIdx
	return v
""","""	start := vb.ReadIndex
	vb.ReadIndex += length
	return append([]byte(nil), vb.Buffer[start:vb.ReadIndex]...)
"""))
sub("internal/sanitize.go",
("""	if unicode.IsDigit(rune(s[0])) {
		s = "key_" + s
	}
	if s[0] == '_' {
		s = "key" + s
	}
	return s
""","""	switch first := s[0]; {
	case unicode.IsDigit(rune(first)):
		return "key_" + s
	case first == '_':
		return "key" + s
	default:
		return s
	}
"""))
sub("plugin/ochttp/client.go",
("""	format := t.Propagation
	if format == nil {
		format = defaultFormat
	}
	spanNameFormatter := t.FormatSpanName
	if spanNameFormatter == nil {
		spanNameFormatter = spanNameFromURL
	}
""","""	format, spanNameFormatter := defaultFormat, spanNameFromURL
	if t.Propagation != nil {
		format = t.Propagation
	}
	if t.FormatSpanName != nil {
		spanNameFormatter = t.FormatSpanName
	}
"""))
sub("plugin/ochttp/client_stats.go",
("""	if err != nil {
		track.statusCode = http.StatusInternalServerError
		track.end()
	} else {
		track.statusCode = resp.StatusCode
		if req.Method != "HEAD" {
			track.respContentLength = resp.ContentLength
		}
		if resp.Body == nil {
			track.end()
		} else {
			track.body = resp.Body
			resp.Body = wrappedBody(track, resp.Body)
		}
	}
	return resp, err
""","""	if err != nil {
		track.statusCode = http.StatusInternalServerError
		track.end()
		return resp, err
	}
	track.statusCode = resp.StatusCode
	if req.Method != http.MethodHead {
		track.respContentLength = resp.ContentLength
	}
	if body := resp.Body; body != nil {
		track.body = body
		resp.Body = wrappedBody(track, body)
	} else {
		track.end()
	}
	return resp, nil
"""),
("""		respSize := t.respSize
		if t.respSize == 0 && t.respContentLength > 0 {
			respSize = t.respContentLength
		}
		sentSize := t.reqSize
		if sentSize < 0 {
			sentSize = 0 // no request body
		}
""","""		var sentSize int64
		if t.reqSize > 0 {
			sentSize = t.reqSize
		}
		respSize := t.respContentLength
		if t.respSize != 0 || respSize < 0 {
			respSize = t.respSize
		}
"""),
("""	switch err {
	case nil:
		return n, nil
	case io.EOF:
		t.end()
	}
	return n, err
""","""	if err == io.EOF {
		t.end()
	}
	return n, err
"""))
sub("plugin/ochttp/trace.go",
("""		header := make(http.Header)
		for k, v := range req.Header {
			header[k] = v
		}
		req.Header = header
""","""		header := make(http.Header, len(req.Header)+3)
		for k := range req.Header {
			header[k] = req.Header[k]
		}
		req.Header = header
"""),
("""	if t.newClientTrace != nil {
		req = req.WithContext(httptrace.WithClientTrace(ctx, t.newClientTrace(req, span)))
	} else {
		req = req.WithContext(ctx)
	}
""","""	if t.newClientTrace != nil {
		ctx = httptrace.WithClientTrace(ctx, t.newClientTrace(req, span))
	}
	req = req.WithContext(ctx)
"""),
("""	switch err {
	case nil:
		return n, nil
	case io.EOF:
		bt.span.End()
	default:
		// For all other errors, set the span status
		bt.span""","""	if err == io.EOF {
		bt.span.End()
	} else if err != nil {
		// For all other errors, set the span status
		bt.span"""),
("""	if httpStatusCode < 200 || httpStatusCode >= 400 {
		code = trace.StatusCodeUnknown
	}
	switch httpStatusCode {
""","""	switch httpStatusCode {
"""),
("""	case http.StatusConflict:
		code = trace.StatusCodeAlreadyExists
	}
""","""	case http.StatusConflict:
		code = trace.StatusCodeAlreadyExists
	default:
		if httpStatusCode < 200 || 399 < httpStatusCode {
			code = trace.StatusCodeUnknown
		}
	}
"""),
("""	case http.StatusBadRequest:
		code = trace.StatusCodeInvalidArgument
	case http.StatusUnprocessableEntity:
		code""","""	case http.StatusBadRequest, http.StatusUnprocessableEntity:
		code"""),
("""	if path == "/healthz" || path == "/_ah/health" {
		return true
	}
	return false
""","""	switch path {
	case "/healthz", "/_ah/health":
		return true
	}
	return false
"""))
sub("plugin/ochttp/wrapped_body.go",
("""	var (
		wr, i0 = body.(io.Writer)
	)
	switch {
	case !i0:
		return struct {
			io.ReadCloser
		}{wrapper}

	case i0:
		return struct {
			io.ReadCloser
			io.Writer
		}{wrapper, wr}
	default:
		return struct {
			io.ReadCloser
		}{wrapper}
	}
""","""	if wr, ok := body.(io.Writer); ok {
		return struct {
			io.ReadCloser
			io.Writer
		}{wrapper, wr}
	}
	return struct{ io.ReadCloser }{wrapper}
"""))
sub("plugin/ochttp/server.go",
("""	if h.IsHealthEndpoint != nil && h.IsHealthEndpoint(r) || isHealthEndpoint(r.URL.Path) {
		return r, func() {}
	}
	var name string
	if h.FormatSpanName == nil {
		name = spanNameFromURL(r)
	} else {
		name = h.FormatSpanName(r)
	}
""","""	if h.IsHealthEndpoint != nil && h.IsHealthEndpoint(r) {
		return r, func() {}
	}
	if isHealthEndpoint(r.URL.Path) {
		return r, func() {}
	}
	format := h.FormatSpanName
	if format == nil {
		format = spanNameFromURL
	}
	name := format(r)
"""),
("""	var span *trace.Span
	sc, ok := h.extractSpanContext(r)
	if ok && !h.IsPublicEndpoint {
		ctx, span = trace.StartSpanWithRemoteParent(ctx, name, sc,
			trace.WithSampler(startOpts.Sampler),
			trace.WithSpanKind(trace.SpanKindServer))
	} else {
		ctx, span = trace.StartSpan(ctx, name,
			trace.WithSampler(startOpts.Sampler),
			trace.WithSpanKind(trace.SpanKindServer),
		)
		if ok {
			span""","""	var span *trace.Span
	options := []trace.StartOption{
		trace.WithSpanKind(trace.SpanKindServer),
		trace.WithSampler(startOpts.Sampler),
	}
	sc, ok := h.extractSpanContext(r)
	switch {
	case ok && !h.IsPublicEndpoint:
		ctx, span = trace.StartSpanWithRemoteParent(ctx, name, sc, options...)
	default:
		ctx, span = trace.StartSpan(ctx, name, options...)
		if ok {
			span"""),
("""	if r.Body == nil || r.Body == http.NoBody {
		// TODO: Handle cases where ContentLength is not set.
	} else if r.ContentLength > 0 {
		span""","""	if r.Body != nil && r.Body != http.NoBody && r.ContentLength > 0 {
		span"""),
("""		allTags := make([]tag.Mutator, len(tags.t)+1)
		allTags[0] = tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))
		copy(allTags[1:], tags.t)
		stats""","""		allTags := []tag.Mutator{tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))}
		allTags = append(allTags, tags.t...)
		stats"""),
)
sub("plugin/ochttp/propagation/b3/b3.go",
("""	if len(b) <= 8 {
		// The lower 64-bits.
		start := 8 + (8 - len(b))
		copy(traceID[start:], b)
	} else {
		start := 16 - len(b)
		copy(traceID[start:], b)
	}

	return traceID, true
""","""	copy(traceID[len(traceID)-len(b):], b)
	return traceID, true
"""),
("""	start := 8 - len(b)
	copy(spanID[start:], b)
	return spanID, true
""","""	for i, j := len(b)-1, len(spanID)-1; i >= 0; i, j = i-1, j-1 {
		spanID[j] = b[i]
	}
	return spanID, true
"""),
("""	var sampled string
	if sc.IsSampled() {
		sampled = "1"
	} else {
		sampled = "0"
	}
""","""	sampled := "0"
	if sc.IsSampled() {
		sampled = "1"
	}
"""))
sub("plugin/ochttp/propagation/tracecontext/propagation.go",
("""	if len(sections) < 4 {
		return trace.SpanContext{}, false
	}

	if len(sections[0]) != 2 {
		return trace.SpanContext{}, false
	}
""","""	if len(sections) < 4 || len(sections[0]) != 2 {
		return trace.SpanContext{}, false
	}
"""),
("""	if len(sections[1]) != 32 {
		return trace.SpanContext{}, false
	}
	tid, err := hex.DecodeString(sections[1])
	if err != nil {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], tid)

	if len(sections[2]) != 16 {
		return trace.SpanContext{}, false
	}
	sid, err := hex.DecodeString(sections[2])
	if err != nil {
		return trace.SpanContext{}, false
	}
	copy(sc.SpanID[:], sid)

	if len(sections[3]) != 2 {
		return trace.SpanContext{}, false
	}
	opts, err := hex.DecodeString(sections[3])
	if err != nil {
		return trace.SpanContext{}, false
	}
	sc.TraceOptions = trace.TraceOptions(opts[0])
""","""	var opts [1]byte
	if !decodeField(sc.TraceID[:], sections[1]) ||
		!decodeField(sc.SpanID[:], sections[2]) ||
		!decodeField(opts[:], sections[3]) {
		return trace.SpanContext{}, false
	}
	sc.TraceOptions = trace.TraceOptions(opts[0])
"""),
("""func tracestateFromHeader(""","""// decodeField fills dst from its hexadecimal form.
func decodeField(dst []byte, s string) bool {
	if len(s) != hex.EncodedLen(len(dst)) {
		return false
	}
	_, err := hex.Decode(dst, []byte(s))
	return err == nil
}

func tracestateFromHeader("""),
("""	var pairs = make([]string, 0, len(sc.Tracestate.Entries()))
	if sc.Tracestate != nil {
		for _, entry := range sc.Tracestate.Entries() {
			pairs = append(pairs, strings.Join([]string{entry.Key, entry.Value}, "="))
		}
		h := strings.Join(pairs, ",")

		if h != "" && len(h) <= maxTracestateLen {
			return h
		}
	}
	return ""
""","""	h := ""
	for i, entry := range sc.Tracestate.Entries() {
		if i > 0 {
			h += ","
		}
		h += entry.Key + "=" + entry.Value
	}
	if len(h) > maxTracestateLen {
		return ""
	}
	return h
"""),
("""	tp = fmt.Sprintf("%x-%x-%x-%x",
		[]byte{supportedVersion},
		sc.TraceID[:],
		sc.SpanID[:],
		[]byte{byte(sc.TraceOptions)})
	ts = tracestateToHeader(sc)
	return
""","""	tp = fmt.Sprintf("%02x-%x-%x-%02x", supportedVersion, sc.TraceID[:], sc.SpanID[:], uint8(sc.TraceOptions))
	return tp, tracestateToHeader(sc)
"""))
sub("plugin/ocgrpc/stats_common.go",
("""	var st string
	if s.Error != nil {
		s, ok := status.FromError(s.Error)
		if ok {
			st = statusCodeToString(s)
		}
	} else {
		st = "OK"
	}
""","""	st := "OK"
	if s.Error != nil {
		st = ""
		if rs, ok := status.FromError(s.Error); ok {
			st = statusCodeToString(rs)
		}
	}
"""),
("""	spanCtx := span.SpanContext()
	if spanCtx.IsSampled() {
		attachments""","""	if spanCtx := span.SpanContext(); spanCtx.IsSampled() {
		attachments"""))
sub("zpages/rpcz.go",
("""		var method string
		for _, tag := range row.Tags {
			if tag.Key == ocgrpc.KeyClientMethod || tag.Key == ocgrpc.KeyServerMethod {
				method = tag.Value
				break
			}
		}

		key""","""		method := rowMethod(row)
		key"""),
("""func getStatsPage()""","""func rowMethod(row *view.Row) string {
	for _, t := range row.Tags {
		switch t.Key {
		case ocgrpc.KeyClientMethod, ocgrpc.KeyServerMethod:
			return t.Value
		}
	}
	return ""
}

func getStatsPage()"""),
("""			if _, ok := haveResetErrors[method]; !ok {
				haveResetErrors[method] = struct{}{}
				s.ErrorsTotal = 0
			}
""","""			if !haveResetErrors[method] {
				s.ErrorsTotal = 0
			}
			haveResetErrors[method] = true
"""),
("""	haveResetErrors := make(map[string]struct{})
""","""	haveResetErrors := map[string]bool{}
"""),
("""	sort.Sort(&sentStats)
	sort.Sort(&receivedStats)
""","""	for _, g := range []*statGroup{&receivedStats, &sentStats} {
		sort.Sort(g)
	}
"""))
