#!/usr/bin/env python3
# Behaviour-preserving edits of tag, stats and stats/view in a scratch copy of /repo (argument).
import sys
D=sys.argv[1]
def sub(f,*pairs):
    p=D+"/"+f; s=open(p).read()
    for a,b in pairs:
        assert a in s,(f,a)
        s=s.replace(a,b)
    open(p,"w").write(s)

sub("tag/map.go",
("""	v, ok := m.m[k]
	return v.value, ok
""","""	if c, ok := m.m[k]; ok {
		return c.value, true
	}
	return "", false
"""),
("""	if _, ok := m.m[k]; ok {
		return
	}
	m.m[k] = tagContent{value: v, m: md}
""","""	_, exists := m.m[k]
	if !exists {
		m.upsert(k, v, md)
	}
"""),
("""	if _, ok := m.m[k]; ok {
		m.m[k] = tagContent{value: v, m: md}
	}
""","""	if _, exists := m.m[k]; !exists {
		return
	}
	m.upsert(k, v, md)
"""),
("""			if !checkValue(v) {
				return nil, errInvalidValue
			}
			m.insert(k, v, createMetadatas(mds...))
			return m, nil
""","""			return m, m.set(m.insert, k, v, mds)
"""),
("""			if !checkValue(v) {
				return nil, errInvalidValue
			}
			m.upsert(k, v, createMetadatas(mds...))
			return m, nil
""","""			if err := m.set(m.upsert, k, v, mds); err != nil {
				return nil, err
			}
			return m, nil
"""),
("""func createMetadatas(""","""// set checks v and stores it through put.
func (m *Map) set(put func(Key, string, metadatas), k Key, v string, mds []Metadata) error {
	if !checkValue(v) {
		return errInvalidValue
	}
	put(k, v, createMetadatas(mds...))
	return nil
}

func createMetadatas("""),
("""	if len(mds) > 0 {
		for _, md := range mds {
			if md != nil {
				md(&metas)
			}
		}
	} else {
		WithTTL(TTLUnlimitedPropagation)(&metas)
	}
	return metas
""","""	if len(mds) == 0 {
		metas.ttl = TTLUnlimitedPropagation
		return metas
	}
	for i := 0; i < len(mds); i++ {
		if mds[i] == nil {
			continue
		}
		mds[i](&metas)
	}
	return metas
"""),
("""	m := newMap()
	orig := FromContext(ctx)
	if orig != nil {
		for k, v := range orig.m {
			if !checkKeyName(k.Name()) {
				return ctx, fmt.Errorf("key:%q: %v", k, errInvalidKeyName)
			}
			if !checkValue(v.value) {
				return ctx, fmt.Errorf("key:%q value:%q: %v", k.Name(), v, errInvalidValue)
			}
			m.insert(k, v.value, v.m)
		}
	}
	var err error
	for _, mod := range mutator {
		m, err = mod.Mutate(m)
		if err != nil {
			return ctx, err
		}
	}
""","""	m, err := FromContext(ctx).copy()
	if err != nil {
		return ctx, err
	}
	for i := range mutator {
		if m, err = mutator[i].Mutate(m); err != nil {
			return ctx, err
		}
	}
"""),
("""// New returns a new context""","""// copy returns a copy of m, which may be nil.
func (m *Map) copy() (*Map, error) {
	c := newMap()
	if m == nil {
		return c, nil
	}
	for k, v := range m.m {
		switch {
		case !checkKeyName(k.Name()):
			return nil, fmt.Errorf("key:%q: %v", k, errInvalidKeyName)
		case !checkValue(v.value):
			return nil, fmt.Errorf("key:%q value:%q: %v", k.Name(), v, errInvalidValue)
		}
		c.m[k] = v
	}
	return c, nil
}

// New returns a new context"""),
)
sub("tag/map_codec.go",
("""	length := len(bytes)

	eg.growIfRequired(binary.MaxVarintLen64 + length)
	eg.writeIdx += binary.PutUvarint(eg.buf[eg.writeIdx:], uint64(length))
	copy(eg.buf[eg.writeIdx:], bytes)
	eg.writeIdx += length
""","""	eg.writeStringWithVarintLen(string(bytes))
"""),
("""	copy(eg.buf[eg.writeIdx:], s)
	eg.writeIdx += length
""","""	n := copy(eg.buf[eg.writeIdx:], s)
	eg.writeIdx += n
"""),
("""	if len(eg.buf)-eg.writeIdx < expected {
		tmp := make([]byte, 2*(len(eg.buf)+1)+expected)
		copy(tmp, eg.buf)
		eg.buf = tmp
	}
""","""	if free := len(eg.buf) - eg.writeIdx; free >= expected {
		return
	}
	tmp := make([]byte, eg.writeIdx+expected)
	copy(tmp, eg.buf[:eg.writeIdx])
	eg.buf = tmp
"""),
("""	valueStart += eg.readIdx
	if length > uint64(len(eg.buf)-valueStart) {
""","""	valueStart += eg.readIdx
	if remaining := uint64(len(eg.buf) - valueStart); remaining < length {
"""),
("""	valueEnd := valueStart + int(length)

	eg.readIdx = valueEnd
	return eg.buf[valueStart:valueEnd], nil
""","""	eg.readIdx = valueStart + int(length)
	return eg.buf[valueStart:eg.readIdx], nil
"""),
("""	for k, v := range m.m {
		if v.m.ttl.ttl == valueTTLUnlimitedPropagation {
			eg.writeByte(byte(keyTypeString))
			eg.writeStringWithVarintLen(k.name)
			eg.writeBytesWithVarintLen([]byte(v.value))
		}
	}
""","""	for k := range m.m {
		c := m.m[k]
		if c.m.ttl.ttl != valueTTLUnlimitedPropagation {
			continue
		}
		eg.writeTagString(k.name, c.value)
	}
"""),
("""	ts := newMap()
	err := DecodeEach(bytes, ts.upsert)
	if err != nil {
		// no partial failures
		return nil, err
	}
	return ts, nil
""","""	ts := newMap()
	if err := DecodeEach(bytes, func(k Key, v string, md metadatas) {
		ts.m[k] = tagContent{v, md}
	}); err != nil {
		return nil, err // no partial failures
	}
	return ts, nil
"""),
("""	eg := &encoderGRPC{
		buf: bytes,
	}
	if len(eg.buf) == 0 {
		return nil
	}
""","""	if len(bytes) == 0 {
		return nil
	}
	eg := &encoderGRPC{buf: bytes}
"""),
("""		typ := keyType(eg.readByte())

		if typ != keyTypeString {
			return fmt.Errorf("cannot decode: invalid key type: %q", typ)
		}

		k, err := eg.readBytesWithVarintLen()
		if err != nil {
			return err
		}

		v, err := eg.readBytesWithVarintLen()
		if err != nil {
			return err
		}

		key, err := NewKey(string(k))
		if err != nil {
			return err
		}
		val := string(v)
		if !checkValue(val) {
			return errInvalidValue
		}
		fn(key, val, createMetadatas(WithTTL(TTLUnlimitedPropagation)))
		if err != nil {
			return err
		}
""","""		key, val, err := eg.readTag()
		if err != nil {
			return err
		}
		fn(key, val, metadatas{ttl: TTLUnlimitedPropagation})
"""),
("""// DecodeEach decodes""","""// readTag reads the next key and value.
func (eg *encoderGRPC) readTag() (key Key, val string, err error) {
	if typ := keyType(eg.readByte()); typ != keyTypeString {
		return key, "", fmt.Errorf("cannot decode: invalid key type: %q", typ)
	}
	k, err := eg.readStringWithVarintLen()
	if err != nil {
		return key, "", err
	}
	if val, err = eg.readStringWithVarintLen(); err != nil {
		return key, "", err
	}
	if key, err = NewKey(k); err == nil && !checkValue(val) {
		err = errInvalidValue
	}
	return key, val, err
}

// DecodeEach decodes"""),
)
sub("tag/validate.go",
("""	if len(name) == 0 {
		return false
	}
	if len(name) > maxKeyLength {
		return false
	}
	return isASCII(name)
""","""	return name != "" && checkValue(name)
"""),
("""	for _, c := range s {
		if (c < validKeyValueMin) || (c > validKeyValueMax) {
			return false
		}
	}
	return true
""","""	for i := 0; i < len(s); i++ {
		if b := s[i]; b-validKeyValueMin > validKeyValueMax-validKeyValueMin {
			return false
		}
	}
	return true
"""),
("""	if len(v) > maxKeyLength {
		return false
	}
	return isASCII(v)
""","""	return len(v) <= maxKeyLength && isASCII(v)
"""))

sub("stats/record.go",
("""	record := false
	for _, m := range ms {
		if m.desc.subscribed() {
			record = true
			break
		}
	}
	if !record {
		return
	}
	recorder(tag.FromContext(ctx), ms, nil)
	return
""","""	if !anySubscribed(ms) {
		return
	}
	recorder(tag.FromContext(ctx), ms, nil)
"""),
("""	record := false
	for _, m := range o.measurements {
		if m.desc.subscribed() {
			record = true
			break
		}
	}
	if !record {
		return nil
	}
	if len(o.mutators) > 0 {
		var err error
		if ctx, err = tag.New(ctx, o.mutators...); err != nil {
			return err
		}
	}
	recorder(""","""	if !anySubscribed(o.measurements) {
		return nil
	}
	if len(o.mutators) != 0 {
		mutated, err := tag.New(ctx, o.mutators...)
		if err != nil {
			return err
		}
		ctx = mutated
	}
	recorder("""),
("""// RecordWithTags records one""","""func anySubscribed(ms []Measurement) bool {
	for i := range ms {
		if ms[i].desc.subscribed() {
			return true
		}
	}
	return false
}

// RecordWithTags records one"""),
)
sub("stats/view/collector.go",
("""	aggregator, ok := c.signatures[s]
	if !ok {
		aggregator = c.a.newData(t)
		c.signatures[s] = aggregator
	}
	aggregator.addSample(v, attachments, t)
""","""	if _, ok := c.signatures[s]; !ok {
		c.signatures[s] = c.a.newData(t)
	}
	c.signatures[s].addSample(v, attachments, t)
"""),
("""	rows := make([]*Row, 0, len(c.signatures))
	for sig, aggregator := range c.signatures {
		tags := decodeTags([]byte(sig), keys)
		row := &Row{Tags: tags, Data: aggregator.clone()}
		rows = append(rows, row)
	}
	return rows
""","""	rows := make([]*Row, len(c.signatures))
	i := 0
	for sig := range c.signatures {
		rows[i] = &Row{Data: c.signatures[sig].clone(), Tags: decodeTags([]byte(sig), keys)}
		i++
	}
	return rows
"""),
("""	// Compute the buffer length we will need ahead of time to avoid resizing later
	reqLen := 0
	for _, k := range keys {
		s, _ := m.Value(k)
		// We will store each key + its length
		reqLen += len(s) + 1
	}
	vb := &tagencoding.Values{
		Buffer: make([]byte, reqLen),
	}
	for _, k := range keys {
		v, _ := m.Value(k)
		vb.WriteValue([]byte(v))
	}
	return vb.Bytes()
""","""	values := make([]string, len(keys))
	reqLen := len(keys) // one length byte per key
	for i, k := range keys {
		values[i], _ = m.Value(k)
		reqLen += len(values[i])
	}
	vb := tagencoding.Values{Buffer: make([]byte, reqLen)}
	for _, v := range values {
		vb.WriteValue([]byte(v))
	}
	return vb.Bytes()
"""),
("""		v := vb.ReadValue()
		if v != nil {
			tags""","""		if v := vb.ReadValue(); v != nil {
			tags"""),
("""	vb.ReadIndex = 0
	sort.Slice(tags, func(i, j int) bool { return tags[i].Key.Name() < tags[j].Key.Name() })
	return tags
""","""	sort.SliceStable(tags, func(i, j int) bool { return tags[j].Key.Name() > tags[i].Key.Name() })
	return tags
"""))
sub("stats/view/aggregation_data.go",
("	a.Value = a.Value + 1\n","	a.Value++\n"),
("""	switch metricType {
	case metricdata.TypeCumulativeInt64:
		return metricdata.NewInt64Point(t, a.Value)
	default:
		panic("unsupported metricdata.Type")
	}
""","""	if metricType != metricdata.TypeCumulativeInt64 {
		panic("unsupported metricdata.Type")
	}
	return metricdata.NewInt64Point(t, a.Value)
"""),
("""	if v < a.Min {
		a.Min = v
	}
	if v > a.Max {
		a.Max = v
	}
	a.Count++
	a.addToBucket(v, attachments, t)

	if a.Count == 1 {
		a.Mean = v
		return
	}

	oldMean := a.Mean
	a.Mean = a.Mean + (v-a.Mean)/float64(a.Count)
	a.SumOfSquaredDev = a.SumOfSquaredDev + (v-oldMean)*(v-a.Mean)
""","""	a.addToBucket(v, attachments, t)
	a.Count++
	if a.Min > v {
		a.Min = v
	}
	if a.Max < v {
		a.Max = v
	}

	if a.Count > 1 {
		dev := v - a.Mean
		a.Mean += dev / float64(a.Count)
		a.SumOfSquaredDev += dev * (v - a.Mean)
	} else {
		a.Mean = v
	}
"""),
("""	var count *int64
	var i int
	var b float64
	for i, b = range a.bounds {
		if v < b {
			count = &a.CountPerBucket[i]
			break
		}
	}
	if count == nil { // Last bucket.
		i = len(a.bounds)
		count = &a.CountPerBucket[i]
	}
	*count++
	if exemplar""","""	i := 0
	for i < len(a.bounds) && !(v < a.bounds[i]) {
		i++
	}
	a.CountPerBucket[i]++
	if exemplar"""),
("""	c := *a
	c.CountPerBucket = append([]int64(nil), a.CountPerBucket...)
	c.ExemplarsPerBucket = append([]*metricdata.Exemplar(nil), a.ExemplarsPerBucket...)
	return &c
""","""	counts := make([]int64, len(a.CountPerBucket))
	copy(counts, a.CountPerBucket)
	exemplars := make([]*metricdata.Exemplar, len(a.ExemplarsPerBucket))
	copy(exemplars, a.ExemplarsPerBucket)
	return &DistributionData{
		Count:              a.Count,
		Min:                a.Min,
		Max:                a.Max,
		Mean:               a.Mean,
		SumOfSquaredDev:    a.SumOfSquaredDev,
		CountPerBucket:     counts,
		ExemplarsPerBucket: exemplars,
		bounds:             a.bounds,
		Start:              a.Start,
	}
"""),
("""		buckets := []metricdata.Bucket{}
		for i := 0; i < len(a.CountPerBucket); i++ {
			buckets = append(buckets, metricdata.Bucket{
				Count:    a.CountPerBucket[i],
				Exemplar: a.ExemplarsPerBucket[i],
			})
		}
""","""		buckets := make([]metricdata.Bucket, len(a.CountPerBucket))
		for i, n := range a.CountPerBucket {
			buckets[i].Count = n
			buckets[i].Exemplar = a.ExemplarsPerBucket[i]
		}
"""),
)
sub("stats/view/view_to_metric.go",
("""	switch unit {
	case "1":
		return metricdata.UnitDimensionless
	case "ms":
		return metricdata.UnitMilliseconds
	case "By":
		return metricdata.UnitBytes
	}
	return metricdata.UnitDimensionless
""","""	if u := metricdata.Unit(unit); u == metricdata.UnitMilliseconds || u == metricdata.UnitBytes {
		return u
	}
	return metricdata.UnitDimensionless
"""),
("""	labelKeys := []metricdata.LabelKey{}
	for _, k := range v.TagKeys {
		labelKeys = append(labelKeys, metricdata.LabelKey{Key: k.Name()})
	}
	return labelKeys
""","""	labelKeys := make([]metricdata.LabelKey, len(v.TagKeys))
	for i, k := range v.TagKeys {
		labelKeys[i] = metricdata.LabelKey{Key: k.Name()}
	}
	return labelKeys
"""),
("""	labelValues := []metricdata.LabelValue{}
	tagMap := make(map[string]string)
	for _, tag := range row.Tags {
		tagMap[tag.Key.Name()] = tag.Value
	}

	for _, key := range expectedKeys {
		if val, ok := tagMap[key.Key]; ok {
			labelValues = append(labelValues, metricdata.NewLabelValue(val))
		} else {
			labelValues = append(labelValues, metricdata.LabelValue{})
		}
	}
	return labelValues
""","""	labelValues := make([]metricdata.LabelValue, len(expectedKeys))
	for i, key := range expectedKeys {
		for j := len(row.Tags) - 1; j >= 0; j-- {
			if row.Tags[j].Key.Name() == key.Key {
				labelValues[i] = metricdata.NewLabelValue(row.Tags[j].Value)
				break
			}
		}
	}
	return labelValues
"""),
)
sub("stats/view/worker.go",
("""	for i := range views {
		names[i] = views[i].Name
	}
""","""	for i, v := range views {
		names[i] = v.Name
	}
"""),
("""	if mr, ok := w.measures[name]; ok {
		return mr
	}
	mr := &measureRef{
		measure: name,
		views:   make(map[*viewInternal]struct{}),
	}
	w.measures[name] = mr
	return mr
""","""	mr := w.measures[name]
	if mr == nil {
		mr = &measureRef{measure: name, views: map[*viewInternal]struct{}{}}
		w.measures[name] = mr
	}
	return mr
"""),
("""	rows := v.collectedRows()
	viewData := &Data{
		View:  v.view,
		Start: w.viewStartTimes[v],
		End:   time.Now(),
		Rows:  rows,
	}
	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
	for e := range w.exporters {
		e.ExportView(viewData)
	}
""","""	viewData := &Data{View: v.view, Rows: v.collectedRows()}
	viewData.Start = w.viewStartTimes[v]
	viewData.End = time.Now()
	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
	for e := range w.exporters {
		e.ExportView(viewData)
	}
"""),
("""	metrics := make([]*metricdata.Metric, 0, len(w.views))
	for _, v := range w.views {
		metric := w.toMetric(v, now)
		if metric != nil {
			metrics = append(metrics, metric)
		}
	}
	return metrics
""","""	var metrics []*metricdata.Metric
	for name := range w.views {
		if metric := w.toMetric(w.views[name], now); metric != nil {
			metrics = append(metrics, metric)
		}
	}
	if metrics == nil {
		metrics = []*metricdata.Metric{}
	}
	return metrics
"""),
("""	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()

	delete(w.exporters, e)
""","""	w.exportersMu.Lock()
	if _, ok := w.exporters[e]; ok {
		delete(w.exporters, e)
	}
	w.exportersMu.Unlock()
"""),
)
sub("stats/view/worker_commands.go",
("""	v := w.views[cmd.name]
	if v == nil {
		cmd.c <- &getViewByNameResp{nil}
		return
	}
	cmd.c <- &getViewByNameResp{v.view}
""","""	resp := new(getViewByNameResp)
	if vi, ok := w.views[cmd.name]; ok {
		resp.v = vi.view
	}
	cmd.c <- resp
"""),
("""	var errstr []string
	for _, view := range cmd.views {
		vi, err := w.tryRegisterView(view)
		if err != nil {
			errstr = append(errstr, fmt.Sprintf("%s: %v", view.Name, err))
			continue
		}
		internal.SubscriptionReporter(view.Measure.Name())
		vi.subscribe()
	}
	if len(errstr) > 0 {
		cmd.err <- errors.New(strings.Join(errstr, "\\n"))
	} else {
		cmd.err <- nil
	}
""","""	cmd.err <- cmd.registerAll(w)
"""),
("""type unregisterFromViewReq struct""","""func (cmd *registerViewReq) registerAll(w *worker) error {
	var errstr []string
	for _, view := range cmd.views {
		if vi, err := w.tryRegisterView(view); err == nil {
			internal.SubscriptionReporter(view.Measure.Name())
			vi.subscribe()
		} else {
			errstr = append(errstr, view.Name+": "+err.Error())
		}
	}
	if len(errstr) == 0 {
		return nil
	}
	return errors.New(strings.Join(errstr, "\\n"))
}

type unregisterFromViewReq struct"""),
("""	w.mu.Lock()
	defer w.mu.Unlock()
	for _, m := range cmd.ms {
		if (m == stats.Measurement{}) { // not registered
			continue
		}
		ref := w.getMeasureRef(m.Measure().Name())
		for v := range ref.views {
			v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
		}
	}
""","""	w.mu.Lock()
	defer w.mu.Unlock()
	var unregistered stats.Measurement
	for i := range cmd.ms {
		if m := cmd.ms[i]; m != unregistered {
			value := m.Value()
			for v := range w.getMeasureRef(m.Measure().Name()).views {
				v.addSample(cmd.tm, value, cmd.attachments, cmd.t)
			}
		}
	}
"""),
("""	w.timer.Stop()
	if cmd.d <= 0 {
		w.timer = time.NewTicker(defaultReportingDuration)
	} else {
		w.timer = time.NewTicker(cmd.d)
	}
	cmd.c <- true
""","""	period := defaultReportingDuration
	if cmd.d > 0 {
		period = cmd.d
	}
	w.timer.Stop()
	w.timer = time.NewTicker(period)
	cmd.c <- true
"""))
sub("stats/view/view.go",
("""	for i, bound := range bounds {
		if bound > 0 {
			return bounds[i:]
		}
	}
	return []float64{}
""","""	i := 0
	for i < len(bounds) && !(bounds[i] > 0) {
		i++
	}
	if i == len(bounds) {
		return []float64{}
	}
	return bounds[i:]
"""),
("""		if !(r >= ' ' && r <= '~') {
""","""		if r < ' ' || '~' < r {
"""),
("""	if v == other {
		return true
	}
	if v == nil {
		return false
	}
	return reflect""","""	switch {
	case v == other:
		return true
	case v == nil:
		return false
	}
	return reflect"""),
)
