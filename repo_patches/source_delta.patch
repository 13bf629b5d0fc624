From b51499fab94328dfccaac4fa1578027cb392c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 01/33] fix: tag: refuse value lengths that overflow int when
 decoding

A varint length of 2^63 or more became negative when converted to int, passed
the upper bound check and made the slice expression panic.
---
 tag/map_codec.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tag/map_codec.go b/tag/map_codec.go
index c242e69..74b5769 100644
--- a/tag/map_codec.go
+++ b/tag/map_codec.go
@@ -126,10 +126,10 @@ func (eg *encoderGRPC) readBytesWithVarintLen() ([]byte, error) {
 	}
 
 	valueStart += eg.readIdx
-	valueEnd := valueStart + int(length)
-	if valueEnd > len(eg.buf) {
-		return nil, fmt.Errorf("malformed encoding: length:%v, upper:%v, maxLength:%v", length, valueEnd, len(eg.buf))
+	if length > uint64(len(eg.buf)-valueStart) {
+		return nil, fmt.Errorf("malformed encoding: length:%v, start:%v, maxLength:%v", length, valueStart, len(eg.buf))
 	}
+	valueEnd := valueStart + int(length)
 
 	eg.readIdx = valueEnd
 	return eg.buf[valueStart:valueEnd], nil
-- 
2.43.0


From fd6d5cfe04324d24873e6eacb89556e98a8c2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 02/33] fix: tracestate: do not alias or overwrite the caller's
 entries

New appended the parent's entries to the slice it was given. With spare
capacity that overwrote the caller's elements behind the slice's end, and the
new state shared its entries with the caller or with another state.
---
 trace/tracestate/tracestate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trace/tracestate/tracestate.go b/trace/tracestate/tracestate.go
index 2d6c713..8480bf3 100644
--- a/trace/tracestate/tracestate.go
+++ b/trace/tracestate/tracestate.go
@@ -81,7 +81,8 @@ func (ts *Tracestate) add(entries []Entry) error {
 		return fmt.Errorf("adding %d key-value pairs to current %d pairs exceeds the limit of %d",
 			len(entries), len(ts.entries), maxKeyValuePairs)
 	}
-	ts.entries = append(entries, ts.entries...)
+	// Copy the entries: the slice belongs to the caller, who may reuse it.
+	ts.entries = append(append([]Entry{}, entries...), ts.entries...)
 	return nil
 }
 
-- 
2.43.0


From 697b59ee8848b5b05c0ce5ab7bdbc05be5bd84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 03/33] fix: tracecontext: refuse a repeated traceparent header

getRequestHeader reports a repeated header as not ok, but the result was
ignored and the joined value was parsed, which succeeds for later versions.
---
 plugin/ochttp/propagation/tracecontext/propagation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 48d8152..1c200e0 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -47,7 +47,10 @@ type HTTPFormat struct{}
 
 // SpanContextFromRequest extracts a span context from incoming requests.
 func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanContext, ok bool) {
-	tp, _ := getRequestHeader(req, traceparentHeader, false)
+	tp, ok := getRequestHeader(req, traceparentHeader, false)
+	if !ok {
+		return trace.SpanContext{}, false
+	}
 	ts, _ := getRequestHeader(req, tracestateHeader, true)
 	return f.SpanContextFromHeaders(tp, ts)
 }
-- 
2.43.0


From 634aa89d53bb4399e772e3d9e4de77145643272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 04/33] fix: tracecontext: refuse trace flags that are not two
 hex digits

Longer flag sections were accepted and all but their first byte ignored.
---
 plugin/ochttp/propagation/tracecontext/propagation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 1c200e0..2b1c48f 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -99,8 +99,11 @@ func (f *HTTPFormat) SpanContextFromHeaders(tp string, ts string) (sc trace.Span
 	}
 	copy(sc.SpanID[:], sid)
 
+	if len(sections[3]) != 2 {
+		return trace.SpanContext{}, false
+	}
 	opts, err := hex.DecodeString(sections[3])
-	if err != nil || len(opts) < 1 {
+	if err != nil {
 		return trace.SpanContext{}, false
 	}
 	sc.TraceOptions = trace.TraceOptions(opts[0])
-- 
2.43.0


From 2733eba08f2f5b959679f6720dab20ea631d050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 05/33] fix: trace: reading a span's attributes must not change
 which one is evicted

---
 trace/lrumap.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trace/lrumap.go b/trace/lrumap.go
index 80095a5..30a9543 100644
--- a/trace/lrumap.go
+++ b/trace/lrumap.go
@@ -21,14 +21,14 @@ import (
 // A simple lru.Cache wrapper that tracks the keys of the current contents and
 // the cumulative number of evicted items.
 type lruMap struct {
-	cacheKeys    map[lru.Key]bool
+	cacheKeys    map[lru.Key]interface{} // the cached values, readable without affecting recency
 	cache        *lru.Cache
 	droppedCount int
 }
 
 func newLruMap(size int) *lruMap {
 	lm := &lruMap{
-		cacheKeys:    make(map[lru.Key]bool),
+		cacheKeys:    make(map[lru.Key]interface{}),
 		cache:        lru.New(size),
 		droppedCount: 0,
 	}
@@ -52,10 +52,12 @@ func (lm lruMap) keys() []interface{} {
 }
 
 func (lm *lruMap) add(key, value interface{}) {
-	lm.cacheKeys[lru.Key(key)] = true
+	lm.cacheKeys[lru.Key(key)] = value
 	lm.cache.Add(lru.Key(key), value)
 }
 
 func (lm *lruMap) get(key interface{}) (interface{}, bool) {
-	return lm.cache.Get(key)
+	// Reading an attribute must not make it more recently used.
+	value, ok := lm.cacheKeys[lru.Key(key)]
+	return value, ok
 }
-- 
2.43.0


From d5cecb75e8c7f5d8701d160eb0f76c1cd875c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 06/33] fix: view: report the true maximum of distributions of
 non-positive values

---
 stats/view/aggregation_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/view/aggregation_data.go b/stats/view/aggregation_data.go
index d93b520..03a333d 100644
--- a/stats/view/aggregation_data.go
+++ b/stats/view/aggregation_data.go
@@ -149,7 +149,7 @@ func newDistributionData(agg *Aggregation, t time.Time) *DistributionData {
 		ExemplarsPerBucket: make([]*metricdata.Exemplar, bucketCount),
 		bounds:             agg.Buckets,
 		Min:                math.MaxFloat64,
-		Max:                math.SmallestNonzeroFloat64,
+		Max:                -math.MaxFloat64,
 		Start:              t,
 	}
 }
-- 
2.43.0


From c0993b3425e2c1ff4f57b2c71a029636dad860cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 07/33] fix: view: a stopping or stopped meter must not panic,
 hang or stay registered

Calls after or concurrent with Stop used to send on a closed channel or wait
forever for a reply, two concurrent calls of Stop closed the same channel
twice, and a meter stopped right after Start stayed registered as a producer.
SetResource and unregistering also raced with a metric reader.
---
 stats/view/worker.go          | 83 ++++++++++++++++++++++++++++-------
 stats/view/worker_commands.go |  2 +
 2 files changed, 68 insertions(+), 17 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 6a79cd8..a58b26e 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -16,6 +16,7 @@
 package view
 
 import (
+	"errors"
 	"fmt"
 	"sync"
 	"time"
@@ -49,6 +50,7 @@ type worker struct {
 	timer      *time.Ticker
 	c          chan command
 	quit, done chan bool
+	stopOnce   sync.Once
 	mu         sync.RWMutex
 	r          *resource.Resource
 
@@ -115,6 +117,8 @@ var _ Meter = (*worker)(nil)
 
 var defaultWorker *worker
 
+var errStopped = errors.New("view: the meter is stopped")
+
 var defaultReportingDuration = 10 * time.Second
 
 // Find returns a registered view associated with this name.
@@ -130,9 +134,15 @@ func (w *worker) Find(name string) (v *View) {
 		name: name,
 		c:    make(chan *getViewByNameResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.v
+	if !w.send(req) {
+		return nil
+	}
+	select {
+	case resp := <-req.c:
+		return resp.v
+	case <-w.done:
+		return nil
+	}
 }
 
 // Register begins collecting data for the given views.
@@ -148,8 +158,15 @@ func (w *worker) Register(views ...*View) error {
 		views: views,
 		err:   make(chan error),
 	}
-	w.c <- req
-	return <-req.err
+	if !w.send(req) {
+		return errStopped
+	}
+	select {
+	case err := <-req.err:
+		return err
+	case <-w.done:
+		return errStopped
+	}
 }
 
 // Unregister the given views. Data will not longer be exported for these views
@@ -173,8 +190,13 @@ func (w *worker) Unregister(views ...*View) {
 		views: names,
 		done:  make(chan struct{}),
 	}
-	w.c <- req
-	<-req.done
+	if !w.send(req) {
+		return
+	}
+	select {
+	case <-req.done:
+	case <-w.done:
+	}
 }
 
 // RetrieveData gets a snapshot of the data collected for the the view registered
@@ -191,9 +213,15 @@ func (w *worker) RetrieveData(viewName string) ([]*Row, error) {
 		v:   viewName,
 		c:   make(chan *retrieveDataResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.rows, resp.err
+	if !w.send(req) {
+		return nil, errStopped
+	}
+	select {
+	case resp := <-req.c:
+		return resp.rows, resp.err
+	case <-w.done:
+		return nil, errStopped
+	}
 }
 
 func record(tags *tag.Map, ms interface{}, attachments map[string]interface{}) {
@@ -218,7 +246,7 @@ func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attach
 		attachments: attachments,
 		t:           time.Now(),
 	}
-	w.c <- req
+	w.send(req)
 }
 
 // SetReportingPeriod sets the interval between reporting aggregated views in
@@ -251,8 +279,14 @@ func (w *worker) SetReportingPeriod(d time.Duration) {
 		d: d,
 		c: make(chan bool),
 	}
-	w.c <- req
-	<-req.c // don't return until the timer is set to the new duration.
+	if !w.send(req) {
+		return
+	}
+	// don't return until the timer is set to the new duration.
+	select {
+	case <-req.c:
+	case <-w.done:
+	}
 }
 
 // NewMeter constructs a Meter instance. You should only need to use this if
@@ -277,6 +311,8 @@ func NewMeter() Meter {
 // it is not provided when used with ExportView/RegisterExporter, because that
 // interface does not provide a means for reporting the Resource.
 func (w *worker) SetResource(r *resource.Resource) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
 	w.r = r
 }
 
@@ -296,7 +332,8 @@ func (w *worker) start() {
 			w.reportUsage()
 		case <-w.quit:
 			w.timer.Stop()
-			close(w.c)
+			// Stop may have run before this goroutine added the producer.
+			prodMgr.DeleteProducer(w)
 			close(w.done)
 			return
 		}
@@ -306,12 +343,24 @@ func (w *worker) start() {
 func (w *worker) Stop() {
 	prodMgr := metricproducer.GlobalManager()
 	prodMgr.DeleteProducer(w)
+	w.stopOnce.Do(func() { close(w.quit) })
+	<-w.done
+}
+
+// send hands cmd to the goroutine processing commands. It returns false,
+// without delivering cmd, if the worker is stopped.
+func (w *worker) send(cmd command) bool {
 	select {
-	case <-w.quit:
+	case <-w.done:
+		return false
 	default:
-		close(w.quit)
 	}
-	<-w.done
+	select {
+	case w.c <- cmd:
+		return true
+	case <-w.done:
+		return false
+	}
 }
 
 func (w *worker) getMeasureRef(name string) *measureRef {
diff --git a/stats/view/worker_commands.go b/stats/view/worker_commands.go
index 9ac4cc0..1fd5ca6 100644
--- a/stats/view/worker_commands.go
+++ b/stats/view/worker_commands.go
@@ -101,7 +101,9 @@ func (cmd *unregisterFromViewReq) handleCommand(w *worker) {
 		if !vi.isSubscribed() {
 			// this was the last subscription and view is not collecting anymore.
 			// The collected data can be cleared.
+			w.mu.Lock()
 			vi.clearRows()
+			w.mu.Unlock()
 		}
 		w.unregisterView(vi)
 	}
-- 
2.43.0


From 7211873a87f9461eba5ab872da370e5f25721da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 08/33] fix: encode the full length of tag and label values

---
 internal/tagencoding/tagencoding.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/tagencoding/tagencoding.go b/internal/tagencoding/tagencoding.go
index 41b2c3f..017137b 100644
--- a/internal/tagencoding/tagencoding.go
+++ b/internal/tagencoding/tagencoding.go
@@ -17,6 +17,8 @@
 // used interally by the stats collector.
 package tagencoding // import "go.opencensus.io/internal/tagencoding"
 
+import "encoding/binary"
+
 // Values represent the encoded buffer for the values.
 type Values struct {
 	Buffer     []byte
@@ -34,12 +36,11 @@ func (vb *Values) growIfRequired(expected int) {
 
 // WriteValue is the helper method to encode Values from map[Key][]byte.
 func (vb *Values) WriteValue(v []byte) {
-	length := len(v) & 0xff
-	vb.growIfRequired(1 + length)
+	length := len(v)
+	vb.growIfRequired(binary.MaxVarintLen64 + length)
 
 	// writing length of v
-	vb.Buffer[vb.WriteIndex] = byte(length)
-	vb.WriteIndex++
+	vb.WriteIndex += binary.PutUvarint(vb.Buffer[vb.WriteIndex:], uint64(length))
 
 	if length == 0 {
 		// No value was encoded for this key
@@ -47,15 +48,16 @@ func (vb *Values) WriteValue(v []byte) {
 	}
 
 	// writing v
-	copy(vb.Buffer[vb.WriteIndex:], v[:length])
+	copy(vb.Buffer[vb.WriteIndex:], v)
 	vb.WriteIndex += length
 }
 
 // ReadValue is the helper method to decode Values to a map[Key][]byte.
 func (vb *Values) ReadValue() []byte {
 	// read length of v
-	length := int(vb.Buffer[vb.ReadIndex])
-	vb.ReadIndex++
+	l, n := binary.Uvarint(vb.Buffer[vb.ReadIndex:])
+	length := int(l)
+	vb.ReadIndex += n
 	if length == 0 {
 		// No value was encoded for this key
 		return nil
-- 
2.43.0


From db565b21dd74497220f9ef3f25de5a2bc0e18804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 09/33] fix: do not race on the constant label values of a
 metric

---
 metric/common.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index 42acaae..e63ca8e 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -120,7 +120,9 @@ func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 }
 
 func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry func() baseEntry) (interface{}, error) {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	// Calls may be concurrent: never append into the shared constLabelValues.
+	n := len(bm.constLabelValues)
+	labelVals = append(bm.constLabelValues[:n:n], labelVals...)
 	if len(labelVals) != len(bm.keys) {
 		return nil, errKeyValueMismatch
 	}
@@ -133,7 +135,9 @@ func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry
 }
 
 func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry func() baseEntry) error {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	// Calls may be concurrent: never append into the shared constLabelValues.
+	n := len(bm.constLabelValues)
+	labelVals = append(bm.constLabelValues[:n:n], labelVals...)
 	if len(labelVals) != len(bm.keys) {
 		return errKeyValueMismatch
 	}
-- 
2.43.0


From d448a2fefe1dc8904ad29ebda9dd4ac2688b656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 10/33] fix: keep a derived series readable while its callback
 is replaced

---
 metric/common.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metric/common.go b/metric/common.go
index e63ca8e..d7d0c7e 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -142,7 +142,6 @@ func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry fu
 		return errKeyValueMismatch
 	}
 	mapKey := bm.encodeLabelVals(labelVals)
-	bm.vals.Delete(mapKey)
 	bm.vals.Store(mapKey, newEntry())
 	return nil
 }
-- 
2.43.0


From 3531c0d4b5d9a1941c5d5c7a860c04d607bf47fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 11/33] fix: ignore NaN increments of float cumulatives

---
 metric/cumulative.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metric/cumulative.go b/metric/cumulative.go
index b25ba94..b9fcdd2 100644
--- a/metric/cumulative.go
+++ b/metric/cumulative.go
@@ -60,10 +60,10 @@ func (c *Float64Cumulative) GetEntry(labelVals ...metricdata.LabelValue) (*Float
 }
 
 // Inc increments the cumulative entry value by val. It returns without incrementing if the val
-// is negative.
+// is not positive.
 func (e *Float64CumulativeEntry) Inc(val float64) {
 	var swapped bool
-	if val <= 0.0 {
+	if !(val > 0.0) {
 		return
 	}
 	for !swapped {
-- 
2.43.0


From 6bc278af50f7c0a00ed6603896c938cebf804e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 12/33] fix: stackdriver propagation: refuse trace ids that are
 not 16 bytes

---
 exporter/stackdriver/propagation/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exporter/stackdriver/propagation/http.go b/exporter/stackdriver/propagation/http.go
index 7cc02a1..cc5e518 100644
--- a/exporter/stackdriver/propagation/http.go
+++ b/exporter/stackdriver/propagation/http.go
@@ -57,7 +57,7 @@ func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanCon
 	tid, h := h[:slash], h[slash+1:]
 
 	buf, err := hex.DecodeString(tid)
-	if err != nil {
+	if err != nil || len(buf) != len(sc.TraceID) {
 		return trace.SpanContext{}, false
 	}
 	copy(sc.TraceID[:], buf)
-- 
2.43.0


From 2a6f44425139bb4e6cce721a1451ac11d4b9ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 13/33] fix: resource: decode quoted label values that contain
 escaped quotes and commas

---
 resource/resource.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resource/resource.go b/resource/resource.go
index b1764e1..e675cbf 100644
--- a/resource/resource.go
+++ b/resource/resource.go
@@ -57,7 +57,9 @@ func EncodeLabels(labels map[string]string) string {
 	return s
 }
 
-var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("[[:ascii:]]{0,256}?")\s*,`)
+// A value is a quoted string of up to 256 ASCII characters or escape sequences; a
+// quote, or a comma after an escaped quote, does not end it.
+var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("(?:[^"\\[:^ascii:]]|\\x[[:xdigit:]]{2}|\\[[:ascii:]]){0,256}")\s*,`)
 
 // DecodeLabels decodes a serialized label map as used in the OC_RESOURCE_LABELS variable.
 // A list of labels of the form `<key1>="<value1>",<key2>="<value2>",...` is accepted.
-- 
2.43.0


From be8bd75cc2d92a37f1d874edbac472999a6500c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 14/33] fix: ocgrpc: ignore the start of an RPC that was not
 tagged

---
 plugin/ocgrpc/stats_common.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 9cb2732..e4ecf71 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -103,6 +103,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 		if grpclog.V(2) {
 			grpclog.Infoln("Failed to retrieve *rpcData from context.")
 		}
+		return
 	}
 
 	if s.IsClient() {
-- 
2.43.0


From 4817d355a1e34a7b3fc29a904fcf13ca804e9f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 15/33] fix: ocgrpc: record started server RPCs under the
 server method tag

---
 plugin/ocgrpc/stats_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index e4ecf71..72609b3 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -112,7 +112,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 			ocstats.WithMeasurements(ClientStartedRPCs.M(1)))
 	} else {
 		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyClientMethod, methodName(d.method))),
+			ocstats.WithTags(tag.Upsert(KeyServerMethod, methodName(d.method))),
 			ocstats.WithMeasurements(ServerStartedRPCs.M(1)))
 	}
 }
-- 
2.43.0


From fa6f30500f97d3962073b00f9b813b92eb97f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 16/33] fix: ochttp: record the status that was sent, not the
 last one written

---
 plugin/ochttp/server.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 946b22e..18292bc 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -182,10 +182,7 @@ var _ http.ResponseWriter = (*trackingResponseWriter)(nil)
 
 func (t *trackingResponseWriter) end(tags *addedTags) {
 	t.endOnce.Do(func() {
-		if t.statusCode == 0 {
-			t.statusCode = 200
-		}
-
+		t.setStatus(http.StatusOK) // unless the handler chose another
 		span := trace.FromContext(t.ctx)
 		span.SetStatus(TraceStatus(t.statusCode, t.statusLine))
 		span.AddAttributes(trace.Int64Attribute(StatusCodeAttribute, int64(t.statusCode)))
@@ -209,6 +206,7 @@ func (t *trackingResponseWriter) Header() http.Header {
 }
 
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
+	t.setStatus(http.StatusOK)
 	n, err := t.writer.Write(data)
 	t.respSize += int64(n)
 	// Add message event for request bytes sent.
@@ -219,10 +217,30 @@ func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 
 func (t *trackingResponseWriter) WriteHeader(statusCode int) {
 	t.writer.WriteHeader(statusCode)
+	t.setStatus(statusCode)
+}
+
+// setStatus notes the status of the response: the first one that is not
+// informational, as later ones are not sent.
+func (t *trackingResponseWriter) setStatus(statusCode int) {
+	if t.statusCode >= 200 || t.statusCode == http.StatusSwitchingProtocols {
+		return
+	}
 	t.statusCode = statusCode
 	t.statusLine = http.StatusText(t.statusCode)
 }
 
+// trackingFlusher notes the status that flushing sends.
+type trackingFlusher struct {
+	t  *trackingResponseWriter
+	fl http.Flusher
+}
+
+func (f trackingFlusher) Flush() {
+	f.t.setStatus(http.StatusOK)
+	f.fl.Flush()
+}
+
 // wrappedResponseWriter returns a wrapped version of the original
 //
 //	ResponseWriter and only implements the same combination of additional
@@ -237,6 +255,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		fl, i3 = t.writer.(http.Flusher)
 		rf, i4 = t.writer.(io.ReaderFrom)
 	)
+	if i3 {
+		fl = trackingFlusher{t: t, fl: fl}
+	}
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From ce3c5fe01c28b27c1ef1e481ccb98bdfe966c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 17/33] fix: ochttp: count response bytes written through
 io.ReaderFrom

---
 plugin/ochttp/server.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 18292bc..91c6f46 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -241,6 +241,21 @@ func (f trackingFlusher) Flush() {
 	f.fl.Flush()
 }
 
+// trackingReaderFrom counts the bytes the response takes from a reader.
+type trackingReaderFrom struct {
+	t  *trackingResponseWriter
+	rf io.ReaderFrom
+}
+
+func (r trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
+	r.t.setStatus(http.StatusOK)
+	n, err := r.rf.ReadFrom(src)
+	r.t.respSize += n
+	span := trace.FromContext(r.t.ctx)
+	span.AddMessageSendEvent(0 /* TODO: messageID */, n, -1)
+	return n, err
+}
+
 // wrappedResponseWriter returns a wrapped version of the original
 //
 //	ResponseWriter and only implements the same combination of additional
@@ -258,6 +273,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 	if i3 {
 		fl = trackingFlusher{t: t, fl: fl}
 	}
+	if i4 {
+		rf = trackingReaderFrom{t: t, rf: rf}
+	}
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From 477762e76f057a51762b0347f524988f160f3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 18/33] fix: ochttp: a request without a body sends 0 bytes,
 not -1

---
 plugin/ochttp/client_stats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 17142aa..8847c6c 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -104,8 +104,12 @@ func (t *tracker) end() {
 		if t.respSize == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
+		sentSize := t.reqSize
+		if sentSize < 0 {
+			sentSize = 0 // no request body
+		}
 		m := []stats.Measurement{
-			ClientSentBytes.M(t.reqSize),
+			ClientSentBytes.M(sentSize),
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-- 
2.43.0


From a970a88dd7101a5cb5ba31e3f5b98eb1cce32671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 19/33] fix: zpages: list spans by the latency bounds of the
 summary

---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 330022c..631cba1 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -52,7 +52,7 @@ var (
 		100 * time.Millisecond,
 		time.Second,
 		10 * time.Second,
-		100 * time.Second,
+		time.Minute,
 	}
 	canonicalCodes = [...]string{
 		"OK",
-- 
2.43.0


From 0add688c98fed440df65f1f5b77c89b0d832ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 20/33] fix: zpages: a span on a latency bound belongs to one
 cell

---
 zpages/tracez.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 631cba1..9c032e4 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -344,12 +344,13 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 	case 1: // latency
 		var min, max time.Duration
 		n := len(defaultLatencies)
+		// The bounds of the report are inclusive, a bucket's upper bound is not.
 		if spanSubtype == 0 {
-			max = defaultLatencies[0]
+			max = defaultLatencies[0] - 1
 		} else if spanSubtype == n {
 			min, max = defaultLatencies[spanSubtype-1], (1<<63)-1
 		} else if 0 < spanSubtype && spanSubtype < n {
-			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]
+			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]-1
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-- 
2.43.0


From 5cf998ab616256b56062950ef872a2ca29867c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 21/33] fix: zpages: list only the spans with the requested
 error code

---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 9c032e4..de99346 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -354,7 +354,7 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-		spans = internalTrace.ReportSpansByError(spanName, 0)
+		spans = internalTrace.ReportSpansByError(spanName, int32(spanSubtype))
 	}
 	return spans
 }
-- 
2.43.0


From c90c1039be38c7408af89d8e83b6aba92b0fc600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 22/33] fix: runmetrics: read the memory statistics of the
 gauge mode

---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index d76bebe..944e1a7 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -165,6 +165,10 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	if p.deprecatedMemStats != nil {
+		p.deprecatedMemStats.read()
+	}
+
 	if p.memStats != nil {
 		p.memStats.read()
 	}
-- 
2.43.0


From 0db86ff3795c37f953641fcadf7a914ce993a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 23/33] fix: runmetrics: serialize reads that share the memory
 statistics

---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index 944e1a7..0cd9f28 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -19,6 +19,7 @@ type (
 		options RunMetricOptions
 		reg     *metric.Registry
 
+		mu                 sync.Mutex // serializes reads
 		deprecatedMemStats *deprecatedMemStats
 		memStats           *memStats
 		cpuStats           *cpuStats
@@ -165,6 +166,9 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	if p.deprecatedMemStats != nil {
 		p.deprecatedMemStats.read()
 	}
-- 
2.43.0


From b8f9299b6026c1f1511c56a9fcebfdca6dbdedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:06 +0000
Subject: [PATCH 24/33] fix: tag.Do runs its function when the context has no
 tags

---
 tag/profile_19.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tag/profile_19.go b/tag/profile_19.go
index 8fb1722..165fe6e 100644
--- a/tag/profile_19.go
+++ b/tag/profile_19.go
@@ -24,6 +24,10 @@ import (
 
 func do(ctx context.Context, f func(ctx context.Context)) {
 	m := FromContext(ctx)
+	if m == nil {
+		f(ctx)
+		return
+	}
 	keyvals := make([]string, 0, 2*len(m.m))
 	for k, v := range m.m {
 		keyvals = append(keyvals, k.Name(), v.value)
-- 
2.43.0


From 9e18a598fc7bf44d572e6a78d26e52ec5ee43ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 25/33] fix: zpages: show the rate of bytes received by servers

---
 zpages/rpcz.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index ef4dd15..6afd712 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -301,6 +301,9 @@ func (s snapExporter) ExportView(vd *view.Data) {
 		case ocgrpc.ServerLatencyView:
 			s.AvgLatencyTotal = convertTime(sum / count)
 
+		case ocgrpc.ServerReceivedBytesPerRPCView:
+			s.InputRateTotal = computeRate(0, sum)
+
 		case ocgrpc.ServerSentBytesPerRPCView:
 			s.OutputRateTotal = computeRate(0, sum)
 
-- 
2.43.0


From 668d236bfda8b22d778bc7e6f82b20dec9492c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 26/33] fix: zpages: headings of the text form of the RPC page
 name their columns

---
 zpages/rpcz.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index 6afd712..f9df030 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -108,8 +108,8 @@ func WriteTextRpczPage(w io.Writer) {
 			fmt.Fprint(w, "\nReceived:\n")
 		}
 		tw := tabwriter.NewWriter(w, 6, 8, 1, ' ', 0)
-		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tMaxLat\t\t\tRate\t\t\tIn (MiB/s)\t\t\tOut (MiB/s)\t\t\tErrors\t\t\n")
-		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
+		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tRate\t\t\tIn (KiB/s)\t\t\tOut (KiB/s)\t\t\tErrors\t\t\n")
+		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
 		for _, s := range sg.Snapshots {
 			fmt.Fprintf(tw, "%s\t%d\t%d\t%d\t%v\t%v\t%v\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%d\t%d\t%d\n",
 				s.Method,
-- 
2.43.0


From 67f18f8a6db8eaa28faf8911bc16c431d0f502a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:58 +0000
Subject: [PATCH 27/33] fix: registering a view with several meters at once
 does not race on what they share

canonicalize wrote to the view and its aggregation although nothing was to be
changed, while another meter with the same view (or the same Count() or Sum()
aggregation) was reading them.
---
 stats/view/view.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/stats/view/view.go b/stats/view/view.go
index 293b54e..f410819 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"reflect"
 	"sort"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -73,6 +74,11 @@ func (v *View) same(other *View) bool {
 // Deprecated: this should not be public.
 var ErrNegativeBucketBounds = errors.New("negative bucket bounds not supported")
 
+// canonicalizeMu serializes canonicalize, because views and aggregations may be
+// shared by several meters. What is canonical already must only be read: another
+// meter may be using it.
+var canonicalizeMu sync.Mutex
+
 // canonicalize canonicalizes v by setting explicit
 // defaults for Name and Description and sorting the TagKeys
 func (v *View) canonicalize() error {
@@ -82,11 +88,13 @@ func (v *View) canonicalize() error {
 	if v.Aggregation == nil {
 		return fmt.Errorf("cannot register view %q: aggregation not set", v.Name)
 	}
-	if v.Name == "" {
-		v.Name = v.Measure.Name()
+	canonicalizeMu.Lock()
+	defer canonicalizeMu.Unlock()
+	if n := v.Measure.Name(); v.Name == "" && n != "" {
+		v.Name = n
 	}
-	if v.Description == "" {
-		v.Description = v.Measure.Description()
+	if d := v.Measure.Description(); v.Description == "" && d != "" {
+		v.Description = d
 	}
 	if err := checkViewName(v.Name); err != nil {
 		return err
@@ -101,7 +109,9 @@ func (v *View) canonicalize() error {
 		}
 	}
 	// drop 0 bucket silently.
-	v.Aggregation.Buckets = dropZeroBounds(v.Aggregation.Buckets...)
+	if b := dropZeroBounds(v.Aggregation.Buckets...); len(b) != len(v.Aggregation.Buckets) {
+		v.Aggregation.Buckets = b
+	}
 
 	return nil
 }
-- 
2.43.0


From 435f232a621d07768a0073e91fdc87701a0c16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 28/33] fix: tracecontext: SpanContextToRequest does not leave
 another tracestate in the request

Without a tracestate to write, the header a request already had was sent along
with the new traceparent.
---
 plugin/ochttp/propagation/tracecontext/propagation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 2b1c48f..3ac7ade 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -204,5 +204,7 @@ func (f *HTTPFormat) SpanContextToRequest(sc trace.SpanContext, req *http.Reques
 	req.Header.Set(traceparentHeader, tp)
 	if ts != "" {
 		req.Header.Set(tracestateHeader, ts)
+	} else {
+		req.Header.Del(tracestateHeader)
 	}
 }
-- 
2.43.0


From 444f5b23c6b15c9d0060607cb11a597412c6f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 29/33] fix: ocgrpc: the client replaces a span context in
 metadata passed on

It was appended, and the server takes the first one: that of another RPC.
---
 plugin/ocgrpc/trace_common.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/trace_common.go b/plugin/ocgrpc/trace_common.go
index 61bc543..5af6a28 100644
--- a/plugin/ocgrpc/trace_common.go
+++ b/plugin/ocgrpc/trace_common.go
@@ -40,7 +40,11 @@ func (c *ClientHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 		trace.WithSampler(c.StartOptions.Sampler),
 		trace.WithSpanKind(trace.SpanKindClient)) // span is ended by traceHandleRPC
 	traceContextBinary := propagation.Binary(span.SpanContext())
-	return metadata.AppendToOutgoingContext(ctx, traceContextKey, string(traceContextBinary))
+	md, _ := metadata.FromOutgoingContext(ctx)
+	md = metadata.Join(md) // a copy
+	// Replaces the span context of another RPC, in case its metadata is passed on.
+	md.Set(traceContextKey, string(traceContextBinary))
+	return metadata.NewOutgoingContext(ctx, md)
 }
 
 // TagRPC creates a new trace span for the server side of the RPC.
-- 
2.43.0


From e9d7e34bfb94b3aa3aba29bbdedb770d2d2d5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:24 +0000
Subject: [PATCH 30/33] fix: registering the same view again is accepted for
 every aggregation

Aggregations were compared with reflect.DeepEqual, to which no two functions
are equal, so a second definition of a view with a distribution or a last value
was refused as a different view.
---
 stats/view/aggregation.go | 17 +++++++++++++++++
 stats/view/view.go        |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/stats/view/aggregation.go b/stats/view/aggregation.go
index 61f72d2..ffd1fe5 100644
--- a/stats/view/aggregation.go
+++ b/stats/view/aggregation.go
@@ -50,6 +50,23 @@ type Aggregation struct {
 	newData func(time.Time) AggregationData
 }
 
+// same returns true if a and other aggregate in the same way. newData is not
+// compared: functions never are equal.
+func (a *Aggregation) same(other *Aggregation) bool {
+	if a == other {
+		return true
+	}
+	if a.Type != other.Type || len(a.Buckets) != len(other.Buckets) {
+		return false
+	}
+	for i := range a.Buckets {
+		if a.Buckets[i] != other.Buckets[i] {
+			return false
+		}
+	}
+	return true
+}
+
 var (
 	aggCount = &Aggregation{
 		Type: AggTypeCount,
diff --git a/stats/view/view.go b/stats/view/view.go
index f410819..006e808 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -65,7 +65,7 @@ func (v *View) same(other *View) bool {
 	if v == nil {
 		return false
 	}
-	return reflect.DeepEqual(v.Aggregation, other.Aggregation) &&
+	return v.Aggregation.same(other.Aggregation) &&
 		v.Measure.Name() == other.Measure.Name()
 }
 
-- 
2.43.0


From 30aad5971786135635d567f7c7a5407c29524048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:24 +0000
Subject: [PATCH 31/33] fix: rows of a distribution do not share exemplars with
 the data they were copied from

---
 stats/view/aggregation_data.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stats/view/aggregation_data.go b/stats/view/aggregation_data.go
index 03a333d..8035318 100644
--- a/stats/view/aggregation_data.go
+++ b/stats/view/aggregation_data.go
@@ -218,10 +218,24 @@ func getExemplar(v float64, attachments map[string]interface{}, t time.Time) *me
 	}
 }
 
+func cloneExemplar(e *metricdata.Exemplar) *metricdata.Exemplar {
+	c := *e
+	c.Attachments = make(metricdata.Attachments, len(e.Attachments))
+	for k, v := range e.Attachments {
+		c.Attachments[k] = v
+	}
+	return &c
+}
+
 func (a *DistributionData) clone() AggregationData {
 	c := *a
 	c.CountPerBucket = append([]int64(nil), a.CountPerBucket...)
 	c.ExemplarsPerBucket = append([]*metricdata.Exemplar(nil), a.ExemplarsPerBucket...)
+	for i, e := range c.ExemplarsPerBucket {
+		if e != nil {
+			c.ExemplarsPerBucket[i] = cloneExemplar(e)
+		}
+	}
 	return &c
 }
 
-- 
2.43.0


From e2e165737c743e6df7de6f7e7f0239b0128bff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:24 +0000
Subject: [PATCH 32/33] fix: an invalid route does not lose the measurements of
 the HTTP request

---
 plugin/ochttp/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 91c6f46..290b1eb 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -197,7 +197,11 @@ func (t *trackingResponseWriter) end(tags *addedTags) {
 		allTags := make([]tag.Mutator, len(tags.t)+1)
 		allTags[0] = tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))
 		copy(allTags[1:], tags.t)
-		stats.RecordWithTags(t.ctx, allTags, m...)
+		if err := stats.RecordWithTags(t.ctx, allTags, m...); err != nil {
+			// The handler added an invalid tag, such as a route that is
+			// not ASCII. Record without its tags.
+			stats.RecordWithTags(t.ctx, allTags[:1], m...)
+		}
 	})
 }
 
-- 
2.43.0


From e84db6493e83201025f01f22553757a07fdfe904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:51 +0000
Subject: [PATCH 33/33] fix: ochttp: a client request without a response is
 recorded under the status 'error'

---
 plugin/ochttp/client_stats.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 8847c6c..d135fb5 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -57,7 +57,6 @@ func (t statsTransport) RoundTrip(req *http.Request) (*http.Response, error) {
 	resp, err := t.base.RoundTrip(req)
 
 	if err != nil {
-		track.statusCode = http.StatusInternalServerError
 		track.end()
 	} else {
 		track.statusCode = resp.StatusCode
@@ -91,7 +90,7 @@ type tracker struct {
 	reqSize           int64
 	start             time.Time
 	body              io.ReadCloser
-	statusCode        int
+	statusCode        int // 0 if no response was received
 	endOnce           sync.Once
 }
 
@@ -119,9 +118,13 @@ func (t *tracker) end() {
 			m = append(m, ClientRequestBytes.M(t.reqSize))
 		}
 
+		status := "error"
+		if t.statusCode != 0 {
+			status = strconv.Itoa(t.statusCode)
+		}
 		stats.RecordWithTags(t.ctx, []tag.Mutator{
-			tag.Upsert(StatusCode, strconv.Itoa(t.statusCode)),
-			tag.Upsert(KeyClientStatus, strconv.Itoa(t.statusCode)),
+			tag.Upsert(StatusCode, status),
+			tag.Upsert(KeyClientStatus, status),
 		}, m...)
 	})
 }
-- 
2.43.0

