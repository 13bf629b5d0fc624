# Source of truth for properties.jsonl (see gen.py).
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return d

PROPS = [
P("C01", "Binary trace context survives the wire and decoding is total",
  "Encoding any non-empty span context to its binary form and decoding it restores the trace id, span id and the options byte, so the sampling decision is the same on both sides. Decoding arbitrary bytes never panics, never accepts an unknown version or an empty input, and takes ids and options only from their own, in-order, complete fields; whatever is not accepted yields the zero context.",
  ["inputs"], "every span context (all 16+8 id bytes and the 32-bit options); every byte string up to the stated length",
  "tests use a handful of fixed encodings; truncation points and field-id values are quantified over all bytes",
  ["trace/propagation/propagation.go"], [("Binary", "trace/propagation/propagation.go"), ("FromBinary", "trace/propagation/propagation.go")],
  ["FromBinary result"]),
P("C02", "W3C traceparent: what is injected is extracted, malformed headers are refused",
  "For every valid span context, the header written to an outgoing HTTP request is read back as the same trace id, span id and sampling bit. A traceparent that is malformed (wrong field lengths, non-hexadecimal ids, flags that are not two hexadecimal digits), has the reserved version, an all-zero trace id or an all-zero span id, or is repeated, is refused, and no header value makes extraction panic.",
  ["inputs"], "every context; every header value of the stated lengths over all bytes",
  "tests list a dozen header strings; every byte position and length matters",
  ["plugin/ochttp/propagation/tracecontext/propagation.go"], [("SpanContextFromRequest/ToRequest", "plugin/ochttp/propagation/tracecontext/propagation.go")]),
P("C03", "W3C tracestate travels with the context or is dropped, never corrupts it",
  "A tracestate carried by a span context is written to the request and read back with the same entries in the same order as long as the header fits the 512 character limit, and is not written at all otherwise. A malformed or oversized incoming tracestate is ignored while the traceparent it came with is still accepted, and entries accepted are always valid key/value pairs without duplicates.",
  ["inputs"], "every tracestate of up to the stated number and size of entries; every header value of the stated length, split over one or two header lines",
  "tests sample a few headers; the interaction of optional whitespace, empty members, limits and repeated header lines is not enumerated",
  ["plugin/ochttp/propagation/tracecontext/propagation.go", "trace/tracestate/tracestate.go"],
  [("tracestateToHeader/ tracestate parsing", "plugin/ochttp/propagation/tracecontext/propagation.go"), ("New", "trace/tracestate/tracestate.go")]),
P("C04", "B3 headers: what is injected is extracted, invalid ids are refused",
  "For every valid span context the B3 headers written to a request are read back as the same ids and sampling decision. Short hexadecimal ids are left-padded, ids that are missing, not hexadecimal or too long are refused, and no header value makes extraction panic.",
  ["inputs"], "every context; every header value up to the stated length over all bytes, present or absent",
  "tests use a dozen header sets; padding and refusal depend on every length and byte",
  ["plugin/ochttp/propagation/b3/b3.go"], [("SpanContextFromRequest", "plugin/ochttp/propagation/b3/b3.go"), ("ParseTraceID/ParseSpanID/ParseSampled", "plugin/ochttp/propagation/b3/b3.go")]),
P("C05", "Tracestate values are validated, bounded, ordered and immutable",
  "Building a tracestate from a parent and new entries either fails, or puts the new entries in front in the given order, drops the parent's entries with the same keys and keeps the rest in order; it fails for duplicate or invalid entries and when the result would exceed 32 entries. Neither the parent nor the caller's slice, nor any state built earlier is changed by building another one.",
  ["inputs", "histories"], "all entry contents up to the stated sizes, all key-equality patterns, one parent and several children",
  "tests compare single results; aliasing shows only when results and inputs are reused afterwards",
  ["trace/tracestate/tracestate.go"], [("New/add/remove", "trace/tracestate/tracestate.go")]),
P("C06", "X-Cloud-Trace-Context header round-trips and bad headers are refused",
  "The Google Cloud trace header written for a span context is read back as the same trace id, span id and options. Headers that are empty or too long, lack the slash after the trace id, or have a trace id that is not 32 hexadecimal digits, a span id that is not a decimal 64-bit number or a malformed option value are refused, and no header value makes extraction panic.",
  ["inputs"], "every context; every header value of the stated shapes and lengths",
  "tests use a few headers; decimal span ids over the full 64 bits and every malformed shape are not covered",
  ["exporter/stackdriver/propagation/http.go"], [("SpanContextFromRequest/ToRequest", "exporter/stackdriver/propagation/http.go")]),
P("C07", "Child spans belong to their parent's trace and inherit what they must",
  "A span started under a local or remote parent has the parent's trace id, a parent span id equal to the parent's span id, the parent's tracestate and the right remote-parent mark; a root span has a fresh trace id and no parent. The new span becomes the context's current span, and the caller's context is unchanged.",
  ["inputs", "configurations"], "every parent context, parent kind, sampler decision and start option combination",
  "tests fix a few parents; inheritance must hold for all option and sampler combinations",
  ["trace/trace.go"], [("StartSpan/StartSpanWithRemoteParent/startSpanInternal", "trace/trace.go")]),
P("C08", "The sampling decision follows the documented precedence",
  "A span is sampled exactly when the sampler given at start says so; without one, a child of a local parent keeps the parent's decision and root spans and children of remote parents ask the default sampler; the parent's other option bits are kept. Samplers see the true parent, trace id, span id, name and remote mark, and an unsampled context never turns into an exported span.",
  ["inputs", "configurations"], "every parent option word, sampler answer, default sampler answer, name and start option",
  "tests check selected rows of the decision table",
  ["trace/trace.go", "trace/sampling.go"], [("startSpanInternal", "trace/trace.go")]),
P("C09", "Probability sampling is deterministic, monotone and keeps sampled parents",
  "The probability sampler decides from the trace id alone: a sampled parent stays sampled, fraction 0 or less never samples a fresh trace, fraction 1 or more always does, and a trace sampled at one fraction is sampled at every larger fraction. Equal trace ids always get equal decisions.",
  ["inputs"], "every trace id, parent and pair of fractions (all float64 values)",
  "a statistical test of one fraction says nothing about monotonicity or the edges",
  ["trace/sampling.go"], [("ProbabilitySampler", "trace/sampling.go")]),
P("C10", "Generated span ids are never zero and never repeat within a process",
  "The built-in id generator never returns an all-zero span id, and successive span ids of one process are pairwise distinct, whatever the random seed of the process was, also when spans are started concurrently.",
  ["inputs", "schedules"], "every random seed; every interleaving of two callers within the preemption bound",
  "tests see one random seed per run and no interleavings",
  ["trace/trace.go"], [("defaultIDGenerator", "trace/trace.go")]),
P("C11", "Ending a span exports it exactly once to every exporter, if sampled",
  "When a sampled span is ended, every registered exporter receives exactly one span record, no matter how often or from how many goroutines End is called; a span that is not sampled is never exported. What is exported has the span's ids, parent, name, kind and final status and an end time not before the start.",
  ["schedules", "histories", "inputs"], "all interleavings of concurrent End/SetName/annotation calls within the preemption bound; sampled and unsampled spans; up to two exporters",
  "tests call End from one goroutine; exactly-once under concurrency is a schedule property",
  ["trace/trace.go", "trace/export.go"], [("End/endOnce", "trace/trace.go"), ("exporters set", "trace/export.go")]),
P("C12", "Span data limits keep the newest entries and count every drop",
  "With any configured limits, and whatever reports are taken meanwhile, an ended span carries at most that many attributes, annotations, message events and links; the newest ones are kept in order, setting an existing attribute replaces its value and makes it the newest, and the dropped counters equal exactly the number of discarded entries. Nothing recorded after End appears in exported data.",
  ["inputs", "histories"], "every sequence of the stated length over adding attributes/annotations/events/links with symbolic keys and values, for each limit up to the stated bound",
  "tests add fixed sequences around one limit",
  ["trace/trace.go", "trace/evictedqueue.go", "trace/lrumap.go", "trace/config.go"], [("evictedQueue.add", "trace/evictedqueue.go"), ("lruMap", "trace/lrumap.go"), ("makeSpanData", "trace/trace.go")]),
P("C13", "Recorded span content is exact and exported snapshots do not change",
  "The attributes, annotations, message events, links, status, name and tracestate a caller records appear in the exported record with exactly the recorded values, and later changes to the caller's slices or to the span do not alter an exported record. Operations on an unsampled or nil span are harmless no-ops.",
  ["inputs", "histories"], "all attribute kinds and values, sizes, ids and texts of the stated lengths",
  "tests compare a few golden records",
  ["trace/trace.go", "trace/basetypes.go"], [("makeSpanData/interfaceArrayTo…", "trace/trace.go")]),
P("C14", "Local span storage returns the right spans: active, recent, by latency, by error",
  "With local storage enabled the active-span report lists exactly the started-but-not-ended spans of a name; an ended span is found in the latency or error bucket its duration and status belong to (a bucket accepts one span per second), a bucket never returns more than its configured size and keeps the most recent spans. Summaries agree with the listings, and reconfiguring bucket sizes loses only the oldest spans that no longer fit.",
  ["histories", "inputs"], "every duration and status; sequences of start/end/report/reconfigure up to the stated length",
  "tests run one fixed sequence; bucket boundaries and resizes need all values",
  ["trace/spanstore.go", "trace/spanbucket.go"], [("spanStore.finished", "trace/spanstore.go"), ("bucket.add/span/resize", "trace/spanbucket.go"), ("latencyBucket", "trace/spanbucket.go")]),
P("C15", "Exporter registration and configuration updates take effect as documented",
  "The set of trace exporters that receive spans is exactly the registered and not yet unregistered ones, with duplicates registered once. Applying a configuration changes only the fields that are set (non-nil sampler or generator, positive limits) and leaves every other setting as it was.",
  ["histories", "configurations", "inputs"], "every sequence of register/unregister over two exporters; every configuration value",
  "tests use one or two calls",
  ["trace/export.go", "trace/config.go"], [("RegisterExporter/UnregisterExporter", "trace/export.go"), ("ApplyConfig", "trace/config.go")]),
P("C16", "Tags survive the wire and local-only tags never leave the process",
  "Decoding the encoding of a tag map yields exactly its tags that are marked for unlimited propagation, with the same keys and values, whatever the iteration order; tags restricted to the local process never occur in the encoding. The wire form is the documented one: version zero, then type, length-prefixed key and length-prefixed value per tag.",
  ["inputs"], "every map of up to the stated number of tags with every valid key and value of the stated lengths (boundary lengths 127/128/255 included) and both propagation settings",
  "tests use a few constant maps; length-prefix boundaries and mixes of metadata are not covered",
  ["tag/map_codec.go", "tag/metadata.go"], [("Encode/Decode", "tag/map_codec.go")]),
P("C17", "Decoding tags from untrusted bytes is total and all-or-nothing",
  "No byte string makes the tag decoders panic, read outside the input or run forever. A decode either fails and yields no map, or yields only valid keys and values (printable ASCII, at most 255 bytes, non-empty key) taken from the input in order, the last occurrence of a key winning.",
  ["inputs"], "every byte string up to the stated length, including every varint length prefix",
  "tests have no malformed length prefixes; the failing inputs are one in 2^64",
  ["tag/map_codec.go", "tag/validate.go"], [("readBytesWithVarintLen", "tag/map_codec.go"), ("DecodeEach", "tag/map_codec.go")]),
P("C18", "Tag mutators do what they say and never touch the parent context's tags",
  "Starting from any tag map, insert adds only missing keys, update changes only existing ones, upsert sets, delete removes, applied in order; the derived context sees exactly the result and the parent context's tags are unchanged. If any mutator is given an invalid value the call fails and returns the original context.",
  ["inputs", "histories"], "every sequence of mutators of the stated length over symbolic keys and values with every aliasing pattern of the keys",
  "tests list about a dozen sequences",
  ["tag/map.go", "tag/context.go"], [("New", "tag/map.go"), ("Mutate", "tag/map.go")]),
P("C19", "Only valid keys and values ever enter a tag map",
  "A tag key is accepted exactly when it is 1 to 255 bytes of printable ASCII, a value exactly when it is at most 255 bytes of printable ASCII; everything else is refused with an error, or a panic for the must-variant, by every operation that takes keys or values.",
  ["inputs"], "every byte string of the stated lengths, including 0, 255 and 256",
  "tests try a few strings; each byte value at each position matters",
  ["tag/validate.go", "tag/key.go", "tag/map.go"], [("checkKeyName/checkValue", "tag/validate.go")]),
P("C20", "Distribution aggregation counts every value once, in the right bucket",
  "After recording any sequence of values under a distribution view the count equals the number of values, the bucket counts add up to it, each value is counted in the bucket its bounds delimit, and minimum and maximum are the true extremes. The mean and the sum of squared deviations are those of the recorded values up to rounding.",
  ["inputs", "histories"], "every sequence of up to the stated number of finite float64 values and every bucket-bound vector up to the stated length",
  "tests record fixed values; boundary equality and negative values need all floats",
  ["stats/view/aggregation_data.go", "stats/view/aggregation.go"], [("DistributionData.addSample", "stats/view/aggregation_data.go")]),
P("C21", "Count, sum and last-value rows are grouped by exactly the view's tag values",
  "Every recorded measurement contributes to exactly one row of each subscribed view of its measure: the row whose tags are the recording context's values for the view's keys. Count, sum and last value of the row are those of its measurements, and two different combinations of tag values (an absent tag and an empty value count as the same) are never merged or confused, whatever bytes they contain and however long they are.",
  ["inputs", "histories"], "every pair or triple of recordings with symbolic tag presence and values of the stated lengths; every measurement value",
  "tests use distinct short values; collisions between encodings need adversarial values",
  ["stats/view/collector.go", "internal/tagencoding/tagencoding.go", "stats/view/aggregation_data.go"], [("encodeWithKeys/decodeTags", "stats/view/collector.go"), ("Values.WriteValue/ReadValue", "internal/tagencoding/tagencoding.go")]),
P("C22", "Retrieved view data is a private snapshot",
  "Rows returned to a reader or handed to an exporter never change after they were returned, no matter what is recorded later. Modifying a row's data or tags does not affect the library's own data or the rows returned by another retrieval.",
  ["histories", "inputs"], "every aggregation type; recordings before, between and after two retrievals; caller writes into everything reachable",
  "tests inspect a snapshot once, immediately",
  ["stats/view/aggregation_data.go", "stats/view/collector.go", "stats/view/worker_commands.go"], [("clone", "stats/view/aggregation_data.go"), ("collectedRows", "stats/view/collector.go")]),
P("C23", "View registration is validated, idempotent and conflict-free",
  "A registration call with an invalid view fails and changes nothing about which views are collected; a different view under an existing name is refused, with the existing view and its data kept and the other views of the call registered; the same view again is accepted without losing data. Unregistering stops collection and forgets the view's data, and a view is found exactly while it is registered.",
  ["histories", "inputs"], "every sequence of the stated length over register, unregister, record, find and retrieve on two views whose definitions may coincide",
  "tests cover single transitions",
  ["stats/view/worker.go", "stats/view/worker_commands.go", "stats/view/view.go"], [("tryRegisterView", "stats/view/worker.go"), ("registerViewReq/unregisterFromViewReq", "stats/view/worker_commands.go")]),
P("C24", "A recording reaches every collected view of its measures, all-or-nothing",
  "Recording collected measures with tag mutators either applies all measurements under the derived tags, or, when a mutator fails, returns the error and records nothing. Measurements of measures no view collects are ignored, every other measurement of a call is counted once in each view of its measure at the given recorder only, and attachments become the exemplar of the value's bucket.",
  ["inputs", "histories"], "every combination of valid and invalid mutators, collected and uncollected measures and values",
  "tests use fixed combinations",
  ["stats/record.go", "stats/measure.go", "stats/view/worker_commands.go"], [("RecordWithOptions", "stats/record.go"), ("recordReq", "stats/view/worker_commands.go")]),
P("C25", "Views convert to metrics without changing meaning",
  "The metric read for a view has the view's name, description and unit, one series per row with label values in the order of the label keys (absent tags marked absent), a cumulative or gauge type matching the aggregation and measure, and a point equal to the row's data; distributions keep count, sum, bounds and bucket counts consistent.",
  ["inputs", "configurations"], "every aggregation and measure type; symbolic values, tags and bounds",
  "tests compare one metric per kind",
  ["stats/view/view_to_metric.go", "stats/view/aggregation_data.go"], [("viewToMetric", "stats/view/view_to_metric.go"), ("toPoint", "stats/view/aggregation_data.go")]),
P("C26", "Metric label values identify exactly one time series",
  "For a gauge or cumulative, two lookups address the same series exactly when their label values (including absence) are equal, and reading reports each series with exactly the label values it was created with after the constant labels, whatever bytes they contain and however long they are.",
  ["inputs"], "every pair of label value tuples of the stated lengths, including empty, absent and 255-byte-and-longer values",
  "tests use short distinct strings",
  ["metric/common.go", "internal/tagencoding/tagencoding.go"], [("encodeLabelVals/decodeLabelVals", "metric/common.go"), ("WriteValue/ReadValue", "internal/tagencoding/tagencoding.go")]),
P("C27", "Cumulatives never decrease and lose no increments",
  "A cumulative metric's value never decreases: increments that are not positive numbers leave it unchanged and positive ones are added exactly (as long as the total fits the type). Concurrent increments are all counted, and a concurrent reader sees every existing series with a value that some prefix of the increments explains.",
  ["inputs", "schedules"], "every int64/float64 increment; all interleavings of two writers and a reader within the preemption bound",
  "tests run one schedule and a few values",
  ["metric/cumulative.go", "metric/common.go"], [("Int64CumulativeEntry.Inc", "metric/cumulative.go"), ("Float64CumulativeEntry.Inc", "metric/cumulative.go"), ("entryForValues", "metric/common.go")]),
P("C28", "Gauges report the last set or the exact sum of additions",
  "A gauge entry reads as the last value set plus everything added since (a negative total reads as zero), concurrent additions are all counted, a derived gauge reads the callback's current value, and replacing a derived gauge's callback is atomic: a concurrent read sees the old or the new one and never loses the series.",
  ["inputs", "schedules"], "every value; all interleavings of two writers or a replacer and a reader within the preemption bound",
  "tests run one schedule and a few values",
  ["metric/gauge.go", "metric/common.go"], [("Int64GaugeEntry/Float64GaugeEntry", "metric/gauge.go"), ("upsertEntry", "metric/common.go")]),
P("C29", "The metric registry refuses conflicting definitions and reads everything",
  "Adding a metric whose name exists with another kind fails and leaves the existing metric as it was; entries with the wrong number of label values are refused; reading a registry returns each added metric exactly once with its declared name, unit, description, type, keys and constant labels first.",
  ["histories", "inputs", "configurations"], "every sequence of the stated length over the eight kinds and two names",
  "tests exercise single pairs",
  ["metric/registry.go", "metric/common.go"], [("initBaseMetric", "metric/registry.go"), ("Read", "metric/registry.go")]),
P("C30", "Metric export covers every live producer and stops when told to",
  "The producers a reader sees are exactly those added and not deleted, each once. A reader delivers to its exporter the concatenation of what all producers return, an interval reader can be started once, exports periodically only between start and stop, and stopping terminates it without deadlock, also when start and stop race.",
  ["histories", "schedules"], "every sequence of add/delete over two producers; all interleavings of start, stop, ticks within the preemption bound",
  "tests use sleeps and one schedule",
  ["metric/metricproducer/manager.go", "metric/metricexport/reader.go"], [("Manager", "metric/metricproducer/manager.go"), ("IntervalReader", "metric/metricexport/reader.go")]),
P("C31", "HTTP status codes map to the documented trace status",
  "Every HTTP status code maps to the documented trace status code and message: below 200 and from 400 on as listed, 200 to 399 to OK.",
  ["inputs"], "every int status code",
  "a table test lists a few codes",
  ["plugin/ochttp/trace.go"], [("TraceStatus", "plugin/ochttp/trace.go")]),
P("C32", "Wrapping a response writer or body hides and invents no capability",
  "The response writer a handler receives supports exactly the optional capabilities (hijack, push, flush, close-notify, read-from) of the server's writer, and a wrapped response body is writable exactly when the original was; calls go to the original once, with the same arguments and results.",
  ["configurations"], "all 32 combinations of optional interfaces; both body kinds",
  "tests check a few combinations",
  ["plugin/ochttp/server.go", "plugin/ochttp/wrapped_body.go"], [("trackingResponseWriter.wrappedResponseWriter", "plugin/ochttp/server.go"), ("wrappedBody", "plugin/ochttp/wrapped_body.go")]),
P("C33", "The HTTP server handler traces and measures each request exactly once",
  "For every request the wrapped handler runs once, one server span is started with the parent the propagation header gives (as a link instead of a parent for public endpoints) and ended once, also when the handler panics; the span status and the recorded status code are those of the response (its first status that is not informational, 200 if none is written), the route tag is the one set last, and the recorded request/response byte counts, latency and counters are exact. A health-check path is not traced.",
  ["inputs", "configurations", "fault_sequences"], "every remote context or none, status code, write sizes, public/private endpoint, handler outcome",
  "tests cover a few handlers",
  ["plugin/ochttp/server.go"], [("Handler.ServeHTTP/startTrace/startStats", "plugin/ochttp/server.go"), ("trackingResponseWriter.end", "plugin/ochttp/server.go")]),
P("C34", "The HTTP client transport traces and measures each request exactly once",
  "A request through the client transport is sent once with the span's propagation headers added to a copy, the caller's request is unchanged, the span ends exactly once (on transport error, end of body or close), and its status reflects the response. The response the caller reads is byte-identical, and each request is counted once with exact sizes: the request's declared length (0 without a body), and the bytes read from the response (its declared length if nothing was read).",
  ["inputs", "fault_sequences", "histories"], "every status code, transport error, body read sequence of the stated length ending in data, EOF, error or close",
  "tests cover a few sequences",
  ["plugin/ochttp/client.go", "plugin/ochttp/trace.go", "plugin/ochttp/client_stats.go"], [("traceTransport.RoundTrip", "plugin/ochttp/trace.go"), ("bodyTracker", "plugin/ochttp/trace.go"), ("statsTransport.RoundTrip/tracker", "plugin/ochttp/client_stats.go")]),
P("C35", "gRPC handlers propagate context and account every RPC once",
  "A client RPC carries its span context and propagatable tags in its metadata and a server RPC adopts exactly those (as a link for public endpoints); each RPC's span is ended once with a status equal to the RPC's, message and byte counts and the completion are recorded exactly once under the RPC's method and status, also with concurrent events, and malformed metadata and events of RPCs that were not tagged are ignored without failing the RPC.",
  ["inputs", "histories"], "every context, tag value, metadata bytes of the stated length, status code and event sequence of the stated length",
  "tests replay a few event lists",
  ["plugin/ocgrpc/trace_common.go", "plugin/ocgrpc/stats_common.go", "plugin/ocgrpc/client_stats_handler.go", "plugin/ocgrpc/server_stats_handler.go"],
  [("traceTagRPC/traceHandleRPC", "plugin/ocgrpc/trace_common.go"), ("statsHandleRPC", "plugin/ocgrpc/stats_common.go")]),
P("C36", "Resource labels survive text encoding and merging respects precedence",
  "Decoding the text encoding of a non-empty label set (printable ASCII keys of 1 to 256 characters without quotes that do not start with white space, ASCII values of up to 256 characters) yields the same labels; decoding arbitrary text never panics and fails unless the text is a list of keys with quoted values. Merging resources, as the multi-detector does in order until one fails, keeps every label, an earlier resource winning on conflicts, and the first non-empty type; inputs are not modified. The environment detector reports the type and labels of the environment.",
  ["inputs"], "every label map of up to the stated number of entries over printable ASCII of the stated length; every decoder input of the stated length",
  "tests use a few maps; quoting corner cases need all characters",
  ["resource/resource.go"], [("EncodeLabels/DecodeLabels", "resource/resource.go"), ("merge", "resource/resource.go")]),
P("C37", "Sanitised names are valid, bounded and stable",
  "The sanitised form of a name is its first 100 bytes with every character but letters and digits, and every byte that is not part of a whole character, replaced by an underscore, prefixed with 'key_' if that starts with an ASCII digit and with 'key' if it starts with an underscore; an empty name stays empty. It is valid UTF-8 of letters, digits and underscores only, starts with a letter for ASCII names, valid names of up to 100 characters are unchanged, and sanitising again changes nothing unless the result is longer than 100 characters.",
  ["inputs"], "every ASCII string, and every string of arbitrary bytes, up to the stated lengths",
  "tests list a few names",
  ["internal/sanitize.go"], [("Sanitize", "internal/sanitize.go")]),
P("C38", "The zPages show each span where its latency or status puts it",
  "In the trace page every active, latency and error count agrees with the list of spans shown for that cell, a span is in exactly one cell, the one of its state, latency or error, and the list of an error code has the spans that ended with that code. The RPC page shows each called method and direction once, with the exact number of completed and failed calls, their average latency and the rates of calls and of received and sent bytes, each under its heading.",
  ["inputs", "histories"], "every duration and status code; sequences of spans and calls of the stated length; reports between calls",
  "tests check rendering of fixed data",
  ["zpages/tracez.go", "zpages/rpcz.go"], [("getSummaryPageData/traceRows", "zpages/tracez.go"), ("rpcz snapshot", "zpages/rpcz.go")]),
P("C39", "Runtime metrics report the current memory and CPU statistics",
  "With memory or CPU metrics enabled, each read reports the runtime's current statistics under the documented names, in either compatibility mode; enabling replaces the previous producer and disabling removes it, so each metric is reported once. Reads and changes from several goroutines do not race.",
  ["inputs", "configurations", "histories", "schedules"], "every memory-statistics content; all option combinations; enable/disable sequences of the stated length",
  "tests check names, not that values are current",
  ["plugin/runmetrics/producer.go"], [("producer.Read", "plugin/runmetrics/producer.go"), ("Enable/Disable", "plugin/runmetrics/producer.go")]),
P("C40", "Concurrent use of the stats pipeline neither races, deadlocks nor crashes",
  "On a started meter, recording, registering, unregistering, retrieving, finding, configuring, reading metrics and stopping may be called from any goroutines in any order, also after stopping: no call panics, blocks forever or races on memory, data recorded before a retrieval began is in the retrieved rows, and a stopped meter is no longer read.",
  ["schedules", "histories"], "all interleavings of the stated pairs of operations within the preemption bound",
  "tests exercise a few interleavings chosen by the scheduler",
  ["stats/view/worker.go", "stats/view/worker_commands.go"], [("worker.start command loop", "stats/view/worker.go")]),
P("C41", "A span may be used from several goroutines at once",
  "Concurrent attribute, annotation, event, link, status and end calls on one span, and reports on active spans, neither race on memory, deadlock nor panic, and every recorded entry is kept or counted as dropped.",
  ["schedules"], "all interleavings of the stated pairs of operations within the preemption bound",
  "data races and lost updates need particular schedules",
  ["trace/trace.go", "trace/spanstore.go"], [("span.mu", "trace/trace.go"), ("spanStore.mu", "trace/spanstore.go")]),
P("C42", "tag.Do labels the profile of a function with the context's tags",
  "Do calls its function exactly once, with the context it was given, on the caller's goroutine, with every tag of the context as a profiler label (and the labels that were set before kept); it does so without tags too, and a panic of the function reaches the caller.",
  ["inputs", "configurations"], "every tag map of the stated size, no map at all, nested calls, panicking functions",
  "the tests call it with one map",
  ["tag/profile_19.go", "tag/map.go"], [("Do/do", "tag/profile_19.go")]),
P("C43", "Every reporting period exports each view's data to each exporter",
  "At every tick of the reporting period each registered view's rows, as recorded since its registration, are given to each registered exporter once, under the view, with the time of the registration as start and the time of the report as end. Unregistering a view exports what it still holds. Nothing is given to an exporter that is not registered, for a view that is not registered, or by a stopped meter, also when they race with a report. The period is the one set last, ten seconds if it was not positive.",
  ["histories", "schedules", "inputs"], "every sequence of the stated length of registrations, recordings and ticks over two views and two exporters; every duration; registrations racing with a report",
  "tests register one exporter and wait for a tick",
  ["stats/view/worker.go", "stats/view/worker_commands.go", "stats/view/export.go", "stats/view/view.go"], [("worker.reportUsage/reportView", "stats/view/worker.go"), ("setReportingPeriodReq", "stats/view/worker_commands.go")]),
P("C44", "Meters of one process are independent of each other",
  "What is done to one meter (registering and unregistering views, recording, setting the resource or the period, registering exporters, stopping) is seen on that meter only: another meter and the package's own keep their views, data, resource, exporters and goroutine, and each meter's metrics are read as long as it runs.",
  ["histories", "inputs"], "every sequence of the stated length of seven operations over two meters and the package's own, on views of one name",
  "tests use one meter at a time",
  ["stats/view/worker.go", "stats/record.go"], [("NewMeter/Start/Stop", "stats/view/worker.go"), ("RecordWithOptions", "stats/record.go")]),
P("C45", "Connection events of a request annotate its span, once each",
  "The client trace made by NewSpanAnnotatingClientTrace turns each event it is told into one annotation of the request's span, in order, with the event's name and exactly the event's attributes, the error only if there is one and the idle time only of an idle connection. The transport makes one client trace for each request, with the request's span.",
  ["inputs", "histories"], "every sequence of the stated length of the 14 events with symbolic arguments and errors",
  "the test runs one request against a local server, which has few of the events",
  ["plugin/ochttp/span_annotating_client_trace.go", "plugin/ochttp/trace.go"], [("spanAnnotator", "plugin/ochttp/span_annotating_client_trace.go")]),
P("C46", "The text of the trace page shows all of a span, in order of time",
  "For each span of the cell asked for, the trace page shows its trace id, span id and parent, its duration if it ended, its status if it has one, its attributes sorted by key and its annotations and message events in the order of time with the time since the previous one, each on a row of its own of at most 1024 characters of text; asking for any cell of any name fails never.",
  ["inputs", "histories"], "every combination of parent, status, attributes and up to the stated number of events with gaps from microseconds to days; every requested type and subtype",
  "the test renders one span",
  ["zpages/tracez.go"], [("traceRows/writeTextTraces", "zpages/tracez.go"), ("traceSpans", "zpages/tracez.go")]),
P("C47", "Span handles and package functions pass on exactly what they are given",
  "Each method of a span handle calls the same method of the span behind it once with the same arguments, changing methods only while that span records events, and does nothing on a nil handle. Each package function that starts, stores or finds spans asks the default tracer once with the same arguments and returns its results; a stored span is found again in the context and those derived from it, whatever is behind it, and its context is the parent of spans started there.",
  ["inputs", "histories"], "every sequence of the stated length of operations with symbolic arguments, recording or not, nil or not",
  "the tests use the package's own spans",
  ["trace/trace_api.go", "trace/trace.go"], [("Span", "trace/trace_api.go"), ("DefaultTracer", "trace/trace_api.go")]),
P("C48", "Measures of one name are one measure",
  "Measures made with the same name share the name, description and unit they were first made with, whatever their type, and a measurement of any of them reaches the views of any of them and of no other measure, also when they are made by several goroutines; a measurement has the value and the measure it was made from.",
  ["histories", "inputs", "schedules"], "every sequence of the stated number of measures with symbolic names, descriptions and units; two goroutines",
  "tests use distinct names",
  ["stats/measure.go", "stats/measure_int64.go", "stats/measure_float64.go", "stats/record.go"], [("registerMeasureHandle", "stats/measure.go")]),
P("C49", "A call through several processes is one trace",
  "Over HTTP with any of the propagation formats and over gRPC, in any order, the spans on both sides of each hop belong to one trace, each the child of its caller's, sampled or not as a whole, and every span of a sampled trace is exported once; tags follow over gRPC, the tracestate over W3C headers, and a public endpoint starts a trace of its own that links its caller.",
  ["configurations", "inputs"], "every combination of the stated number of hops over five transports, every trace id, sampled or not",
  "tests check one hop of one kind with the ids of one run",
  ["plugin/ochttp/trace.go", "plugin/ochttp/server.go", "plugin/ocgrpc/trace_common.go", "plugin/ochttp/propagation/b3/b3.go", "plugin/ochttp/propagation/tracecontext/propagation.go", "exporter/stackdriver/propagation/http.go"], [("traceTransport.RoundTrip", "plugin/ochttp/trace.go"), ("Handler.startTrace", "plugin/ochttp/server.go")]),
P("C50", "The predefined HTTP and gRPC views show every request as described",
  "The predefined views of the HTTP and gRPC plugins can be registered together, and then show the traffic as they are described, under the documented tags: every started request or call is counted once, every completed one once under its method and status (the status code, or 'error' for an HTTP request that got no response), and the sizes, message counts and latency of each completed one are distributed once, in the buckets they belong to.",
  ["inputs", "histories"], "every request history of the stated length over methods, bodies, status codes, latencies and ways to end",
  "tests check the definitions of a few views, or the totals of one exchange",
  ["plugin/ochttp/stats.go", "plugin/ochttp/client_stats.go", "plugin/ochttp/server.go", "plugin/ocgrpc/client_metrics.go", "plugin/ocgrpc/server_metrics.go", "plugin/ocgrpc/stats_common.go"], [("statsTransport.RoundTrip", "plugin/ochttp/client_stats.go"), ("trackingResponseWriter.end", "plugin/ochttp/server.go"), ("handleRPCEnd", "plugin/ocgrpc/stats_common.go")]),
P("C51", "A metric point delivers the value it was made with to its readers",
  "A point hands its reader the value and time it was made with, exactly once and as the kind it is, and refuses values of no kind. The exporter for tests has, after a read, the value of everything recorded before it, and returns for a metric name and labels the last point of exactly that series, or none.",
  ["inputs", "histories"], "every value of the four kinds; every pair of exported series and every question with labels of the stated lengths",
  "tests read one point of each kind and ask for the labels they exported",
  ["metric/metricdata/point.go", "metric/test/exporter.go"], [("Point.ReadValue", "metric/metricdata/point.go"), ("labelSignature", "metric/test/exporter.go")]),
]
