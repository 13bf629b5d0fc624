# Harnesses per property (see gen.py).
def H(pkg, fn, bounds, time=60, ttime=None, params=None, thorough=None, covers=(), only=""):
    return dict(pkg=pkg, fn=fn, bounds=bounds, time=time, ttime=ttime or 240, params=params or {}, thorough=thorough or {},
                covers=list(covers), only=only)

CHECKS = {
"C01": dict(harnesses=[
    H("prop", "HBinaryRoundtrip", "every 16-byte trace id, 8-byte span id and 32-bit option word", covers=["empty", "roundtrip"]),
    H("prop", "HBinaryDecode", "every byte string of 0..31 bytes", params=dict(n=31), thorough=dict(n=40), covers=["rejected", "accepted"]),
  ], outside="byte strings longer than the bound (bytes after the last known field are never inspected)"),

"C02": dict(harnesses=[
    H("prop", "HTraceparentRoundtrip", "every valid span context (all id bytes, 32-bit options)", covers=["roundtrip"]),
    H("prop", "HTraceparentDecode", "four-section headers with version 0..2 or symbolic, id and flag bytes symbolic at every position, section lengths off by one, up to 2 extra sections", time=120, ttime=300, covers=["bad shape", "not hex", "version 255", "zero id", "accepted"]),
    H("prop", "HTraceparentShort", "every header of 0..7 bytes; absent and repeated headers", params=dict(n=7), thorough=dict(n=10), covers=["short", "repeated"]),
  ], outside="malformed headers with more than two irregularities at once; request metadata beyond the two headers"),
"C03": dict(harnesses=[
    H("prop", "HTracestateRoundtrip", "up to 2 entries, keys of 1..3 and values of 1..2 arbitrary valid bytes", thorough=dict(entries=3), covers=["written"]),
    H("prop", "HTracestateDecode", "every header of 0..5 bytes on one line plus 0..1 on a second", params=dict(n=5, n2=1), thorough=dict(n=6, n2=2), ttime=400, covers=["ignored", "accepted"]),
    H("prop", "HTracestateMembers", "up to 2 list members with optional whitespace, symbolic keys and values", covers=[]),
    H("prop", "HTracestateLimits", "headers around the 512 character and 32 entry limits", covers=["too many", "too long", "fits"]),
  ], outside="longer symbolic headers (lengths near the limits are explored with constant bytes)"),
"C04": dict(harnesses=[
    H("prop", "HB3Roundtrip", "every span context", covers=["roundtrip"]),
    H("prop", "HB3Decode", "trace and span id headers absent or of 0..max+2 symbolic bytes, sampled header of 0..3 symbolic bytes", covers=["bad length", "not hex", "accepted"]),
  ], outside="ids longer than the maximum by more than two characters"),
"C05": dict(harnesses=[
    H("prop", "HTSEntryValid", "keys of 0..4 and values of 0..3 arbitrary bytes", covers=["valid", "invalid"]),
    H("prop", "HTSEntryLong", "keys and values around their length limits with one symbolic byte", covers=["long"]),
    H("prop", "HTSNew", "parents of 0..2 and 0..2 new entries with symbolic keys and values, second child and input mutation afterwards", covers=["duplicate", "override", "built", "immutable"]),
    H("prop", "HTSLimit", "parents and additions around 32 entries", covers=["too many", "fits"]),
  ], outside="more than two symbolic entries on either side"),
"C06": dict(harnesses=[
    H("prop", "HCloudRoundtrip", "every span context (span ids as decimal over all 64 bits)", covers=["roundtrip"], time=120, ttime=300),
    H("prop", "HCloudDecode", "trace id sections with up to 4 symbolic bytes, span sections of 0..3 and option sections of 0..3 symbolic bytes", covers=["no slash", "bad field", "accepted"]),
    H("prop", "HCloudLimits", "maximal lengths, overflowing decimals, trailing garbage", covers=["long", "max"]),
  ], outside="span sections of more than three symbolic characters (boundary decimals are explored as constants)"),
"C16": dict(harnesses=[
    H("tags", "HWireRoundtrip", "up to 2 tags, keys of 1..2 and values of 0..1 printable bytes, both propagation settings, every map order", thorough=dict(tags=3), covers=["local", "propagated"]),
    H("tags", "HWireLong", "key and value lengths 1, 127, 128, 255", covers=[]),
  ], outside="more tags; longer symbolic keys (long ones are constant except for one byte)"),
"C17": dict(harnesses=[
    H("tags", "HDecodeAny", "every byte string of 0..9 bytes", params=dict(n=9), thorough=dict(n=12), ttime=500, covers=["rejected", "accepted", "tags"]),
    H("tags", "HDecodeVarint", "every 10-byte varint prefix (all 64-bit lengths and overlong encodings) followed by up to 2 bytes", covers=["rejected"]),
  ], outside="longer inputs with several large tags"),
"C18": dict(harnesses=[
    H("tags", "HMutate", "parent with 0..1 tags or none, up to 2 mutators over symbolic keys and values", thorough=dict(np=2, ops=3), ttime=500, covers=["invalid value", "applied"]),
  ], outside="longer mutator sequences"),
"C19": dict(harnesses=[
    H("tags", "HValid", "every byte string of 0..4 bytes", params=dict(n=4), thorough=dict(n=6), covers=["valid", "invalid"]),
    H("tags", "HValidLong", "lengths around 255 with a symbolic byte at symbolic positions", covers=["valid", "invalid"]),
  ], outside="several invalid bytes in long strings"),

"C07": dict(harnesses=[
    H("tr", "HStart", "six parent kinds (none, nil span, remote, local root, local child of remote, remote plus unrelated local), all ids, option words, sampler answers, both storage modes, three span kinds, names of 0..1 bytes", params=dict(prop=7), covers=["parent", "root", "exported", "sampler asked", "decision inherited"]),
  ], outside="deeper chains of spans (each step only sees its direct parent); tracestates other than absent or two entries"),
"C08": dict(harnesses=[
    H("tr", "HStart", "six parent kinds, all ids, option words, sampler answers, both storage modes, names of 0..1 bytes", params=dict(prop=8), covers=["parent", "root", "exported", "not exported", "sampler asked", "decision inherited"]),
  ], outside="samplers with side effects on the span"),
"C09": dict(harnesses=[
    H("tr", "HProbability", "every pair of float64 fractions, every trace id and parent", covers=["compared"]),
    H("tr", "HProbabilitySame", "every float64 fraction, every trace id, arbitrary other parameters", covers=["compared"]),
  ], outside="nothing beyond the harness shape (all values are symbolic)"),
"C10": dict(harnesses=[
    H("tr", "HIDs", "every random seed (all generator bytes), 4 successive spans", thorough=dict(n=8), covers=["ids"]),
    H("tr", "HIDsConc", "two goroutines starting the first spans of a process, up to 2 preemptions", thorough=dict(preempt=3), covers=["ids"]),
  ], outside="more than the stated number of successive ids (distinctness over a full cycle is a number-theoretic claim); freshness of trace ids, which rests on the random source"),
"C11": dict(harnesses=[
    H("tr", "HEndSeq", "every sequence of up to 4 end/rename/status calls with symbolic contents, symbolic ids and times", thorough=dict(ops=5), covers=["exported", "unsampled"]),
    H("tr", "HEndConc", "two concurrent ends with a concurrent change, one or two exporters, up to 2 preemptions", thorough=dict(preempt=3), covers=["sampled"]),
    H("tr", "HEndExporters", "every sequence of up to 4 ends, registrations, unregistrations and attributes, two exporters", params=dict(prop=11), thorough=dict(ops=5), ttime=300, covers=["exported", "nobody there"]),
  ], outside="more goroutines or preemptions"),
"C12": dict(harnesses=[
    H("tr", "HLimitAttrs", "limits 1..3, up to 4 writes with symbolic 1-byte keys and values", thorough=dict(ops=6), covers=["dropped", "all kept"]),
    H("tr", "HLimitAttrs", "the same in a single call", params=dict(batch=1), covers=["dropped", "all kept"]),
    H("tr", "HLimitAttrs", "limits 1..2, up to 3 writes with active-span reports in between, every map order", params=dict(report=1, limit=2, ops=3), thorough=dict(limit=3, ops=4), covers=["dropped", "all kept"]),
    H("tr", "HLimitQueues", "limits 1..3, up to 6 annotations, message events or links with symbolic values", thorough=dict(limit=5, ops=12), covers=["dropped"]),
  ], outside="larger limits and longer sequences"),
"C13": dict(harnesses=[
    H("tr", "HContent", "all attribute kinds and values, texts of 0..2 bytes, all ids, sizes, status codes and times", covers=["content"]),
    H("tr", "HNoop", "nil and unsampled spans, every operation", covers=["noop"]),
    H("tr", "HReportKept", "up to 3 active reports of one span with 0..2 entries of every kind added before each, limits 1..3, its export and the entries added too late", covers=["kept"]),
  ], outside="longer texts; maps shared by the caller through link attributes"),
"C14": dict(harnesses=[
    H("tr", "HRange", "every duration and every closed latency range", covers=["queried"]),
    H("tr", "HActive", "every sequence of up to 5 start/end/rename steps over two names", thorough=dict(ops=6), covers=["active"]),
    H("tr", "HRing", "bucket sizes 0..3, two resizes, up to 4 spans in between", thorough=dict(rounds=4, spans=4), covers=["resized"]),
    H("tr", "HActiveConc", "two goroutines starting and ending spans of the same or another name, new or known, up to 2 preemptions", covers=["concurrent"]),
    H("tr", "HClamp", "configured sizes -1..12, default size", covers=["clamped"]),
    H("tr", "HStore", "up to 2 spans with every duration, gap and status code, sizes 0..2, one resize", time=180, covers=["latency", "error"]),
    H("tr", "HStore", "up to 3 spans, short or 1-10 s", params=dict(spans=3, classes=1), ttime=300, only="thorough", covers=["latency", "error"]),
  ], outside="more spans; durations above 2^40 ns"),
"C15": dict(harnesses=[
    H("tr", "HExporters", "every sequence of up to 4 register/unregister calls over two exporters", thorough=dict(ops=6), covers=["sequence"]),
    H("tr", "HExportersConc", "two concurrent registry changes, up to 2 preemptions", thorough=dict(preempt=3), covers=["concurrent"]),
    H("tr", "HExportersEnd", "a span ending while an exporter is registered or unregistered, one or two exporters, up to 2 preemptions", thorough=dict(preempt=3), covers=["ended"]),
    H("tr", "HConfig", "one configuration with any subset of fields, one symbolic limit", thorough=dict(updates=2), covers=["limits"]),
    H("tr", "HConfigConc", "two concurrent updates of different fields, symbolic limits, up to 2 preemptions", thorough=dict(preempt=3), covers=["concurrent"]),
    H("tr", "HConfigDefaults", "the default limits", covers=["defaults"]),
  ], outside="longer sequences"),
"C41": dict(harnesses=[
    H("tr", "HSpanConc", "every pair of 12 operations on one span from two goroutines, limits 1..2, up to 2 preemptions", time=200, thorough=dict(preempt=3), ttime=600, covers=["used"]),
  ], outside="more goroutines, operations or preemptions"),

"C20": dict(harnesses=[
    H("vw", "HDist", "1..2 strictly increasing symbolic float64 bounds and 1..2 symbolic finite float64 values", thorough=dict(n=3, bounds=3), ttime=300, covers=[]),
    H("vw", "HDistMean", "up to 3 values from a range of multiples of 4 (mean and squared deviations exact)", covers=[]),
    H("vw", "HDistMeanSym", "2 symbolic 4-bit values", time=120, covers=[]),
  ], outside="more values or bounds; NaN and infinities; rounding of the mean beyond small integers"),
"C21": dict(harnesses=[
    H("vw", "HRows", "1..2 recordings with two tags of 0..2 symbolic bytes each, count/sum/last-value, symbolic 32-bit measurements", params=dict(len=2), thorough=dict(len=3), covers=["several rows", "one row"]),
    H("vw", "HRows", "1..3 recordings with tags of 0..1 symbolic bytes", params=dict(n=3), thorough=dict(n=4), covers=["several rows", "one row"]),
    H("vw", "HRows", "1..2 recordings with a third tag and explicitly empty values", params=dict(third=1, empty=1), thorough=dict(n=3), covers=["several rows", "one row"]),
    H("vw", "HRowsLong", "values of 0, 1, 2, 127, 128, 254, 255 bytes with a symbolic last byte", covers=["several rows"]),
  ], outside="more recordings or keys; longer symbolic values"),
"C22": dict(harnesses=[
    H("vw", "HSnapshot", "four aggregations, three recordings, retrievals in between, writes into every returned row, export on unregister", covers=["snapshots", "exported"]),
  ], outside="the values of attachments, which the caller owns"),
"C23": dict(harnesses=[
    H("vw", "HRegister", "every sequence of 3 operations (register one or two views, same, conflicting, invalid; unregister; record) over three names, every query after every step, symbolic measurements", thorough=dict(ops=4), ttime=400, covers=["conflict", "invalid", "unregistered"]),
    H("vw", "HSameView", "two definitions of one name over all aggregations, two measures and up to 2 (3 in thorough) symbolic bounds 0..7", params=dict(bounds=2), thorough=dict(bounds=3), ttime=400, covers=["same", "different"]),
    H("vw", "HInvalid", "missing measure or aggregation, every pair of float64 bounds, names of 250..260 bytes, every byte at each position of a 4-byte name; alone or with a valid view, which may be registered already", covers=["invalid", "valid"]),
  ], outside="longer histories; views changed by the caller while registered"),
"C24": dict(harnesses=[
    H("vw", "HRecord", "all three recording functions, default recorder or a meter, context tags or none, six mutator lists with symbolic invalid bytes, eight measurement lists with collected and uncollected measures, one or two calls, attachments", covers=["recorded", "refused", "exemplar"]),
  ], outside="longer lists and mutator sequences"),
"C25": dict(harnesses=[
    H("vw", "HMetric", "four aggregations, both measure types, five units, up to 2 recordings with symbolic values and one symbolic tag byte", time=120, ttime=400, thorough=dict(n=3), covers=["metric", "two series"]),
    H("vw", "HMetricResource", "a meter with or without a resource", covers=["meter"]),
  ], outside="more rows; sums of distributions beyond small integers"),
"C40": dict(harnesses=[
    H("vw", "HMeterConc", "all 65 pairs of 11 operations on one started meter from two goroutines plus its worker, up to 1 preemption (2 in thorough) and every blocking order, symbolic measurements", params=dict(preempt=1), thorough=dict(preempt=2), time=120, ttime=700, covers=["used", "stopped"]),
    H("vw", "HMeterStop", "start, stop and a second stop, registration, recording or retrieval racing, up to 1 preemption (2 in thorough)", params=dict(preempt=1), thorough=dict(preempt=2), time=120, ttime=700, covers=["stopped"]),
  ], outside="more goroutines, operations or preemptions; exporters that call back into the meter; meters never started"),

"C26": dict(harnesses=[
    H("mt", "HLabels", "two series of all eight kinds with 0..2 constant and 1..2 own labels, values absent or of 0..1 symbolic bytes", thorough=dict(len=2), time=120, ttime=400, covers=["same", "different"]),
    H("mt", "HLabelsLong", "values of 0, 1, 127, 128, 254, 255, 256, 300 bytes with a symbolic last byte", covers=["same", "different"]),
    H("mt", "HLabelsConc", "two goroutines addressing series of one metric with 0..3 constant labels, up to 2 preemptions, symbolic labels", covers=["concurrent"]),
  ], outside="more labels; longer symbolic values; label values replaced by the caller inside the constant label map afterwards"),
"C27": dict(harnesses=[
    H("mt", "HCumInt", "up to 3 increments over all int64 whose total does not overflow, read after each", thorough=dict(n=5), covers=["positive", "not positive"]),
    H("mt", "HCumFloat", "up to 2 increments over all float64 (NaN and infinities included)", covers=["positive", "not positive"], time=120),
    H("mt", "HCumConc", "two incrementing goroutines and a reader, integer and float, series existing or not, symbolic increments, up to 1 preemption (2 in thorough)", params=dict(preempt=1), thorough=dict(preempt=2), ttime=400, covers=["concurrent"]),
  ], outside="totals that overflow int64; more goroutines or preemptions"),
"C28": dict(harnesses=[
    H("mt", "HGaugeInt", "1..3 set or add operations over all int64", thorough=dict(n=5), covers=["add", "set"]),
    H("mt", "HGaugeFloat", "1..3 set or add operations over all float64 that are not NaN", covers=["add", "set"], time=120),
    H("mt", "HGaugeConc", "two adding or setting goroutines and a reader, symbolic values, up to 2 preemptions", thorough=dict(preempt=3), covers=["concurrent"]),
    H("mt", "HDerived", "four derived kinds, callbacks replaced, every value they return, nil callbacks", covers=["derived"]),
    H("mt", "HDerivedConc", "a callback replaced while another goroutine reads, four kinds, symbolic values, up to 2 preemptions", thorough=dict(preempt=3), covers=["concurrent"]),
  ], outside="more goroutines or preemptions; callbacks that use the registry"),
"C29": dict(harnesses=[
    H("mt", "HRegistry", "every sequence of two additions over eight kinds, five key shapes with symbolic one-byte names, descriptions, units, keys and label values, with or without a series", time=150, ttime=400, covers=["added", "conflict", "constant labels", "redefined"]),
    H("mt", "HRegistrySeq", "every sequence of three additions over eight kinds and two names", covers=["conflict", "redefined"], thorough=dict(n=4), ttime=400),
  ], outside="longer sequences; additions from several goroutines (excluded by the documentation); what a second definition of the same kind does to the first metric's series"),
"C30": dict(harnesses=[
    H("mt", "HManager", "every sequence of 4 additions and deletions over three producers and nil, then one export", covers=["exported"], thorough=dict(n=5)),
    H("mt", "HProducersConc", "two concurrent additions, deletions or listings, up to 2 preemptions", thorough=dict(preempt=3), covers=["raced"]),
    H("mt", "HInterval", "every sequence of 4 of start, stop, flush and tick, every 64-bit interval", thorough=dict(n=5), covers=["started", "too low", "flushed"]),
    H("mt", "HIntervalTicks", "three ticks of a started reader", covers=["ticked"]),
    H("mt", "HIntervalConc", "two of start, stop, flush and a tick racing with the reporting goroutine, up to 1 preemption (2 in thorough)", params=dict(preempt=1), thorough=dict(preempt=2), ttime=400, covers=["raced"]),
    H("mt", "HIntervalPeriod", "every 64-bit interval, set or not", covers=["default", "refused", "set"]),
  ], outside="exporters and producers that block or call back; more goroutines or preemptions"),

"C31": dict(harnesses=[
    H("ht", "HStatus", "every int as status code, with the transport's or the handler's status text", covers=["ok", "unknown", "listed"]),
  ], outside="nothing for status codes"),
"C32": dict(harnesses=[
    H("ht", "HWrap", "all 32 sets of optional interfaces of the server's writer, one operation on the wrapped writer with symbolic bytes, status codes, counts and errors", params=dict(prop=32), covers=["hijack", "closenotify", "push", "flush", "readfrom", "write", "status", "wrapped"]),
    H("ht", "HClientBody", "writable and plain response bodies, 0..3 reads, writes and closes with symbolic counts, errors and bytes", params=dict(prop=32), thorough=dict(steps=4), ttime=400, covers=["ended", "open", "read error"]),
  ], outside="capabilities beyond the five interfaces of net/http and io; more operations on one writer"),
"C33": dict(harnesses=[
    H("ht", "HServer", "every configuration (propagated context or none, public endpoint, sampler, span name and health endpoint functions, per-request options), five paths, symbolic ids and request sizes", params=dict(prop=33), time=120, covers=["health", "child", "linked", "public", "root", "sized body", "unsampled"]),
    H("ht", "HServerOps", "0..3 operations of the handler (status, write, read-from, route, panic), valid and invalid routes, with symbolic statuses and counts", params=dict(prop=33), thorough=dict(ops=4), time=150, ttime=600, covers=["done", "panic", "readfrom", "second status"]),
    H("ht", "HServerTwo", "two requests with symbolic statuses, one set of counters", params=dict(prop=33), covers=["same status", "different status"]),
  ], outside="more operations in one handler; hijacked connections; concurrent writes of one response"),
"C34": dict(harnesses=[
    H("ht", "HClient", "every configuration (parent or none, sampler, span name, health endpoint, trace and propagation options), response statuses, transport errors, symbolic ids and sizes", params=dict(prop=34), time=120, covers=["health", "child", "root", "transport error", "unsampled"]),
    H("ht", "HClientBody", "0..3 reads, writes and closes of the response body with symbolic counts, errors and bytes", params=dict(prop=34), thorough=dict(steps=4), time=120, ttime=400, covers=["ended", "open", "read error"]),
    H("ht", "HClientError", "symbolic transport errors", params=dict(prop=34), covers=["failed"]),
  ], outside="longer read sequences"),
"C35": dict(harnesses=[
    H("rp", "HRpc", "one call through both handlers: tags or none, parent or none, samplers, public endpoint, metadata, symbolic ids, tag bytes and status codes", time=120, covers=["client", "child", "linked", "done"]),
    H("rp", "HRpcIn", "trace metadata of 0..3 and 29 symbolic bytes, tag metadata of 0..6 symbolic bytes, tags of an outer context or none", thorough=dict(n=4, k=7), ttime=400, covers=["adopted", "done"]),
    H("rp", "HRpcUntagged", "every event of an RPC that was not tagged", covers=["ignored"]),
    H("rp", "HRpcStats", "0..3 payload events of symbolic sizes in either direction, both sides, symbolic status codes", time=150, thorough=dict(events=4), ttime=600, covers=["ended"]),
    H("rp", "HRpcPlain", "errors that carry no status", covers=["plain"]),
    H("rp", "HRpcConc", "two concurrent payload events before the end of a call, up to 1 preemption (2 in thorough)", params=dict(preempt=1), thorough=dict(preempt=2), time=120, ttime=600, covers=["concurrent"]),
  ], outside="longer metadata and event sequences; the gRPC library between the two handlers"),
"C36": dict(harnesses=[
    H("res", "HLabels", "1..2 labels, keys of 1..2 and values of 0..3 (0..1 for the second) symbolic bytes", thorough=dict(vlen=4), ttime=600, covers=["roundtrip"]),
    H("res", "HLabelsLong", "keys and values of 255..257 bytes with one symbolic byte", covers=["long"]),
    H("res", "HLabelsAny", "every text of 0..6 bytes", thorough=dict(n=8), ttime=600, covers=["rejected", "accepted"]),
    H("res", "HLabelsForm", "two pairs with symbolic separators, white space and quoted bytes", covers=["duplicate", "form"]),
    H("res", "HMerge", "up to 3 detectors returning resources or none or errors, symbolic types, keys and values", covers=["error", "merged", "nothing"]),
    H("res", "HFromEnv", "types and label texts of the environment with symbolic bytes", covers=["no labels", "labels", "malformed"]),
  ], outside="longer symbolic keys and values; more labels"),
"C37": dict(harnesses=[
    H("res", "HSanitize", "every ASCII string of 0..4 bytes", thorough=dict(n=7), ttime=400, covers=["empty", "digit", "underscore", "plain"]),
    H("res", "HSanitizeLong", "lengths 95..102 with symbolic bytes at both ends", covers=["long", "digit", "plain", "underscore"]),
    H("res", "HSanitizeWide", "characters of ten kinds beyond ASCII and invalid bytes, at the start, inside and across the cut, with symbolic ASCII around", covers=["cut", "digit", "plain"]),
    H("res", "HSanitizeBytes", "every string of 0..2 arbitrary bytes (3 in thorough)", thorough=dict(n=3), ttime=400, covers=["digit", "empty", "plain", "underscore"]),
  ], outside="longer strings of arbitrary bytes"),
"C38": dict(harnesses=[
    H("zp", "HCells", "1 span: every latency below 2^40 ns, every error code, still active; every cell's list and every requested code", params=dict(spans=1), covers=["active", "latency", "error", "one code"]),
    H("zp", "HCells", "2 spans of one or two names: every latency, error code, or still active; every cell's list and every requested code", params=dict(spans=2), time=300, ttime=600, covers=["active", "latency", "error", "one code"]),
    H("zp", "HRpcz", "1 call: two methods, either side, three latencies, every status code up to 16, message sizes", params=dict(calls=1), covers=["error"]),
    H("zp", "HRpcz", "2 calls: two methods, either side, two latencies, three outcomes, a report in between or not", params=dict(calls=2, codes=1, ms=2), thorough=dict(calls=3), time=120, ttime=800, covers=["error", "reported again", "reported between", "two calls of a method"]),
    H("zp", "HRpczConc", "the page read while the views are reported, up to 1 preemption (2 in thorough)", params=dict(preempt=1), thorough=dict(preempt=2), time=120, ttime=400, covers=["shown", "not yet"]),
  ], outside="the HTML rendering of the same data (html/template is built on reflection, which the engine does not encode; the text pages use the same collected data); the text of elapsed times; several spans of a bucket within one second (see C14)"),
"C39": dict(harnesses=[
    H("rm", "HRead", "every statistics content below 2^63 and fraction of 0..1, all options, two reads", thorough=dict(reads=4), covers=["cpu", "cumulative", "gauges", "prefix"]),
    H("rm", "HHistory", "every sequence of 3 enables (all options) and disables", time=120, ttime=600, covers=["disabled twice", "replaced"]),
    H("rm", "HConc", "a read racing with another read, a disable or an enable, up to 1 preemption (2 in thorough)", params=dict(preempt=1), thorough=dict(preempt=2), time=120, ttime=600, covers=["two readers", "disabled", "replaced"]),
    H("rm", "HConcEnable", "two concurrent changes, up to 1 preemption (2 in thorough)", params=dict(preempt=1), thorough=dict(preempt=2), ttime=400, covers=["disable", "enable"]),
  ], outside="statistics of 2^63 and more"),

"C42": dict(harnesses=[
    H("tags", "HDo", "no map, 0..2 tags with symbolic values, nested calls, panicking functions", covers=["no tags", "run", "panic"]),
  ], outside="more tags; what the profiler does with the labels"),
"C43": dict(harnesses=[
    H("vw", "HExport", "every sequence of 4 of twelve operations (two views, one by one or together, two exporters, recordings of symbolic values, ticks), the package's meter or a new one", thorough=dict(n=5), ttime=400, covers=["tick", "stopped"]),
    H("vw", "HExport", "the same after an exporter and a view were registered", params=dict(prefix=1, n=6), thorough=dict(n=7), time=120, ttime=500, covers=["tick", "exported", "pending", "stopped"]),
    H("vw", "HPeriod", "every pair of 64-bit periods", covers=["set", "default"]),
    H("vw", "HExportConc", "a report racing with an exporter or view being unregistered, an exporter being registered, or a stop, up to 1 preemption (2 in thorough)", params=dict(preempt=1), thorough=dict(preempt=2), time=120, ttime=500, covers=["exporter gone", "view gone", "exporter added", "stopped"]),
  ], outside="longer sequences; more views and exporters; exporters that block or call back"),
"C44": dict(harnesses=[
    H("vw", "HMeters", "every sequence of 3 of seven operations on three meters sharing a view, symbolic values and resources", covers=["recorded", "resource", "stopped"], time=120),
    H("vw", "HMeters", "every sequence of 3 after each meter registered a view of its own of the same name", params=dict(own=1, all=1), thorough=dict(ops=4), time=120, ttime=600, covers=["recorded", "resource", "stopped", "exported"]),
    H("vw", "HMetersConc", "two goroutines each register a view with a meter of their own, sharing the view (unsorted keys and bounds) or not, the first registered before or not, up to 1 preemption", params=dict(preempt=1), thorough=dict(kinds=1), time=180, ttime=500, covers=["concurrent"]),
    H("vw", "HMetersConc", "the same over four kinds of view, also recording, no preemption", params=dict(preempt=0, use=1, kinds=1), time=60, covers=["concurrent"]),
  ], outside="longer sequences; more meters or preemptions when used concurrently (see C40 for one meter)"),
"C45": dict(harnesses=[
    H("ht", "HAnnotate", "every sequence of 2 of 14 events with symbolic texts, flags and errors, through the transport", thorough=dict(hooks=3), time=120, ttime=600, covers=["annotated", "error", "idle"]),
  ], outside="longer sequences; events after the span ended (see C13)"),
"C46": dict(harnesses=[
    H("zp", "HRowsText", "active, ended or failed span with or without parent, every listed status, three attribute sets, one event with gaps from 0 to 100000 s, symbolic text", params=dict(events=1), time=120, covers=["annotation", "attributes", "ended", "message", "parent", "status"]),
    H("zp", "HRowsText", "three events of four kinds with three gaps", params=dict(events=3, bare=1, gaps=2), thorough=dict(gaps=4), time=150, ttime=500, covers=["annotation", "message", "ended"]),
    H("zp", "HRowsText", "two spans with one event each", params=dict(spans=2, events=1, bare=1, gaps=1), thorough=dict(events=2), ttime=400, covers=["annotation", "message", "ended"]),
    H("zp", "HRowsTotal", "every 64-bit type and subtype, stored, unknown and empty names, texts around the limit", covers=["cut", "empty"]),
  ], outside="the dates of the rows (time formatting is not encoded); the HTML rendering"),
"C47": dict(harnesses=[
    H("tr", "HSpanAPI", "every sequence of 3 of ten operations with symbolic arguments on a span that records or not, or nil", params=dict(prop=47), thorough=dict(ops=4), ttime=400, covers=["ignored", "passed"]),
    H("tr", "HTracerAPI", "every pair of the four functions with symbolic arguments, contexts and 0..4 options", params=dict(prop=47), covers=["asked"]),
  ], outside="longer sequences (the handle has no state)"),
"C48": dict(harnesses=[
    H("vw", "HMeasures", "3 measures of either type, names, descriptions and units of 0..1 symbolic characters, one recorded before and after a view is registered", params=dict(n=3), time=120, ttime=400, covers=["same name", "seen", "other"]),
    H("vw", "HMeasurement", "every 32-bit and float64 value", covers=["measured"]),
    H("vw", "HMeasuresConc", "two goroutines making, registering and recording measures of the same or different names, up to 2 preemptions", thorough=dict(preempt=3), time=120, ttime=400, covers=["same", "other"]),
  ], outside="more measures; the loss of precision of integers above 2^53"),
"C50": dict(harnesses=[
    H("ht", "HClientViews", "0..2 requests through the transport by two methods, with or without a body of 0, 1023, 1024 or 2^40 bytes, read to the end, left open or failed, three latencies, every status of 200..599; all ten views", params=dict(prop=50), time=150, ttime=500, covers=["completed", "no response"]),
    H("ht", "HServerViews", "0..2 requests to the handler by two methods, with or without a body, 0, 1 or 1024 bytes of response, three latencies, every status of 200..599; all six views, also while a request is under way", params=dict(prop=50), time=150, ttime=500, covers=["served", "under way"]),
    H("rp", "HRpcViews", "1..2 overlapping calls of two methods on either side, 0..2 messages of 0, 1023, 1024 or 2^40 bytes in either direction, every status code, ended or not; all seven views of the side", params=dict(prop=50), time=150, ttime=500, covers=["completed", "under way"]),
  ], outside="longer histories; the view of the server latency seen by clients, which nothing records; the numbers that are the bounds of the default distributions"),
"C49": dict(harnesses=[
    H("hop", "HHops", "one hop over each of five transports, every trace id, sampled or not, from a root span or a remote parent with every trace options byte; the handler's context empty or the caller's", params=dict(hops=1), covers=["http", "grpc", "sampled", "unsampled", "remote"]),
    H("hop", "HHops", "two hops over each pair of four transports (five in thorough), every trace id, symbolic span ids", params=dict(hops=2, kinds=3, ext=0), thorough=dict(kinds=4, ext=1), time=150, ttime=500, covers=["http", "grpc", "sampled", "unsampled"]),
    H("hop", "HHops", "two hops over each pair of five transports, each process passing on the headers or metadata it was called with, fixed ids", params=dict(hops=2, fixed=1, fwd=1), thorough=dict(hops=3), time=100, ttime=500, covers=["http", "grpc", "headers passed on", "metadata passed on"]),
    H("hop", "HHopState", "a W3C hop with a tracestate, public endpoint or not", covers=["public", "followed"]),
  ], outside="longer chains (each hop sees its direct caller only); what a real network does to headers"),
"C51": dict(harnesses=[
    H("mt", "HPoints", "points of all four kinds with every value and time, and of other values", params=dict(prop=51), covers=["float", "integer", "distribution", "summary", "other"]),
    H("mt", "HTestExporter", "2 exports of series with two labels, keys of 1..2 and values of 0..1 symbolic bytes or absent, and a question for any labels", params=dict(prop=51), time=150, ttime=500, covers=["found", "absent"]),
    H("mt", "HTestRead", "0..3 recordings (5 in thorough) under two tag values with reads between them", params=dict(prop=51), thorough=dict(n=5), ttime=300, covers=["read", "nothing recorded"]),
  ], outside="longer labels; metric names with braces"),
}

NOT_APPLICABLE = {}
