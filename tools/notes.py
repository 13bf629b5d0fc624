# The oracle of each property (used by gen.py for DESIGN.md).
NOTES = {
"C01": "the encoding's documented layout, written out in the harness; decode is compared with a field-by-field reference parser.",
"C02": "round trip, and a reference acceptance condition (section lengths, hexadecimal digits, version, zero ids) evaluated on the same symbolic bytes.",
"C03": "round trip entry by entry; a reference parser for members, whitespace and limits on the same symbolic bytes.",
"C04": "round trip; a reference acceptance and padding rule on the same symbolic bytes.",
"C05": "a reference construction of the entry list; earlier states and the caller's slice are compared again after later builds.",
"C06": "round trip (decimal conversion of all 64-bit span ids executed from strconv's source); reference acceptance rule.",
"C09": "relational: two evaluations on the same trace id with ordered fractions.",
"C10": "pairwise distinctness and non-zero assertions over a fully symbolic seed.",
"C12": "a reference newest-n list with drop counters.",
"C14": "a reference list of spans with their start, end and status; bucket bounds from the documentation.",
"C16": "round trip, and the documented byte layout produced by the harness.",
"C17": "a reference decoder over the same symbolic bytes; any panic is a violation.",
"C20": "a reference count, bucket, min, max computed on the same symbolic floats; the mean and sum of squared deviations where they are exact.",
"C21": "a reference grouping by exact tag values.",
"C40": "no panic, no race, no deadlock on any explored schedule; the recorded data must be in the rows retrieved afterwards.",
"C41": "no panic, no race, no deadlock; kept plus dropped entries equal the recorded ones.",
"C31": "the documented table, written out in the harness.",
"C32": "recording writers for all 32 interface sets; the wrapped value is asked for each interface and each call's arguments and results are compared.",
"C33": "a reference account of the response (first final status, bytes, route) against the exported span and the registered views' rows.",
"C34": "a reference account of the exchange against the exported span, the request the transport got and the registered views' rows.",
"C35": "the two handlers are connected by moving the metadata; a reference account of spans, tags, counts and sizes.",
"C36": "round trip; a reference grammar on the same symbolic bytes; a reference merge.",
"C37": "a reference sanitiser on the same symbolic bytes.",
"C38": "a reference list of spans and calls against the parsed text pages.",
"C39": "a table of the documented metric names with the statistic each one reports.",
"C42": "a count of calls, the context, and the labels read back inside the function.",
"C43": "a reference state per view and exporter; every exported record is compared with the state before or after the operation it was exported in.",
"C44": "a reference state per meter, all compared after every operation on any of them.",
"C45": "a table of the documented names and attributes of the 14 events.",
"C46": "the rows a span should have, written by the harness from its own record of the operations.",
"C47": "a recording implementation of the span and tracer interfaces behind the handle.",
"C48": "a reference list of first definitions.",
"C50": "the list of requests or calls made by the harness, grouped by the tags of each row and put in the buckets of the view by hand, against the rows retrieved.",
"C49": "the chain of span contexts noted by the wire between the two sides, against the exported spans.",
"C51": "the list of exported series compared label by label; sums kept by the harness.",
}
