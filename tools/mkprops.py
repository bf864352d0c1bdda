#!/usr/bin/env python3
"""Writes properties.jsonl (kept as the readable source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "An upload is accepted whole or rejected whole",
  """A POST to /api/v1/spans (with a JSON content type), /api/v2/spans or /api/jaeger/spans, plain or with
  Content-Encoding gzip, is answered 202 if its body is a complete well-typed document of that endpoint's format, and
  then each of its spans enters processing exactly once, in document order. A body that is truncated, structurally
  broken (a bracket, quote, literal or value is missing or out of place; missing or extra commas and colons are
  tolerated), fails while being read or decompressed before the end of its document, or has a wrong JSON type for a known
  field (null is wrong in v1 and v2, except for ids) is answered 400 and none of its spans enters processing, and so is
  any v1 body without a JSON content type. Whatever follows the end of the document is ignored. This holds for any
  number of simultaneous uploads, and while processing is slow an upload waits rather than losing spans.""",
  ["inputs", "schedules", "fault_sequences"],
  "every document, truncation point, read fault, compression, endpoint and interleaving of concurrent uploads",
  "The tests call the parsers on one valid document each; no test drives the HTTP handlers, gzip, faults or concurrency.",
  ["handlers.go", "codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go"],
  [("parse the whole body before sending the first span", "handlers.go parseSpansWithJSON"),
   ("status from the parse error", "handlers.go handleSpans"), ("gzip wrapper", "handlers.go handleGzipRequestBody")],
  [("spans channel", "spans that entered processing", "main.go httpInputSpans")], ["HTTP status", "input channel"])

p("C02", "Zipkin v1 spans are translated faithfully",
  """Every v1 span becomes one span with the same trace id, span id, parent id (0 if absent or null) and name; its tags
  are its binary annotations (literals rendered as their text, last one wins) plus protocolVersion; its cs/cr/sr/ss
  times are those of its annotations of that name, however many other annotations surround them; its service is the
  first non-empty endpoint service name among its annotations with a timestamp, then its binary annotations. Start and
  duration are cs..cr if both are known, else sr..ss if both are known, else the reported values, and a zero or missing
  duration becomes 1 ms; microseconds become nanoseconds.""",
  ["inputs"], "every v1 document: presence, order, number and kind of annotations, null and absent fields",
  "One example document with two annotations is tested; the case analysis over annotations, services and durations is not.",
  ["codec/json-v1.go"], [("spanV1.ToSpan / fillInTimestamp", "codec/json-v1.go")], (), ["codec.ParseJsonV1"])

p("C03", "Zipkin v2 and Jaeger spans are translated faithfully",
  """Every v2 or Jaeger span becomes one span with the same trace id, span id and name, its service name, start and
  duration in nanoseconds (zero or missing duration becomes 1 ms), its tags plus protocolVersion, and cs/cr (kind
  client) or sr/ss (kind server, case-insensitive) set to start and start+duration, no timing otherwise. A v2 span keeps
  its parent id (0 if absent or null); a Jaeger span's parent is its last CHILD_OF reference, or itself if it has none.
  Jaeger keeps string-valued tags only, renames component to lc and drops internal.span.format and span.kind.""",
  ["inputs"], "every v2 / Jaeger document: field presence, tag types, references, kinds, several data objects",
  "One client-kind example per format is tested.",
  ["codec/json-v2.go", "codec/jaeger.go"], [("spanV2.ToSpan", "codec/json-v2.go"), ("jaegerSpan.ToSpan", "codec/jaeger.go")],
  (), ["codec.ParseJsonV2", "codec.ParseJaeger"])

p("C04", "JSON meaning does not depend on layout, chunking or buffers",
  """The v1 and v2 parsers give the same spans for every rendering of the same JSON document: any splitting of the bytes
  into reads, any insignificant whitespace, any member order, any alignment of tokens to internal buffers and any token
  length, and with any well-formed unknown members (of any type, nested less than 1,000 levels) added anywhere an object
  is allowed to have members. Every string value reaches the span as the JSON string value, with all escapes (including
  \\n, \\t and \\uXXXX with surrogate pairs) decoded.""",
  ["inputs", "schedules"], "every document, every placement of read boundaries and of strings relative to the 8 KiB buffer",
  "Tests parse small documents from a single read; buffer refill, growth and most escapes are never reached.",
  ["codec/hyperjson/parser.go", "codec/hyperjson/string.go", "codec/hyperjson/parser_skip.go", "codec/hyperjson/bind.go"],
  [("window buffer refill", "hyperjson Parser.bufferMore"), ("escape decoding in place", "hyperjson/string.go"),
   ("skipping", "hyperjson/parser_skip.go")],
  [("tail/head/eof", "window over the input", "hyperjson Parser")], ["hyperjson.Parser", "codec.ParseJsonV1", "codec.ParseJsonV2"])

p("C05", "Parsing always ends, for any bytes",
  """For every byte sequence, split into reads in any way and ended by end-of-file or a read error, each of the three
  upload parsers, the hyperjson parser and the Kafka message decoder returns either a result or an error: no panic, no
  endless loop, no stack exhaustion from nesting, and memory in proportion to the input rather than to a length field in
  it.""",
  ["inputs", "fault_sequences"], "all byte strings (exhaustive to a bound, then mutated and adversarial ones), all read splits",
  "Tests only parse valid examples.",
  ["codec/hyperjson/parser.go", "codec/hyperjson/parser_skip.go", "codec/binary.go", "codec/jaeger.go"],
  [("EOF and type checks", "hyperjson Parser"), ("length checks", "codec/binary.go readString")], (),
  ["codec.Parse*", "codec.BinaryDecode", "hyperjson.Parser"])

p("C06", "One request's result never depends on another request",
  """The spans parsed from a body (or decoded from a Kafka message) depend on that body alone: not on earlier bodies,
  accepted or rejected, not on bodies parsed at the same time, and nothing that happens later changes a span already
  returned. In particular, no tag, name, service, annotation or id of one request ever shows up in another's spans.""",
  ["histories", "schedules"], "every sequence and interleaving of valid and invalid requests sharing pools, buffers and the string cache",
  "Each test parses one document in a fresh process, so pooled state is never reused.",
  ["codec/json-v1.go", "codec/json-v2.go", "codec/json.go", "codec/binary.go", "cache/cache.go"],
  [("resetting pooled spans", "codec/json-v1.go spanV1ValueDecoder"), ("copy before caching", "cache.StringForByteSliceCopy"),
   ("pooled byte buffers", "codec/json.go bufferPool")],
  [("poolSpansV1, bufferPool", "reused memory", "codec"), ("binaryCache", "shared strings", "cache")], ["codec.Parse*", "codec.BinaryDecode"])

p("C07", "Aggregation neither loses, invents, duplicates nor mixes spans",
  """Spans with a zero trace id or span id are ignored; all others are collected per trace id. When a trace is handed on
  it contains exactly the distinct span ids received for that trace id since it was first seen or last removed, each
  once, each with that trace id, plus at most one synthetic root; so every accepted span is in exactly one handed-on
  trace, unless its trace was dropped as a whole for one of the documented reasons (too large, too old, no unique root,
  overload).""",
  ["histories", "schedules"], "every arrival order and interleaving of spans of several traces with the periodic checks",
  "Tests add up to four spans to a single tree; the aggregation loop is never run.",
  ["correct.go"], [("traces map, one tree per trace id", "correct.go ErrorCorrectSpans"), ("finishTraces", "correct.go")],
  [("traces", "buffered trees by trace id", "correct.go ErrorCorrectSpans")], ["ErrorCorrectSpans output channel"])

p("C08", "A trace is handed on when it has been quiet long enough",
  """A trace that is neither too large nor too old is handed on (or dropped for lack of a unique root) at the first
  100 ms check at which at least the buffer time has passed since its last span, and never earlier. The buffer time is
  8 s, and 6 s, 4 s or 2 s when at that check at least 40,000, 60,000 or 80,000 spans are buffered (not counting traces
  that are too large). Spans arriving after the hand-over start a new trace with the same id.""",
  ["histories", "schedules"], "every timing of spans relative to the checks, every load level",
  "No test involves time or load.",
  ["correct.go"], [("bufferConfigs and deadlineUpdate", "correct.go finishTraces")],
  [("tree.updated", "time of the last span", "correct.go tree")], ["ErrorCorrectSpans output channel over time"])

p("C09", "Reports of the same span are merged without losing information",
  """All reports of one span id in a trace become one span. It carries each of cs, cr, sr, ss that any report carries, the
  first non-zero parent id, and every tag key of every report. Where reports disagree: a non-empty name or service wins
  over an empty one; otherwise, as for tags, a report with server timings wins over one without, the last of those with
  and the first of those without; sr and ss are those of the last report that carries them, cs and cr those of the last
  report without server timings that carries them, else of the first. Client and server halves give the
  same name, service, tags and timings in either order of arrival; start and duration come from the first report that
  has a start time (cs and cr, once all four timings are known, override them, see C11).""",
  ["inputs", "histories"], "all report sequences of a span: field presence, client/server kinds, arrival orders",
  "Three tests merge two fixed spans; presence combinations, three or more reports and order independence are not covered.",
  ["correct.go"], [("mergeSpansInPlace", "correct.go"), ("AddSpan", "correct.go tree.AddSpan")], (), ["handed-on spans"])

p("C10", "Every handed-on trace has one root; only rootless ones are dropped",
  """A root of a trace is a span that is its own parent or whose parent is not among its spans. A trace with exactly one
  root is handed on unchanged in structure; one with several roots that all name the same missing parent is handed on
  with one added span "fake-root" (service "fake-root", id the missing parent, parent the trace id, spanning the earliest
  start to the latest end of those roots) provided that this leaves exactly one root; every other trace is dropped.
  No span's parent or id is changed.""",
  ["inputs", "histories"], "all parent structures over small id sets, including cycles, self-parents and orphans",
  "The only test has a two-span trace with a proper root.",
  ["correct.go"], [("Roots / allTheSameParent / createFakeRoot", "correct.go")], (), ["handed-on traces"])

p("C11", "Clock skew is corrected consistently along the trace",
  """In a handed-on trace, a span with all four timings gets start cs and duration cr-cs, in the corrected clock of its
  parent, and everything below it is shifted by the midpoint difference (cr+cs)/2-(sr+ss)/2 in addition to the shift of
  its own parent; a span without all four timings is only moved by the shift accumulated above it. A non-root span whose
  start is then before 2020 takes the (corrected) start of its parent. Nothing else about a span changes, and spans not
  below a four-timing span keep their start and duration.""",
  ["inputs"], "all trees with any subset of timings, any skews, broken timestamps at any position",
  "The existing timing test fails on this tree and checks one three-span shape.",
  ["correct.go"], [("correctTreeTimings", "correct.go")], (), ["handed-on spans' start and duration"])

p("C12", "Oversized and endless traces are dropped and blocked",
  """A trace that at a check has more than 8,192 distinct spans, or whose first span arrived more than five buffer times
  before, is dropped whole: none of its spans is handed on, and from then on spans with its trace id are ignored. A
  blocked trace id is only forgotten when 1,024 or more ids are blocked, and after every check fewer than 1,024 are.
  Traces that are within both limits are never dropped or blocked for these reasons.""",
  ["histories", "inputs"], "all sizes around the limit and far beyond it (including more than 65,536 spans), all ages, all numbers of blocked ids",
  "No test reaches any limit.",
  ["correct.go"], [("traceTooLarge / traceTooOld / blacklist", "correct.go finishTraces"), ("blacklist lookup", "correct.go ErrorCorrectSpans")],
  [("blacklistedTraces", "ignored trace ids", "correct.go"), ("nodeCount", "distinct spans", "correct.go tree")], ["output channel", "blacklist.span.received meter"])

p("C13", "Overload sheds the largest traces and only then",
  """If at a check more than 100,000 spans are buffered (not counting traces that are too large), then, of the traces still
  buffered after that check, whole traces are discarded, larger ones before smaller ones, until fewer than 100,000 spans
  remain and no further; otherwise nothing is discarded. Discarded traces are not handed on and not blocked, and the
  traces kept are handed on complete.""",
  ["histories"], "all load levels and distributions of trace sizes around the limits",
  "No test buffers more than four spans.",
  ["correct.go"], [("discardSuspiciousTraces", "correct.go")], [("maxSpans", "limit on buffered spans", "correct.go")], ["output channel", "metrics"])

p("C14", "Every target gets every trace, converted span by span",
  """For each trace handed on, the user's converter is called exactly once per span, in order, and every configured target
  receives, in the same order of traces, exactly the converted spans in order, without those for which the converter
  failed or returned a zero span or trace id. A slow target delays but never loses, reorders, duplicates or alters what
  any target receives.""",
  ["inputs", "schedules"], "all converter outcomes per span, numbers of targets, and speeds of targets",
  "forwardSpansToChannels has no test.",
  ["main.go"], [("forwardSpansToChannels", "main.go")], (), ["target channels"])

p("C15", "Spans are converted to Datadog spans faithfully",
  """Each span submitted to the trace agent has the trace, span and parent ids of the original, name and service equal to
  its service, resource equal to its name ("(resource empty)" if empty), its start in nanoseconds, its duration but at
  least 1 microsecond, exactly its tags, and the error flag set if and only if it has an "error" tag with a value other
  than "false" and "0". Spans already queued are not altered by later ones.""",
  ["inputs", "histories"], "all field values, error tags, durations around the bound, more than 4,096 spans",
  "The datadog package has no tests.",
  ["datadog/converter.go"], [("conversion loop", "datadog/converter.go Sink")], [("ddSpans", "arena of 4096 spans", "datadog Sink")], ["tracer.Transport.SendTraces"])

p("C16", "Each span is submitted to the agent once, grouped and in time",
  """While the agent keeps up, every span given to the sink is submitted exactly once; each submission is non-empty and
  consists of one list per trace id holding that trace's spans in arrival order. Spans are submitted as soon as 1,000 or
  more are waiting, and otherwise at the first 2 s tick that is at least 1.8 s after the previous submission, so no span
  waits more than 4 s.""",
  ["histories", "schedules"], "all sequences of trace sizes and arrival times relative to ticks and thresholds",
  "The datadog package has no tests.",
  ["datadog/converter.go"], [("byTrace, spanCount, flush", "datadog/converter.go Sink")],
  [("byTrace", "pending spans by trace", "datadog Sink")], ["tracer.Transport.SendTraces over time"])

p("C17", "A slow or failing agent never blocks or corrupts the sink",
  """The sink always keeps accepting traces, whatever the agent does. At most eight submissions wait behind the one in
  progress; when one more becomes due it is discarded as a whole, and everything else is submitted unchanged in order.
  A failed submission affects only its own spans, and submissions resume as soon as the agent does.""",
  ["fault_sequences", "schedules"], "all patterns of agent latency, hangs and errors",
  "The datadog package has no tests.",
  ["datadog/converter.go"], [("select with default on groupedSpans", "datadog/converter.go Sink"), ("submitTraces", "datadog/converter.go")],
  [("groupedSpans", "queue of 8 submissions", "datadog Sink")], ["tracer.Transport.SendTraces", "tracesCh"])

p("C18", "The recent-spans view is the last N spans in order",
  """At any time the recent-spans buffer of capacity N shows exactly the last N spans it was given (fewer if it got fewer),
  in the order they were received, each unaltered. A snapshot taken while traces arrive shows the state after some whole
  number of traces, never part of one, and later snapshots never go back.""",
  ["histories", "schedules"], "all sequences of trace sizes (smaller, equal, larger than N), all interleavings of writer and readers",
  "The buffer has no tests.",
  ["buffer.go"], [("ring and lock", "buffer.go SpansBuffer")], [("position, spans", "ring", "buffer.go SpansBuffer")], ["SpansBuffer.ToSlice", "/admin spans view"])

p("C19", "The Kafka encoding is lossless and has a fixed wire format",
  """Decoding an encoded span gives back the same span for every span (a missing tag map may come back empty). The encoding
  is: zig-zag varints for id, trace, parent, then name and service as length-prefixed bytes, then timestamp, duration, cs,
  cr, ss, sr as zig-zag varints, then the tags as one counted block ended by 0 (just 0 when empty), so that different
  versions of the proxy in one consumer group understand each other; the decoder also accepts several blocks and blocks
  with a negative count followed by a byte size, and rejects a message that is cut short.""",
  ["inputs"], "all 64-bit values, string contents and lengths (around 8 KiB pool size), tag maps, block layouts",
  "One span and random positive values are round-tripped; extremes, long strings and block layouts are not.",
  ["codec/binary.go"], [("BinaryEncode / BinaryDecode", "codec/binary.go")], (), ["codec.BinaryEncode", "codec.BinaryDecode"])

p("C20", "Kafka messages are keyed by trace and never change once made",
  """Each span sent becomes one message on the configured topic whose key is its trace id as 8 little-endian bytes and
  whose value decodes to the span, so that all spans of a trace go to one partition. Key and value of a message stay
  unchanged however many further messages are made, by whatever goroutines, before it is transmitted.""",
  ["histories", "schedules"], "all sequences of span sizes relative to the shared buffers, all interleavings of encoders",
  "The test makes 10,000 small messages and never looks at the key, at large spans, or at concurrency.",
  ["balance/encoder.go", "balance/sender.go"], [("arena carving", "balance/encoder.go encoder.Encode"), ("sync.Pool of encoders", "balance/encoder.go")],
  [("enc.buf, enc.slices", "arena shared by pending messages", "balance/encoder.go")], ["sarama.ProducerMessage", "bytes on the wire"])

p("C21", "Delivery failures never stall span intake through Kafka",
  """The Kafka sender keeps taking spans from its input whatever happens to earlier ones: after any number of messages that
  the producer fails to deliver (oversized, rejected by the broker, broker unreachable), later spans are still accepted
  and, once the broker is reachable, delivered.""",
  ["fault_sequences"], "all patterns of delivery failures",
  "The sender is never run by a test; only message construction is.",
  ["balance/sender.go"], [("async producer", "balance/sender.go Sender")], (), ["Sender.Send", "broker"])

p("C22", "The Kafka consumer delivers every decodable message once and in order",
  """For each claimed partition the consumer hands the spans of all decodable messages to the callback exactly once and in
  order, skips undecodable ones without stopping, and marks a message as consumed only after its span was handed over. It
  rejoins after every session end or error until it is stopped, and stopping returns once no session is running any more.""",
  ["fault_sequences", "histories", "schedules"], "all mixes of good, truncated and corrupt messages, session ends, errors, slow callbacks and stop times",
  "The consumer has no tests.",
  ["balance/receiver.go"], [("ConsumeClaim", "balance/receiver.go"), ("Consume loop", "balance/receiver.go")], (), ["callback", "session.MarkMessage", "stop function"])

p("C23", "The string cache is transparent and bounded",
  """Every cache lookup returns a string equal to the bytes asked for, which never changes afterwards, whatever the caller
  does with its buffer (unless it gave the buffer away) and however many goroutines use the cache. The LRU cache holds
  exactly the most recently used strings: setting a new string first evicts least recently used ones until the accounted
  size is below the limit, so its size never exceeds the limit by more than one entry; Count and Size agree with the
  content. The shared cache has a limit of 5 MiB, and its metrics tell its count, its size and which part of the lookups
  (of strings that are not empty) since the last reading found their string (a number also if there were none).""",
  ["histories", "schedules", "inputs"], "all operation sequences over small key sets, all sizes, concurrent use",
  "Tests check count consistency under random sets and one ascending fill; recency after get, eviction order and aliasing are not checked.",
  ["cache/cache.go", "cache/lru.go"], [("linkedList", "cache/lru.go"), ("copyOnInsert", "cache/cache.go lookupCache")],
  [("values, usage, size, count", "cache content", "cache/lru.go lruCache")], ["Get/Set/Size/Count", "cache.String*"])

p("C24", "The metrics account for every trace and span",
  """Every trace that leaves the buffer is counted in exactly one of traces.finished, traces.noroot, traces.toolarge,
  traces.tooold and traces.discarded; spans.discarded counts the spans of discarded traces, spans.merged the reports that
  were merged into an already known span, blacklist.span.received the spans ignored for a blocked trace.
  After each check traces.partial.count is the number of traces that were not finished or dropped by it (before overload
  discarding) and traces.partial.span.count the number of spans that were buffered in not-too-large traces when it began.""",
  ["histories"], "every history of arrivals and checks",
  "No test reads a metric of the aggregation.",
  ["correct.go"], [("Mark/Update calls", "correct.go")], [("metrics registry", "counters", "correct.go init")], ["go-metrics default registry"])

p("C25", "A stalled consumer delays traces but loses none",
  """While nobody takes handed-on traces, the aggregation stops taking spans and resumes when the consumer does; every trace
  that was due when the stall began is then handed on exactly once and complete, and spans offered during the stall are
  processed afterwards. A stall by itself never duplicates, splits or alters a trace.""",
  ["schedules", "fault_sequences"], "all stall times and lengths relative to arrivals and checks",
  "The aggregation loop is never run by a test.",
  ["correct.go", "main.go"], [("blocking send in finishTraces", "correct.go"), ("bounded channels", "main.go")], (), ["input and output channels"])

p("C26", "End to end, an accepted span reaches the agent and the recent view",
  """In the assembled program, every span of an upload answered 202 that survives aggregation and conversion is submitted
  to the trace agent exactly once with the content of its translation and merge, and also appears in the recent-spans view
  (the last 2,048); rejected uploads and spans dropped by the converter appear in neither. With Kafka, this holds for the
  proxies of a consumer group together, each trace being processed as a whole by one of them, from the first message on and
  across a restart, as long as the broker works and the group does not change while spans are under way.""",
  ["inputs", "schedules"], "uploads of all formats, concurrently, through the real HTTP server, with all components running, directly or through Kafka",
  "No test assembles the program.",
  ["main.go", "handlers.go", "correct.go", "datadog/converter.go", "buffer.go"], [("MainWithRouting", "main.go")], (),
  ["HTTP endpoints", "agent requests", "/admin spans view"])

p("C27", "Ids and times survive their text forms",
  """Parsing accepts exactly the strings of at most 16 hex digits (either case) as ids, with their usual value, and rejects
  all others; formatting gives 16 lower-case digits, and parsing a formatted id, or reading back an id, timestamp or span
  from the JSON that the proxy writes, gives the same value.""",
  ["inputs"], "all 64-bit ids (including the sign bit), all lengths and characters, all representable times",
  "Ids are only parsed inside two fixed documents; formatting is not tested.",
  ["proxy/id.go", "proxy/timestamp.go", "proxy/span.go"], [("ParseId / String / MarshalJSON", "proxy/id.go"), ("Timestamp JSON", "proxy/timestamp.go")], (), ["proxy.Id", "proxy.Timestamp", "proxy.Span JSON"])

p("C28", "No message is skipped when the group changes or a member dies",
  """Whatever members of the consumer group start, stop, crash, are expelled or lose their connection, and when: every
  decodable message that is not deleted from the topic is handed over by some member, in order and without gaps within each
  claim, and committed afterwards. The committed offset never covers a message that was not handed over yet, so that a crash at
  any point loses none. A message is only handed over again if whoever took it crashed, was expelled or was cut off before it
  was committed; a member that is stopped has committed everything it handed over.""",
  ["schedules", "crash_points", "fault_sequences"], "all sequences of members coming, stopping, dying, being expelled or cut off, relative to messages, hand-overs and commits",
  "No test consumes from Kafka at all.",
  ["balance/receiver.go"], [("Consume loop and stop", "balance/receiver.go"), ("ConsumeClaim / MarkMessage", "balance/receiver.go")], (), ["span callback", "committed offsets"])

p("C29", "The user's routing sees every request, and only uploads carry spans",
  """The handler that the user's routing returns gets every request outside of /admin as it was sent, except that a body with
  Content-Encoding gzip arrives decompressed and without announcing the encoding and length of its compressed form (a body that
  does not begin as gzip is answered 400 instead). What this handler answers itself is the answer, and takes no spans.
  A request that it passes on to the router, also after removing a prefix of the path, is an upload if it is a POST to one of the three upload
  paths, and is then treated as if there were no such handler; every other one reaches the route that the user added for it or is refused, and
  puts no span in. Requests at the same time do not influence each other.""",
  ["inputs", "schedules"], "all methods, paths, encodings and bodies, with any routing of the user",
  "No test has a routing, or sends requests to anything but the endpoints.",
  ["main.go", "handlers.go"], [("Routing in MainWithRouting", "main.go"), ("handleSpans", "handlers.go"), ("handleGzipRequestBody", "handlers.go")], (), ["HTTP requests and answers", "/admin/spans"])

p("C30", "The metrics page can be read at any time and agrees with the uploads",
  """The running program's metrics page (/admin/metrics) can be read at any time, idle or busy, and as often as one likes. Whatever
  is uploaded, spans.parsed counts the spans of accepted uploads (also those without ids), spans.receive of each format the
  uploads of that format that were read, and the counts of the aggregation (finished, noroot, toolarge, merged, blocked and so
  on) what became of their traces: a count is never ahead of what was sent and never behind what had been answered
  (spans.parsed, spans.receive) or had left the buffer (the others) when the page was asked for. When nothing is buffered
  any more, the gauges of partial traces and spans are zero.""",
  ["inputs", "schedules"], "all uploads, all moments of reading",
  "No test reads a metric or the page.",
  ["main.go", "handlers.go", "correct.go", "cache/cache.go"], [("Mark/Update calls", "handlers.go, correct.go"), ("RegisterCacheMetrics", "cache/cache.go")],
  [("metrics registry", "counters", "go-metrics default registry")], ["/admin/metrics"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x, s); print(x["id"], len(x["title"]))
