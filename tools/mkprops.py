#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                  "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                  "observe_at": observe, "hook_needed": None}})

p("P01", "Zipkin v2 documents are decoded faithfully",
  "Parsing a well-formed Zipkin v2 JSON array (ids of at most 16 hex digits or a null/absent parent, string names and tag values, unsigned integer microsecond times) yields exactly one span per element, in order, with that element's ids, name, local-endpoint service name, start, duration and tags, plus the tag protocolVersion=\"json v2\" (instead of one that the document has). A missing or zero duration becomes 1 ms; kind CLIENT or SERVER in any letter case sets client-sent/received or server-received/sent to start and start+duration, any other kind sets none. None of this depends on whitespace, field order, unknown fields of any JSON type, string escaping, string length or how the input is split into reads.",
  ["inputs"], "all well-formed v2 documents x all renderings of them x all read splits",
  "One compact document with one span is parsed from a string reader; no escapes, unknown fields, long strings, several spans or short reads.",
  ["codec/json-v2.go", "codec/hyperjson/bind.go", "codec/hyperjson/parser.go", "codec/hyperjson/string.go", "codec/hyperjson/parser_skip.go"],
  [("struct/map/slice decoders driven by a streaming tokenizer", "codec/hyperjson/bind.go"), ("conversion to the common span", "codec/json-v2.go ToSpan")],
  ["return value of codec.ParseJsonV2"])

p("P02", "Zipkin v1 documents are decoded faithfully",
  "Parsing a well-formed Zipkin v1 JSON array (as for v2, at most four annotations per span) yields exactly one span per element, in order: ids and name as given, tags equal to the binary annotations (non-string literals by their literal text) plus protocolVersion=\"json v1\" (instead of one that the document has), and the timings cs/cr/sr/ss from the annotations of that value with non-zero time. The service is the first non-empty endpoint service name of the annotations with a non-zero time (whatever their value) and otherwise of the binary annotations; start and duration come from cs/cr if both are set, else from sr/ss if both are set, else from the span's own fields, and a zero duration becomes 1 ms. None of this depends on whitespace, field order, unknown fields of any JSON type, string escaping, string length or how the input is split into reads.",
  ["inputs"], "all well-formed v1 documents x all renderings x all read splits",
  "One document with one span, two annotations and two binary annotations is parsed in one read.",
  ["codec/json-v1.go", "codec/util.go", "codec/json.go", "codec/hyperjson/bind.go", "codec/hyperjson/parser.go"],
  [("pooled slice of raw spans that is cleared before reuse", "codec/json-v1.go spanV1ValueDecoder"), ("precedence of times", "codec/json-v1.go fillInTimestamp")],
  ["return value of codec.ParseJsonV1"])

p("P03", "Jaeger documents are decoded faithfully",
  "Parsing a well-formed Jaeger JSON document yields one span per entry of every data element, in order, with its ids, operation name, start and duration (microseconds; zero becomes 1 ms), the service name of its process in the same data element, and as parent the span of its last CHILD_OF reference or, without one, its own id. Tags are its string-valued tags, with component renamed to lc, span.kind and internal.span.format left out, and protocolVersion=\"jaeger\" added (instead of one that the document has). A span.kind of client or server in any letter case sets client-sent/received or server-received/sent to start and start+duration.",
  ["inputs"], "all well-formed Jaeger documents with any number of data elements, spans, references, processes and tags",
  "One document with one data element, span, reference and process is parsed.",
  ["codec/jaeger.go", "proxy/id.go"],
  [("conversion to the common span", "codec/jaeger.go ToSpan")],
  ["return value of codec.ParseJaeger"])

p("P04", "Any request body is parsed or rejected cleanly",
  "For every byte sequence and every behaviour of the reader (any split into reads, a read error at any point) each of the three JSON parsers returns, without crashing, hanging, overflowing the stack or reading on after the end, either spans or an error with no spans. A document that is cut off anywhere before its closing bracket, or whose reader fails before it, is always an error. How the bytes are split into reads never changes the outcome.",
  ["inputs", "fault_sequences"], "all byte strings x all read splits x all positions of truncation or read failure",
  "Only three valid documents are parsed; malformed, truncated or deeply nested input and failing readers are never tried.",
  ["codec/hyperjson/parser.go", "codec/hyperjson/parser_skip.go", "codec/hyperjson/bind.go", "codec/hyperjson/string.go", "codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go"],
  [("buffer refill, growth and end-of-input handling", "codec/hyperjson/parser.go bufferMore"), ("nesting limit", "codec/hyperjson/parser_skip.go")],
  ["error and spans returned by codec.ParseJsonV1, ParseJsonV2, ParseJaeger; number of reads issued"])

p("P05", "Requests never influence each other's spans",
  "The spans parsed from a request depend on that request's body alone: no earlier, failed, later or concurrently parsed request of any of the three formats, however large, adds to, removes from or changes them. Spans that were returned stay unchanged when further requests are parsed. Concurrent parsing is free of data races.",
  ["histories", "schedules"], "all sequences and interleavings of valid and broken requests",
  "Each test parses one document in a fresh process; pooled buffers, pooled span slices and the shared string cache are never reused with different content.",
  ["codec/json-v1.go", "codec/json-v2.go", "codec/util.go", "cache/cache.go", "cache/lru.go"],
  [("pools of read buffers and raw spans", "codec/util.go, codec/json-v1.go"), ("string cache shared by all requests", "cache/cache.go")],
  ["spans returned by the parsers, compared immediately and again after later requests"],
  [("bufferPool", "read buffers shared between requests", "codec/util.go"), ("poolSpansV1", "raw spans shared between requests", "codec/json-v1.go")])

p("P06", "The streaming JSON reader agrees with a standard decoder",
  "For every valid JSON object or array, every initial buffer (none, any size, or the whole input at once) and every split of the input into reads, reading it token by token yields the same sequence of types, strings, number literals and structure as a standard JSON decoder. Skipping any value consumes exactly that value. A read that does not match the next token's type fails without consuming that token.",
  ["inputs"], "all valid JSON objects/arrays nested up to the reader's limit x buffer sizes x read splits",
  "One fixed document is read with one buffer size and one read.",
  ["codec/hyperjson/parser.go", "codec/hyperjson/parser_array.go", "codec/hyperjson/parser_object.go", "codec/hyperjson/parser_skip.go", "codec/hyperjson/string.go"],
  [("tokenizer over a sliding buffer", "codec/hyperjson/parser.go"), ("in-place string unescaping", "codec/hyperjson/string.go")],
  ["results of the exported methods of hyperjson.Parser"])

p("P07", "The binary span format round-trips and is valid Avro",
  "Decoding the binary encoding of any span (any ids, times, durations and byte strings, any number of tags) yields an equal span, where absent tags come back as an empty set, and consumes exactly the encoded bytes. The encoding is the Avro binary encoding of the record (id, trace, parent, name, service, timestamp, duration, cs, cr, ss, sr, map of tags), and the decoder also accepts tag maps written in several Avro blocks, with or without a block byte size.",
  ["inputs"], "all spans; all Avro block splits of the tag map",
  "One fixed span and 10000 spans of one shape (positive ids, three short tags) are round-tripped; the wire format itself is never checked.",
  ["codec/binary.go"],
  [("zig-zag variable length integers, length prefixed strings, block encoded map", "codec/binary.go")],
  ["bytes written by codec.BinaryEncode, span returned by codec.BinaryDecode"])

p("P08", "Corrupt binary messages are rejected cleanly",
  "For every byte sequence the binary decoder returns a span or an error, without crashing, hanging, or allocating memory out of proportion to the length of the message. Every strict prefix of an encoded span is an error.",
  ["inputs"], "all byte strings, in particular truncated and bit-flipped encodings and huge declared lengths or counts",
  "Only intact messages are decoded.",
  ["codec/binary.go"],
  [("length checks when reading strings and map blocks", "codec/binary.go readString, readMapString")],
  ["result of codec.BinaryDecode; bytes allocated meanwhile"])

p("P09", "Every span is sent to Kafka intact, keyed by its trace",
  "Each span handed to the Kafka sender results in exactly one message on the configured topic whose value decodes to that span. The message key depends on the trace id alone and differs between different trace ids, so that all spans of a trace end up in the same partition. Messages keep their key and value however many spans, of any size, are sent afterwards or concurrently by other senders. A span that cannot be delivered (larger than the configured message size, or refused by the broker) is lost alone and does not keep others from being sent.",
  ["inputs", "histories", "schedules"], "all sequences of spans of all sizes through any number of concurrent senders",
  "Only values of 10000 similar small spans, encoded one after the other, are compared; keys, topic, large spans, concurrency and the producer are not.",
  ["balance/encoder.go", "balance/sender.go", "codec/binary.go"],
  [("arena allocation of keys and values", "balance/encoder.go Encode"), ("pooled encoders", "balance/encoder.go")],
  ["messages arriving at a Kafka broker and at the producer's partitioner"],
  [("encoder.buf", "shared memory that keys and values are cut from", "balance/encoder.go")])

p("P10", "The Kafka consumer delivers every readable message once",
  "Within each claimed partition every decodable message is handed to the span callback exactly once, in order and with the span it encodes; undecodable messages are skipped without stopping or affecting the rest. A message is marked as consumed only after its callback returned, and every delivered message is marked; neither waits for further messages to arrive. Consuming resumes after a failed or ended session, and closing waits for the running session and makes no callback afterwards.",
  ["histories", "fault_sequences", "schedules"], "all sequences of sessions, partitions, good and corrupt messages, session errors and the moment of closing",
  "The consumer has no test.",
  ["balance/receiver.go"],
  [("claim loop", "balance/receiver.go ConsumeClaim"), ("session loop and close function", "balance/receiver.go Consume")],
  ["callbacks, marked messages and Consume calls seen by a scripted consumer group"])

p("P11", "Spans are grouped by trace and forwarded exactly once",
  "Within the documented limits, every received span with a non-zero trace id and span id whose trace has a single root is forwarded exactly once, in one group that holds exactly the distinct spans of that trace received up to then, however the spans of different traces interleave and in whatever order they arrive. Spans with a zero trace or span id are dropped without affecting anything else. Parent ids, names, services and tags of unmerged spans are forwarded unchanged. A forwarded trace belongs to its receiver: it does not change afterwards, and what the receiver does to it has no effect on other traces.",
  ["histories", "inputs", "schedules"], "all arrival sequences of spans of many traces, including late arrivals that start a new group",
  "Tests only build a single tree by hand; the loop that receives, groups, expires and forwards is never run.",
  ["correct.go"],
  [("map of open traces, flushed by a ticker", "correct.go ErrorCorrectSpans, finishTraces"), ("spans of a trace sorted by id", "correct.go SpanSlice")],
  ["traces leaving ErrorCorrectSpans"],
  [("traces", "open traces by id", "correct.go")])

p("P12", "A trace is forwarded once it was quiet for eight seconds",
  "While fewer than 40000 spans are open, a trace is forwarded no earlier than 8 s after the last of its spans (new or repeated) was received and no later than 0.2 s after that, provided the receiver of traces is ready. This holds for each trace independently of what is received for other traces. Spans received for a trace after it was forwarded are collected and forwarded again as a new group by the same rule.",
  ["histories"], "all arrival times of spans of concurrently open traces",
  "No test runs the loop, and real time makes waiting for it impractical.",
  ["correct.go"],
  [("ticker and deadline comparison", "correct.go finishTraces"), ("buffer time table", "correct.go bufferConfigs")],
  ["(virtual) time at which traces leave ErrorCorrectSpans"])

p("P13", "Load shortens the wait and sheds only the largest traces",
  "When 40000, 60000 or 80000 spans or more are open, the quiet time after which a trace is forwarded is 6, 4 or 2 s instead of 8 s. Within 0.2 s of more than 100000 spans being open, whole traces are discarded, largest first and no more than needed, until fewer than 100000 are open. Every trace that is not discarded is later forwarded completely.",
  ["histories"], "all sizes and numbers of open traces around the thresholds",
  "No test holds more than four spans.",
  ["correct.go"],
  [("buffer time table", "correct.go bufferConfigs"), ("discarding by size", "correct.go discardSuspiciousTraces")],
  ["traces leaving ErrorCorrectSpans and when"])

p("P14", "Oversized and overlong traces are dropped and stay dropped",
  "A trace that has collected more than 8192 distinct spans, or that is still open five times the current quiet time (40 s at low load) after its first span, is never forwarded, and spans received for it later are ignored for as long as no more than 1000 traces have been banned this way. A trace of up to 8192 distinct spans that is quiet in time is forwarded completely, and repeated records of a span do not count. Other traces are not affected.",
  ["histories", "inputs"], "all trace sizes and durations around the limits, with later arrivals",
  "No test reaches either limit.",
  ["correct.go"],
  [("size and age checks, ban list", "correct.go finishTraces")],
  ["traces leaving ErrorCorrectSpans"],
  [("blacklistedTraces", "ids of banned traces", "correct.go")])

p("P15", "Records of the same span merge without losing information",
  "Records with the same trace and span id are forwarded as one span that has every tag of any record, every one of the four timings valid in any record, and a known parent and start time if any record has one; a record carrying a server timing overrides name, service and tags where it has them, any other record only fills gaps. Merging one client and one server record gives the same result in both orders of arrival (given all four timings or a single known start, and no two different parents). When one field is set by several records of the same kind, server records overwrite with the latest, while others keep the first name, service and tag value.",
  ["inputs", "histories"], "all sets of partial records of spans in all arrival orders",
  "Three tests merge two records with a single tag or timing each.",
  ["correct.go"],
  [("merge", "correct.go mergeSpansInPlace"), ("parent of the first record that knows it", "correct.go AddSpan")],
  ["spans of traces leaving ErrorCorrectSpans"])

p("P16", "Clock skew between hosts is removed down the trace",
  "A span that has all four timings is reported with client-sent plus the accumulated correction as start and client-received minus client-sent as duration, and the difference between the midpoints of its client and server intervals is added to the correction of everything below it; any other span only has its start shifted by the accumulated correction, which is zero at the root. A non-root span that would then start before 2020 gets its parent's start. Hence adding any constant to all clock readings below a client/server hop (server timings of the hop included) does not change the forwarded starts and durations, as long as no time falls before 2020.",
  ["inputs"], "all span trees of any shape and depth, all subsets of timings, all clock offsets",
  "The only test uses one three-level tree and currently fails because of its dates in 1970.",
  ["correct.go"],
  [("recursive correction", "correct.go correctTreeTimings")],
  ["start and duration of spans of traces leaving ErrorCorrectSpans"])

p("P17", "Missing roots are replaced, ambiguous traces are dropped",
  "If a trace has several spans without a parent in the trace and all of them name the same non-zero missing parent, it is forwarded completely with exactly one added span that has the missing parent's id, is the only root, is named fake-root (service fake-root), and lasts from the earliest start to the latest end of those spans. A trace with exactly one root (its parent is zero, missing, or itself) is forwarded without additions. A trace without any root, or whose roots name different parents, is not forwarded at all.",
  ["inputs"], "all parent structures of traces, including missing parents, self parents, cycles and forests",
  "No test builds a trace with a missing or ambiguous root.",
  ["correct.go", "proxy/span.go"],
  [("root detection", "correct.go Roots"), ("fake root", "correct.go createFakeRoot, allTheSameParent")],
  ["traces leaving ErrorCorrectSpans"])

p("P18", "Spans are translated to Datadog faithfully",
  "Each span is submitted to the Datadog agent with its trace, span and parent id as unsigned numbers, its service as both service and operation name, its name as resource (\"(resource empty)\" if it has none), its start in nanoseconds, its duration in nanoseconds but at least 1 microsecond, and its tags as metadata. It is flagged as an error exactly if it has an error tag with a value other than \"false\" and \"0\".",
  ["inputs"], "all spans, including extreme ids, zero or negative durations and missing tags",
  "The datadog package has no test.",
  ["datadog/converter.go"],
  [("conversion", "datadog/converter.go Sink")],
  ["traces passed to the transport"])

p("P19", "Every span reaches a responsive agent exactly once, in time",
  "While the agent answers promptly, with success or an error, every span handed over is submitted exactly once: at once when 1000 spans are pending, and otherwise within 4 s of its arrival. Each submitted group contains spans of a single trace, each trace appears at most once per submission, and nothing is submitted when nothing is pending. A failed submission does not affect later ones.",
  ["histories", "fault_sequences"], "all arrival sequences of traces of all sizes, all patterns of agent errors",
  "The datadog package has no test, and flushing depends on time.",
  ["datadog/converter.go"],
  [("pending spans by trace, flushed by count and ticker", "datadog/converter.go Sink"), ("background submission", "datadog/converter.go submitTraces")],
  ["calls of the transport in virtual time"],
  [("byTrace", "pending spans", "datadog/converter.go")])

p("P20", "A slow or hanging agent never stalls intake",
  "However slow the agent is, even if it never answers, traces handed over are accepted without delay. Every span is still submitted at most once and unaltered, in the batches and order they were formed; batches are discarded as a whole, and only while eight formed batches are already waiting. Once the agent answers again, the waiting batches and all spans that arrive afterwards are submitted.",
  ["histories", "fault_sequences", "schedules"], "all arrival sequences x all patterns of agent delays",
  "The datadog package has no test.",
  ["datadog/converter.go"],
  [("bounded queue with non-blocking enqueue", "datadog/converter.go Sink")],
  ["acceptance of traces and calls of the transport in virtual time"])

p("P21", "Cached strings always equal what was asked for",
  "Looking up any string or byte sequence in the shared string cache returns a string with exactly that content, regardless of what was looked up before, evicted, or is looked up concurrently by other goroutines. Strings returned for byte slices that are looked up by copy never change when the caller overwrites the slice. Concurrent use is free of data races.",
  ["inputs", "histories", "schedules"], "all sequences and interleavings of lookups with buffers being reused",
  "Only the LRU list is tested; the shared cache and its aliasing of caller memory are not.",
  ["cache/cache.go", "cache/lru.go"],
  [("lookup by aliased key, copy on insert, one lock", "cache/cache.go lookupCache")],
  ["strings returned by cache.String, StringForByteSliceCopy and StringForByteSliceNoCopy"])

p("P22", "The string cache is bounded and evicts the least recently used",
  "After any sequence of insertions and lookups the cache's reported size accounts for exactly the values it holds and exceeds the configured maximum by at most the most recently inserted value. A value is evicted only when another one is inserted while the size is at or above the maximum, always the least recently inserted or looked up one, and no more values than needed. Every value that was not evicted is found, and no other.",
  ["histories"], "all sequences of insertions and lookups x all maximum sizes",
  "One test inserts increasing values and one checks only the length of the list after random insertions.",
  ["cache/lru.go"],
  [("hash map plus doubly linked list", "cache/lru.go")],
  ["Get, Set, Size and Count of the cache"],
  [("usage", "entries in order of use", "cache/lru.go"), ("values", "entries by value", "cache/lru.go")])

p("P23", "The recent-spans buffer holds exactly the latest spans in order",
  "A buffer of capacity N of at least one reports at any time the last N spans (with non-zero id) it received, or all of them if there were fewer, each once and oldest first, for traces of any size. Reading it does not change it and is safe, without data races and with a consistent result, while spans are being received.",
  ["histories", "schedules"], "all sequences of traces x capacities x moments of reading",
  "The buffer has no test.",
  ["buffer.go"],
  [("ring buffer under a lock", "buffer.go")],
  ["SpansBuffer.ToSlice while ReadFrom is running"])

p("P24", "HTTP ingest is all-or-nothing and reports it truthfully",
  "POST to /api/v1/spans with a JSON content type, to /api/v2/spans or to /api/jaeger/spans answers 202 for a well-formed document of that format, plain or gzip compressed and of any size, and then exactly its spans enter processing, once each. It answers 400 for a truncated or otherwise unparsable document, a gzip stream that is broken before the end of the document, or (v1 only) another content type, and then no span of that request enters processing. This holds for each request regardless of others served before or at the same time.",
  ["inputs", "fault_sequences", "schedules"], "all requests over endpoints, content types, encodings, valid and broken bodies, served concurrently",
  "No test performs an HTTP request.",
  ["handlers.go", "main.go", "codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go"],
  [("routes and status codes", "handlers.go handleSpans"), ("gzip decoding", "handlers.go handleGzipRequestBody"), ("parse completely, then enqueue", "handlers.go parseSpansWithJSON")],
  ["HTTP responses of the running program; spans arriving at a stand-in trace agent"])

p("P25", "Converted spans reach the agent and the recent-spans page",
  "In the running program every span of a processed trace is passed to the user's converter once, one at a time; exactly the spans it returns without an error and with non-zero trace and span id reach the trace agent, as returned by the converter. Spans it rejects are left out without affecting the others of the same or other traces. The recent-spans admin page lists the same converted spans.",
  ["inputs", "configurations"], "all traces x all converter results (changed, failed, zeroed)",
  "Main, the converter and the fan-out have no test.",
  ["main.go", "buffer.go", "datadog/converter.go"],
  [("in-place conversion and fan-out to all targets", "main.go forwardSpansToChannels")],
  ["spans arriving at a stand-in trace agent and on /admin/spans of the running program"])

p("P26", "Ids have a canonical text form that parses back",
  "The text form of every 64-bit id is its 16 lowercase hexadecimal digits, its JSON form is that in quotes, and parsing either yields the id again. Parsing accepts any 0 to 16 hexadecimal digits of either letter case as their numeric value, and rejects every other input (longer, other characters, in JSON also missing quotes) with an error and without changing the target.",
  ["inputs"], "all 64-bit ids and all byte strings",
  "The proxy package has no test.",
  ["proxy/id.go"],
  [("hex conversion", "proxy/id.go")],
  ["proxy.ParseId, Id.String, JSON encoding and decoding of ids"])

p("P27", "Spans survive conversion to JSON and back",
  "Encoding any span with representable (UTF-8) strings as JSON, be it by value, by pointer, in a slice or in a map, and decoding it again yields an equal span (no tags and empty tags being the same), with ids as hexadecimal text and times as RFC 3339 text with nanoseconds. Conversion of times to and from micro- and milliseconds truncates to the unit and is otherwise exact, and adding a duration to a time is exact.",
  ["inputs"], "all spans whose times are representable",
  "The proxy package has no test.",
  ["proxy/span.go", "proxy/timestamp.go", "proxy/id.go"],
  [("custom JSON encodings", "proxy/id.go, proxy/timestamp.go")],
  ["encoding/json applied to proxy.Span; methods of proxy.Timestamp"])

p("P28", "Instances that share a Kafka topic process every trace as a whole",
  "If Kafka is configured, every span of a request that any instance answered with 202 is written to the configured topic exactly once, all spans of a trace to the same partition; the topic is created if it does not exist. The instances of the consumer group together process every span of the topic from the group's offset on (new ones if the group has none for a partition), each exactly once, and all spans of a trace in the instance that has its partition, as one trace no matter which instances received them. Messages that cannot be decoded are skipped without affecting others. The group's offsets pass every processed span. If the group is rebalanced, spans may be processed again but none after its offset is lost.",
  ["inputs", "fault_sequences", "schedules", "configurations"], "all requests to several instances x topics x corrupt messages x rebalances",
  "Nothing that involves Kafka is run by a test, only the encoding of a span.",
  ["main.go", "balance/sender.go", "balance/encoder.go", "balance/receiver.go", "codec/binary.go"],
  [("wiring of topic, sender, consumer group and collector", "main.go MainWithRouting"), ("trace id as key", "balance/encoder.go"), ("marking after the callback", "balance/receiver.go")],
  ["messages and offsets at a stand-in broker; calls of the converter in each instance"])

p("P29", "Finished work leaves nothing behind",
  "What a running proxy holds after garbage collection (memory, goroutines, open files) depends on what is in progress and on fixed limits (5 MB of cached strings, 2048 recent spans, about 1000 banned traces, batches that wait for the agent), and not on how much was done before. Requests (accepted, rejected, compressed, of clients that go away), spans and traces (forwarded, without a root, too old, too large, discarded under load), spans of banned traces, Kafka messages (decodable or not), submissions (successful, failed, given up) and strings that fell out of the cache leave nothing behind once they are done with.",
  ["inputs", "histories", "fault_sequences"], "all histories of requests, spans, messages and submissions, however long",
  "Every test does a few things once; what stays behind shows only after many repetitions.",
  ["correct.go", "handlers.go", "main.go", "cache/lru.go", "buffer.go", "datadog/converter.go", "balance/encoder.go", "codec/json-v1.go", "codec/hyperjson/parser.go"],
  [("deletion of finished traces and bound of the ban list", "correct.go finishTraces"), ("eviction of strings", "cache/lru.go ensureCacheSize"), ("bounded queue of batches", "datadog/converter.go Sink"), ("return of gzip readers", "handlers.go handleGzipRequestBody"), ("pooled buffers", "codec/json-v1.go, codec/binary.go")],
  ["heap, goroutines and file descriptors of the process"])

p("P30", "A document with an invalid value is rejected as a whole",
  "A JSON document that is well-formed for one of the three formats except for a single value that its field cannot have yields an error and no spans at all, wherever in the document it is. Such values are: ids that are not strings or have other than hexadecimal digits or more than 16 of them; times that are not unsigned integers of at most 64 bits (signed, fractional, exponents, quoted); names, services, kinds, keys, tag values (v2) and annotation values that are not strings or have malformed \\u escapes; objects and arrays that are something else; binary annotation values that are objects or arrays. It is never decoded to some other id, time or text.",
  ["inputs"], "all documents x all positions of a value x all invalid values of its field",
  "The tests parse a handful of valid documents.",
  ["codec/hyperjson/bind.go", "codec/hyperjson/parser.go", "codec/hyperjson/string.go", "codec/json-v1.go", "codec/json-v2.go", "codec/json.go", "codec/jaeger.go", "proxy/id.go"],
  [("decoders of values", "codec/hyperjson/bind.go Uint64ValueDecoder, StringValueDecoder"), ("decoder of ids", "codec/json-v2.go idValueDecoder"), ("types of fields", "codec/jaeger.go jaegerSpan")],
  ["codec.ParseJsonV1, ParseJsonV2 and ParseJaeger"])

p("P31", "The user's routing sees every request, decompressed",
  "With MainWithRouting every HTTP request to the service goes through the handler that the routing function returns, once. It and the routes that were added to the router see the request's method, URL, parameters and headers as sent and the body decompressed if it was sent with Content-Encoding gzip, without that header then; an incomplete stream is an error when it is read. A request whose gzip header is broken is answered with 400 without reaching them. Behind this handler the routes for spans behave as documented, also if it has read and replaced the body, and a request that it does not pass on has no effect.",
  ["inputs", "configurations", "schedules"], "all requests to own routes and to those for spans x what the handler around them does",
  "MainWithRouting and the HTTP handlers have no test.",
  ["main.go", "handlers.go"],
  [("composition of the handlers", "main.go MainWithRouting"), ("decompression", "handlers.go handleGzipRequestBody")],
  ["what an own route and an own handler around all routes of a running program get, and the spans that reach its converter"])

p("P32", "Traces reach the agent assembled, however they were sent",
  "If all records of a trace are accepted within less than the quiet time, the agent gets the trace as exactly one, no matter over how many requests, clients, formats or (with Kafka) instances the records were spread, in which order they came, how often they were repeated, and what else was sent meanwhile. It has one span for each id, with what its client and server recorded, its recorded parent, and a single root, which is added if the parent that all orphans name is missing. Starts are in the clock of the root's host: calls whose span has the records of both sides reveal how far clocks are apart. If different parents are missing, the agent gets nothing of the trace. This is so for each trace independently of others.",
  ["inputs", "histories", "schedules", "configurations"], "all sets of traces x all ways to record, lose, split, repeat and send them x without Kafka or with several instances",
  "The way of a span through the whole program is not run by any test; the parts are tested with single traces.",
  ["main.go", "handlers.go", "codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go", "correct.go", "datadog/converter.go", "balance/sender.go", "balance/receiver.go"],
  [("wiring of all parts", "main.go MainWithRouting"), ("a single collector for all spans", "correct.go ErrorCorrectSpans"), ("merge of client and server records", "correct.go mergeSpansInPlace"), ("correction down the trace", "correct.go correctTreeTimings")],
  ["traces that arrive at stand-in agents of the running programs"])

p("P33", "Documents bind to Go values as encoding/json binds them",
  "Decoders that are put together from those of hyperjson (numbers, strings, maps, slices, arrays, structs, in any nesting) put into a new Go value what encoding/json puts into it, for every valid document, however its text is written, split into reads and buffered: each known field at its place, unknown fields and surplus array elements without any effect, missing ones zero. A value of another kind, or a number that is negative, not an integer or does not fit, and a document that ends early are errors exactly as with encoding/json. Nothing outside of the value is written to, and it does not change later, also if the buffers are used again or further values of the same stream are decoded. (Nulls, fields given twice, and names that differ only in case are not claimed.)",
  ["inputs", "programs"], "all types that can be put together x all documents x all splits and buffers",
  "Tests decode single span documents. The decoders write through unsafe pointers and computed offsets, so that mistakes show for particular types and numbers of elements only.",
  ["codec/hyperjson/bind.go", "codec/hyperjson/parser_skip.go", "codec/hyperjson/parser.go"],
  [("binding to values", "codec/hyperjson/bind.go Make*Decoder"), ("numbers", "codec/hyperjson/bind.go Uint64ValueDecoder"), ("copies of strings", "codec/hyperjson/bind.go StringValueDecoder")],
  ["decoded Go values and errors"])

p("P34", "A broken agent harms neither the program nor later traces",
  "While the agent is not there, refuses or resets connections, answers with errors or with something that is not HTTP, late or not at all, the program keeps running (it also starts), answers every request truthfully, passes every accepted span once to the converter, after the usual time, and serves the page of recent spans. Spans of this time may be lost, but none reaches the agent altered, and the agent accepts none twice. Whatever happened before, as soon as the agent works again, every span that is sent (or that a trace still waits for) from then on reaches it exactly once, unaltered.",
  ["fault_sequences", "inputs", "histories", "schedules"], "all sequences of faults of the agent x all requests before and after their end",
  "No test has an agent at all. Errors have to be injected between the program and its agent, for longer than a trace is collected, and what comes after them has to be watched.",
  ["datadog/converter.go", "main.go", "buffer.go"],
  [("submission in the background that logs errors only", "datadog/converter.go submitTraces"), ("queue that discards when it is full", "datadog/converter.go Sink"), ("start without the agent", "main.go MainWithRouting")],
  ["answers to requests, calls of the converter and what stand-in agents accept, of running programs"])

p("P35", "Killed instances and broken connections lose no span of the topic",
  "With Kafka, however instances of the consumer group are killed, told to end, or started, their connections to the broker break or are refused, the group forgets or rebalances its members, and single requests to it fail: every readable span of the topic is processed, unaltered, by an instance, except those whose offset was committed by an instance that has ended since, and parts of a trace that was torn apart that have no unique root. The other instances keep running and answer requests truthfully; those whose connections do not break write every accepted span to the topic. An instance that is told to end does so. As soon as the broker works again, every instance takes part in the group again and sends spans to the topic again, without being restarted, and from then on every accepted span is written once, to the partition of its trace, and processed once, its trace as a whole.",
  ["fault_sequences", "crash_points", "histories", "schedules", "inputs"], "all sequences of failures of instances, connections, the group and single requests x all spans that come meanwhile and afterwards",
  "Nothing that involves Kafka is run by a test. What is lost when an instance dies depends on when exactly an offset is committed.",
  ["balance/receiver.go", "balance/sender.go", "main.go"],
  [("marking after the callback", "balance/receiver.go ConsumeClaim"), ("sessions start again", "balance/receiver.go Consume"), ("errors of the producer are taken", "balance/sender.go logErrors"), ("wiring", "main.go MainWithRouting")],
  ["messages and committed offsets at a stand-in broker; calls of the converter in each instance, until it ends"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
