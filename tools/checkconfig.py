"""What /verif/check.py runs for each property, and what it says about it."""

ASSUMPTIONS = [
    "the Go toolchain, rapid, testing/synctest and the harness in /verif/harness work correctly",
    "the generated cases are a sample, see the classes for how they are distributed",
]

DOC_RULE = (
    "A case is a document built from drawn spans (ids of all widths, all optional fields, strings of all kinds and "
    "lengths), how it is rendered (whitespace, escapes, field order, unknown fields of any type and depth) and how the "
    "reader splits it; the expected spans are computed from the drawn spans, not from the text. Non-trivial: at least "
    "one span, and several spans, a non canonical rendering, or split reads.")

DOC_NOTE = (
    "Sampled, not exhaustive. The oracle computes the expected spans from the generated values; the renderer and the "
    "read splitter are independent of the parser. Outside of it: null values other than parent ids, duplicated field "
    "names, ids of more than 16 digits, text that is not UTF-8, times beyond int64 nanoseconds.")

VIRTUAL = "testing/synctest makes the clock virtual, the code under test runs unchanged. "

RACE = {"race": True, "subs": ["concurrent"], "scale": 0.1, "workers": 4}

CHECKS = {}


def check(prop, technique, rule, note, runs=None, assumptions=()):
    CHECKS[prop] = {"technique": technique, "rule": rule, "note": note,
                    "runs": runs or [{"pkg": "checks/" + prop.lower()}], "assumptions": list(assumptions)}


for prop, fmt in (("P01", "Zipkin v2"), ("P02", "Zipkin v1"), ("P03", "Jaeger")):
    check(prop, "property-based testing (rapid): generated spans are rendered as %s documents in arbitrary ways, parsed, "
          "and compared with a reference model; failures are shrunk" % fmt, DOC_RULE, DOC_NOTE)

check("P04", "fuzzing with structured mutations (rapid) of valid documents, truncation at every position, failing readers "
      "and deep nesting; oracle: outcome invariants and equality over all read splits",
      "A case is a mutated document or byte string, its reader (splits, failure) and a parser; every one is parsed in one "
      "read and split. Non-trivial: the input is rejected or its reader fails (malformed), any valid document cut off "
      "(truncated), nested more than 1000 levels (deep).",
      "Sampled. A hang is a case that takes more than 30 s, a stack overflow ends the process and is reported with the "
      "case from a journal. Readers that return data together with an error other than EOF are not generated.")

check("P05", "stateful property-based testing (rapid): sequences and concurrent batches of valid and broken requests against "
      "the spans of the same request parsed alone in a fresh process; concurrent part also under the race detector",
      "A case is a sequence of requests of all formats (some broken, large, or with duplicate fields), or one per "
      "goroutine. Results are checked at once and again at the end, with garbage collections in between. Non-trivial: at "
      "least two valid requests in a sequence, at least two goroutines.",
      "Sampled; schedules are those of the Go scheduler on this machine, plus all synchronisation the race detector "
      "tracks. A result that differs from the model counts only if a fresh process gives another result for the request.",
      [{"pkg": "checks/p05"}, dict(RACE, pkg="checks/p05")])

check("P06", "differential property-based testing (rapid) of the pull parser against encoding/json tokens, with random walks "
      "of reads, skips and wrong reads",
      "A case is a JSON document, a buffer, a read split and a walk (which values are read, skipped, or first read with a "
      "wrong type). Non-trivial: more than two values are read.",
      "Sampled. Documents are objects or arrays, nested up to 9000 deep; text is valid UTF-8.")

check("P07", "round-trip property-based testing (rapid) and comparison with an independent Avro writer",
      "A case is a span and trailing bytes; it is compared with the encoding of an Avro reference writer, decoded with "
      "different readers, and decoded from tag maps that are split into blocks. Non-trivial: it has tags and a name or a "
      "service.",
      "Sampled, strings up to about 70 KiB. Any order of tags is accepted, as the decoder of the reference reads them.")

check("P08", "fuzzing (rapid) of encoded spans: bit flips, spliced and truncated data, huge lengths and counts; oracle: error "
      "or span within an allocation bound, no panic",
      "A case is a byte string. Non-trivial: more than 12 bytes that are rejected, or (prefix) a span of which every strict "
      "prefix is decoded.",
      "Sampled. Memory is measured per case as bytes allocated and limited to a multiple of the message's length plus a "
      "constant; a hang is a case that takes more than 30 s.")

check("P09", "model-based property-based testing (rapid) of concurrent senders with the real Kafka client against a stand-in broker "
      "on the loopback network, keys and values checked at the partitioner, at the broker and again at the end",
      "A case is a list of spans per sender, with sizes from a few bytes to above the limit. Non-trivial: several spans, "
      "and several senders or values of more than 512 bytes.",
      "Sampled; the concurrent part also runs under the race detector. The broker is a stand-in that speaks the protocol for producing.",
      [{"pkg": "checks/p09"}, dict(RACE, pkg="checks/p09", scale=0.2)])

check("P10", "stateful property-based testing (rapid): scripted consumer groups (sessions, claims, corrupt messages, errors, "
      "closing at any time) in virtual time, against a model of the callbacks and marks",
      "A case is a list of sessions with messages per partition, what the callback and the group do, and when it is closed. "
      "Non-trivial: at least two messages, and several partitions, sessions, or a corrupt message.",
      VIRTUAL + "Sampled. The consumer group is a stand-in that follows the contract of sarama.ConsumerGroup; messages that "
      "arrive after a session was cancelled may be left for the next one.",
      [{"pkg": "checks/p10"}, dict(RACE, pkg="checks/p10")])

check("P11", "model-based property-based testing (rapid) of arrival histories in virtual time: each forwarded group is compared "
      "with the distinct spans received for its trace since the last one",
      "A case is a history of spans of several traces with bursts, repeated records, invalid records, and a receiver that "
      "may be slow. Non-trivial: more than two records, and several traces or a trace with more than two spans.",
      VIRTUAL + "Sampled. Gaps within a burst stay below the quiet time, each burst has a single root.")

check("P12", "model-based property-based testing (rapid) of arrival histories in virtual time: a reference model predicts every "
      "group, forwarding time must be in [last + 8 s, last + 8.2 s]",
      "A case is a list of traces with their records and the gaps between them, many near 8 s. Non-trivial: a group with "
      "several records or several traces.",
      VIRTUAL + "Sampled. Records at the very instant of a possible tick are not generated.")

check("P13", "model-based property-based testing (rapid): waves of up to 125000 spans in virtual time against a reference model "
      "of quiet times and shedding",
      "A case is a number of waves of traces and some later records. Non-trivial: at least 40000 spans are open at some time.",
      VIRTUAL + "Sampled. Cases whose outcome depends on when within 0.2 s the program looks at its traces are skipped; of "
      "traces of the same size any may be discarded.")

check("P14", "model-based property-based testing (rapid): long histories with ages around 5 quiet times and sizes around 8192 "
      "spans in virtual time against a reference model",
      "A case is a list of traces with their records, with or without load. Non-trivial: a trace is dropped, and spans "
      "arrive for it later or other traces are forwarded.",
      VIRTUAL + "Sampled. Cases whose outcome depends on when within 0.2 s the program looks at its traces are skipped.")

check("P15", "property-based testing (rapid) of merges against rules computed from all records, and a metamorphic relation over "
      "the order of arrival",
      "A case is a set of records of spans (with client, server, both or no timings) in an order of arrival. Non-trivial: at "
      "least two records (records), any pair (orders).",
      VIRTUAL + "Sampled. Timings that several records disagree on may come from any record of that kind.")

check("P16", "property-based testing (rapid) against a reference model of the correction, and a metamorphic relation: shifting "
      "all clocks below a hop changes nothing",
      "A case is a tree of spans with any subset of timings and clock offsets. Non-trivial: several spans (model), spans "
      "below the hop and an offset that is not zero (shift).",
      VIRTUAL + "Sampled. 1 ns of rounding per hop is allowed for in the model, none in the relation (even offsets).")

check("P17", "property-based testing (rapid): traces with all kinds of roots, missing parents and cycles against a reference "
      "classification",
      "A case is a list of traces as parent relations. Non-trivial: a root is missing or ambiguous, or one root and several "
      "spans.",
      VIRTUAL + "Sampled. What happens to several spans without any parent id in one trace is left open.")

check("P18", "property-based testing (rapid) of the conversion against a field by field reference, seen at a stand-in transport "
      "in virtual time",
      "A case is a list of traces with arbitrary spans. All are non-trivial.",
      VIRTUAL + "Sampled. Up to several thousand spans in a case; submitted spans are compared again at the end.")

check("P19", "model-based property-based testing (rapid) of arrival histories against a responsive stand-in agent in virtual time",
      "A case is a list of traces and when they are handed over, and which submissions fail. Non-trivial: at least two "
      "submissions.",
      VIRTUAL + "Sampled. Spans that are pending when the input is closed are not claimed.")

check("P20", "stateful property-based testing (rapid) with injected faults: agents that are slow, hang for a while or for ever, in "
      "virtual time, against invariants over the history of submissions",
      "A case is a list of traces, when they are handed over, and when the agent answers how fast. Non-trivial: a "
      "submission waited for more than 5 s or a batch was discarded.",
      VIRTUAL + "Sampled.")

check("P21", "stateful property-based testing (rapid) of lookups with reused buffers and evictions against the looked up "
      "content; concurrent part also under the race detector",
      "A case is a sequence of lookups of three kinds, one per goroutine, or hundreds of thousands of different strings. "
      "Non-trivial: a value is looked up twice.",
      "Sampled; schedules are those of the Go scheduler on this machine.",
      [{"pkg": "checks/p21"}, dict(RACE, pkg="checks/p21")])

check("P22", "model-based property-based testing (rapid) of the cache against a reference list",
      "A case is a maximum size and a sequence of insertions and lookups. Non-trivial: a value is evicted and one is found.",
      "Sampled. The overhead that is accounted for each value is measured, not assumed.")

check("P23", "stateful property-based testing (rapid) of the ring buffer against a list; concurrent readers also under the race "
      "detector",
      "A case is a capacity, traces, and when the buffer is read. Non-trivial: more spans than the capacity.",
      "Sampled; schedules are those of the Go scheduler on this machine.",
      [{"pkg": "checks/p23"}, dict(RACE, pkg="checks/p23")])

PROGRAM = {"programs": {"VF_PROXY": "cmd/proxy"}, "workers": 32, "procs": 2}
PROGRAM_RACE = dict(PROGRAM, name="race", race_programs=True, scale=0.1, workers=8)

check("P24", "property-based testing (rapid) of the running program: concurrent clients send generated good and broken requests "
      "(also injected disconnects and slow bodies) over the loopback network; statuses are compared with how each request "
      "was built, the spans that reach the converter with those of the good ones; also under the race detector",
      "A case is what up to 16 clients send to a fresh process, up to 500 requests. Non-trivial: several requests and at "
      "least one span. Some requests are large (up to 12 MB).",
      "Sampled, in real time: a case takes about 10 s, so there are few, each with many requests. A gzip stream that is broken "
      "is broken before the end of the document. Schedules are those of the machine.",
      [dict(PROGRAM, pkg="checks/p24"), dict(PROGRAM_RACE, pkg="checks/p24")])

check("P25", "property-based testing (rapid) of the running program: generated traces with a converter that changes, rejects or "
      "moves spans as their tags say, against a stand-in agent on the loopback network and the recent-spans page; also "
      "under the race detector",
      "A case is what up to 16 clients send to a fresh process, with what the converter does with each span. Non-trivial: "
      "some spans are rejected and more than one is not.",
      "Sampled, in real time: a case takes about 12 s, so there are few, each with up to thousands of spans.",
      [dict(PROGRAM, pkg="checks/p25"), dict(PROGRAM_RACE, pkg="checks/p25")])

check("P26", "property-based testing (rapid): round trips and comparison with a reference parser",
      "A case is an id or a text near the valid ones. Non-trivial: an id above 9, a text of at least two characters.",
      "Sampled.")

check("P27", "round-trip property-based testing (rapid) and comparison with big integers",
      "A case is a span, or two times. Non-trivial: a span with tags and a start, a time with a fraction of a millisecond.",
      "Sampled over the whole range of 64-bit nanoseconds.")


check("P28", "property-based testing (rapid) of several running programs that share a topic and a consumer group of a stand-in "
      "broker: concurrent clients send to all of them, with injected corrupt messages and rebalances; the messages of the "
      "topic, the calls of the converters and the committed offsets are compared with the accepted spans",
      "A case is what up to 16 clients send to up to 4 instances, the topic (existing or not, partitions, messages before and "
      "after the group's offset), corrupt messages, and when the group is rebalanced. Non-trivial: more than one instance and "
      "more than one span.",
      "Sampled, in real time: a case takes about 15 s. The broker is a stand-in, a single node without failures. Instances do "
      "not come and go while spans are sent.",
      [dict(PROGRAM, pkg="checks/p28")])

check("P29", "stateful property-based testing (rapid): generated work is repeated in phases, by the parts of the program and by the "
      "whole program over the loopback network (with broken requests, disconnects, Kafka); invariant: after the garbage "
      "collector, memory, goroutines and open files do not grow from phase to phase",
      "A case is what is done in each phase. Non-trivial: it has more than the least amount of work (documents: spans are "
      "parsed, collector: more than 100 traces, agent: traces with spans, messages: some can be decoded, buffer: several spans "
      "in a trace, cache: all, program: more than one request).",
      VIRTUAL + "Sampled. Growth counts if it goes on in three rounds of several phases and is more than a few bytes for each thing "
      "that was done, so a leak that is rare or smaller than that is not seen. Ids differ in all phases, the strings of requests "
      "repeat in some checks.",
      [{"pkg": "checks/p29", "subs": ["documents", "collector", "agent", "messages", "consumer", "buffer", "cache"], "name": "parts"},
       dict(PROGRAM, pkg="checks/p29", subs=["program"], name="program", workers=16)])

check("P30", "metamorphic property-based testing (rapid): generated documents with a single value replaced by one that its field "
      "cannot have must be rejected, and are accepted without that",
      "A case is a document, how it is split into reads, which value is replaced, and by what. Non-trivial: the document has spans.",
      "Sampled. Lenient syntax (missing commas, unknown escapes, misspelled literals, values of unknown fields) is not looked at.",
      [{"pkg": "checks/p30"}])

check("P31", "property-based testing (rapid) of the running program with own routes and an own handler around all routes: concurrent "
      "generated requests to them and to those for spans over the loopback network; what they get is compared with what was sent, "
      "and the spans that are processed with those of the requests that were passed on; also under the race detector",
      "A case is what clients send to a fresh process and what the handler does with it. Non-trivial: several requests for spans, "
      "at least one span, and a compressed request to an own route.",
      "Sampled, in real time. Schedules are those of the machine.",
      [dict(PROGRAM, pkg="checks/p31"), dict(PROGRAM_RACE, pkg="checks/p31")])

check("P32", "property-based testing (rapid) of the running program (also several instances with Kafka): generated systems of hosts with "
      "different clocks send what they recorded of generated traces, spread over requests; what the agent gets is compared with "
      "what really happened, in the clock of the first host",
      "A case is what hosts with their clocks send of up to 150 traces with up to 200 operations, with records missing. Non-trivial: "
      "a trace with several spans whose records are spread over several requests.",
      "Sampled, in real time: a case takes about 13 s. Schedules are those of the machine. Traces are complete long before the "
      "quiet time ends, calls and answers take the same time, spans have one record of each side.",
      [dict(PROGRAM, pkg="checks/p32")])

check("P33", "differential property-based testing (rapid): generated types, with decoders put together from those of hyperjson, are filled "
      "from generated documents and compared with what encoding/json puts into the same type; memory next to them is guarded",
      "A case is a type, one to three documents for it (maybe with a value of another kind, or cut off), how they are split into reads, "
      "and the buffer. Non-trivial: a nested type and more than 20 bytes.",
      "Sampled. Types have up to five levels. Values start out zero. Nulls in known fields, fields given twice and names that differ "
      "in case are not generated, neither is text that is no JSON, apart from documents that are cut off.",
      [{"pkg": "checks/p33"}])

check("P34", "fault injection with property-based testing (rapid): the running program gets generated requests while its stand-in agent "
      "follows generated faults (not listening, resets, errors, garbage, hanging), and others around their end; statuses, calls of the "
      "converter and accepted submissions are compared with what was sent",
      "A case is what clients send during and after faults of the agent, and up to three kinds of these. Non-trivial: spans were sent in "
      "both phases, and a submission met a fault (or the agent was not there at all).",
      "Sampled, in real time: a case takes about 25 s. Schedules are those of the machine. Of spans that are submitted during a "
      "fault nothing is claimed but that they are accepted at most once.",
      [dict(PROGRAM, pkg="checks/p34")])

check("P35", "fault injection with property-based testing (rapid): instances that share a topic of a stand-in broker are killed, ended and "
      "started, their connections break or are refused, the group forgets them, single requests fail, while spans come; the calls of "
      "all converters are compared with the topic and the offsets each instance has committed",
      "A case is how spans come to the topic and to up to four instances, up to eight events, and what clients send when the broker "
      "works again. Non-trivial: more than ten spans in the topic, and an event.",
      "Sampled, in real time: a case takes about 30 s. Schedules are those of the machine. The broker is a single stand-in node that "
      "never loses a message. Nothing is claimed of spans that an instance with broken connections has not written yet, and of those "
      "whose offsets were committed by an instance that has ended since.",
      [dict(PROGRAM, pkg="checks/p35")])
