"""The check of each property: what is explored, recorded and compared."""
from vlib import CheckError, parallel

AGG = "the scenarios run in a testing/synctest bubble (virtual time), with the loop's own tickers"


def boolean(b):
    return "TRUE" if b else "FALSE"


def model(c, *cfgs):
    """Exhaustive model checking of the lifecycle of traces (Aggregator.tla)."""
    c.mc("MCAggregator", what="lifecycle of traces with small constants: all interleavings of arrivals, checks and hand-overs")
    if c.prop == "C25" or not c.quick:
        c.mc("MCAggregator", "MCAggregatorRoom.cfg", name="MCAggregatorRoom", what="the same with a channel that holds one or two traces")
    if not c.quick:
        c.mc("MCAggregator", "MCAggregatorDeep.cfg", name="MCAggregatorDeep", timeout=3000, what="the same, deeper")


def agg(c, families, reps=1, metrics=False):
    def one(fam, rep):
        seed = c.seed + 7919 * rep
        lines = c.run("TestAgg", fam, shards=2 if c.quick else 8, tag="agg-" + fam, seed=seed,
                      env={"VERIF_METRICS": "1" if metrics else "0"}, timeout=2400)
        c.validate("TraceAggregator", lines, steps=lambda ln: len(ln["ev"]) + 1, timeout=2400,
                   name="TraceAggregator %s seed %d" % (fam, seed), what=AGG)
    if not c.quick:
        reps *= 4
    c.build()
    jobs = [lambda f=f, r=r: one(f, r) for r in range(reps) for f in families]
    parallel(lambda: model(c), *jobs, width=4)
    c.assumptions += ["the recording order of events is the order in which they happen (unbuffered channels, synctest)"]


def tree(c, kind):
    def mc():
        c.mc("MCSpanTree", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS NothingLost Halves OneRoot DroppedRootless OnlyTimes\n"
             "CONSTANTS Kind=\"%s\" Deep=FALSE\n" % kind, name="MCSpanTree " + kind,
             what="the consequences of the merge, root and clock rules, on all generated cases", workers=4)

    def go():
        g = c.fresh(kind + ".ndjson")
        c.gen("GenSpanTree", g, "SPECIFICATION Spec\nCONSTANTS Kind=\"%s\" Deep=%s\n" % (kind, boolean(not c.quick)),
              extra=["-seed", str(c.seed)])
        lines = c.run("TestTree", inp=g, shards=8, tag=kind)
        c.validate("TraceSpanTree", lines, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS What=\"%s\"\n" % kind,
                   steps=lambda ln: 2, what="one trace per log: reports sent, trace handed on")
    parallel(mc, go)


def wide(c):
    c.build()
    lines = c.run("TestAgg", "wide", shards=4, tag="agg-wide", env={"VERIF_METRICS": "0"}, timeout=2400)
    c.validate("TraceAggregator", lines, steps=lambda ln: len(ln["ev"]) + 1, timeout=2400,
               name="TraceAggregator wide", what="traces with up to 8,190 roots or children, and long chains")


def both(kind, families, reps):
    def check(c):
        tree(c, kind)
        agg(c, families, reps)
    return check


CHECKS = {
    "C07": lambda c: agg(c, ["basic", "content", "load", "late"], 3),
    "C08": lambda c: agg(c, ["timing", "load"], 3),
    "C09": lambda c: (tree(c, "merge"), agg(c, ["content", "late"], 2)),
    "C10": lambda c: parallel(lambda: tree(c, "roots"), lambda: wide(c)),
    "C11": lambda c: parallel(lambda: tree(c, "skew"), lambda: wide(c)),
    "C12": lambda c: agg(c, ["large", "old", "block"], 2),
    "C13": lambda c: agg(c, ["shed"], 4),
    "C24": lambda c: agg(c, ["basic", "content", "roots", "merged", "shed", "large", "old", "block"], 1, metrics=True),
    "C25": lambda c: agg(c, ["stall"], 6),
}

LIFE = ("Every run is a behaviour of Aggregator.tla (TLC infers the checks between the recorded events); the specification "
        "itself is checked exhaustively with small constants. Bounded to the scenarios generated from the seed; virtual time.")
NOTES = {
    "C07": ("trace", LIFE),
    "C08": ("trace", LIFE),
    "C09": ("cases", "Exhaustive over presence combinations of two and three reports, sampled for up to five; TLC compares every handed-on span."),
    "C10": ("cases", "Exhaustive over all parent structures of up to four spans (ids incl. the trace id, foreign and zero parents), sampled for five and six."),
    "C11": ("cases", "Exhaustive over clock kinds on small tree shapes, sampled for chains of eight; TLC computes the expected times."),
    "C12": ("trace", LIFE + " Trace sizes up to 73,728 spans; up to some thousand blocked ids."),
    "C13": ("trace", LIFE + " Loads up to about 200,000 spans."),
    "C24": ("trace", LIFE + " All metrics are compared at rest points."),
    "C25": ("trace", LIFE + " The harness stops taking traces at arbitrary points."),
}


def pure(c, module, lines, what, cfg="Pure.cfg", **kw):
    """One specification step per log line."""
    return c.validate(module, lines, cfg=cfg, steps=lambda ln: 2, what=what, **kw)


def sink(c, fam, reps=2):
    c.build()

    def one(rep):
        lines = c.run("TestSink", fam, shards=4, tag="sink-" + fam, seed=c.seed + 7919 * rep)
        c.validate("TraceSink", lines, steps=lambda ln: len(ln["ev"]) + 1, name="TraceSink %s %d" % (fam, rep),
                   what="runs of datadog.Sink with a recording agent, virtual time")
    parallel(lambda: c.mc("MCSink", "MCSink.cfg" if c.quick else "MCSinkDeep.cfg", timeout=3000, workers=4,
                          what="all interleavings of traces, ticks and agent calls with small constants"),
             *[lambda r=r: one(r) for r in range(reps if c.quick else reps * 5)], width=4)


def sinkconv(c):
    lines = c.run("TestSinkConv")
    pure(c, "TraceDatadog", lines, "spans given to the sink and the agent's spans, read when the agent's call returns")


CHECKS.update({
    "C15": sinkconv,
    "C16": lambda c: sink(c, "flow"),
    "C17": lambda c: sink(c, "slow"),
})
SINKNOTE = ("Every recorded run is a behaviour of Sink.tla (TLC infers the ticks), which is itself checked exhaustively with small "
            "constants. Bounded to the scenarios generated from the seed; virtual time.")
NOTES.update({
    "C15": ("cases", "Random spans from palettes of edge values, more than 4,096 per run; TLC computes the expected agent span of each."),
    "C16": ("trace", SINKNOTE),
    "C17": ("trace", SINKNOTE),
})


def forward(c):
    c.build()
    if "forward" not in c.shims:
        return whole(c)         # the function is not there any more: only the assembled program is left

    def go():
        lines = c.run("TestForward", shards=8)
        c.validate("TraceForward", lines, cfg="Pure.cfg", steps=lambda ln: len(ln["ev"]) + 1,
                   what="runs of forwardSpansToChannels with 0-3 targets of different speeds")
    parallel(lambda: c.mc("MCForward", what="the loop with bounded channels, all interleavings; everything arrives (liveness)"), go)


def ring(c):
    c.build()
    steps = lambda ln: len(ln["snaps"]) + 1

    def seq():
        lines = c.run("TestRing", shards=4)
        c.validate("TraceRing", lines, cfg="Pure.cfg", steps=steps, what="snapshots between traces, capacities 1 to 2048", name="TraceRing sequential")

    def conc():
        lines = c.run("TestRingConc", shards=1)
        c.validate("TraceRing", lines, cfg="Pure.cfg", steps=steps, what="snapshots by four readers while traces are written", name="TraceRing concurrent")

    def race():
        lines = c.run("TestRingConc", shards=1, race=True, tag="race")
        c.validate("TraceRing", lines, cfg="Pure.cfg", steps=steps, what="the same with the race detector", name="TraceRing race")
    parallel(lambda: c.mc("MCRing", what="the ring algorithm shows the last N spans"), seq, conc, race)


CHECKS.update({"C14": forward, "C18": ring})
NOTES.update({
    "C14": ("trace", "Runs of the forwarder with 0 to 3 targets, every kind of converter outcome, and random speeds are behaviours of Forward.tla; the loop is model checked including liveness."),
    "C18": ("trace", "Snapshots between traces are compared exactly; snapshots of concurrent readers must be states after whole traces and never go back. The interleavings of readers and writer are those that happen."),
})


def lru(c):
    c.build()

    def ops():
        lines = c.run("TestLru", shards=4)
        c.validate("TraceLru", lines, cfg="Pure.cfg", steps=lambda ln: len(ln["ops"]) + 1, what="operation sequences on caches of all sizes")

    def looks():
        pure(c, "TraceCache", c.run("TestCache"), "lookups in the shared cache, one and many goroutines, callers overwriting their buffers",
             name="TraceCache")

    def race():
        pure(c, "TraceCache", c.run("TestCache", race=True, tag="race", timeout=900), "the same with the race detector", name="TraceCache race")

    def shared(rep):
        lines = c.run("TestShared", seed=c.seed + 7919 * rep, tag="shared%d" % rep)
        c.validate("TraceShared", lines, cfg="Pure.cfg", steps=lambda ln: len(ln["ops"]) + 1, name="TraceShared %d" % rep,
                   what="the shared cache of 5 MiB and its metrics, one lookup after the other and many at the same time")
    jobs = [ops, looks, race] + [lambda r=r: shared(r) for r in range(2 if c.quick else 6)]
    parallel(lambda: c.mc("MCLru", what="the doubly linked list, pointer by pointer, refines the sequence of recently used strings"), *jobs)


CHECKS.update({"C23": lru})
NOTES.update({"C23": ("trace", "The linked list is model checked against Lru.tla for every operation sequence over five keys; recorded operation sequences and lookups of the code are validated; concurrency as it happens, also under the race detector.")})


def idtext(c):
    c.build()
    jobs = [lambda t=t: pure(c, "TraceIdText", c.run(t), what, name="TraceIdText " + t)
            for t, what in [("TestIdParse", "parses of all texts up to 2 bytes and of longer ones with every kind of flaw at every place"),
                            ("TestIdFormat", "ids as text and JSON, and read back from it")]]
    jobs += [lambda z=z: pure(c, "TraceIdText", c.run("TestIdRound", tag="round%d" % z, env={"VERIF_ZONE": str(z)}),
                              "timestamps and spans written as JSON and read back", name="TraceIdText TestIdRound zone %d s" % z)
             for z in [0, 7200, -34200, -2670]]
    parallel(lambda: c.mc("MCIdText", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Inverse ShortForm Upper JsonInverse Injective\n",
                          what="formatting and parsing are inverse"), *jobs, width=4)


CHECKS.update({"C27": idtext})
NOTES.update({"C27": ("cases", "Exhaustive for texts of up to two bytes; sampled with every flaw at every place beyond. Strings of spans are valid UTF-8 (JSON holds no other).")})


def wire(c):
    c.build()
    jobs = [lambda t=t: pure(c, "TraceWire", c.run(t, shards=4), what, name="TraceWire " + t)
            for t, what in [("TestWireEncode", "encodings of spans with edge values and long strings, read back by the code"),
                            ("TestWireDecode", "decodings of messages with other block structures, of truncated and of wrong ones")]]
    parallel(lambda: c.mc("MCWire", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Lossless Bytes NoPrefix OtherBlocks\n",
                          what="reading is the inverse of writing; no prefix of a message is one"), *jobs)


CHECKS.update({"C19": wire})
NOTES.update({"C19": ("cases", "TLC encodes and decodes every recorded message bit by bit; values and string lengths around all boundaries of the varints, strings up to 40,000 bytes, and up to 5 MB (thorough: 256 MB) as runs of a byte.")})


def consumer(c):
    c.build()
    cfg = None if c.quick else ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Parts = 2\n Msgs = 3\n Trouble = 4\n"
                                "INVARIANTS NotStuck Once InOrder OnlyHanded AfterStop\nPROPERTIES Delivered Stops\n")

    def one(rep):
        lines = c.run("TestConsumer", shards=4, seed=c.seed + 7919 * rep)
        c.validate("TraceConsumer", lines, cfg="Pure.cfg", steps=lambda ln: len(ln["ev"]) + 1, name="TraceConsumer %d" % rep,
                   what="runs of balance.Consume with a group whose sessions end and fail, virtual time")
    parallel(lambda: c.mc("MCConsumer", cfg, timeout=3000, what="the loops of the consumer, all interleavings; once, in order, all of it (liveness)"),
             *[lambda r=r: one(r) for r in range(2 if c.quick else 6)], width=4)


CHECKS.update({"C22": consumer})
NOTES.update({"C22": ("trace", "Every recorded run is a behaviour of Consumer.tla, which is model checked with the loops of the code (safety and liveness). "
                               "The group is the harness's, after the contract of sarama.ConsumerGroup; virtual time.")})


def producer(c, fams, mc):
    c.build()

    def one(fam):
        # one processor has one encoder, which then gets used over and over again
        env = {"GOMAXPROCS": "1"} if fam == "swift" else {}
        lines = c.run("TestProducer", fam, shards=2 if c.quick else 4, tag=fam, env=env)
        c.validate("TraceProducer", lines, cfg="Pure.cfg", steps=lambda ln: len(ln["ev"]) + 1, name="TraceProducer " + fam,
                   what="runs of balance.Sender with a broker behind net.Pipe, virtual time")
    def race():
        lines = c.run("TestProducer", "plain", shards=2, tag="race", race=True)
        c.validate("TraceProducer", lines, cfg="Pure.cfg", steps=lambda ln: len(ln["ev"]) + 1, name="TraceProducer race",
                   what="the same with the race detector")
    jobs = [race] if "plain" in fams else []
    parallel(lambda: c.mc(*mc[:1], what=mc[1]), *jobs, *[lambda f=f: one(f) for f in fams], width=4)


CHECKS.update({
    "C20": lambda c: producer(c, ["plain", "big", "huge", "swift"], ["MCEncoder", "messages in shared pieces of memory, made by two goroutines, never change"]),
    "C21": lambda c: producer(c, ["big", "huge", "down", "reject"], ["MCSender", "with bounded channels, everything is taken and what can be is delivered (liveness)"]),
})
SEND = ("The messages that reach a broker of the harness (sarama's real producer, configured as in main.go, over net.Pipe in virtual time) are those "
        "of Producer.tla. ")
NOTES.update({
    "C20": ("trace", SEND + "The encoder's use of memory is model checked. Interleavings of senders are those that happen."),
    "C21": ("trace", SEND + "Oversized messages, refused and cut connections, error answers; sender and producer channels are model checked (liveness)."),
})


def jsontext(c):
    cfg = None if c.quick else ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Deep = TRUE\n"
                                "INVARIANTS RoundTrip Layout Trailing Truncated Agree Prefix\n")
    c.mc("MCJsonText", cfg, timeout=3000, workers=4, what="the two readings of JSON texts, on all small values and short texts")


def translate(c, formats):
    c.build()
    jobs = [lambda f=f: pure(c, "TraceParse", c.run("TestTranslate", f, shards=4, tag=f), "spans of documents, systematic and random",
                             name="TraceParse " + f) for f in formats]
    parallel(lambda: jsontext(c), *jobs)


def layout(c):
    c.build()
    parallel(lambda: jsontext(c),
             lambda: pure(c, "TraceParse", c.run("TestLayout", shards=8), "some hundred renderings of each document"),
             lambda: pure(c, "TraceLong", c.run("TestLongText", shards=2), "strings of up to 4 MB everywhere, of plain characters and of escapes"),
             lambda: pure(c, "TraceReader", c.run("TestReader", shards=4), "reads of texts with buffers of all sizes"))


CHECKS.update({
    "C02": lambda c: translate(c, ["v1"]),
    "C03": lambda c: translate(c, ["v2", "jaeger"]),
    "C04": layout,
})
NOTES.update({
    "C02": ("cases", "TLC reads the bytes of every document and computes its spans. The case analyses of timings, times and services are enumerated, the rest is sampled."),
    "C03": ("cases", "TLC reads the bytes of every document and computes its spans. The case analyses of kinds, times, references and tags are enumerated, the rest is sampled."),
    "C04": ("cases", "TLC computes the spans of one rendering; the harness produces the others (that these mean the same is by construction), up to 30 KB long."),
})


def ends(c):
    c.build()
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = %d\n Sizes = {0, 1, 2}\n MaxDepth = 2\n MaxEmpty = 1\n"
           "INVARIANTS Window InPlace Prefix Right Bounded\nPROPERTY Ends\n" % (4 if c.quick else 6))
    what = {"TestEndsShort": "all short texts, all short sequences of tokens", "TestEndsMutated": "documents and messages with changed bytes",
            "TestEndsLarge": "deep nesting, long tokens, lengths and counts that are not true"}

    def one(t):
        lines = c.run(t, shards=4, hang=120, timeout=3000)
        pure(c, "TraceEnds", lines, what[t], name="TraceEnds " + t)
        c.parts[-1]["inputs"] = sum(ln.get("inputs", 0) for ln in lines)
    parallel(lambda: c.mc("MCReader", cfg, timeout=3000, workers=4, what="the parser's window over its input: every text, buffer size and splitting into reads; it ends (liveness)"),
             *[lambda t=t: one(t) for t in what], width=4)


CHECKS["C05"] = ends
NOTES["C05"] = ("cases", "All texts of up to 4 (thorough: 5) structural characters, all sequences of 4 (5) tokens, mutated documents and messages, nesting up to a million levels (thorough: ten), texts of up to 8 (64) MB. "
                         "A parser that needs more than 90 s for a batch counts as hanging; memory is bounded by 1,000 bytes per byte of input plus 2 MiB.")


def pool_models(c):
    cfg = None if c.quick else ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Workers = 2\n Requests = 3\n MaxSpans = 1\n MaxAnns = 2\n Slices = 2\n"
                                "INVARIANTS Own Apart\n")
    return [lambda: c.mc("MCPool", cfg, timeout=3000, workers=4, what="requests that share pooled memory: nothing of one appears in another")]


def isolation(c):
    c.build()

    def one(rep):
        pure(c, "TraceIsolation", c.run("TestIsolation", shards=4, seed=c.seed + 7919 * rep, timeout=3000),
             "outcomes of bodies in histories of accepted and rejected ones, one after the other and at the same time", name="TraceIsolation %d" % rep)

    def race():
        pure(c, "TraceIsolation", c.run("TestIsolation", shards=4, race=True, tag="race", timeout=3000),
             "at the same time, with the race detector", name="TraceIsolation race")
    parallel(*pool_models(c), race, *[lambda r=r: one(r) for r in range(3 if c.quick else 4)], width=4)


CHECKS["C06"] = isolation
NOTES["C06"] = ("cases", "TLC computes what every body has to give on its own; all outcomes in histories of 60 requests over 16 bodies, and of eight concurrent "
                         "clients, are that, and still are at the end. The reuse of pooled memory is model checked. Interleavings are those that happen.")


def uploads(c):
    c.build()
    if "handlers" not in c.shims:
        return whole(c)         # the function is not there any more: only the assembled program is left
    cfg = None if c.quick else ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Uploads <- MCUploads\n Spans = 3\n Capacity = 2\n"
                                "INVARIANTS Whole InOrder\nPROPERTIES Answered Processed\n")
    parallel(lambda: c.mc("MCUpload", cfg, timeout=3000, workers=4, what="uploads at the same time into a bounded channel: whole, in order, answered (liveness)"),
             lambda: pure(c, "TraceUpload", c.run("TestUpload", shards=8), "uploads on their own: complete, cut off, damaged, of wrong types, compressed"),
             lambda: pure(c, "TraceUpload", c.run("TestUploadLarge", shards=2), "uploads of up to 40 MB, of many spans, much space, many unknown members", name="TraceUpload large"),
             lambda: pure(c, "TraceUpload", c.run("TestUploadTogether", shards=4), "uploads at the same time through a server", name="TraceUpload together"),
             lambda: pure(c, "TraceUpload", c.run("TestUploadStall", shards=2), "bodies that come and spans that are taken up to hours late (virtual time), clients that leave", name="TraceUpload stall"),
             lambda: pure(c, "TraceUpload", c.run("TestUploadTogether", shards=4, race=True, tag="race", seed=c.seed + 1), "the same with the race detector", name="TraceUpload race"))


CHECKS["C01"] = uploads
NOTES["C01"] = ("cases", "TLC reads the bytes that arrived, and says whether they must be accepted or rejected and what spans they give; cuts at every byte of the documents and of compressed "
                         "streams, single bytes missing or changed, wrong types anywhere (sampled), broken connections, concurrent uploads with slow processing. The handlers' use of the channel is model checked (liveness).")


def groups(c):
    c.build()
    cfg = None if c.quick else ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Members = {1, 2}\n NParts = 1\n Msgs = 3\n Budget = 3\n"
                                "INVARIANTS Allowed NoSkip\nPROPERTY Delivered\n")

    def one(rep):
        lines = c.run("TestGroup", shards=4, seed=c.seed + 7919 * rep, tag="group%d" % rep, timeout=3000)
        c.validate("TraceGroup", lines, cfg="Pure.cfg", steps=lambda ln: len(ln["ev"]) + 1, name="TraceGroup %d" % rep,
                   what="members of a group of sarama's that come, stop, die, are expelled and cut off, virtual time")
    parallel(lambda: c.mc("MCGroup", cfg, timeout=3000, workers=4, what="the loops of the members, commits, crashes and expulsions, all interleavings; nothing skipped, all delivered (liveness)"),
             *[lambda r=r: one(r) for r in range(2 if c.quick else 5)], width=4)


CHECKS["C28"] = groups
NOTES["C28"] = ("trace", "Runs of balance.Consume with sarama's real consumer groups against a cluster of the harness (joining, heartbeats, offsets, retention) over net.Pipe in "
                         "virtual time are behaviours of Group.tla; the members' loops are model checked (liveness). Crashes happen at sampled points.")


# -- C26: the assembled program

def pipeline_cfg(nodes, ups, shared, timely, live):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Nodes = {%s}\n Uploads = {%s}\n Traces = {1, 2}\n Cap = 1\n Ring = 2\n"
            " Shared = %s\n Timely = %s\n Dropped <- MCDropped\n Doc <- MCDoc\n At <- MCAt\nINVARIANTS Once Genuine ViewIsLast OneProxy WholeTraces\n%s"
            % (nodes, ups, boolean(shared), boolean(timely), "PROPERTIES Answered Delivered\n" if live else ""))


def pipeline(c):
    what = "how the parts are put together: every span once to the agent and the view, traces whole"
    jobs = [("1", "1, 2, 3", False, True, True), ("1, 2", "1, 2", True, True, True), ("1", "1, 2, 3", False, False, False)]
    if not c.quick:
        jobs += [("1", "1, 2, 3, 4", False, True, True), ("1", "1, 2, 3", False, False, True), ("1, 2", "1, 2, 4", True, True, True), ("1, 2", "1, 2", True, False, False)]
    return [lambda j=j, i=i: c.mc("MCPipeline", pipeline_cfg(*j), name="MCPipeline %d" % i, timeout=3000, workers=3,
                                  what=what + (" (two proxies that share a topic)" if j[2] else "")) for i, j in enumerate(jobs)]


def whole(c):
    c.build()
    runs = 3 if c.quick else 9
    lines, more = [], []
    kruns = 2 if c.quick else 8
    # in real time: nothing else runs at the same time
    parallel(lambda: lines.extend(c.run("TestWhole", shards=runs, env={"VERIF_RUNS": str(runs)}, timeout=800, hang=300)),
             lambda: more.extend(c.run("TestWholeKafka", shards=kruns, env={"VERIF_RUNS": str(kruns)}, timeout=800, hang=300)))
    parallel(lambda: pure(c, "TraceWhole", lines, "stories of uploads and what the agent and the view of the running program got of them"),
             lambda: pure(c, "TraceWhole", more, "the same through Kafka: one program and its successor, or two at the same time", name="TraceWhole kafka"), *pipeline(c))


CHECKS["C26"] = whole
NOTES["C26"] = ("trace", "The program runs as processes of its own (one, one after the other, two that share a topic), uploads come over HTTP, agent and Kafka cluster are the harness'. "
                         "Real time: scenarios are few, but have hundreds of uploads each. How the parts are put together is model checked (liveness).")


def page(c):
    c.build()
    runs = 2 if c.quick else 12

    def real():
        lines = c.run("TestPage", shards=runs, timeout=800, hang=300)
        c.validate("TracePage", lines, cfg="Pure.cfg", steps=lambda ln: len(ln["ev"]) + 1, name="TracePage", what="the metrics page of the running program before, between and during uploads")
    parallel(lambda: c.mc("MCPage", timeout=3000, workers=4, what="uploads, the aggregation and a reader of the page step by step: counts lie between the bounds, and are exact in the end"), real)


CHECKS["C30"] = page
NOTES["C30"] = ("trace", "The program runs as processes of its own; uploads, shapes of traces and moments of reading are sampled. Every page has counts between those that Page.tla gives "
                         "for what had been answered (or had left) when it was asked for and what had been sent when it was read.")


def serve(c):
    c.build()
    kinds = 3 if c.quick else 12
    parallel(lambda: c.mc("MCServe", timeout=3000, workers=4, what="requests at the same time, step by step: only accepted uploads put in spans, the user's handler is asked first, all are answered (liveness)"),
             lambda: pure(c, "TraceServe", c.run("TestServe", shards=kinds, timeout=800, hang=300),
                          "requests of all kinds to the running program, without a routing, with one that denies and has routes, with one that strips a prefix"))


CHECKS["C29"] = serve
NOTES["C29"] = ("trace", "The program runs as processes of its own, with routings of the harness; methods, paths, encodings, damage and bodies are sampled. What the handlers saw and answered, and "
                         "what the view has of each request's trace, is what Serve.tla and Translate.tla give.")
