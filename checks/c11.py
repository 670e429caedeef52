"""C11: callbacks see every row once, in the order of the trace"""
from hypothesis import strategies as st

import gen
import tr
import trappy
from harness import Sub, Violation, expect
from checks.c01 import clean, expected, kv

LEVEL = "exploration"
RULE = ("Callbacks for a subset of the events of a generated trace record their "
        "calls, which are compared with the lines of the trace in order.  "
        "Non-trivial: at least two events with rows interleave.")
ASSUMPTIONS = ["a column named Index can't be told from the time"]

KEYS = ["a", "b", "class", "def", "_x", "__y", "a-b", "9z", "count", "index",
        "name", "x.y", "Time", "_1", "None", "self", "lambda"]


def check(case):
    lines = case["lines"]
    clean(lines, gen.EVENT_NAMES)
    kwargs = {}
    first = gen.ts_value([l for l in lines if l["k"] == "ev"][0]["ts"])
    if case["window"]:
        kwargs["window"] = tuple(case["window"])
    path = None
    trace = tr.parse(gen.render(lines), scope="custom",
                     events=list(case["events"]),
                     normalize_time=case["normalize"], cache=case["cache"],
                     **kwargs)
    if case["cache"]:
        path = trace.trace_path
        trace = tr.parse(None, path=path, scope="custom", cache=True,
                         events=list(case["events"]),
                         normalize_time=case["normalize"], **kwargs)
    if case["times"]:
        # Times that the user has changed, so that they are in another order
        for ev in case["which"]:
            dfr = tr.frame(trace, ev)
            if len(dfr):
                dfr.index = [case["times"][i % len(case["times"])]
                             for i in range(len(dfr))]
    calls = []

    def callback(name):
        def function(row):
            calls.append((name, row))
            return case["returns"]
        return function

    which = case["which"]
    before = {ev: tr.frame_snapshot(tr.frame(trace, ev)) for ev in which}
    shared = callback(None)
    trace.apply_callbacks({ev: shared if case["shared"] else callback(ev)
                           for ev in which})
    want = expected(lines, which, kv)
    wanted = []
    for ev in which:
        cols = set()
        for _, row in want[ev]:
            cols |= set(row)
        for line, row in want[ev]:
            time = gen.ts_value(line["ts"])
            if case["window"]:
                lo, hi = case["window"]
                if time < lo + first or (hi is not None and time > hi + first):
                    continue
            wanted.append((row["__line"], ev, line, row, cols))
    wanted.sort(key=lambda x: x[0])
    expect(len(calls) == len(wanted), "{} calls for {} rows", len(calls),
           len(wanted))
    seen = {}
    for (name, got), (_, ev, line, row, cols) in zip(calls, wanted):
        text = gen.render_event(line)
        if not case["shared"]:
            expect(name == ev, "{} called for {!r}", name, text)
        expect(set(got) == cols | {"Index"}, "columns {} instead of {}",
               sorted(map(str, got)), sorted(cols | {"Index"}))
        time = gen.ts_value(line["ts"])
        if case["normalize"]:
            time = time - first
        if case["times"]:
            nth = seen[ev] = seen.get(ev, -1) + 1
            time = case["times"][nth % len(case["times"])]
        expect(got["Index"] == time, "{!r}: time {!r} instead of {!r}", text,
               got["Index"], time)
        for col in cols:
            full = all(col in r for _, r in want[ev])
            expect(gen.same_value(got[col], row.get(col), exact_int=full),
                   "{!r}: {} is {!r} instead of {!r}", text, col, got[col],
                   row.get(col))
    for ev in which:
        res = tr.diff(tr.frame_snapshot(tr.frame(trace, ev)), before[ev])
        expect(res is None, "{} changed: {}", ev, res)
    labels = set()
    seq = [ev for _, ev, _, _, _ in wanted]
    changes = sum(a != b for a, b in zip(seq, seq[1:]))
    labels.add("{} switches".format(min(changes, 5)))
    if changes < 2:
        labels.add("trivial")
    if any(ev not in seq for ev in which):
        labels.add("event without rows")
    return labels


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 14), st.integers(6, 16)))
    clock = draw(gen.clocks(n, True))
    keys = draw(st.lists(st.one_of(st.sampled_from(KEYS), gen.idents(6)),
                         min_size=1, max_size=4, unique=True))
    names = gen.EVENT_NAMES[:draw(st.integers(2, 4))]
    lines = []
    for i in range(n):
        if draw(st.integers(0, 7)) == 0:
            lines.append(draw(gen.junk()))
        line = draw(gen.simple_headers())
        line["ts"], line["ev"] = clock[i], draw(st.sampled_from(names))
        mine = draw(st.lists(st.sampled_from(keys), min_size=1,
                             max_size=len(keys), unique=True))
        line["fields"] = [[k, draw(gen.values())] for k in mine]
        line["data"] = gen.join_fields(line["fields"])
        lines.append(line)
    events = draw(st.one_of(st.permutations(names), st.lists(
        st.sampled_from(names), min_size=1, max_size=4, unique=True)))
    which = draw(st.one_of(st.just(events), st.just(events), st.lists(
        st.sampled_from(events), min_size=1, max_size=len(events),
        unique=True)))
    window = draw(st.one_of(st.none(), st.none(), st.sampled_from(
        [[0, None], [0.001, None], [0, 100.5], [1e-6, 2.0]])))
    return dict(lines=lines, events=events, which=which, window=window,
                normalize=draw(st.booleans()), cache=draw(
                    st.sampled_from([False, False, True])),
                times=draw(st.one_of(st.none(), st.none(), st.none(), st.lists(
                    st.integers(0, 99).map(lambda n: n / 8), min_size=1,
                    max_size=5))),
                shared=draw(st.booleans()),
                returns=draw(st.sampled_from([None, False, True])))


SUBS = [Sub("callbacks", cases, check, quick=1200, shards=8)]
