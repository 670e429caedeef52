"""C01: every trace line becomes exactly one faithful row"""
from hypothesis import strategies as st

import gen
import tr
from harness import Sub, Violation, Skip, expect

LEVEL = "exploration"
RULE = ("Traces of generated well-formed ftrace lines (several events, varied "
        "headers, interleaved non-trace lines) are rendered to text and "
        "parsed; a case is non-trivial when at least two selected events have "
        "rows, or a selected event has two rows with different sets of keys.")
ASSUMPTIONS = ["unique words are not substrings of other parts of the lines",
               "field names are identifiers; values hold no double spaces, "
               "braces or a 'word: ' prefix"]

META = ["__comm", "__pid", "__cpu", "__line"]


def expected(lines, selected, field_values):
    """Reference: event -> list of (line, {column: value})"""
    want = {ev: [] for ev in selected}
    first = [i for i, l in enumerate(lines) if l["k"] == "ev"][0]
    for i, line in enumerate(lines):
        if line["k"] != "ev" or line["ev"] not in want:
            continue
        row = {"__comm": line["comm"], "__pid": line["pid"],
               "__cpu": line["cpu"], "__line": i - first}
        row.update(field_values(line))
        want[line["ev"]].append((line, row))
    return want


def compare(name, dfr, want, check_time=True):
    expect(len(dfr) == len(want), "event {}: {} lines in the trace, {} rows",
           name, len(want), len(dfr))
    if not want:
        return
    cols = set()
    for _, row in want:
        cols |= set(row)
    expect(set(dfr.columns) == cols, "event {}: columns {} instead of {}",
           name, sorted(map(str, dfr.columns)), sorted(cols))
    full = {col: all(col in r for _, r in want) for col in cols}
    for (line, row), (t, got) in zip(want, tr.rows(dfr)):
        if check_time:
            expect(t == gen.ts_value(line["ts"]),
                   "event {}: time {!r} for a line stamped {}", name, t,
                   gen.render_ts(line["ts"]))
        for col in cols:
            expect(gen.same_value(got[col], row.get(col),
                                  exact_int=full[col]),
                   "event {}, line {!r}: {} is {!r}, expected {!r}", name,
                   gen.render_event(line), col, got[col], row.get(col))


def clean(lines, selected, extra_words=()):
    for line in lines:
        if line["k"] != "ev":
            continue
        text = gen.render_event(line)
        for word in [ev + ":" for ev in selected]:
            if text.count(word) > (1 if word == line["ev"] + ":" else 0):
                raise Skip()
        for word in extra_words:
            if word in text:
                raise Skip()


def kv(line):
    return {k: gen.value_of(v) for k, v in line["fields"]}


def check_lines(case):
    lines, selected = case["lines"], case["events"]
    clean(lines, gen.EVENT_NAMES)
    lines = gen.repeated(lines, case["repeat"])
    trace = tr.parse(gen.render(lines), scope="custom", events=list(selected),
                     normalize_time=False)
    want = expected(lines, selected, kv)
    for ev in selected:
        compare(ev, tr.frame(trace, ev), want[ev])
    labels = set()
    filled = [ev for ev in selected if want[ev]]
    ragged = any(len(set(frozenset(r) for _, r in want[ev])) > 1
                 for ev in filled)
    if len(filled) < 2 and not ragged:
        labels.add("trivial")
    if ragged:
        labels.add("ragged")
    if len(lines) > 50:
        labels.add("many lines")
    if any(l["k"] == "junk" for l in lines):
        labels.add("junk")
    if any(l["k"] == "ev" and l["ts"][0] == "ns" for l in lines):
        labels.add("ns clock")
    if any(l["k"] == "ev" and l.get("tgid") for l in lines):
        labels.add("tgid")
    if any(l["k"] == "ev" and l.get("flags") for l in lines):
        labels.add("irq flags")
    if any(l["k"] == "ev" and " " in v for l in lines if l["k"] == "ev"
           for _, v in l["fields"]):
        labels.add("string with spaces")
    if any(": other: " in v for l in lines if l["k"] == "ev"
           for _, v in l["fields"]):
        labels.add("a line quoted")
    return labels


def line_cases():
    return st.fixed_dictionaries(dict(
        lines=gen.kv_traces(vals=gen.quoting_values()), repeat=gen.repeats(),
        events=st.lists(st.sampled_from(gen.EVENT_NAMES), min_size=1,
                        max_size=5, unique=True)))


def long_cases():
    return st.fixed_dictionaries(dict(
        lines=gen.kv_traces(), repeat=st.sampled_from([500, 1500, 3000]),
        events=st.lists(st.sampled_from(gen.EVENT_NAMES), min_size=4,
                        max_size=5, unique=True)))


def check_all_scope(case):
    """Same, with every built-in parser active and one event added"""
    lines, selected = case["lines"], case["events"]
    words = [c.unique_word for c in builtin_classes()]
    clean(lines, gen.EVENT_NAMES, words)
    trace = tr.parse(gen.render(lines), scope=case["scope"],
                     events=list(selected), normalize_time=False)
    want = expected(lines, selected, kv)
    for ev in selected:
        compare(ev, tr.frame(trace, ev), want[ev])
    for name in trace.class_definitions:
        if name not in selected:
            expect(len(tr.frame(trace, name)) == 0,
                   "event {} has rows, no line of the trace is its", name)
    return {"scope " + case["scope"]} | (
        set() if any(want[e] for e in selected) else {"trivial"})


_BUILTIN = []


def builtin_classes():
    if not _BUILTIN:
        # What a trace with the widest scope knows about
        trace = tr.parse("sh-1 [000] 1.0: zzz: a=1\n", scope="all")
        _BUILTIN.extend(trace.class_definitions.values())
    return _BUILTIN


def all_scope_cases():
    return st.fixed_dictionaries(dict(
        lines=gen.kv_traces(max_lines=6),
        scope=st.sampled_from(["all", "sched", "thermal"]),
        events=st.lists(st.sampled_from(gen.EVENT_NAMES), min_size=1,
                        max_size=2, unique=True)))


SUBS = [
    Sub("lines", line_cases, check_lines, quick=1600, shards=6,
        rule="custom scope, 1-10 event lines over 5 events"),
    Sub("long", long_cases, check_lines, quick=8, shards=2, cpu_limit=300,
        rule="the same, with thousands of lines"),
    Sub("scopes", all_scope_cases, check_all_scope, quick=160, shards=2,
        rule="all built-in parsers active"),
]
