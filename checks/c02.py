"""C02: unique, order-preserving timestamps"""
import math

from hypothesis import strategies as st

import gen
import tr
from checks.c01 import clean
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Traces whose recorded timestamps repeat and go backwards, in all "
        "three clock formats, over selected and unselected events; the times "
        "of all rows are compared with a reference assignment. Non-trivial: "
        "at least one recorded time is not later than its predecessor's.")
ASSUMPTIONS = ["IEEE double arithmetic: the smallest increment is the next "
               "representable double", "recorded times are positive"]


def assign(lines):
    """Reference times of the event lines, in file order.

    A time later than its predecessor (also after the origin was subtracted)
    is kept; otherwise the smallest later double that is."""
    prev = base = shown = None
    out = []
    bumps = 0
    for line in lines:
        if line["k"] != "ev":
            continue
        cur = gen.ts_value(line["ts"])
        if prev is None:
            base = cur
        else:
            if cur <= prev:
                cur = math.nextafter(prev, math.inf)
                bumps += 1
            while cur - base <= shown:
                cur = math.nextafter(cur, math.inf)
        prev, shown = cur, cur - base
        out.append((line, cur))
    return out, bumps, base


def check(case):
    lines, selected = case["lines"], case["events"]
    clean(lines, gen.EVENT_NAMES)
    lines = gen.repeated(lines, case["repeat"])
    norm = case["normalize"]
    trace = tr.parse(gen.render(lines), scope="custom", events=list(selected),
                     normalize_time=norm)
    times, bumps, origin = assign(lines)
    base = origin if norm else 0.0
    merged = []
    for ev in selected:
        want = [t - base for line, t in times if line["ev"] == ev]
        got = list(tr.frame(trace, ev).index)
        expect(len(got) == len(want), "event {}: {} rows for {} lines", ev,
               len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            expect(g == w, "event {} row {}: time {!r}, expected {!r}", ev, i,
                   g, w)
        if want:
            merged += list(zip(got, tr.frame(trace, ev)["__line"]))
    # Independently of the exact values: joining the frames by time gives the
    # order of the file back
    merged.sort(key=lambda x: x[1])
    for a, b in zip(merged, merged[1:]):
        expect(a[0] < b[0], "lines {} and {} have times {!r} and {!r}", a[1],
               b[1], a[0], b[0])
    labels = {"normalized" if norm else "absolute"}
    if not bumps:
        labels.add("trivial")
    if bumps > 2:
        labels.add("several ties")
    return labels


@st.composite
def tied(draw):
    """Times drawn from very few values: long runs of ties"""
    n = draw(st.integers(2, 14))
    pool = draw(st.lists(st.integers(0, 2 * 10**6), min_size=1, max_size=3))
    sec = draw(st.integers(1, 10**7))
    lines = []
    for _ in range(n):
        us = draw(st.sampled_from(pool))
        line = draw(gen.simple_headers())
        line["ts"] = ["us", sec + us // 10**6, "{:06d}".format(us % 10**6)]
        line["ev"] = draw(st.sampled_from(gen.EVENT_NAMES[:3]))
        line["fields"] = [["a", "1"]]
        line["data"] = "a=1"
        lines.append(line)
    return lines


def cases():
    return st.fixed_dictionaries(dict(
        lines=st.one_of(
            gen.kv_traces(max_lines=12, increasing=False, rich=False,
                          vals=st.just("1"), min_lines=2),
            tied()),
        events=st.lists(st.sampled_from(gen.EVENT_NAMES), min_size=1,
                        max_size=5, unique=True),
        normalize=st.booleans(), repeat=gen.repeats()))


SUBS = [Sub("ties", cases, check, quick=1600, shards=8)]
