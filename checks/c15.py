"""C15: unified indexes and correlation of two traces"""
import math

from hypothesis import strategies as st

import gen
import tr
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Indexes of generated triggers over one or two traces are compared with "
        "the set of the events' times; correlators get a recording correlation "
        "function whose arguments are compared with the value in force at each "
        "point of the grid; a trace is correlated with itself and with a "
        "delayed copy.  Non-trivial: both sides have non-zero samples at "
        "different times.")
ASSUMPTIONS = ["no sample is within rounding of a point of the uniform grid "
               "except the first one"]

EVENTS = ["evalpha", "evbeta"]
TICK = 25              # us, the documented default spacing
BASE = 10 * 10**6


def render(rows, delay=0):
    lines = []
    for i, row in enumerate(rows):
        t = BASE + row["t"] + (delay * TICK if row["cpu"] != 99 else 0)
        lines.append((t, i, dict(
            k="ev", comm="sh", pid=1, cpu=0, ev=row["ev"],
            ts=["us", t // 10**6, "{:06d}".format(t % 10**6)],
            data="cpu={} v={}".format(row["cpu"], row["v"]))))
    lines.sort(key=lambda x: x[:2])
    return gen.render([l for _, _, l in lines])


def load(rows, delay=0):
    return tr.parse(render(rows, delay), scope="custom", events=list(EVENTS),
                    normalize_time=False)


def triggers_of(trace, names, filters):
    from trappy.stats.Trigger import Trigger
    return [Trigger(trace, getattr(trace, n), dict(filters), "v", "cpu")
            for n in names]


def sec(t):
    return float("{}.{:06d}".format((BASE + t) // 10**6, (BASE + t) % 10**6))


def check_unify(case):
    from trappy.stats.Indexer import MultiTriggerIndexer, get_unified_indexer
    indexers, wants = [], []
    for spec in case["parts"]:
        trace = load(spec["rows"])
        trigs = triggers_of(trace, spec["names"], {"v": 1})
        if len(trigs) == 1 and spec["single"]:
            trigs = trigs[0]
        indexer = MultiTriggerIndexer(trigs)
        want = sorted({sec(r["t"]) for r in spec["rows"]
                       if r["ev"] in spec["names"]})
        got = [float(t) for t in indexer.index]
        expect(got == want, "index {} instead of {}", got, want)
        series = indexer.series()
        expect([float(t) for t in series.index] == want and
               all(v == 0 for v in series), "series {}", series)
        if len(want) > 1:
            grid = indexer.get_uniform(case["delta"])
            steps = math.ceil(round((want[-1] - want[0]) / case["delta"], 6))
            expect(abs(len(grid) - steps) <= 1, "{} points between {} and {} "
                   "with a spacing of {}", len(grid), want[0], want[-1],
                   case["delta"])
            for i, t in enumerate(grid):
                expect(abs(t - want[0] - i * case["delta"]) < 1e-9,
                       "point {} of the grid is {}", i, t)
        indexers.append(indexer)
        wants.append(want)
    both = get_unified_indexer(indexers)
    want = sorted(set(sum(wants, [])))
    got = [float(t) for t in both.index]
    expect(got == want, "unified index {} instead of {}", got, want)
    for indexer, mine in zip(indexers, wants):
        expect([float(t) for t in indexer.index] == mine,
               "an index changed to {}", list(indexer.index))
    labels = set()
    if len(wants) < 2 or not (set(want) - set(wants[0])) or not wants[0]:
        labels.add("trivial")
    if not all(wants):
        labels.add("event without rows")
    return labels


def in_force(samples, times):
    """Values of the latest sample at each of the times (NaN before)"""
    out = []
    for t in times:
        val = math.nan
        for s, v in samples:
            if s <= t + 1e-9:
                val = v
        out.append(val)
    return out


def same(got, want):
    return len(got) == len(want) and all(
        (g != g and w != w) or g == w for g, w in zip(got, want))


def shifted(vals, n):
    return [math.nan] * min(n, len(vals)) + vals[:max(0, len(vals) - n)]


def score(x, y):
    """A correlation: the number of equal samples"""
    return float(sum(a == b for a, b in zip(x, y)))


def aggregator(trace, case, filters=None):
    from trappy.stats.Aggregator import MultiTriggerAggregator
    from trappy.stats.Topology import Topology
    topo = Topology(clusters=[list(c) for c in case["clusters"]])
    return MultiTriggerAggregator(
        triggers_of(trace, case["names"], filters or {}), topo)


def model_group(rows, names, group):
    """Samples of a group: [(time, sum over the group)]"""
    out = []
    for row in sorted([r for r in rows if r["ev"] in names],
                      key=lambda r: r["t"]):
        out.append((sec(row["t"]), float(row["v"])
                    if row["cpu"] in group else 0.0))
    return out


def check_plot(corr, level, per_line, pairs):
    """The plot of a correlation shows what is compared, a group per plot"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        corr.plot(level, per_line=per_line)
        axes = plt.gcf().axes
        expect(len(axes) == len(pairs), "{} plots of {} groups", len(axes),
               len(pairs))
        boxes = [a.get_position() for a in axes]
        order = sorted(range(len(axes)), key=lambda i: (
            -round(boxes[i].y0, 6), round(boxes[i].x0, 6)))
        columns = len({round(b.x0, 6) for b in boxes})
        expect(columns == min(per_line, len(axes)), "{} plots in {} columns, "
               "not {}", len(axes), columns, per_line)
        for i, (one, pair) in enumerate(zip(order, pairs)):
            lines = axes[one].lines
            expect(len(lines) == 2, "{} lines in a plot", len(lines))
            for line, series in zip(lines, pair):
                expect(list(line.get_xdata(orig=True)) == list(series.index)
                       and same(list(line.get_ydata(orig=True)), list(series)),
                       "level {}: plot {} shows {} instead of {}", level, i,
                       list(line.get_ydata(orig=True)), list(series))
    finally:
        plt.close("all")


def check_pairs(case):
    from trappy.stats.Correlator import Correlator
    import numpy as np
    first, second = case["first"], case["second"]
    calls = []

    def record(x, y):
        calls.append((x.copy(), y.copy()))
        return score(list(x), list(y))

    agg_x = aggregator(load(first), case)
    agg_y = aggregator(load(second), case)
    corr = Correlator(agg_x, agg_y, corrfunc=record)
    nodes = sum(case["clusters"], [])
    all_x = model_group(first, case["names"], nodes)
    all_y = model_group(second, case["names"], nodes)
    every = sorted({t for t, _ in all_x + all_y})
    grid = list(np.arange(every[0], every[-1], TICK * 1e-6))
    top_x, top_y = in_force(all_x, grid), in_force(all_y, grid)
    nz_x = [i for i, v in enumerate(top_x) if v == v and v != 0]
    nz_y = [i for i, v in enumerate(top_y) if v == v and v != 0]
    if nz_x and nz_y:
        shifts = [nz_x[0] - nz_y[0], nz_x[-1] - nz_y[-1]]
    else:
        shifts = [0]

    def apply(x, y, shift):
        if shift > 0:
            return x, shifted(y, shift)
        return shifted(x, -shift), y

    scores = [score(*apply(top_x, top_y, s)) for s in shifts]
    best = {s for s, sc in zip(shifts, scores) if sc == max(scores)}

    levels = {"cluster": case["clusters"], "all": [nodes],
              "cpu": [[n] for n in sorted(nodes)]}
    for level in case["levels"]:
        del calls[:]
        outputs, total = corr.correlate(level)
        groups = agg_x.topology.get_level(level)
        expect(len(outputs) == len(groups) == len(calls) == len(levels[level]),
               "{} results, {} comparisons for {} groups", len(outputs),
               len(calls), len(levels[level]))
        wanted = {}
        for shift in best:
            wanted[shift] = [apply(
                in_force(model_group(first, case["names"], g), grid),
                in_force(model_group(second, case["names"], g), grid), shift)
                for g in groups]
        ok = [s for s in best if all(
            same(list(gx), wx) and same(list(gy), wy)
            for (gx, gy), (wx, wy) in zip(calls, wanted[s]))]
        if not ok:
            s = sorted(best)[0]
            for (gx, gy), (wx, wy) in zip(calls, wanted[s]):
                expect(len(gx) == len(wx), "{} samples for {} points",
                       len(gx), len(wx))
                for i, t in enumerate(grid):
                    expect(same([gx.iloc[i], gy.iloc[i]], [wx[i], wy[i]]),
                           "level {}, shift by {} at {}: {} and {} instead of "
                           "{} and {}", level, sorted(best), t, gx.iloc[i],
                           gy.iloc[i], wx[i], wy[i])
        if case["per_line"]:
            check_plot(corr, level, case["per_line"], calls)
        vals = [score(list(x), list(y)) for x, y in calls]
        expect([float(o) for o in outputs] == vals, "results {} instead of {}",
               outputs, vals)
        vals = [v for v, (x, y) in zip(vals, calls)
                if any(list(x != 0)) or any(list(y != 0))] or [0]
        expect(min(vals) - 1e-6 <= total <= max(vals) + 1e-6,
               "total {} of the results {}", total, vals)
    labels = set()
    if not (nz_x and nz_y) or all_x == all_y:
        labels.add("trivial")
    if any(shifts):
        labels.add("shifted")
    return labels


def check_alike(case):
    """A signal and itself, possibly delayed"""
    from trappy.stats.Correlator import Correlator
    rows = [dict(ev=case["names"][0], cpu=99, t=0, v=0),
            dict(ev=case["names"][0], cpu=99, t=case["end"] * TICK + 12, v=0)
            ] + case["first"]
    delay = case["delay"]
    first = aggregator(load(rows), case)
    corr = Correlator(first, aggregator(load(rows, delay), case))
    labels = set()
    defined = 0
    for level in case["levels"]:
        outputs, total = corr.correlate(level)
        good = 0
        for out in outputs:
            expect(out != out or abs(out - 1) < 1e-9, "level {}: a signal "
                   "delayed by {} has a correlation of {} with itself", level,
                   delay, out)
            good += out == out
        defined += good
        if good == len(outputs):
            expect(abs(total - 1) < 1e-9, "level {}: total {}", level, total)
        if len(outputs) == 1:
            # Undefined for constant signals only
            group = first.topology.get_level(level)[0]
            vals = {r["v"] for r in rows if r["ev"] in case["names"] and
                    r["cpu"] in group and r["v"]}
            inside = [r for r in rows if r["ev"] in case["names"] and
                      r["cpu"] in group and r["v"] and
                      r["t"] < (case["end"] - delay - 2) * TICK]
            if vals and inside:
                expect(good == 1, "level {}: no correlation", level)
    labels.add("delayed" if delay else "same")
    if not defined:
        labels.add("trivial")
    return labels


def rows(size, offset=True, cpus=(0, 1, 2, 5)):
    @st.composite
    def build(draw):
        n = draw(size)
        ticks = draw(st.lists(st.integers(0, 60), min_size=n, max_size=n,
                              unique=True))
        return [dict(ev=draw(st.sampled_from(EVENTS)),
                     cpu=draw(st.sampled_from(cpus)),
                     t=t * TICK + (12 if offset else 0),
                     v=draw(st.sampled_from([0, 1, 1, 2, 3]))) for t in ticks]
    return build()


NAMES = st.sampled_from([["evalpha"], ["evalpha"], ["evbeta"],
                         ["evalpha", "evbeta"]])


def unify_cases():
    part = st.fixed_dictionaries(dict(
        rows=rows(st.integers(1, 8), False), names=NAMES,
        single=st.booleans()))
    return st.fixed_dictionaries(dict(
        parts=st.lists(part, min_size=1, max_size=3),
        delta=st.sampled_from([1e-5, 0.000025, 7e-5, 0.0003])))


CLUSTERS = st.sampled_from([[[0], [1]], [[0, 1], [2]], [[2], [0, 1]], [[0]],
                            [[1, 2]], [[0], [1], [2]]])
LEVELS = st.lists(st.sampled_from(["all", "cluster", "cpu"]), min_size=1,
                  max_size=3, unique=True)


@st.composite
def pair_cases(draw):
    names = draw(NAMES)
    first = draw(rows(st.integers(1, 8)))
    second = draw(rows(st.integers(1, 8)))
    # Something to start from on each side
    start = draw(st.sampled_from([0, 0, 5, 20]))
    if start:
        first = [r for r in first if r["t"] > start * TICK]
    second = [r for r in second if True]
    first = [dict(ev=names[0], cpu=0, t=start * TICK + (12 if start else 0),
                  v=draw(st.sampled_from([0, 1])))] + [
        r for r in first if r["t"] != start * TICK + 12]
    second = [dict(ev=names[0], cpu=1, t=0, v=draw(st.sampled_from([0, 1])))
              ] + second
    second += [dict(ev=names[0], cpu=0, t=62 * TICK + 12, v=1)]
    return dict(first=first, second=second, names=names,
                clusters=draw(CLUSTERS), levels=draw(LEVELS),
                per_line=draw(st.sampled_from([0, 0, 1, 2, 3])))


@st.composite
def alike_cases(draw):
    first = draw(rows(st.integers(1, 8), cpus=(0, 1, 2)))
    return dict(first=first, names=draw(NAMES), delay=draw(
        st.sampled_from([0, 0, 1, 3, 10, 25])), clusters=draw(CLUSTERS),
        levels=draw(LEVELS), end=draw(st.sampled_from([90, 100])))


SUBS = [Sub("unify", unify_cases, check_unify, quick=1000, shards=2),
        Sub("pairs", pair_cases, check_pairs, quick=600, shards=3),
        Sub("alike", alike_cases, check_alike, quick=600, shards=3)]
