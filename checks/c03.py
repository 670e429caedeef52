"""C03: time windows and normalisation"""
from hypothesis import strategies as st

import gen
import tr
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Traces with times on a grid of 1/64 s or 1/512 s (exact in binary, "
        "written with microseconds and nanoseconds) are parsed with "
        "generated relative and absolute windows whose ends are event times, "
        "near misses, zero or open; rows are compared with an interval model. "
        "Non-trivial: a window drops at least one selected row and keeps one.")
ASSUMPTIONS = ["strictly increasing recorded times (ties are C02)"]

# Ticks per second and the digits that show a tick exactly
GRIDS = {64: 6, 512: 9}


def check(case):
    ticks, evs, GRID = case["ticks"], case["evs"], case["grid"]
    digits = GRIDS[GRID]
    lines = []
    for i, (tick, ev) in enumerate(zip(ticks, evs)):
        sec, rem = divmod(tick, GRID)
        lines.append(dict(k="ev", comm="sh", pid=i, cpu=0, ev=ev,
                          ts=["us", sec, "{:0{}d}".format(
                              rem * 10**digits // GRID, digits)],
                          data="n={}".format(i)))
    selected = case["events"]

    def unit(win):
        return tuple(None if w is None else w / GRID for w in win)

    kwargs = {}
    if case["window"] is not None:
        kwargs["window"] = unit(case["window"])
    if case["abs_window"] is not None:
        kwargs["abs_window"] = unit(case["abs_window"])
    if not (case["normalize"] and case["default_norm"]):
        kwargs["normalize_time"] = case["normalize"]
    text = gen.render(lines)
    trace = tr.parse(text, scope="custom", events=list(selected), **kwargs)

    base = ticks[0]
    lo, hi = -1, None
    if case["window"] is not None:
        lo = max(lo, case["window"][0] + base)
        if case["window"][1] is not None:
            hi = case["window"][1] + base
    if case["abs_window"] is not None:
        lo = max(lo, case["abs_window"][0])
        if case["abs_window"][1] is not None:
            end = case["abs_window"][1]
            hi = end if hi is None else min(hi, end)
    kept = dropped = 0
    alltimes = []
    for ev in selected:
        mine = [i for i in range(len(ticks)) if evs[i] == ev]
        want = [i for i in mine if lo <= ticks[i] and
                (hi is None or ticks[i] <= hi)]
        kept += len(want)
        dropped += len(mine) - len(want)
        dfr = tr.frame(trace, ev)
        got = list(dfr["n"]) if len(dfr) else []
        expect(got == want, "event {}: rows {} instead of {} (in ticks {} of "
               "{}, bounds {} {})", ev, got, want,
               [ticks[i] for i in want], ticks, lo, hi)
        shift = base if case["normalize"] else 0
        times = list(dfr.index)
        expect(times == [(ticks[i] - shift) / GRID for i in want],
               "event {}: times {} for ticks {} with origin {}", ev, times,
               [ticks[i] for i in want], shift)
        alltimes += times
    expect(trace.basetime == base / GRID, "basetime {} instead of {}",
           trace.basetime, base / GRID)
    dur = trace.get_duration()
    model = max(alltimes) - min(alltimes) if alltimes else 0
    expect(dur == model, "duration {} instead of {}", dur, model)
    expect(bool(trace.normalized_time) == bool(case["normalize"]),
           "normalized_time is {}", trace.normalized_time)
    labels = set()
    if not (kept and dropped):
        labels.add("trivial")
    if case["window"] and case["abs_window"]:
        labels.add("both windows")
    if hi is not None and hi in ticks or lo in ticks:
        labels.add("bound on an event")
    if not kept:
        labels.add("empty result")
    return labels


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 10), st.integers(5, 12)))
    deltas = draw(st.lists(st.integers(1, 200), min_size=n, max_size=n))
    ticks = []
    cur = draw(st.one_of(st.integers(0, 100), st.integers(0, 10**8)))
    for d in deltas:
        cur += d
        ticks.append(cur)
    names = gen.EVENT_NAMES[:3]
    evs = [draw(st.sampled_from(names)) for _ in ticks]

    def bound(origin):
        near = st.sampled_from(ticks).flatmap(
            lambda t: st.sampled_from([t, t, t, t - 1, t + 1]))
        return st.one_of(near, near, near,
                         st.integers(0, ticks[-1] + 100)).map(
            lambda t: max(0, t - origin))

    def window(origin):
        b = bound(origin)
        half = (n + 1) // 2
        early = st.builds(lambda i, d: max(0, ticks[i] + d - origin),
                          st.integers(0, half - 1), st.sampled_from(
                              [0, 0, -1, 1]))
        late = st.builds(lambda i, d: max(0, ticks[i] + d - origin),
                         st.integers(half - 1, n - 1), st.sampled_from(
                             [0, 0, -1, 1]))
        return st.one_of(
            st.none(),
            st.tuples(early, late).map(list),
            st.tuples(early, late).map(list),
            st.tuples(early, late).map(list),
            st.tuples(b, b).map(lambda x: sorted(x)),
            st.tuples(b, st.none()).map(list),
            st.tuples(st.just(0), b).map(list),
            st.tuples(b, b).map(list),
            st.just([0, 0]))

    return dict(
        ticks=ticks, evs=evs, grid=draw(st.sampled_from(sorted(GRIDS))),
        events=draw(st.one_of(st.permutations(names), st.lists(
            st.sampled_from(names), min_size=1, max_size=3, unique=True))),
        window=draw(window(ticks[0])), abs_window=draw(window(0)),
        normalize=draw(st.booleans()), default_norm=draw(st.booleans()))


SUBS = [Sub("windows", cases, check, quick=2400, shards=8)]
