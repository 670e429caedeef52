"""C13: removing duplicates from an index"""
import math

from hypothesis import strategies as st

from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Sorted indexes with runs of repeated times (in any unit and at any "
        "offset) label the rows of generated series and frames, which are "
        "compared with the result and with a copy taken before.  Non-trivial: "
        "some time is repeated.")
ASSUMPTIONS = ["consecutive distinct times are far enough apart, in units of "
               "the last place, to fit the repeated rows between them"]


def check(case):
    import numpy as np
    import pandas as pd
    from trappy.utils import handle_duplicate_index

    index = []
    cur = case["start"]
    values = []
    for gap, count in case["runs"]:
        step = math.ulp(cur) * (count + 2) * 8
        cur = cur + max(gap, step)
        values.append((cur, count))
    for i, (time, count) in enumerate(values):
        # Room for all of them before the next one
        if i + 1 < len(values):
            nxt = values[i + 1][0]
            if nxt - time < math.ulp(nxt) * (count + 2) * 4:
                from harness import Skip
                raise Skip()
        index += [time] * count
    n = len(index)
    ints = case["ints"] and all(v == int(v) for v in index)
    raw = [int(v) for v in index] if ints else index
    idx = pd.Index(raw, name=case["name"])
    payload = case["payload"]
    order = list(range(n))
    if case["kind"] == "series":
        data = pd.Series([payload[i % len(payload)] for i in range(n)],
                         index=idx)
    else:
        cols = dict(n=list(range(n)),
                    v=[payload[i % len(payload)] for i in range(n)])
        if case["kind"] == "lines":
            # Rows of the same time are in the order of their lines
            lines = list(range(n))
            rng = np.random.RandomState(case["shuffle"])
            pos = 0
            for _, count in values:
                rng_part = lines[pos:pos + count]
                rng.shuffle(rng_part)
                lines[pos:pos + count] = rng_part
                pos += count
            cols["__line"] = lines
            order = list(np.argsort(np.array(lines), kind="stable"))
            idx = pd.Index(raw, name="Time")
        data = pd.DataFrame(cols, index=idx)
    before = data.copy(deep=True)
    before_index = list(data.index)
    args = [] if case["max_delta"] is None else [case["max_delta"]]
    res = handle_duplicate_index(data, *args)
    expect(list(data.index) == before_index, "the index that was passed in "
           "changed from {} to {}", before_index, list(data.index))
    expect(data.equals(before), "the data that was passed in changed")
    expect(type(res) is type(data), "a {} became a {}", type(data), type(res))
    expect(res.index.name == before.index.name, "the index {!r} is called {!r}",
           before.index.name, res.index.name)

    def content(dat):
        if isinstance(dat, pd.Series):
            return [repr(v) for v in dat]
        return [[repr(dat[c].iloc[i]) for c in dat.columns]
                for i in range(len(dat))]

    had = content(before)
    expect(content(res) == [had[i] for i in order],
           "rows {} instead of {}", content(res), [had[i] for i in order])
    got = [float(t) for t in res.index]
    expect(all(a < b for a, b in zip(got, got[1:])),
           "the index is not increasing: {} for {}", got, index)
    pos = 0
    for i, (time, count) in enumerate(values):
        expect(got[pos] == time, "the first occurrence of {} moved to {}",
               time, got[pos])
        nxt = values[i + 1][0] if i + 1 < len(values) else math.inf
        expect(all(time < t < nxt for t in got[pos + 1:pos + count]),
               "repeated times {} are not between {} and {}",
               got[pos + 1:pos + count], time, nxt)
        pos += count
    if case["max_delta"] is not None and n:
        # No row moves further than the given step per repetition
        worst = max((g - i) / max(1, n) for g, i in zip(got, index))
        expect(worst <= max(case["max_delta"], math.ulp(index[-1]) * 2),
               "moved by {} although the step is {}", worst,
               case["max_delta"])
    labels = {case["kind"]}
    most = max([c for _, c in values] or [0])
    labels.add("up to {} repetitions".format(min(most, 6)))
    if most < 2:
        labels.add("trivial")
    if ints:
        labels.add("integer index")
    return labels


@st.composite
def cases(draw):
    gap = st.one_of(st.sampled_from([0.0, 1e-9, 1e-6, 2e-6, 5e-7, 1.0]),
                    st.floats(1e-9, 1e-4), st.integers(1, 10).map(float),
                    st.floats(1e-9, 1e4))
    count = st.sampled_from([1, 1, 2, 2, 3, 4, 5, 6, 9, 17])
    whole = draw(st.integers(0, 4)) == 0
    if whole:
        gap = st.integers(1, 3).map(float)
    return dict(
        start=draw(st.integers(0, 1000).map(float)) if whole else draw(st.one_of(
            st.just(0.0), st.floats(0, 1e5), st.floats(0, 1e9))),
        runs=[list(x) for x in draw(st.lists(st.tuples(gap, count),
                                             max_size=6))],
        kind=draw(st.sampled_from(["series", "frame", "lines"])),
        payload=draw(st.lists(st.one_of(st.integers(-5, 5), st.floats(-1, 1)),
                              min_size=1, max_size=4)),
        ints=draw(st.booleans()), shuffle=draw(st.integers(0, 1000)),
        name=draw(st.sampled_from([None, "Time", "t"])),
        max_delta=draw(st.sampled_from([None, None, 1e-6, 0.001, 1e-9, 0.5])))


SUBS = [Sub("dedup", cases, check, quick=3200, shards=8)]
