"""C23: derived frequencies and loads"""
from hypothesis import strategies as st

import gen
import thermal
import tr
import trappy
from trappy.cpu_power import num_cpus_in_mask, pivot_with_labels
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("The frames derived from generated traces of power events, for any "
        "clusters and order of events, and of pivoted frames are compared with "
        "values carried forward along lists of rows.  Non-trivial: at least "
        "two columns with different times.")
ASSUMPTIONS = ["clusters have distinct labels", "frequencies are positive",
               "every row of cpu_in_power has loads"]


def same(what, dfr, columns, more=()):
    why = thermal.frame_error(dfr, columns, more)
    expect(why is None, "{}: {}", what, why)


def check(case):
    run, clusters = case["run"], [tuple(c) for c in case["clusters"]]
    trace = tr.parse(thermal.render(run), scope=case["scope"])
    seen = {v["cpus"] for k in ("in", "out") for _, v in thermal.rows(run, k)}
    more = clusters + [tuple(c) for c in case["extra"] if c[0] not in seen]
    ins, outs = trace.cpu_in_power, trace.cpu_out_power
    before = tr.trace_snapshot(trace)
    has_in = bool(thermal.rows(run, "in"))
    has_out = bool(thermal.rows(run, "out"))
    if has_in:
        same("input frequencies", ins.get_all_freqs(dict(more)),
             thermal.freqs(run, "in", more))
        same("loads", ins.get_load_data(dict(more)),
             thermal.loads(run, more))
        same("normalized loads", ins.get_normalized_load_data(dict(more)),
             thermal.norm_loads(run, more))
    if has_out:
        same("output frequencies", outs.get_all_freqs(dict(more)),
             thermal.freqs(run, "out", more))
    for kind, name in [("gpu_in", "devfreq_in_power"),
                       ("gpu_out", "devfreq_out_power")]:
        if thermal.rows(run, kind):
            same(kind, getattr(trace, name).get_all_freqs(),
                 {"freq": thermal.gpu_freqs(run, kind)})
    labels = set()
    if case["complete"]:
        got = trace.get_all_freqs_data(dict(clusters))
        expected = {}
        for _, label in clusters:
            cols = {"{}_freq_{}".format(label, kind):
                    thermal.freqs(run, kind, clusters).get(label)
                    for kind in ("in", "out")}
            expected[label] = {name: vals for name, vals in cols.items()
                               if vals}
            if len(expected[label]) < 2:
                labels.add("cluster without events")
        if thermal.rows(run, "gpu_in") and thermal.rows(run, "gpu_out"):
            expected["GPU"] = {
                "gpu_freq_in": thermal.gpu_freqs(run, "gpu_in"),
                "gpu_freq_out": thermal.gpu_freqs(run, "gpu_out")}
            labels.add("gpu")
        expect([label for label, _ in got] == list(expected),
               "frequencies of {} instead of {}", [g for g, _ in got],
               list(expected))
        for label, dfr in got:
            # The times of the other clusters may be there as well
            same("frequencies of " + label, dfr, expected[label],
                 [t for k in ("in", "out") for t, _ in thermal.rows(run, k)])
    if len(clusters) > 1 and has_in:
        # A map without one of the clusters
        gone = clusters[case["gone"] % len(clusters)]
        less = dict(c for c in clusters if c != gone)
        if any(v["cpus"] == gone[0] for _, v in thermal.rows(run, "in")):
            for function in (ins.get_all_freqs, ins.get_load_data,
                             ins.get_normalized_load_data):
                try:
                    function(less)
                except KeyError as exc:
                    expect(gone[0] in str(exc), "the error for {} is {}",
                           gone[0], exc)
                else:
                    expect(False, "a map without {} is accepted", gone[0])
    why = tr.diff(tr.trace_snapshot(trace), before)
    expect(why is None, "the trace has changed: {}", why)
    if sum(map(len, thermal.loads(run, clusters).values())) > \
            len(clusters) > 1:
        labels.add("several clusters")
    else:
        labels.add("trivial")
    if any(m.isdigit() and m[0] != "0" for m, _ in clusters):
        labels.add("masks like numbers")
    if more != clusters:
        labels.add("unused clusters")
    return labels


@st.composite
def traces(draw):
    clusters = draw(thermal.clusters())
    complete = draw(st.integers(0, 3)) > 0
    run = draw(thermal.runs(clusters, complete=complete, unplugged=True))
    times = draw(gen.repeats())
    if times > 1 and run["rows"]:
        # A long trace, whose end may have what the rest has not
        head = draw(st.integers(1, len(run["rows"])))
        run["rows"] = run["rows"][:head] * times + run["rows"][head:]
    return dict(clusters=clusters, complete=complete, run=run,
        extra=draw(st.sampled_from([[], [["000f0000", "more"]]])),
        gone=draw(st.integers(0, 3)),
        scope=draw(st.sampled_from(["thermal", "all"])))


def check_pivot(case):
    import pandas as pd
    nan = float("nan")
    rows = case["rows"]
    times = []
    now = 0
    for row in rows:
        now += row["dt"]
        times.append(now / 8)
    names = dict((k, v) for k, v in case["names"])
    dfr = pd.DataFrame(
        {"key": [r["key"] for r in rows],
         "val": [nan if r["val"] is None else r["val"] for r in rows],
         "other": list(range(len(rows)))}, index=times)
    copy = dfr.copy()
    unknown = {r["key"] for r in rows} - set(names)
    try:
        got = pivot_with_labels(dfr, "val", "key", names)
    except KeyError as exc:
        expect(any(str(k) in str(exc) for k in unknown),
               "refused with {}, unknown are {}", exc, sorted(unknown))
        return {"trivial", "refused"}
    expect(not unknown, "{} has no name but is accepted", unknown)
    expect(dfr.equals(copy), "the frame has changed")
    want = {}
    for t, row in zip(times, rows):
        want.setdefault(names[row["key"]], []).append((t, row["val"]))
    same("pivoted", got, want)
    return {"trivial"} if len(want) < 2 else {"{} columns".format(len(want))}


@st.composite
def pivots(draw):
    keys = draw(st.lists(st.sampled_from(["000000f0", "0f", "a", "b c", "39"]),
                         min_size=1, max_size=4, unique=True))
    row = st.fixed_dictionaries(dict(
        dt=st.integers(1, 9), key=st.sampled_from(keys),
        val=st.one_of(st.integers(-9, 9), st.integers(-9, 9),
                      st.integers(0, 10**7), st.none())))
    names = [[k, "n" + k] for k in keys + ["unused"]]
    if draw(st.integers(0, 7)) == 0:
        names = names[1:]
    return dict(rows=draw(st.lists(row, min_size=1, max_size=12)),
                names=draw(st.permutations(names)))


def check_mask(case):
    text = "{:x}".format(case["mask"]).rjust(case["width"], "0")
    if case["comma"]:
        parts = []
        while text:
            parts.insert(0, text[-8:])
            text = text[:-8]
        text = ",".join(parts)
    if case["upper"]:
        text = text.upper()
    got = num_cpus_in_mask(text)
    want = sum(case["mask"] >> i & 1 for i in range(200))
    expect(got == want, "{} has {} cpus instead of {}", text, got, want)
    return {"trivial"} if want < 2 else {"mask"}


def masks():
    return st.fixed_dictionaries(dict(
        mask=st.one_of(st.integers(0, 2**8), st.integers(0, 2**32),
                       st.integers(0, 2**150)),
        width=st.sampled_from([1, 2, 8, 16, 24]), comma=st.booleans(),
        upper=st.booleans()))


SUBS = [Sub("traces", traces, check, quick=1800, shards=6),
        Sub("pivots", pivots, check_pivot, quick=900, shards=1),
        Sub("masks", masks, check_mask, quick=400, shards=1)]
