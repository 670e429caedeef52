"""C18: constraints of plots"""
from hypothesis import strategies as st

import gen
import trappy
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Combinations of generated traces or frames, columns, events, filters, "
        "pivots and windows are turned into constraints, zipped or permuted, "
        "given alone or as lists, and compared with lists of rows.  "
        "Non-trivial: at least two constraints, or a pivot, filter or window "
        "that leaves out some rows.")
ASSUMPTIONS = ["times are sorted", "filters are lists of values"]

COLS = ["load", "freq", "cpu", "task", "gap"]
EVENTS = ["e_one", "other"]


def cell(col, n):
    if col == "task":
        return ["sh", "rcu", "a-b", "30"][n % 4]
    if col == "cpu":
        return n % 3
    if col == "freq":
        return (n % 7) / 2
    if col == "gap":
        return n % 4 if n % 3 else None
    return n % 5


def make(spec):
    import pandas as pd
    index = pd.Index(spec["times"], name="Time",
                     dtype=None if spec["times"] else "float64")
    return pd.DataFrame(
        {c: pd.Series([float("nan") if v is None else v for v in
                       rows_of(spec, c)], dtype=None if spec["times"] else
                      "float64").values for c in spec["cols"]},
        index=index, columns=spec["cols"])


def rows_of(spec, col):
    at = spec["cols"].index(col)
    return [cell(col, spec["seeds"][(i * 3 + at) % len(spec["seeds"])])
            for i in range(len(spec["times"]))]


def expected(spec, col, pivot, filters, window):
    """{pivot value: [(time, value)]} and whether rows were left out"""
    if spec is None or col not in spec["cols"]:
        return {}, False
    rows = list(range(len(spec["times"])))
    times = spec["times"]
    total = len(rows)
    if window:
        before = [i for i in rows if times[i] <= window[0]]
        after = [i for i in rows if times[i] >= window[1]]
        first = times[before[-1]] if before else None
        last = times[after[0]] if after else None
        rows = [i for i in rows if (first is None or times[i] >= first) and
                (last is None or times[i] <= last)]
    for key, vals in filters.items():
        if key in spec["cols"]:
            rows = [i for i in rows if rows_of(spec, key)[i] in vals]
    out = {}
    vals = rows_of(spec, col)
    if pivot is None:
        for i in rows:
            out.setdefault("", []).append((times[i], vals[i]))
    elif pivot in spec["cols"]:
        keys = rows_of(spec, pivot)
        for i in rows:
            if keys[i] is not None:
                out.setdefault(keys[i], []).append((times[i], vals[i]))
    return out, sum(map(len, out.values())) < total


def same(got, want):
    if want is None:
        return not isinstance(got, str) and got != got
    return isinstance(got, str) == isinstance(want, str) and got == want


def lengths(case):
    return [len(case["traces"]), len(case["columns"]),
            len(case["templates"]) if case["templates"] is not None else 1]


def plan(case):
    """[(trace position, trace index, column, template)] or None if the
    lengths don't match"""
    n_traces, n_cols, n_temps = lengths(case)
    lens = [n_traces, n_cols, n_temps]
    if case["zip"]:
        size = max(lens)
        if any(n not in (1, size) for n in lens):
            return None
        return [(0 if n_traces == 1 else i, 0 if n_traces == 1 else i,
                 case["columns"][0 if n_cols == 1 else i],
                 None if case["templates"] is None else
                 case["templates"][0 if n_temps == 1 else i])
                for i in range(size)]
    size = max(n_cols, n_temps)
    if any(n not in (1, size) for n in lens[1:]):
        return None
    return [(t, t, case["columns"][0 if n_cols == 1 else i],
             None if case["templates"] is None else
             case["templates"][0 if n_temps == 1 else i])
            for t in range(n_traces) for i in range(size)]


def build(case):
    """The traces as given to trappy"""
    out = []
    for trace in case["traces"]:
        if case["templates"] is None:
            out.append(make(trace["frames"][0]))
        else:
            res = trappy.BareTrace(trace["name"])
            for name, spec in zip(EVENTS, trace["frames"]):
                res.add_parsed_event(name, make(spec))
            out.append(res)
    return out


def alone(vals, unwrap):
    return vals[0] if len(vals) == 1 and unwrap else vals


def label(case, pos, index, col, template):
    if template is None:
        return "DataFrame {}:{}".format(index, col)
    name = case["traces"][pos]["name"] or "Trace {}".format(index)
    return "{}:{}:{}".format(name, template, col)


def check_plan(case, c_mgr, want, pivot):
    """Compare the constraints with the planned ones"""
    labels = set()
    expect(len(c_mgr) == len(want), "{} constraints instead of {}",
           len(c_mgr), len(want))
    texts = c_mgr.constraint_labels()
    for con, text, (pos, index, col, template) in zip(c_mgr, texts, want):
        what = label(case, pos, index, col, template)
        expect(text == what and str(con) == what, "{} is called {}", what,
               text)
        expect(con.column == col and con.trace_index == index,
               "{} has the column {} and the trace index {}", what,
               con.column, con.trace_index)
        frames = case["traces"][pos]["frames"]
        spec = frames[0 if template is None else EVENTS.index(template)]
        rows, left = expected(spec, col, case["pivot"],
                              dict(case["filters"]), case["window"])
        if left:
            labels.add("rows left out")
        got = con.result
        if case["pivot"] is None:
            expect(len(got) <= 1, "{} has the keys {}", what, list(got))
            got = {"": v for v in got.values()}
        expect(set(got) == set(rows), "{} has the pivot values {} instead of "
               "{}", what, list(got), list(rows))
        for key, vals in rows.items():
            expect([float(t) for t in got[key].index] == [
                float(t) for t, _ in vals] and all(
                    same(g, w) for g, (_, w) in zip(got[key].values, vals)),
                "{} for {} is {} instead of {}", what, key,
                list(zip(got[key].index, got[key].values)), vals)
    return labels


def check_constraints(case):
    from trappy.plotter import AttrConf
    from trappy.plotter.Constraint import ConstraintManager
    traces = build(case)
    templates = None
    if case["templates"] is not None:
        templates = alone([traces[0].class_definitions[t]
                           for t in case["templates"]], case["alone"][2])
    pivot = AttrConf.PIVOT if case["pivot"] is None else case["pivot"]
    kwargs = dict(case["kwargs"])
    if case["window"]:
        kwargs["window"] = tuple(case["window"])
    if not case["zip"]:
        kwargs["zip_constraints"] = False
    want = plan(case)
    args = (alone(traces, case["alone"][0]),
            alone(case["columns"], case["alone"][1]), templates, pivot,
            dict(case["filters"]))
    if want is None:
        try:
            c_mgr = ConstraintManager(*args, **kwargs)
        except RuntimeError:
            return {"refused"}
        expect(False, "{} traces, {} columns and {} events are accepted",
               *lengths(case))
    c_mgr = ConstraintManager(*args, **kwargs)
    labels = check_plan(case, c_mgr, want, pivot)
    # The union of the pivot values, once each, in a stable order
    union = set()
    for con in c_mgr:
        union |= set(con.result)
    got, count = c_mgr.generate_pivots()
    got = list(got)
    expect(set(got) == union and len(got) == len(union) == count,
           "the pivots are {} ({}) instead of {}", got, count, union)
    if all(isinstance(v, int) for v in union) or \
            all(isinstance(v, float) and v == int(v) for v in union):
        expect(got == sorted(union), "the pivots are in the order {}", got)
    pairs, count = c_mgr.generate_pivots(True)
    pairs = list(pairs)
    expect(pairs == [(t, p) for t in range(len(case["traces"])) for p in got]
           and count == len(pairs), "the permuted pivots are {}", pairs)
    labels.add("{} constraints".format(min(len(want), 4)))
    if len(case["traces"]) > 1:
        labels.add("several traces")
    if not case["zip"]:
        labels.add("permuted")
    if case["window"]:
        labels.add("window")
    if len(want) < 2 and "rows left out" not in labels:
        labels.add("trivial")
    return labels


FORMATS = ["{}", "0x{:x}", "{:03}", "0x{:02X}"]


def check_signals(case):
    traces = build(case)
    kind = getattr(trappy, case["plot"])
    texts = []
    colors = []
    for template, col, color in zip(case["templates"], case["columns"],
                                    case["colors"]):
        text = "{}:{}".format(template, col)
        if color:
            text += ":" + ",".join(
                FORMATS[h].format(c) for c, h in zip(color, case["hex"]))
        colors.append(color or None)
        texts.append(text)
    kwargs = {}
    if case["pivot"] is not None:
        kwargs["pivot"] = case["pivot"]
    if case["filters"] or case["kwargs"]:
        kwargs["filters"] = dict(case["filters"])
    if not case["zip"]:
        kwargs["permute"] = True
    if case["window"] and case["plot"] == "ILinePlot":
        kwargs["xlim"] = tuple(case["window"])
    else:
        case = dict(case, window=None)
    want = plan(case)
    try:
        plot = kind(alone(traces, case["alone"][0]),
                    signals=alone(texts, case["alone"][1]), **kwargs)
    except RuntimeError:
        expect(want is None, "the signals {} are refused", texts)
        return {"refused"}
    expect(want is not None, "the signals {} are accepted for {} traces",
           texts, len(traces))
    labels = check_plan(case, plot.c_mgr, want, case["pivot"])
    got = getattr(plot, "_attr", {}).get("colors")
    if not hasattr(plot, "_attr"):
        # Kept elsewhere
        labels.add("unseen colours")
    elif any(colors):
        expect(len(got) == len(colors) and all(
            w is None or g == w for g, w in zip(got, colors)),
            "the colours are {} instead of {}", got, colors)
        expect(all(len(c) == 3 and all(0 <= v <= 255 for v in c)
                   for c in got), "the colours are {}", got)
        labels.add("colours")
    else:
        expect(got is None, "the colours are {}", got)
    if len(want) < 2 and "rows left out" not in labels:
        labels.add("trivial")
    return labels


@st.composite
def frames(draw, dense=False):
    cols = draw(st.permutations(COLS))
    cols = cols[:draw(st.sampled_from([5, 5, 5, 5, 3, 4 if dense else 2]))]
    n = draw(st.sampled_from([3, 4, 5, 6, 7, 8, 2, 1, 9 if dense else 0]))
    times = sorted(draw(st.lists(st.integers(0, 40).map(
        lambda k: k / 4), min_size=n, max_size=n,
        unique=draw(st.integers(0, 3)) > 0)))
    if draw(st.integers(0, 4)) == 0:
        times = sorted({int(t) for t in times})
    return dict(cols=cols, times=times, seeds=draw(st.lists(
        st.integers(0, 60), min_size=7, max_size=11)))


FILTER = {"load": st.integers(0, 5), "cpu": st.integers(0, 3),
          "freq": st.integers(0, 7).map(lambda n: n / 2),
          "task": st.sampled_from(["sh", "rcu", "a-b", "30", "r"]),
          "nosuch": st.integers(0, 3), "gap": st.integers(0, 3)}


@st.composite
def common(draw, signals=False, dense=False):
    is_trace = signals or draw(st.booleans())
    n_traces = draw(st.sampled_from([1, 1, 2, 3]))
    traces = [dict(name=draw(st.sampled_from(["", "", "first", "b b"])),
                   frames=[draw(frames(dense)), draw(frames(dense))])
              for _ in range(n_traces)]
    size = draw(st.sampled_from([1, n_traces, draw(st.integers(1, 3)),
                                 draw(st.integers(1, 7))]))
    columns = draw(st.lists(st.sampled_from(COLS + COLS + ["nosuch"]),
                            min_size=size, max_size=size))
    templates = None
    if is_trace:
        size = len(columns) if signals else draw(st.sampled_from(
            [1, len(columns), len(columns), n_traces,
             draw(st.integers(1, 3)), draw(st.integers(1, 7))]))
        templates = draw(st.lists(st.sampled_from(EVENTS), min_size=size,
                                  max_size=size))
    filters = []
    if draw(st.integers(0, 3)) < (1 if dense else 2):
        for col in draw(st.lists(st.sampled_from(sorted(FILTER)), min_size=1,
                                 max_size=2, unique=True)):
            filters.append([col, draw(gen.sized(FILTER[col], 0, 4))])
    window = None
    if draw(st.integers(0, 2)) == 0:
        times = [t for tr in traces for f in tr["frames"] for t in f["times"]]
        point = st.integers(-4, 44).map(lambda k: k / 4)
        if times:
            point = st.one_of(point, st.sampled_from(times))
        window = sorted([draw(point), draw(point)])
    return dict(traces=traces, columns=columns, templates=templates,
                zip=draw(st.sampled_from([True, True, False])),
                pivot=draw(st.sampled_from([None, "cpu", "task", "freq",
                                            "load", "gap", "cpu" if dense
                                            else "nosuch"])),
                filters=filters, window=window, kwargs={},
                alone=draw(st.lists(st.booleans(), min_size=3, max_size=3)))


@st.composite
def signal_cases(draw):
    case = draw(common(signals=True))
    n = len(case["columns"])
    color = st.one_of(st.none(), st.lists(st.integers(0, 255), min_size=3,
                                          max_size=3))
    case["colors"] = draw(st.one_of(
        st.just([None] * n), st.lists(color, min_size=n, max_size=n)))
    case["hex"] = draw(st.lists(st.integers(0, len(FORMATS) - 1), min_size=3,
                                max_size=3))
    case["plot"] = draw(st.sampled_from(["LinePlot", "BarPlot", "ILinePlot"]))
    return case


SUBS = [Sub("constraints", common, check_constraints, quick=2400, shards=6),
        Sub("signals", signal_cases, check_signals, quick=600, shards=2)]
