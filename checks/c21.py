"""C21: interactive plots"""
import json
import re

import pandas as pd
from hypothesis import strategies as st

import tr
from checks import c18, c19
import trappy
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Interactive plots of generated traces or frames with every kind of "
        "layout are made, the page is read as a browser does and the data, "
        "labels, titles and options of its figures compared with lists of "
        "rows.  Non-trivial: at least two figures or two series in one.")
ASSUMPTIONS = ["plotted columns are numeric", "the series of a plot have "
               "distinct labels", "series that share a plot have no repeated "
               "times"]


def page():
    """[rows of figure names], {figure: parameters}, {figure: colours} of the
    page shown last"""
    text = tr.RECORDER.shown[-1].data
    scripts = re.findall(r"<script>(.*?)</script>", text, re.S)
    body = re.sub(r"<script>.*?</script>", "", text, flags=re.S)
    table = []
    for row in re.findall(r"<tr>(.*?)</tr>", body, re.S):
        table.append(re.findall(r'class="ilineplot" id="(\w+)"', row))
    data, colors = {}, {}
    for script in scripts:
        for name, val in re.findall(r"var (\w+)_data = (.*);\s*$", script,
                                    re.M):
            expect(name not in data, "{} is given twice", name)
            data[name] = json.loads(val)
        for name, val in re.findall(
                r"ILinePlot\.generate\((\w+)_data(?:, (.*))?\);", script):
            colors[name] = val
    return [r for r in table if r], data, colors


def number(val):
    return None if val is None or val != val else float(val)


def close(a, b):
    return a is not None and abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def check_series(one, times, got, style):
    """Compare a series on the times of its figure with its samples"""
    own = {x: number(y) for x, y in zip(one["x"], one["y"])
           if number(y) is not None}
    xs = sorted(own)
    for t, val in zip(times, got):
        what = "{!r} at {} is {}".format(one["text"], t, val)
        if t in own:
            expect(val == own[t], "{} instead of {}", what, own[t])
            continue
        before = [x for x in xs if x < t]
        after = [x for x in xs if x > t]
        if before and after:
            a, b = before[-1], after[0]
            if style in ("steps-post", "steps-mid"):
                expect(val == own[a], "{} instead of {}", what, own[a])
            elif style == "steps-pre":
                expect(val == own[b], "{} instead of {}", what, own[b])
            else:
                want = own[a] + (own[b] - own[a]) * (t - a) / (b - a)
                expect(close(val, want), "{} instead of {}", what, want)
        elif before:
            expect(val is None or (val == own[before[-1]] and
                                   style != "steps-pre"),
                   "{} after the last sample {}", what, own[before[-1]])
        else:
            expect(val is None or (after and val == own[after[0]] and
                                   style == "steps-pre"),
                   "{} before the first sample", what)


def check_figure(case, fig, series, opts, title):
    names = [s["text"] for s in series]
    data = fig["data"]
    expect(data["labels"] == ["index"] + names, "{!r} has the labels {} "
           "instead of {}", fig["title"], data["labels"][1:], names)
    if title is not None:
        expect(fig["title"] == title, "a figure has the title {!r} instead of "
               "{!r}", fig["title"], title)
    rows = data["data"]
    expect(all(len(r) == 1 + len(names) for r in rows),
           "{!r} has rows of other lengths", fig["title"])
    times = [r[0] for r in rows]
    if len(series) == 1:
        one = series[0]
        expect(times == one["x"] and [number(r[1]) for r in rows] == [
            number(y) for y in one["y"]], "{!r} has the points {} instead of "
            "{}", one["text"], rows, list(zip(one["x"], one["y"])))
    else:
        want = sorted({x for s in series for x in s["x"]})
        expect(times == want, "{!r} has the times {} instead of {}",
               fig["title"], times, want)
        for i, one in enumerate(series):
            check_series(one, times, [number(r[i + 1]) for r in rows],
                         opts.get("drawstyle"))
    step = opts.get("drawstyle", "").startswith("steps")
    expect(fig["step_plot"] is step, "step_plot is {}", fig["step_plot"])
    expect(not fig.get("logscale"), "logscale is {}", fig.get("logscale"))
    expect(bool(fig["fill_graph"]) is ("fill" in opts or "fill_alpha" in opts),
           "fill_graph is {}", fig["fill_graph"])
    expect(fig.get("fill_alpha") == opts.get("fill_alpha"),
           "fill_alpha is {}", fig.get("fill_alpha"))
    expect(bool(fig["drawPoints"]) is ("scatter" in opts) and
           (fig["strokeWidth"] == 0) is ("scatter" in opts),
           "drawPoints is {} and strokeWidth {}", fig["drawPoints"],
           fig["strokeWidth"])
    if "point_size" in opts:
        expect(fig["pointSize"] == opts["point_size"], "pointSize is {}",
               fig["pointSize"])
    for key, name in [("xlim", "dateWindow"), ("ylim", "valueRange")]:
        expect(fig.get(name) == opts.get(key), "{} is {} instead of {}", name,
               fig.get(name), opts.get(key))
    expect(bool(fig["syncZoom"]) is bool(opts.get("sync_zoom")),
           "syncZoom is {}", fig["syncZoom"])
    if "group" in opts:
        expect(fig["syncGroup"] == opts["group"], "syncGroup is {!r}",
               fig["syncGroup"])


def check(case):
    opts = dict(case["options"])
    window = opts.get("xlim")
    case = dict(case, window=window)
    traces = c18.build(case)
    kwargs = c19.kwargs_of(case)
    if case["pivot"] is not None:
        kwargs["pivot"] = case["pivot"]
    if case["filters"]:
        kwargs["filters"] = dict(case["filters"])
    if case["concat"]:
        kwargs["concat"] = True
    if not case["zip"]:
        kwargs["permute"] = True
    want = c18.plan(case)
    assert want is not None
    if case["templates"] is not None:
        kwargs["templates"] = c18.alone(
            [traces[0].class_definitions[t] for t in case["templates"]],
            case["alone"][2])
    plot = trappy.ILinePlot(
        c18.alone(traces, case["alone"][0]),
        column=c18.alone(case["columns"], case["alone"][1]), **kwargs)
    pivots = list(plot.c_mgr.generate_pivots()[0])
    if case["pivot"] is None:
        pivots = ["" for _ in pivots]
    del tr.RECORDER.shown[:]
    if not pivots:
        try:
            plot.view(test=True)
        except RuntimeError:
            return {"trivial", "nothing to plot"}
        _, data, _ = page()
        expect(not any(f["data"]["data"] for f in data.values()),
               "something is drawn without data")
        return {"trivial", "nothing to plot"}
    axes = c19.series_of(case, want, pivots, window)
    for series in axes:
        expect_distinct = [s["text"] for s in series]
        if len(set(expect_distinct)) < len(series):
            return {"trivial", "equal labels"}
        if len(series) > 1 and any(len(set(s["x"])) < len(s["x"])
                                   for s in series):
            return {"trivial", "repeated times"}
    # A single series may have repeated times; those of several have none
    most = max(len(series[0]["x"]) if len(series) == 1 else
               len({x for s in series for x in s["x"]}) * len(series)
               for series in axes)
    if case["points"] is not None:
        limit = max(0, most + case["points"])
        try:
            plot.view(max_datapoints=limit, test=True)
        except ValueError as exc:
            expect(limit < most, "{} points are refused with a limit of {}: "
                   "{}", most, limit, exc)
            return {"too many points"}
        expect(limit >= most, "{} points are drawn with a limit of {}", most,
               limit)
    else:
        plot.view(test=True)
    if case["twice"]:
        # Showing it again makes no difference
        del tr.RECORDER.shown[:]
        plot.view(test=True)
    expect(len(tr.RECORDER.shown) == 1, "{} pages are shown",
           len(tr.RECORDER.shown))
    table, data, colors = page()
    groups = {f["syncGroup"] for f in data.values()}
    expect(len(groups) == 1, "the figures of a plot are in the groups {}",
           groups)
    if "group" not in opts:
        # Zooming in one plot leaves another one alone
        other = trappy.ILinePlot(pd.DataFrame({"v": [1, 2]}), column="v")
        other.view(test=True)
        _, theirs, _ = page()
        expect(not groups & {f["syncGroup"] for f in theirs.values()},
               "two plots are in the group {}", groups)
    columns = min(opts.get("per_line", 2), len(axes))
    cells = [c for row in table for c in row]
    expect(all(len(row) == columns for row in table), "the rows have {} "
           "figures instead of {}", [len(r) for r in table], columns)
    expect(len(table) == -(-len(axes) // columns), "{} figures are in {} rows",
           len(axes), len(table))
    expect(len(set(cells)) == len(cells), "two cells have the same figure")
    expect(set(data) == set(cells[:len(axes)]), "{} figures have data instead "
           "of {}", len(data), len(axes))
    for name, series in zip(cells, axes):
        fig = data[name]
        expect(name in colors, "the figure {} is not drawn", name)
        expect(fig["name"] == name, "a figure is called {} instead of {}",
               fig["name"], name)
        check_figure(case, fig, series, opts,
                     series[-1]["title"] if series else None)
        if "colors" in opts:
            got = re.findall(r"rgb\((\d+), *(\d+), *(\d+)\)", colors[name])
            expect([[int(c) for c in g] for g in got] == opts["colors"],
                   "the colours are {} instead of {}", colors[name],
                   opts["colors"])
        else:
            expect(not colors[name], "the colours are {}", colors[name])
    labels = set()
    if case["concat"]:
        labels.add("concatenated")
    elif not case["zip"]:
        labels.add("permuted")
    if opts.get("drawstyle"):
        labels.add("steps" if opts["drawstyle"] != "default" else "default")
    if window:
        labels.add("window")
    if len(axes) > columns > 1:
        labels.add("grid")
    most = max(map(len, axes))
    if most > 1:
        labels.add("several series")
        if any(len({tuple(s["x"]) for s in series}) > 1 for series in axes):
            labels.add("different times")
    if len(axes) < 2 and most < 2:
        labels.add("trivial")
    return labels


@st.composite
def cases(draw):
    case = draw(c19.cases())
    for trace in case["traces"]:
        if draw(st.integers(0, 9)) == 0:
            trace["name"] = draw(st.sampled_from(["</script>", "a\"b", "<b>",
                                                  "x\\y"]))
        for frame in trace["frames"]:
            if draw(st.integers(0, 9)):
                frame["times"] = sorted(set(frame["times"]))
    options = case["options"]
    for key in ("legend_ncol", "marker", "linestyle", "linewidth", "stacked",
                "spacing", "style"):
        options.pop(key, None)
    for key, value in [("fill_alpha", st.sampled_from([0.25, 0.5])),
                       ("sync_zoom", st.booleans()),
                       ("group", st.sampled_from(["g", "</script>"]))]:
        if draw(st.integers(0, 5)) == 0:
            options[key] = draw(value)
    case["twice"] = draw(st.integers(0, 5)) == 0
    case["points"] = draw(st.sampled_from([None, None, None, -1, 0, 1]))
    return case


SUBS = [Sub("figures", cases, check, quick=4000, shards=8)]
