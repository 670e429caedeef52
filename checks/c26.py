"""C26: plots that compare runs, and what they are made of"""
import os
import re
import statistics

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from matplotlib import pyplot as plt

import harness
import thermal
import tr
import trappy
from trappy import plot_utils
from trappy.plotter import IPythonConf
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Runs of the thermal framework are generated, plotted alone, side by side "
        "and compared from directories, and the lines, bars, titles and "
        "limits of every axis read back and compared with lists of rows, the same "
        "for axes of plain data.  Non-trivial: at least two runs, or limits "
        "that change.")
ASSUMPTIONS = ["all clusters are named in the map and each run has some "
               "cluster's events", "all runs have the same number of actors",
               "weights are integers"]

IPythonConf.iplot_install = lambda _name: None
GOLDEN = 1.618034
close = thermal.close


def titled(title, name):
    return name + " - " + title if name else title


def points(line):
    """The points of a line without the ones that are missing"""
    out = []
    for x, y in zip(line.get_xdata(), np.ma.filled(np.ma.asarray(
            line.get_ydata(), dtype=float), np.nan)):
        if y == y:
            out.append((float(x), float(y)))
    return out


def same_points(got, want):
    return len(got) == len(want) and all(
        close(gx, wx) and close(gy, wy)
        for (gx, gy), (wx, wy) in zip(got, want))


def present(vals):
    return [(t, float(v)) for t, v in vals if v is not None]


def filled(columns, more=()):
    index, out = thermal.carried(columns, more)
    return {name: present(zip(index, vals)) for name, vals in out.items()}


def check_lines(what, ax, want, margin=True):
    """want: [(label, points)] in any order"""
    got = {}
    for line in ax.get_lines():
        got.setdefault(line.get_label(), []).append(points(line))
    expect(sorted(got) == sorted({w[0] for w in want}),
           "{}: lines {} instead of {}", what, sorted(got),
           sorted({w[0] for w in want}))
    for label, pts in want:
        found = got[label]
        match = [f for f in found if same_points(f, pts)]
        expect(match, "{}: {} is {} instead of {}", what, label,
               found[0] if len(found) == 1 else found, pts)
        found.remove(match[0])
    expect(not any(got.values()), "{}: more lines {}", what, got)
    if want:
        texts = [t.get_text() for t in ax.get_legend().get_texts()]
        expect(sorted(texts) == sorted(w[0] for w in want),
               "{}: the legend has {}", what, texts)
    ys = [y for _, pts in want for _, y in pts]
    xs = [x for _, pts in want for x, _ in pts]
    if ys and margin:
        low, high = ax.get_ylim()
        pad = 0.1 * (max(ys) - min(ys))
        expect(low <= min(ys) - pad + 1e-6 and high >= max(ys) + pad - 1e-6,
               "{}: the limits {} have no margin around {} and {}", what,
               (low, high), min(ys), max(ys))
    if xs:
        low, high = ax.get_xlim()
        expect(low <= min(xs) and high >= max(xs),
               "{}: the limits {} do not show {} to {}", what, (low, high),
               min(xs), max(xs))


def check_hist(what, ax, title, unit, values, bins, xlabel):
    """Bars and title of a histogram"""
    values = [float(v) for v in values]
    counts, edges = np.histogram(values, bins=bins)
    bars = sorted((p.get_x(), p.get_width(), p.get_height())
                  for p in ax.patches)
    expect(len(bars) == bins and all(
        close(b[0], e) and b[2] == c
        for b, e, c in zip(bars, edges, counts)),
        "{}: the bars {} are not of {}", what, bars, values)
    found = re.fullmatch(r"(.*) \(mean = (.*?){}, std = (.*?)\)".format(unit),
                         ax.get_title())
    expect(found and found.group(1) == title, "{}: the title is {!r}", what,
           ax.get_title())
    mean = sum(values) / len(values)
    std = statistics.stdev(values) if len(values) > 1 else float("nan")
    for text, num in [(found.group(2), mean), (found.group(3), std)]:
        expect(num != num and text == "nan" or
               abs(float(text) - num) < 0.0051 + 1e-9 * abs(num),
               "{}: {} instead of {} in the title", what, text, num)
    expect(ax.get_xlabel() == "{} ({})".format(xlabel, unit) and
           ax.get_ylabel() == "count", "{}: the axes are {} and {}", what,
           ax.get_xlabel(), ax.get_ylabel())
    low, high = ax.get_xlim()
    expect(low == 0 and close(high, max(values)), "{}: the limits are {}",
           what, (low, high))


def size_of(width, height):
    if height is None:
        return (10, 6) if width is None else (width, width // GOLDEN)
    return (height * GOLDEN if width is None else width), height


def check_size(what, fig, size, nrows=1):
    width, height = size_of(*size)
    got = fig.get_size_inches()
    expect(close(got[0], width) and close(got[1], height * nrows),
           "{}: the size is {} instead of {}", what, tuple(got),
           (width, height * nrows))


# What each plot of a run shows

def temperature_lines(run, tz_id):
    temps = [(t, v["temp"] / 1000) for t, v in thermal.rows(run, "temp")
             if tz_id is None or v["id"] == tz_id]
    govs = [(t, v) for t, v in thermal.rows(run, "gov")
            if tz_id is None or v["id"] == tz_id]
    control = [(t, (v["temp"] + v["delta"]) / 1000) for t, v in govs]
    label = titled("Temperature", run["name"])
    if temps:
        # A run without governor has no control temperature
        return [(label, temps)] + [(titled("Control", run["name"]), control)
                                   ] * bool(thermal.rows(run, "gov"))
    return [(label, [(t, v["temp"] / 1000) for t, v in govs]),
            ("control temperature", control)]


def load_lines(run, clusters, norm=False):
    cols = (thermal.norm_loads if norm else thermal.loads)(run, clusters)
    if thermal.rows(run, "gpu_in"):
        cols["GPU"] = (thermal.gpu_norm_loads if norm else
                       thermal.gpu_loads)(run)
    return list(filled(cols).items())


def freq_plots(run, clusters):
    """[(title, lines)]"""
    out = []
    for _, label in clusters:
        cols = {"{}_freq_{}".format(label, k): thermal.freqs(
            run, k, clusters).get(label) for k in ("in", "out")}
        out.append((titled("allfreqs " + label, run["name"]),
                    {name: vals for name, vals in cols.items() if vals}))
    if thermal.rows(run, "gpu_in") and thermal.rows(run, "gpu_out"):
        out.append((titled("allfreqs GPU", run["name"]),
                    {"gpu_freq_" + k: thermal.gpu_freqs(run, "gpu_" + k)
                     for k in ("in", "out")}))
    return out


def check_freqs(axes, run, clusters):
    plots = freq_plots(run, clusters)
    for ax, (title, cols) in zip(axes, plots):
        expect(ax.get_title() == title, "the title {!r} instead of {!r}",
               ax.get_title(), title)
        check_held(title, ax, cols, run)
    for ax in axes[len(plots):]:
        expect(not ax.get_lines(), "an axis has other lines {}",
               [l.get_label() for l in ax.get_lines()])


def check_held(what, ax, cols, run):
    """Lines that are carried on, at least at the times of each other, at most
    at those of all the frequencies of the run"""
    everywhere = {t for k in ("in", "out") for t, _ in thermal.rows(run, k)}
    got = {l.get_label(): points(l) for l in ax.get_lines()}
    times = {x for pts in got.values() for x, _ in pts} & everywhere
    check_lines(what, ax, list(filled(cols, times).items()))


def power_lines(run, kind, order):
    return [(name, [(t, v[kind][i]) for t, v in thermal.rows(run, "gov")])
            for i, name in enumerate(order)]


def weight():
    return st.one_of(st.sampled_from([0, 0, 1, 1024]), st.integers(0, 4096))


def weighted_lines(run, weights, order):
    return [(name, [(t, v["req"][i] * weight / 1024)
                    for t, v in thermal.rows(run, "gov")])
            for i, (name, weight) in enumerate(zip(order, weights))]


def controller_lines(run):
    return [(k, [(t, v[k]) for t, v in thermal.rows(run, "pid")])
            for k in ("output", "p", "i", "d")]


def freq_hists(run, clusters, kind):
    """{title: values}"""
    cols = thermal.freqs(run, kind, clusters)
    if thermal.rows(run, "gpu_in") and thermal.rows(run, "gpu_out"):
        cols["GPU"] = thermal.gpu_freqs(run, "gpu_" + kind)
    return {titled("freq {} {}".format(kind, label), run["name"]):
            [v for _, v in pts] for label, pts in filled(cols).items()}


def check_hist_axes(what, axes, run, clusters):
    half = len(axes) // 2
    for kind, mine in (("out", axes[:half]), ("in", axes[half:])):
        want = freq_hists(run, clusters, kind)
        used = [ax for ax in mine if ax.patches]
        titles = [re.sub(r" \(mean = .*", "", ax.get_title()) for ax in used]
        expect(sorted(titles) == sorted(want), "{}: histograms {} instead of "
               "{}", what, titles, sorted(want))
        for ax, title in zip(used, titles):
            check_hist(what, ax, title, "MHz", want[title], 20, "Frequency")


def check_titled(ax, title, lines):
    expect(ax.get_title() == title, "the title {!r} instead of {!r}",
           ax.get_title(), title)
    check_lines(title, ax, lines)


def figures():
    return [plt.figure(n) for n in plt.get_fignums()]


def columns_of(fig, ncols, nrows=1):
    """The axes of each run"""
    axes = fig.axes
    expect(len(axes) == ncols * nrows, "{} axes instead of {}", len(axes),
           ncols * nrows)
    return [axes[i::ncols] for i in range(ncols)]


def has_gpu(runs):
    return any(thermal.rows(r, "gpu_in") for r in runs)


class Comparison(object):
    """The expectation of each kind of figure of a list of runs"""

    def __init__(self, case):
        self.runs = case["runs"]
        self.clusters = [tuple(c) for c in case["clusters"]]
        self.order = case["order"]
        self.tz_id = case["tz_id"]
        self.size = case["size"]
        self.weights = case["weights"]

    def temperature(self, fig):
        check_size("temperature", fig, self.size)
        [[ax]] = columns_of(fig, 1)
        check_titled(ax, "Temperature", [
            line for run in self.runs for line in
            temperature_lines(run, self.tz_id)])

    def load(self, fig):
        check_size("load", fig, self.size, 2)
        for run, (first, second) in zip(self.runs, columns_of(
                fig, len(self.runs), 2)):
            check_titled(first, titled("Utilization", run["name"]),
                         load_lines(run, self.clusters))
            check_titled(second, titled("Normalized Utilization",
                                        run["name"]),
                         load_lines(run, self.clusters, True))

    def allfreqs(self, fig):
        rows = len(self.clusters) + has_gpu(self.runs)
        check_size("frequencies", fig, self.size, rows)
        for run, axes in zip(self.runs, columns_of(fig, len(self.runs),
                                                   rows)):
            check_freqs(axes, run, self.clusters)

    def one_row(self, what, fig, title, lines):
        check_size(what, fig, self.size)
        for i, (run, [ax]) in enumerate(zip(self.runs, columns_of(
                fig, len(self.runs)))):
            wanted = lines(i, run)
            if wanted:
                check_titled(ax, titled(title, run["name"]), wanted)
            else:
                expect(not ax.get_lines() and not ax.get_title(),
                       "{}: there are lines of {}", what, run["name"])

    def controller(self, fig):
        self.one_row("controller", fig, "PID",
                     lambda _i, run: controller_lines(run))

    def input_power(self, fig):
        self.one_row("input power", fig, "Input Power",
                     lambda _i, run: power_lines(run, "req", self.order))

    def weighted(self, fig):
        self.one_row("weighted power", fig, "Weighted Input Power",
                     lambda i, run: weighted_lines(run, self.weights[i],
                                                   self.order))

    def output_power(self, fig):
        self.one_row("output power", fig, "Output Power",
                     lambda _i, run: power_lines(run, "granted", self.order))

    def freq_hists(self, fig):
        rows = 2 * (len(self.clusters) + has_gpu(self.runs))
        check_size("histograms", fig, (None, None), rows)
        for run, axes in zip(self.runs, columns_of(fig, len(self.runs),
                                                   rows)):
            check_hist_axes("histograms of " + run["name"], axes, run,
                            self.clusters)

    def temperature_hist(self, fig):
        runs = [r for r in self.runs if thermal.rows(r, "temp")]
        check_size("temperatures", fig, (None, None))
        for run, [ax] in zip(runs, columns_of(fig, len(runs))):
            check_hist("temperatures", ax, titled("Temperature", run["name"]),
                       "C", [v["temp"] / 1000 for _, v in
                             thermal.rows(run, "temp")], 30, "Temperature")

    def power_figures(self):
        out = [self.input_power]
        if any(self.weights):
            out.append(self.weighted)
        return out

    def last(self):
        return [self.temperature_hist] if any(
            thermal.rows(r, "temp") for r in self.runs) else []

    def labels(self):
        labels = set() if len(self.runs) > 1 else {"trivial"}
        if not all(thermal.rows(r, "gov") for r in self.runs):
            labels.add("a run without governor")
        if has_gpu(self.runs):
            labels.add("gpu")
        if not all(any(v["cpus"] == m for _, v in thermal.rows(r, k))
                   for r in self.runs for k in ("in", "out")
                   for m, _ in self.clusters):
            labels.add("a run without a cluster")
        if any(self.weights):
            labels.add("weights" if all(self.weights) else "some weights")
        if not all(thermal.rows(r, "temp") for r in self.runs):
            labels.add("a run without temperatures")
        return labels


def check_figures(checks):
    figs = figures()
    expect(len(figs) == len(checks), "{} figures instead of {} ({})",
           len(figs), len(checks), [[a.get_title() for a in f.axes]
                                    for f in figs])
    for fig, check in zip(figs, checks):
        check(fig)
    plt.close("all")


def write_runs(case):
    paths = []
    base = harness.fresh_dir("runs")
    for i, run in enumerate(case["runs"]):
        path = os.path.join(base, "run{}".format(i))
        os.makedirs(path)
        with open(os.path.join(path, "trace.txt"), "w") as fout:
            fout.write(thermal.render(run))
        if case["weights"][i] or case["others"]:
            zone = os.path.join(path, "after/sys/devices/virtual/thermal/"
                                "thermal_zone0")
            os.makedirs(zone)
            files = {"cdev{}_weight".format(n): w
                     for n, w in enumerate(case["weights"][i])}
            if case["others"]:
                files.update({"k_d": 7, "policy": "power_allocator",
                              "trip_point_0_temp": 65000})
            for name in sorted(files):
                with open(os.path.join(zone, name), "w") as fout:
                    fout.write("{}\n".format(files[name]))
        paths.append(path)
    return paths


def kept(fun, runs, before):
    """The runs did not change"""
    for run, old in zip(runs, before):
        why = tr.diff(tr.trace_snapshot(run), old)
        expect(why is None, "{} changes a run: {}", fun, why)


def check_runs(case):
    plt.close("all")
    comp = Comparison(case)
    paths = write_runs(case)
    runs = [trappy.FTrace(path, name=run["name"], scope="thermal")
            for path, run in zip(paths, case["runs"])]
    before = [tr.trace_snapshot(r) for r in runs]
    names = dict(comp.clusters)
    size = dict(zip(("width", "height"), case["size"]))
    calls = [
        (lambda: plot_utils.plot_temperature(runs, tz_id=comp.tz_id, **size),
         [comp.temperature]),
        (lambda: plot_utils.plot_load(runs, names, **size), [comp.load]),
        (lambda: plot_utils.plot_allfreqs(runs, names, **size),
         [comp.allfreqs]),
        (lambda: plot_utils.plot_controller(runs, **size),
         [comp.controller]),
        (lambda: plot_utils.plot_input_power(runs, list(comp.order), **size),
         comp.power_figures()),
        (lambda: plot_utils.plot_output_power(runs, list(comp.order), **size),
         [comp.output_power]),
        (lambda: plot_utils.plot_freq_hists(runs, names), [comp.freq_hists]),
        (lambda: plot_utils.plot_temperature_hist(runs), comp.last())]
    for n in case["calls"]:
        call, checks = calls[n % len(calls)]
        call()
        check_figures(checks)
        kept("plot {}".format(n), runs, before)
    return comp.labels() | {"call {}".format(n) for n in case["calls"]}


def check_compare(case):
    plt.close("all")
    del tr.RECORDER.shown[:]
    paths = write_runs(case)
    comp = Comparison(case)
    kwargs = {}
    if comp.tz_id is not None:
        kwargs["tz_id"] = comp.tz_id
    for name, val in zip(("width", "height"), case["size"]):
        if val is not None:
            kwargs[name] = val
    comp.size = [20 if case["size"][0] is None else case["size"][0],
                 5 if case["size"][1] is None else case["size"][1]]
    if case["idle"] is not None:
        # A run in which the power allocator did nothing
        try:
            trappy.compare_runs(list(comp.order), dict(comp.clusters),
                                [(r["name"], p) for r, p in
                                 zip(case["runs"], paths)], **kwargs)
        except ValueError:
            plt.close("all")
            return {"idle"}
        expect(False, "a run without events of the power allocator is shown")
    if len(paths) == 1 and case["summary"]:
        trappy.summary_plots(list(comp.order), dict(comp.clusters),
                             path=paths[0], title=case["runs"][0]["name"],
                             **kwargs)
    else:
        trappy.compare_runs(list(comp.order), dict(comp.clusters),
                            [(r["name"], p) for r, p in
                             zip(case["runs"], paths)], **kwargs)
    check_figures([comp.temperature, comp.load, comp.allfreqs,
                   comp.controller] + comp.power_figures() +
                  [comp.output_power, comp.freq_hists] + comp.last())
    tables = [re.findall(r"<th>(.*?)</th>\s*<td>(.*?)</td>", page.data, re.S)
              for page in tr.RECORDER.shown]
    want = []
    for weights in case["weights"]:
        params = {"cdev{}_weight".format(n): str(w)
                  for n, w in enumerate(weights)}
        if case["others"]:
            params.update({"k_d": "7", "policy": "power_allocator",
                           "trip_point_0_temp": "65000"})
        if params:
            want.append(sorted(params.items()))
    expect(tables == want, "the tables are {} instead of {}", tables, want)
    return comp.labels()


def cases(most, small=False, idle_runs=False):
    @st.composite
    def strategy(draw):
        clusters = draw(thermal.clusters())
        actors = draw(st.sampled_from([1, 2, 2, 3, 12]))
        order = ["actor {}".format(i) for i in range(actors)]
        order = draw(st.permutations(order)) if actors < 4 else order
        gpu = draw(st.sampled_from([None, None, True, False]))
        temps = draw(st.sampled_from([True, True, True, False, None]))
        num = draw(st.integers(1, most))
        runs, weights = [], []
        no_weights = draw(st.booleans())
        for _ in range(num):
            runs.append(draw(thermal.runs(
                clusters, gpu=gpu, actors=actors, temps=draw(st.booleans())
                if temps is None else temps, most=6 if small else 14,
                unplugged=True)))
            weights.append([] if no_weights else draw(st.one_of(
                st.just([]), st.lists(weight(), min_size=1,
                                      max_size=actors),
                st.lists(weight(), min_size=actors,
                         max_size=actors))))
        size = st.one_of(st.none(), st.integers(3, 30))
        calls = draw(st.lists(st.integers(0, 7), min_size=1, max_size=3))
        tz_id = draw(st.sampled_from([None, None, 0, 1]))
        if not small and draw(st.integers(0, 4)) == 0:
            # Temperatures of runs without governor
            calls = [0]
            for run in runs:
                zones = [v["id"] for _, v in thermal.rows(run, "temp")]
                if (tz_id in zones or tz_id is None and zones) and \
                        draw(st.integers(0, 3)):
                    run["rows"] = [r for r in run["rows"] if r[1] != "gov"]
        idle = draw(st.sampled_from([None] * 7 + [0, 1, 2])) if idle_runs \
            else None
        if idle is not None:
            run = runs[idle % num]
            zones = [v["id"] for _, v in thermal.rows(run, "temp")]
            if tz_id in zones or tz_id is None and zones:
                run["rows"] = [r for r in run["rows"] if r[1] == "temp"]
            else:
                idle = None
        return dict(
            clusters=clusters, order=order, runs=runs, weights=weights,
            others=draw(st.booleans()), tz_id=tz_id, size=[draw(size), draw(size)],
            calls=calls, idle=idle,
            summary=draw(st.booleans()))
    return strategy


# Plots of one run with their own axes

def check_single(case):
    plt.close("all")
    run, clusters = case["run"], [tuple(c) for c in case["clusters"]]
    trace = tr.parse(thermal.render(run), name=run["name"], scope="thermal")
    before = tr.trace_snapshot(trace)
    names, size = dict(clusters), case["size"]
    kw = dict(width=size[0], height=size[1])
    title, order = case["title"], case["order"]
    what = case["what"]
    if what in ("thermal", "governor"):
        obj = trace.thermal if what == "thermal" else trace.thermal_governor
        args = dict(kw, title=title, legend_label=case["label"],
                    tz_id=case["tz_id"])
        if case["ylim"] is not None:
            args["ylim"] = tuple(case["ylim"])
        if what == "thermal":
            lines = [(titled("Temperature", case["label"]), [
                (t, v["temp"] / 1000) for t, v in thermal.rows(run, "temp")
                if case["tz_id"] in (None, v["id"])])]
            if case["control"]:
                args["control_temperature"] = pd.Series(
                    [v for _, v in case["control"]],
                    index=[t for t, _ in case["control"]])
                lines.append((titled("Control", case["label"]),
                              [tuple(c) for c in case["control"]]))
        else:
            govs = [(t, v) for t, v in thermal.rows(run, "gov")
                    if case["tz_id"] in (None, v["id"])]
            lines = [(titled("Temperature", case["label"]),
                      [(t, v["temp"] / 1000) for t, v in govs]),
                     ("control temperature",
                      [(t, (v["temp"] + v["delta"]) / 1000)
                       for t, v in govs])]
        if not lines[0][1]:
            if what == "governor":
                return {"trivial", "no rows"}
            try:
                obj.plot_temperature(**args)
            except ValueError:
                plt.close("all")
                return {"trivial", "refused"}
            expect(False, "a plot without temperatures")
        obj.plot_temperature(**args)
        [fig] = figures()
        check_size(what, fig, size)
        [ax] = fig.axes
        expect(ax.get_title() == titled("Temperature", title),
               "the title is {!r}", ax.get_title())
        check_lines(what, ax, lines, margin=case["ylim"] is None)
        if case["ylim"] is not None:
            expect(list(ax.get_ylim()) == case["ylim"], "the limits are {} "
                   "instead of {}", ax.get_ylim(), case["ylim"])
    elif what == "allfreqs":
        trace.plot_allfreqs(names, **kw)
        figs = figures()
        expect(len(figs) == len(freq_plots(run, clusters)),
               "{} figures of frequencies", len(figs))
        for fig in figs:
            check_size(what, fig, size)
        check_freqs([fig.axes[0] for fig in figs], run, clusters)
    elif what == "hist":
        _, axes = plt.subplots(nrows=2 * (len(clusters) + has_gpu([run])))
        trace.plot_freq_hists(names, axes)
        check_hist_axes(what, list(axes), run, clusters)
    else:
        governor = trace.thermal_governor
        call, name, lines = {
            "load": (lambda **k: trace.plot_load(names, **k), "Utilization",
                     lambda: load_lines(run, clusters)),
            "norm": (lambda **k: trace.plot_normalized_load(names, **k),
                     "Normalized Utilization",
                     lambda: load_lines(run, clusters, True)),
            "pid": (trace.pid_controller.plot_controller, "PID",
                    lambda: controller_lines(run)),
            "in": (lambda **k: governor.plot_input_power(list(order), **k),
                   "Input Power", lambda: power_lines(run, "req", order)),
            "out": (lambda **k: governor.plot_output_power(list(order), **k),
                    "Output Power",
                    lambda: power_lines(run, "granted", order)),
            "weighted": (lambda **k: governor.plot_weighted_input_power(
                list(zip(order, case["weights"])), **k),
                "Weighted Input Power",
                lambda: weighted_lines(run, case["weights"], order)),
        }[what]
        call(title=title, **kw)
        [fig] = figures()
        check_size(what, fig, size)
        [ax] = fig.axes
        check_titled(ax, titled(name, title), lines())
        # On an axis that is already there
        _, (first, second) = plt.subplots(ncols=2)
        call(title=title, ax=second)
        check_titled(second, titled(name, title), lines())
        expect(not first.get_lines(), "another axis was used")
        expect(len(figures()) == 2, "there is another figure")
    kept(what, [trace], [before])
    plt.close("all")
    return {what, "gpu"} if has_gpu([run]) else {what}


@st.composite
def singles(draw):
    case = draw(cases(1, True)())
    # Any of the events may be missing
    run = case["runs"][0]
    what = draw(st.sampled_from(["thermal", "governor", "allfreqs", "hist",
                                 "load", "norm", "pid", "in", "out",
                                 "weighted"]))
    size = st.one_of(st.none(), st.integers(3, 30), st.integers(8, 60).map(
        lambda n: n / 4))
    temp = st.integers(-40, 400).map(lambda n: n / 4)
    return dict(
        what=what, run=run, clusters=case["clusters"], order=case["order"],
        size=[draw(size), draw(size)],
        title=draw(st.sampled_from(["", "a title", "x - y"])),
        label=draw(st.sampled_from(["", "mine"])), tz_id=case["tz_id"],
        ylim=draw(st.sampled_from([None, None, [0, 72], [-1.5, 3]])),
        control=[[i / 2, t] for i, t in enumerate(draw(st.lists(
            temp, max_size=4)))],
        weights=draw(st.lists(weight(), min_size=1,
                              max_size=len(case["order"]))))


def check_helpers(case):
    plt.close("all")
    labels = set()
    expect(plot_utils.normalize_title(case["title"], case["more"]) ==
           titled(case["title"], case["more"]), "the title is {!r}",
           plot_utils.normalize_title(case["title"], case["more"]))
    kw = {k: v for k, v in case["size"].items() if v is not None}
    axes = plot_utils.pre_plot_setup(ncols=case["ncols"],
                                     nrows=case["nrows"], **kw)
    [fig] = figures()
    check_size("setup", fig, [kw.get("width"), kw.get("height")],
               case["nrows"])
    shape = np.shape(axes)
    want = tuple(n for n in (case["nrows"], case["ncols"]) if n > 1)
    expect(shape == want, "the axes are {} instead of {}", shape, want)
    grid = np.array(axes, dtype=object).reshape(case["nrows"], case["ncols"])
    expect([list(row) for row in grid] == [
        fig.axes[r * case["ncols"]:(r + 1) * case["ncols"]]
        for r in range(case["nrows"])], "the axes are not those of the figure")
    chosen = fig.axes[case["which"] % len(fig.axes)]
    state = {ax: (ax.get_xlim(), ax.get_ylim(), ax.get_title())
             for ax in fig.axes}
    chosen.plot([p[0] for p in case["data"]], [p[1] for p in case["data"]])
    lims = {"x": chosen.get_xlim(), "y": chosen.get_ylim()}
    args = dict(case["post"])
    for key in ("xlim", "ylim"):
        if isinstance(args.get(key), list):
            args[key] = tuple(args[key])
    done = {}
    plot_utils.post_plot_setup(chosen, **args)
    done["x"] = args.get("xlim", "default")
    done["y"] = args.get("ylim", "range")
    for step in case["steps"]:
        before = {"x": chosen.get_xlim(), "y": chosen.get_ylim()}
        check_limits(chosen, lims, done)
        lims = before
        done = {step["axis"]: tuple(step["lim"]) if isinstance(
            step["lim"], list) else step["lim"]}
        {"x": plot_utils.set_xlim, "y": plot_utils.set_ylim}[step["axis"]](
            chosen, done[step["axis"]])
    check_limits(chosen, lims, done)
    for key, got in [("title", chosen.get_title()),
                     ("xlabel", chosen.get_xlabel()),
                     ("ylabel", chosen.get_ylabel())]:
        expect(got == (args.get(key) or ""), "the {} is {!r} instead of {!r}",
               key, got, args.get(key))
    for ax in fig.axes:
        if ax is not chosen:
            expect(state[ax] == (ax.get_xlim(), ax.get_ylim(),
                                 ax.get_title()), "another axis has changed")
    hist = pd.Series([p[1] for p in case["data"]])
    if len(set(hist)) > 1:
        lims = [tuple(lim) if isinstance(lim, list) else lim
                for lim in (args.get("xlim", "default"),
                            args.get("ylim", "default"))]
        plain = plt.subplots()[1]
        hist.hist(ax=plain, bins=case["bins"])
        ax = plt.subplots()[1]
        plot_utils.plot_hist(hist, ax, "h", "s", case["bins"], "Time", *lims)
        expect(sum(p.get_height() for p in ax.patches) == len(hist) and
               len(ax.patches) == case["bins"], "the bars are {} for {}",
               [p.get_height() for p in ax.patches], list(hist))
        check_limits(ax, {"x": plain.get_xlim(), "y": plain.get_ylim()},
                     dict(zip("xy", lims)))
        labels.add("histogram")
    plt.close("all")
    if not case["steps"] and len(state) == 1:
        labels.add("trivial")
    return labels


def check_limits(ax, before, done):
    """before: limits, done: what they were set to"""
    for axis, got in [("x", ax.get_xlim()), ("y", ax.get_ylim())]:
        low, high = before[axis]
        lim = done.get(axis, "default")
        if lim == "range":
            low, high = low - (high - low) / 10, high + (high - low) / 10
        elif lim != "default":
            low, high = lim
        expect(close(got[0], low) and close(got[1], high),
               "{}lim {} gives {} instead of {}", axis, lim, got, (low, high))


def helpers():
    num = st.integers(-1000, 1000).map(lambda n: n / 4)
    lim = st.one_of(st.sampled_from(["default", "range"]), st.lists(
        num, min_size=2, max_size=2, unique=True))
    text = st.sampled_from(["", "a", "b c", "-", " - "])
    size = st.one_of(st.none(), st.integers(4, 30), st.integers(16, 60).map(
        lambda n: n / 4))
    return st.fixed_dictionaries(dict(
        title=text, more=text, size=st.fixed_dictionaries(dict(
            width=size, height=size)),
        ncols=st.integers(1, 3), nrows=st.integers(1, 3),
        which=st.integers(0, 8), bins=st.integers(1, 30), data=st.lists(
            st.tuples(num, num).map(list), min_size=1, max_size=5),
        post=st.fixed_dictionaries({}, optional=dict(
            title=text, xlabel=text, ylabel=text, xlim=lim, ylim=lim)),
        steps=st.lists(st.fixed_dictionaries(dict(
            axis=st.sampled_from(["x", "y"]), lim=lim)), max_size=3)))


SUBS = [Sub("runs", cases(3), check_runs, quick=210, shards=3),
        Sub("compare", cases(3, True, True), check_compare, quick=60, shards=3),
        Sub("single", singles, check_single, quick=200, shards=1),
        Sub("helpers", helpers, check_helpers, quick=300, shards=1)]
