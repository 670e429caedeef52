"""C24: workload results and extracted sysfs parameters"""
import matplotlib
matplotlib.use("Agg")

import csv                                                     # noqa: E402
import os                                                      # noqa: E402
import re                                                      # noqa: E402

from hypothesis import strategies as st                        # noqa: E402

import harness                                                 # noqa: E402
import tr                                                      # noqa: E402
from harness import Sub, expect                                # noqa: E402
from trappy.wa import Result, SysfsExtractor, combine_results, get_results  # noqa

LEVEL = "exploration"
RULE = ("Results files and directories of extracted files are generated and "
        "what is read, combined, printed and plotted from them compared with "
        "the generated scores and values.  Non-trivial: at least three scores "
        "or two parameters.")
ASSUMPTIONS = ["identifiers end in one number", "the number of a score is "
               "given in its metric, not in the iteration column"]


def number_of(metric):
    """Number of a score, None if it is not one"""
    name, sep, num = metric["name"], metric["sep"], metric["num"]
    if name not in ("Overall_Score", "score", "FPS"):
        return None
    if num is None:
        return 0
    return num - 1 if name == "Overall_Score" else num


def text_of(metric):
    if metric["num"] is None:
        return metric["name"]
    return "{name}{sep}{num}".format(**metric)


def scores_of(rows, name):
    """{benchmark: {variant: {number: value}}} of the rows"""
    out = {}
    for row in rows:
        num = number_of(row["metric"])
        if num is None:
            continue
        variant = name or row["variant"]
        out.setdefault(row["bench"], {}).setdefault(variant, {}).setdefault(
            num, row["value"])
    return out


def write(path, rows):
    with open(path, "w", newline="") as fout:
        out = csv.writer(fout)
        out.writerow(["id", "workload", "iteration", "metric", "value",
                      "units"])
        for row in rows:
            out.writerow([row["variant"] + "_" + str(row["spec"]),
                          row["bench"], 1, text_of(row["metric"]),
                          row["value"], row["units"]])


def check_frame(res, want):
    expect(isinstance(res, Result), "the results are a {}", type(res))
    pairs = {(b, v) for b, vals in want.items() for v in vals}
    got = [tuple(c) for c in res.columns]
    expect(len(got) == len(set(got)) and set(got) == pairs,
           "the results are {} instead of {}", got, sorted(pairs))
    for bench, variant in pairs:
        vals = want[bench][variant]
        col = {i: v for i, v in res[bench][variant].items() if v == v}
        expect(len(res.index) == len(set(res.index)), "the rows are {}",
               list(res.index))
        expect(col == {k: v for k, v in vals.items() if v == v},
               "{} of {} has the scores {} instead of {}", bench, variant,
               col, vals)


def check_results(case):
    import matplotlib.pyplot as plt
    path = harness.fresh_dir("results")
    wanted = []
    results = []
    for i, one in enumerate(case["files"]):
        fname = os.path.join(path, "r{}.csv".format(i))
        if one["where"] == "dir":
            fname = os.path.join(path, "d{}".format(i), "results.csv")
            os.mkdir(os.path.dirname(fname))
        elif one["where"] == "cwd":
            fname = os.path.join(path, "results.csv")
        write(fname, one["rows"])
        want = scores_of(one["rows"], one["name"])
        if not want:
            return {"trivial", "no scores"}
        args = [os.path.dirname(fname) if one["where"] == "dir" else fname]
        kwargs = {"name": one["name"]} if one["name"] else {}
        if one["where"] == "cwd":
            args = []
            os.chdir(path)
        try:
            res = get_results(*args, **kwargs)
        finally:
            os.chdir(harness.scratch())
        check_frame(res, want)
        wanted.append(want)
        results.append(res)
    labels = {"{} files".format(len(results))}
    count = sum(len(v) for w in wanted for b in w.values() for v in b.values())
    if count < 3:
        labels.add("trivial")
    if case["drop"] is not None:
        # Drop a benchmark or a variant of the first results
        level = case["drop"] % 2
        want = wanted[0]
        names = sorted(want if level == 0 else {v for b in want.values()
                                                for v in b})
        gone = names[case["drop"] // 2 % len(names)]
        if len(names) > 1:
            results[0].drop(gone, axis=1, level=level, inplace=True)
            if level == 0:
                want.pop(gone)
            else:
                for bench in list(want):
                    want[bench].pop(gone, None)
                    if not want[bench]:
                        want.pop(bench)
            labels.add("dropped")
            check_frame(results[0], want)
    merged = {}
    for want in wanted:
        for bench, vals in want.items():
            for variant, scores in vals.items():
                if variant in merged.get(bench, {}):
                    return labels
                merged.setdefault(bench, {})[variant] = scores
    if len(results) > 1:
        copies = [tr.frame_snapshot(r) for r in results]
        res = combine_results(results)
        check_frame(res, merged)
        expect(copies == [tr.frame_snapshot(r) for r in results],
               "the combined results have changed")
        labels.add("combined")
    else:
        res = results[0]
    if case["plot"]:
        labels.add("plotted")
        try:
            res.plot_results()
            figures = [plt.figure(n) for n in plt.get_fignums()]
            axes = [a for f in figures for a in f.axes]
            expect(len(axes) == len(merged), "{} plots of {} benchmarks",
                   len(axes), len(merged))
            titles = sorted(a.get_title() for a in axes)
            expect(titles == sorted(b.replace("_", " ").title()
                                    for b in merged),
                   "the titles are {}", titles)
            for axis in axes:
                bench = [b for b in merged if b.replace("_", " ").title() ==
                         axis.get_title()][0]
                check_bars(res, axis, merged[bench], bench)
            plt.close("all")
            bench = sorted(merged)[case["pick"] % len(merged)]
            res.init_fig()
            res.plot_results_benchmark(bench, title="Title_of it")
            expect(len(plt.get_fignums()) == 1 and
                   res.ax.get_title() == "Title_of it", "the title is {!r}",
                   res.ax.get_title())
            check_bars(res, res.ax, merged[bench], bench)
            if case["ylim"]:
                res.ax.set_ylim(*case["ylim"])
            low, high = res.ax.get_ylim()
            res.enlarge_axis(res[bench])
            lo, hi = res.ax.get_ylim()
            vals = [v for s in merged[bench].values() for v in s.values()
                    if v == v]
            expect(not vals or (lo < min(vals) and max(vals) < hi),
                   "the scores {} don't fit in {}", vals, (lo, hi))
            expect(lo <= low and high <= hi, "the limits {} are reduced to "
                   "{}", (low, high), (lo, hi))
        finally:
            plt.close("all")
    return labels


def check_bars(res, axis, want, bench):
    legend = [t.get_text() for t in axis.get_legend().get_texts()]
    expect(sorted(legend) == sorted(want), "the legend of {} is {} instead "
           "of {}", bench, legend, sorted(want))
    ticks = [t.get_text() for t in axis.get_xticklabels()]
    expect(ticks == [str(i) for i in res.index], "the numbers of {} are {} "
           "instead of {}", bench, ticks, list(res.index))
    for variant, bars in zip(legend, axis.containers):
        got = [b.get_height() for b in bars]
        vals = [want[variant].get(i) for i in res.index]
        expect(len(got) == len(vals) and all(
            (g != g or g == 0) if w is None or w != w else g == w
            for g, w in zip(got, vals)), "{} of {} has the bars {} instead "
            "of {}", bench, variant, got, vals)


@st.composite
def files(draw, variants, benches):
    metric = st.one_of(
        st.fixed_dictionaries(dict(
            name=st.sampled_from(["Overall_Score", "score", "FPS"]),
            sep=st.sampled_from(["_", " "]), num=st.one_of(
                st.none(), st.integers(2, 12)))),
        st.fixed_dictionaries(dict(
            name=st.sampled_from(["Memory_score", "execution_time", "Score",
                                  "fps", "multicore_score", "x FPS",
                                  "an Overall_Score"]),
            sep=st.just("_"), num=st.one_of(st.none(), st.integers(0, 3)))))
    value = st.one_of(st.integers(0, 4000), st.integers(0, 4000).map(
        lambda n: n / 8), st.integers(-5, 2 * 10**6), st.just("nan"))
    row = st.fixed_dictionaries(dict(
        variant=st.sampled_from(variants), bench=st.sampled_from(benches),
        spec=st.integers(1, 12), metric=metric, value=value,
        units=st.sampled_from(["", "fps", "a, b"])))
    rows = draw(gen_sized(row, 1, 14))
    for one in rows:
        if one["value"] == "nan":
            one["value"] = float("nan")
    return dict(rows=rows, name=draw(st.sampled_from(["", "", "named"])),
                where=draw(st.sampled_from(["file", "dir", "cwd"])))


def gen_sized(elements, low, high):
    return st.integers(low, high).flatmap(
        lambda n: st.lists(elements, min_size=n, max_size=n))


@st.composite
def results(draw):
    benches = draw(st.lists(st.sampled_from(
        ["antutu", "geek_bench", "t-rex_offscreen", "a b", "x,y"]),
        min_size=1, max_size=3, unique=True))
    count = draw(st.sampled_from([1, 1, 2, 2, 3]))
    variants = [["step_wise", "power_allocator"], ["other"], ["third", "x"]]
    out = []
    for i in range(count):
        one = draw(files(variants[i], benches))
        if one["name"]:
            one["name"] += str(i)
        out.append(one)
    return dict(files=out, drop=draw(st.one_of(st.none(), st.integers(0, 9))),
                plot=draw(st.integers(0, 3)) == 0, pick=draw(
                    st.integers(0, 3)), ylim=draw(st.sampled_from(
                        [None, [10, 20], [-50, 10000], [-1, 5]])))


PROPERTIES = ["integral_cutoff", "k_d", "k_i", "k_po", "k_pu", "policy",
              "sustainable_power"]


def value_of(text):
    text = text[:-1] if text.endswith("\n") else text
    return int(text) if re.fullmatch(r"-?[0-9]+", text) else text


def check_sysfs(case):
    base = harness.fresh_dir("wa")
    path = os.path.join(base, "after", "sys", "devices", "virtual", "thermal",
                        "thermal_zone0")
    want = {}
    if case["present"]:
        os.makedirs(path)
        for name, text in case["files"]:
            if text is None:
                os.mkdir(os.path.join(path, name))
                continue
            with open(os.path.join(path, name), "w") as fout:
                fout.write(text)
            if name in PROPERTIES or re.fullmatch(
                    r"cdev\d+_weight|trip_point_\d+_temp", name):
                want[name] = value_of(text)
    extractor = SysfsExtractor(base)
    for _ in range(case["times"]):
        got = extractor.get_parameters()
        expect(got == want and all(type(got[k]) is type(want[k])
                                   for k in want),
               "the parameters are {} instead of {}", got, want)
    del tr.RECORDER.shown[:]
    extractor.pretty_print_in_ipython()
    if not want:
        expect(not tr.RECORDER.shown, "something is shown")
        return {"trivial"}
    expect(len(tr.RECORDER.shown) == 1, "{} tables are shown",
           len(tr.RECORDER.shown))
    html = tr.RECORDER.shown[0].data
    got = re.findall(r"<th>(.*?)</th>\s*<td>(.*?)</td>", html, re.S)
    expect([g[0] for g in got] == sorted(want), "the table has {} instead of "
           "{}", [g[0] for g in got], sorted(want))
    for name, text in got:
        text = text.replace("&lt;", "<").replace("&gt;", ">").replace(
            "&amp;", "&").replace("\\n", "\n").strip()
        expect(text == str(want[name]).strip(), "{} is shown as {!r} instead "
               "of {!r}", name, text, want[name])
    labels = {"{} parameters".format(min(len(want), 4))}
    if len(want) < 2:
        labels.add("trivial")
    return labels


@st.composite
def sysfs(draw):
    name = st.one_of(
        st.sampled_from(PROPERTIES),
        st.integers(0, 12).map("cdev{}_weight".format),
        st.integers(0, 12).map("trip_point_{}_temp".format),
        st.sampled_from(["temp", "type", "mode", "cdev0_trip_point", "cdev",
                         "trip_point_0_type", "uevent", "k_q"]))
    text = st.one_of(
        st.integers(-10**6, 10**7).map(str), st.integers(0, 9).map(str),
        st.sampled_from(["step_wise", "power allocator", "", "1.5", "<a>",
                         "a\nb", "12x", "0x10", "1 2 3", "12 mW", "007",
                         "-", "1e3", "[1] 2", "5,6",
                         "step_wise ", " x", "  7 y "]))
    value = st.one_of(
        st.builds(lambda t, n: t + n, text, st.sampled_from(["\n", "\n", ""])),
        st.builds(lambda t, n: t + n, text, st.sampled_from(["\n", ""])),
        st.sampled_from([None]) if draw(st.integers(0, 5)) == 0 else
        text.map(lambda t: t + "\n"))
    files = draw(st.lists(st.tuples(name, value).map(list), max_size=12,
                          unique_by=lambda f: f[0]))
    return dict(files=files, present=draw(st.integers(0, 9)) < 9,
                times=draw(st.integers(1, 2)))


SUBS = [Sub("results", results, check_results, quick=700, shards=6),
        Sub("sysfs", sysfs, check_sysfs, quick=800, shards=2)]
