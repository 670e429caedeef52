"""C17: expressions over trace columns"""
import math

from hypothesis import strategies as st

import gen
import trappy
import trappy.cpu_power
import trappy.pid_controller
import trappy.thermal
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Histories of accessors, arithmetic, comparisons, references, "
        "inspections and refused texts on one parser over generated events "
        "with and without pivots, windows and filters, against a model that "
        "keeps lists of samples.  Non-trivial: two events with different "
        "times were combined, or a window or filter left some rows out.")
ASSUMPTIONS = ["times are unique over all the events, as trappy makes them",
               "the nearest value is not limited"]

# name -> (accessor classes in the library, pivot of that class)
LIBRARY = {"thermal": ("trappy.thermal.Thermal", "id"),
           "cpu_out_power": ("trappy.cpu_power.CpuOutPower", "cpus"),
           "pid_controller": ("trappy.pid_controller.PIDController", "thermal_zone_id")}
COLS = ["temp", "x", "load", "_y1", "Value"]
NO_PIVOT = "NO_PIVOT"


def nan(val):
    return isinstance(val, float) and val != val


def make(spec):
    import pandas as pd
    cols = spec["cols"]
    index = pd.Index([r["t"] for r in spec["rows"]], name="Time",
                     dtype="float64")
    data = {c: [r["vals"].get(c, float("nan")) for r in spec["rows"]]
            for c in cols}
    dfr = pd.DataFrame(data, index=index, columns=cols)
    if spec["library"] == "bare" and not len(dfr):
        return pd.DataFrame()
    return dfr


class Model(object):
    def __init__(self, specs, window, filters, options):
        self.method = options.get("method", "pad")
        self.limit = options.get("limit")
        self.fill = options.get("fill", True)
        self.specs = {s["name"]: s for s in specs}
        self.window = window
        self.filters = filters
        self.refs = []
        self.times = set()
        self.left_out = False

    def rows(self, name):
        low, high = self.window
        out = []
        for row in self.specs[name]["rows"]:
            good = row["t"] >= low and (high is None or row["t"] <= high)
            for col, vals in (self.filters or {}).items():
                if col in self.specs[name]["cols"]:
                    vals = vals if isinstance(vals, list) else [vals]
                    # A missing value is never among the wanted ones
                    good = good and row["vals"].get(col) in vals and \
                        col in row["vals"]
            if good:
                out.append(row)
            else:
                self.left_out = True
        return out

    def pivot(self, name):
        return self.specs[name]["pivot"]

    def labels(self, name):
        if self.pivot(name) is None:
            return [NO_PIVOT]
        return sorted({r["vals"][self.pivot(name)] for r in self.rows(name)})

    def usable(self, name, col):
        return bool(self.rows(name)) and col in self.specs[name]["cols"]

    def touch(self, name, col):
        if (name, col) not in self.refs:
            self.refs.append((name, col))
            self.times |= {r["t"] for r in self.rows(name)}

    def align(self, own):
        """The values of {time: value} at self.times"""
        times = sorted(self.times)
        at = {t: i for i, t in enumerate(times)}
        out = []
        for i, t in enumerate(times):
            before = max([o for o in own if o <= t], default=None)
            after = min([o for o in own if o >= t], default=None)
            if t in own:
                use = t
            elif self.method == "nearest":
                use = before if after is None or before is not None and \
                    t - before < after - t else after
            else:
                use = {"pad": before, "ffill": before, "bfill": after,
                       "backfill": after, None: None}[self.method]
                if use is not None and self.limit and \
                        abs(at[use] - i) > self.limit:
                    use = None
            out.append(float("nan") if use is None else own[use])
        return out

    def series(self, name, col):
        """{pivot value: values at self.times}"""
        out = {}
        for label in self.labels(name):
            mine = [r for r in self.rows(name) if self.pivot(name) is None or
                    r["vals"][self.pivot(name)] == label]
            own = {r["t"]: r["vals"].get(col, float("nan")) for r in mine}
            vals = self.align(own)
            if self.fill:
                for i in range(1, len(vals)):
                    if nan(vals[i]):
                        vals[i] = vals[i - 1]
            out[label] = vals
        return out


def same(got, want):
    import numpy as np
    if isinstance(want, bool):
        return isinstance(got, (bool, np.bool_)) and bool(got) == want
    if nan(want):
        return got is None or (not isinstance(got, str) and got != got)
    if isinstance(want, str) or isinstance(got, str):
        return got == want and isinstance(got, str)
    return not isinstance(got, (bool, np.bool_)) and float(got) == float(want)


def compare(got, want, times, what):
    """A frame with a column per label against {label: values}"""
    expect(hasattr(got, "columns"), "{} gives {!r}", what, got)
    expect(sorted(map(str, got.columns)) == sorted(map(str, want)),
           "{} has the columns {} instead of {}", what, list(got.columns),
           list(want))
    index = [float(t) for t in got.index]
    expect(index == sorted(times), "{} has the times {} instead of {}", what,
           index, sorted(times))
    for label, vals in want.items():
        col = list(got[label])
        for t, g, w in zip(index, col, vals):
            expect(same(g, w), "{} for {} at {} is {!r} instead of {!r}",
                   what, label, t, g, w)


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
       "*": lambda a, b: a * b, ">": lambda a, b: a > b,
       "<": lambda a, b: a < b, ">=": lambda a, b: a >= b,
       "<=": lambda a, b: a <= b, "==": lambda a, b: a == b,
       "!=": lambda a, b: a != b}


def accessor(case, name, alias):
    if alias == "alias":
        return "My_" + name
    if alias == "class" and name in LIBRARY:
        return LIBRARY[name][0]
    return name


def combine(model, op, left, right):
    """left and right: {label: values}, both at model.times"""
    n = len(model.times)
    empty = [float("nan")] * n
    return {label: [OPS[op](a, b) for a, b in zip(
        left.get(label, empty), right.get(label, empty))]
        for label in set(left) | set(right)}


def run(prs, text, refuse=False):
    """(result or None, error)"""
    try:
        return prs.solve(text), None
    except Exception as exc:
        return None, exc


def good_step(step, model):
    terms = [t for t in step["terms"] if model.usable(t["name"], t["col"])]
    return terms


def numeric(model, term):
    vals = [r["vals"].get(term["col"]) for r in model.rows(term["name"])]
    return not any(isinstance(v, str) for v in vals)


def check(case):
    from trappy.stats.grammar import Parser
    trace = trappy.BareTrace()
    pvars = {"k_2": 2, "T": 5}
    for spec in case["events"]:
        trace.add_parsed_event(spec["name"], make(spec), pivot=spec["pivot"])
        pvars["My_" + spec["name"]] = trace.class_definitions[spec["name"]]
    kwargs = {}
    window = (0, None)
    if case["window"] is not None:
        window = kwargs["window"] = tuple(case["window"])
    if case["filters"] is not None:
        kwargs["filters"] = {k: v for k, v in case["filters"]}
    options = case.get("options", {})
    kwargs.update(options)
    model = Model(case["events"], window, kwargs.get("filters"), options)
    prs = Parser(trace, pvars=pvars, **kwargs)
    before = {s["name"]: getattr(trace, s["name"]).data_frame.copy()
              for s in case["events"]}
    labels = set()
    combined = False

    for step in case["steps"]:
        do = step["do"]
        terms = good_step(step, model)
        names = [accessor(case, t["name"], t["alias"]) + step["sep"].format(
            t["col"]) for t in terms]
        if do == "refuse":
            term = step["terms"][0]
            text = step["text"].replace("$", "{}:{}".format(
                term["name"], term["col"]))
            if "$" in step["text"] and model.usable(term["name"], term["col"]):
                continue
            got, error = run(prs, text)
            expect(error is not None, "{} gives {}", text, got)
            if "$" in step["text"] and not model.rows(term["name"]):
                expect(isinstance(error, ValueError) and
                       "No events found for " + term["name"] in str(error),
                       "{} gives the error {!r}", text, error)
                labels.add("no events")
            labels.add("refused")
            continue
        if do == "inspect":
            term = step["terms"][0]
            name = term["name"]
            if not case_columns(case, name):
                labels.add("inspect an empty frame")
            info = prs.inspect("{}:{}".format(accessor(
                case, name, term["alias"]), term["col"]))
            rows = model.rows(name)
            want = dict(length=len(rows), pivot=None, pivot_values=None,
                        column=term["col"])
            if model.pivot(name) is not None:
                want["pivot"] = model.pivot(name)
                want["pivot_values"] = model.labels(name)
            for key, val in want.items():
                expect(info[key] == val, "inspect gives {} {!r} instead of "
                       "{!r}", key, info[key], val)
            expect(info["class"].name == name, "inspect gives class {}",
                   info["class"])
            if getattr(trace, name).data_frame.shape[1]:
                expect(info["column_present"] == (
                    term["col"] in case_columns(case, name)),
                    "inspect gives column_present {}", info["column_present"])
            continue
        if not terms:
            continue
        if do != "two":
            terms, names = terms[:1], names[:1]
        if do != "plain" and not all(numeric(model, t) for t in terms):
            do, terms, names = "plain", terms[:1], names[:1]
        for term in terms:
            model.touch(term["name"], term["col"])
        parts = [model.series(t["name"], t["col"]) for t in terms]
        if len(terms) > 1 and terms[0]["name"] != terms[1]["name"]:
            combined = True
        op, const = step["op"], step["const"]
        if do == "plain":
            text, want = names[0], parts[0]
        elif do == "const" or len(terms) == 1:
            other = {label: [float(const)] * len(model.times)
                     for label in parts[0]}
            shown = "{}".format(const)
            if step["swap"]:
                text = "({}) {} {}".format(shown, op, names[0])
                want = combine(model, op, other, parts[0])
            else:
                text = "{} {} ({})".format(names[0], op, shown)
                want = combine(model, op, parts[0], other)
        elif do == "mean":
            text = "numpy.max({}) - k_2".format(names[0])
            want = None
        else:
            if op not in "+-*" and set(parts[0]) != set(parts[1]):
                op = "+"
            if set(parts[0]) != set(parts[1]):
                labels.add("different columns")
            text = "{} {} {}".format(names[0], op, names[1])
            want = combine(model, op, parts[0], parts[1])
        got, error = run(prs, text)
        expect(error is None, "{} raises {!r}", text, error)
        if want is None:
            for label, vals in parts[0].items():
                vals = [v for v in vals if not nan(v)]
                top = max(vals) - 2 if vals else float("nan")
                expect(same(got[label], top), "{} for {} is {!r} instead of "
                       "{!r}", text, label, got[label], top)
            expect(len(got) == len(parts[0]), "{} gives {}", text, got)
            labels.add("function of a column")
            continue
        compare(got, want, model.times, text)
        first = list(want.values())[0]
        if first and all(isinstance(v, bool) for v in first):
            label = sorted(want, key=str)[step["const"] % len(want)]
            check_ref(prs, model, got[label], want[label], text)
            labels.add("reference")
    for name, dfr in before.items():
        expect(dfr.equals(getattr(trace, name).data_frame),
               "the data of {} was changed", name)
    if combined:
        labels.add("combined events")
        for key in options:
            labels.add("combined with " + key)
    if model.left_out:
        labels.add("rows left out")
    if not combined and not model.left_out or not model.refs:
        labels.add("trivial")
    return labels


def case_columns(case, name):
    return [s["cols"] for s in case["events"] if s["name"] == name][0]


def check_ref(prs, model, mask, want_mask, text):
    """ref() gives the rows of all the data referenced so far"""
    got = prs.ref(mask)
    times = [t for t, m in zip(sorted(model.times), want_mask) if m]
    expect([float(t) for t in got.index] == times, "ref({}) has the times {} "
           "instead of {}", text, list(got.index), times)
    at = 0
    seen = set()
    for name, col in model.refs:
        series = model.series(name, col)
        for label in series:
            expect(at < got.shape[1], "ref({}) lacks {}:{}", text, name, col)
            head = got.columns[at]
            expect(head[1] == label, "ref({}) has {} instead of {}", text,
                   head, label)
            if col not in seen:
                expect(head[0] == col, "ref({}) has {} instead of {}", text,
                       head, col)
            vals = [v for v, m in zip(series[label], want_mask) if m]
            for g, w in zip(got.iloc[:, at], vals):
                expect(same(g, w), "ref({}) for {}:{} is {!r} instead of {!r}",
                       text, name, col, g, w)
            at += 1
        seen.add(col)
    expect(at == got.shape[1], "ref({}) has the columns {}", text,
           list(got.columns))


@st.composite
def events(draw):
    names = draw(st.lists(st.sampled_from(
        sorted(LIBRARY) + ["pmu", "e", "my_event"]), min_size=draw(
            st.sampled_from([1, 2, 2, 2])), max_size=3, unique=True))
    times = draw(gen.sized(st.integers(0, 60).map(lambda n: n / 4), 1, 18,
                           unique=True))
    times = sorted(times)
    owner = draw(st.lists(st.integers(0, len(names) - 1), min_size=len(times),
                          max_size=len(times)))
    out = []
    for i, name in enumerate(names):
        if name in LIBRARY:
            pivot = LIBRARY[name][1]
        else:
            pivot = draw(st.sampled_from([None, None, "cpu", "task"]))
        cols = draw(st.lists(st.sampled_from(COLS), min_size=1, max_size=3,
                             unique=True))
        kinds = {c: draw(st.sampled_from(["int", "int", "float", "str",
                                          "gaps"])) for c in cols}
        extra = draw(st.lists(st.sampled_from(["cpu", "task", "pid"]),
                              max_size=2, unique=True))
        for col in ([pivot] if pivot else []) + extra:
            if col not in cols:
                cols.append(col)
            kinds[col] = "name" if col == "task" else "small"
        rows = []
        for t, own in zip(times, owner):
            if own != i:
                continue
            vals = {}
            for col in cols:
                kind = kinds[col]
                if kind == "int":
                    vals[col] = draw(st.integers(-5, 9))
                elif kind == "float":
                    vals[col] = draw(st.integers(-20, 20)) / 4
                elif kind == "small":
                    vals[col] = draw(st.integers(0, 2))
                elif kind == "str":
                    vals[col] = draw(st.sampled_from(["a", "b", "x y"]))
                elif kind == "name":
                    vals[col] = draw(st.sampled_from(["sh", "rcu", "a-b"]))
                elif draw(st.booleans()):
                    vals[col] = draw(st.integers(-5, 9)) / 2
            rows.append(dict(t=t, vals=vals))
        out.append(dict(name=name, cols=cols, pivot=pivot, rows=rows,
                        library=draw(st.sampled_from(["bare", "columns"]))))
    return out


REFUSE = ["$", "$", "$ + 1", "nosuch:temp", "trappy.thermal.NoSuch:temp",
          "no.such.Thing:x", "T + temp", "x", "load * 2", "NO_PIVOT",
          "k_2 - tx", "max(temp)", "_y1", "My_nothing:x", "(Value)"]


@st.composite
def cases(draw):
    evs = draw(events())
    times = sorted(r["t"] for e in evs for r in e["rows"])
    point = st.integers(0, 64).map(lambda n: n / 4)
    if times:
        point = st.one_of(st.sampled_from(times), point,
                          st.sampled_from(times).map(lambda t: t + 0.125))
    window = None
    if draw(st.integers(0, 2)) == 0:
        window = [draw(st.one_of(st.just(0), point)),
                  draw(st.one_of(st.none(), point))]
    filters = None
    if draw(st.integers(0, 2)) == 0:
        filters = []
        for col in draw(st.lists(st.sampled_from(
                ["cpu", "task", "pid", "id", "cpus", "temp", "x"]),
                min_size=1, max_size=2, unique=True)):
            one = st.sampled_from(["sh", "rcu", "a-b"]) if col == "task" else \
                st.integers(0, 3)
            filters.append([col, draw(st.one_of(one, st.lists(
                one, min_size=0, max_size=3)))])
    options = draw(st.one_of(st.just({}), st.fixed_dictionaries({}, optional=dict(
        method=st.sampled_from(["pad", "ffill", "bfill", "backfill", "nearest",
                                None]),
        limit=st.integers(1, 3), fill=st.booleans()))))
    if options.get("method", "pad") in ("nearest", None):
        options.pop("limit", None)
    steps = []
    term = st.one_of([st.fixed_dictionaries(dict(
        name=st.just(e["name"]), col=st.sampled_from(
            e["cols"] + [draw(st.sampled_from(COLS))]),
        alias=st.sampled_from(["name", "name", "alias", "class"])))
        for e in evs])
    for _ in range(draw(st.integers(2, 6))):
        steps.append(dict(
            do=draw(st.sampled_from(["plain", "const", "two", "two", "two",
                                     "two", "mean", "inspect", "refuse"])),
            terms=[draw(term), draw(term)],
            sep=draw(st.sampled_from([":{}", ":{}", " : {}", ":{} "])),
            op=draw(st.sampled_from(sorted(OPS))),
            const=draw(st.integers(-3, 6)), swap=draw(st.booleans()),
            text=draw(st.sampled_from(REFUSE))))
    return dict(events=evs, window=window, filters=filters, options=options,
                steps=steps)


SUBS = [Sub("accessors", cases, check, quick=3000, shards=8)]
