"""C12: traces built by the user"""
from hypothesis import strategies as st

import gen
import tr
import trappy
from harness import Sub, Violation, expect

LEVEL = "exploration"
RULE = ("Sequences of additions of generated frames (also under names that are "
        "in use) to a bare or a parsed trace, with queries in between, against "
        "a dictionary as model.  Non-trivial: two frames with rows were added.")
ASSUMPTIONS = ["filter keys are letters, digits and underscores"]

NAMES = ["pmu", "pmu_counters", "counters", "sched_load", "load", "X1", "a",
         "Event", "cpu_frequency", "my_event", "evalpha", "evbeta"]
TAKEN = ["name", "basetime", "endtime", "trace_classes", "class_definitions",
         "get_duration", "get_filters", "add_parsed_event", "normalized_time"]


def make(spec):
    import pandas as pd
    n = len(spec["times"])
    cols = {c: [spec["vals"][(i + j) % len(spec["vals"])] for i in range(n)]
            for j, c in enumerate(spec["cols"])}
    index = pd.Index(spec["times"], name=spec["index_name"], dtype="float64")
    return pd.DataFrame(cols, index=index, columns=spec["cols"])


def check(case):
    if case["base"] is None:
        trace = trappy.BareTrace(case["name"])
        model = {}
        expect(trace.name == case["name"], "name is {!r}", trace.name)
    else:
        text = gen.render([dict(k="ev", comm="sh", pid=i, cpu=0, ev="evalpha",
                                ts=["us", t, "500000"], data="n={}".format(i))
                           for i, t in enumerate(case["base"])])
        trace = tr.parse(text, scope="custom", events=["evalpha", "evbeta"],
                         normalize_time=False)
        model = {"evalpha": (tr.frame(trace, "evalpha").copy(), None),
                 "evbeta": (tr.frame(trace, "evbeta").copy(), None)}
    added = 0
    labels = set()
    for op in case["ops"]:
        if op["op"] == "add":
            dfr = make(op["spec"])
            orig = dfr.copy(deep=True)
            name = op["name"]
            kwargs = {} if op["pivot"] is None else dict(pivot=op["pivot"])
            if name in model or name in TAKEN:
                labels.add("name in use")
                had = getattr(trace, name)
                try:
                    trace.add_parsed_event(name, dfr, **kwargs)
                except ValueError as exc:
                    expect(name in str(exc), "the error doesn't name {}: {}",
                           name, exc)
                else:
                    raise Violation("{} was added although it is in use"
                                    .format(name))
                # Methods compare equal, attributes are the same
                expect(getattr(trace, name) is had or
                       getattr(trace, name) == had, "{} was replaced", name)
            else:
                trace.add_parsed_event(name, dfr, **kwargs)
                model[name] = (orig, op["pivot"])
                added += bool(len(orig))
        elif op["op"] == "filter":
            args = [] if op["key"] is None else [op["key"]]
            got = trace.get_filters(*args)
            want = [n for n in model if (op["key"] or "") in n]
            expect(sorted(got) == sorted(want), "filters for {!r} are {} "
                   "instead of {}", op["key"], got, want)
            if 0 < len(want) < len(model):
                labels.add("filter selects")
        else:
            times = [float(t) for dfr, _ in model.values() for t in dfr.index]
            want = max(times) - min(times) if times else 0
            got = trace.get_duration()
            expect(got == want, "duration {!r} instead of {!r}", got, want)
            if any(list(d.index) != sorted(d.index) for d, _ in
                   model.values()):
                labels.add("duration of unsorted")
        # Everything added so far is still there
        expect(sorted(trace.class_definitions) == sorted(model),
               "events {} instead of {}", sorted(trace.class_definitions),
               sorted(model))
        for name, (dfr, pivot) in model.items():
            event = getattr(trace, name)
            res = tr.diff(tr.frame_snapshot(event.data_frame),
                          tr.frame_snapshot(dfr))
            expect(res is None, "frame {}: {}", name, res)
            expect(event.data_frame.index.name == dfr.index.name,
                   "frame {}: index name {!r}", name,
                   event.data_frame.index.name)
            if pivot is not None:
                expect(event.pivot == pivot, "{}: pivot is {!r} instead of "
                       "{!r}", name, event.pivot, pivot)
            else:
                expect(getattr(event, "pivot", None) is None,
                       "{}: has a pivot", name)
    if added < 2:
        labels.add("trivial")
    labels.add("bare" if case["base"] is None else "parsed")
    return labels


@st.composite
def specs(draw):
    times = draw(gen.sized(st.one_of(
        st.floats(0, 1e6), st.integers(0, 100).map(float)), 0, 6))
    mode = draw(st.integers(0, 3))
    if mode < 2:
        times = sorted(times)
    return dict(times=times, cols=draw(st.lists(
        st.sampled_from(["a", "cpu", "load", "with space", "freq", "__line"]),
        max_size=4, unique=True)),
        vals=draw(st.lists(st.one_of(
            st.integers(-2**40, 2**40), st.floats(-10, 10), st.sampled_from(
                ["x", "", "1"])), min_size=1, max_size=4)),
        index_name=draw(st.sampled_from([None, "Time", "t"])))


@st.composite
def cases(draw):
    name = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES),
                     st.sampled_from(NAMES), st.sampled_from(TAKEN),
                     gen.idents(6).filter(lambda n: n not in dir(
                         trappy.BareTrace())))
    add = st.fixed_dictionaries(dict(
        op=st.just("add"), name=name, spec=specs(),
        pivot=st.sampled_from([None, "cpu", "a"])))
    filt = st.fixed_dictionaries(dict(
        op=st.just("filter"), key=st.sampled_from(
            [None, "", "pmu", "o", "load", "_", "count", "zzz", "e", "1",
             "sched"])))
    dur = st.just(dict(op="duration"))
    return dict(base=draw(st.sampled_from([None, None, [5], [3, 9]])),
                name=draw(st.sampled_from(["", "my trace"])),
                ops=draw(gen.sized(st.one_of(add, add, add, filt, dur), 1, 10)))


SUBS = [Sub("additions", cases, check, quick=1600, shards=8)]
