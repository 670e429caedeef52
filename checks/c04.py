"""C04: the cache is transparent over any history of opens"""
import json
import os
import shutil

from hypothesis import strategies as st

import gen
import tr
import trappy
from harness import Sub, Skip, expect, fresh_dir

LEVEL = "exploration"
RULE = ("Histories of 2-9 operations on one trace file: opening it with any "
        "events, scope, window and normalisation, rewriting the file, deleting, "
        "truncating or garbling parts of the cache, registering an event under "
        "a name that was used for something else. After every cached open the "
        "whole trace object is compared with an open without cache. "
        "Non-trivial: at least one open found data of an earlier open in the cache.")
ASSUMPTIONS = ["nobody else writes in the cache directory during an open",
               "unique words other than those of fallback events match no "
               "other event's lines"]

HTML = """<!-- BEGIN TRACE -->
  <script class="trace-data" type="application/text">
# tracer: nop
"""
EVENTS = ["evalpha", "evbeta", "evgamma"]


def open_trace(path, oper, cache):
    cls = trappy.SysTrace if oper["cls"] == "SysTrace" else trappy.FTrace
    kwargs = dict(scope=oper["scope"], events=list(oper["events"]),
                  normalize_time=oper["normalize"])
    if oper["window"]:
        kwargs["window"] = tuple(oper["window"])
    if oper["abs_window"]:
        kwargs["abs_window"] = tuple(oper["abs_window"])
    return tr.parse(None, cls=cls, path=path, cache=cache, **kwargs)


def spoil(cache, oper):
    """Damage the cache directory"""
    if not os.path.isdir(cache):
        return False
    if oper["what"] == "remove":
        shutil.rmtree(cache)
        return True
    if oper["what"] == "as_file":
        shutil.rmtree(cache)
        with open(cache, "w") as fout:
            fout.write("not a directory")
        return True
    names = sorted(os.listdir(cache))
    if oper["meta"]:
        names = [n for n in names if n == "metadata.json"]
    if not names:
        return False
    path = os.path.join(cache, names[oper["which"] % len(names)])
    if oper["what"] == "delete":
        os.remove(path)
        return True
    with open(path, "rb") as fin:
        data = fin.read()
    if oper["what"] == "truncate":
        data = data[:int(len(data) * oper["at"])]
    elif oper["what"] == "lose_line":
        data = b"".join(data.splitlines(True)[:-1])
    elif oper["what"] == "json":
        data = oper["text"].encode()
    with open(path, "wb") as fout:
        fout.write(data)
    return True


def check(case):
    where = fresh_dir("trace")
    path = os.path.join(where, "t.txt")
    cache = os.path.join(where, ".t.txt.cache")
    texts = [gen.render(lines) for lines in case["traces"]]
    if case["padding"]:
        # What differs between the traces is at the start, at the end, or
        # in the middle of a lot of lines that no event has
        pad = "# {}\n".format("x" * 70) * case["padding"]
        if case["same"] is not None:
            pos = int(case["same"] * texts[0].count("\n"))
            head = "".join(texts[0].splitlines(True)[:pos])
            tail = "".join(texts[0].splitlines(True)[pos:])
            texts = [head + pad + tail,
                     head + pad + "".join(texts[1].splitlines(True)[pos:])]
        else:
            texts = [text + pad for text in texts]
    if case["html"]:
        texts = [HTML + text + "</script>\n" for text in texts]
    words = [e + ":" for e in EVENTS] + ["tracing_mark_write:", "mark_one",
                                          "mark_two"]
    for lines in case["traces"]:
        for line in lines:
            if line["k"] == "ev":
                text = gen.render_event(line)
                if sum(text.count(w) for w in words) > \
                        (1 if not line["data"].startswith("mark_") else 2):
                    raise Skip()
    gen.write(path, texts[0])
    restore = tr.pristine()
    labels = set()
    registered = []
    try:
        for num, oper in enumerate(case["ops"]):
            kind = oper["op"]
            if kind == "rewrite":
                gen.write(path, texts[oper["n"] % len(texts)])
                labels.add("rewritten")
            elif kind == "spoil":
                if spoil(cache, oper):
                    labels.add("cache " + oper["what"])
            elif kind == "register":
                while registered:
                    trappy.unregister_dynamic_ftrace(registered.pop())
                if oper["word"]:
                    registered.append(trappy.register_dynamic_ftrace(
                        "UserEvent", oper["word"], pivot="a"))
                    labels.add("registered")
            else:
                had = os.path.isdir(cache) and len(os.listdir(cache)) > 1
                got = open_trace(path, oper, True)
                want = open_trace(path, oper, False)
                if had and any(c.cached for c in got.trace_classes):
                    labels.add("cache hit")
                    if not all(c.cached for c in got.trace_classes):
                        labels.add("partial hit")
                res = tr.diff(tr.trace_snapshot(got), tr.trace_snapshot(want))
                expect(res is None, "operation {}: {}: cached trace differs "
                       "from the uncached one at {}", num, oper, res)
    finally:
        restore()
    if "cache hit" not in labels:
        labels.add("trivial")
    return labels


def cache_values():
    """Values whose CSV form is easily confused with something else"""
    return st.one_of(gen.values(), gen.int_texts(),
                     st.sampled_from([t for t in gen.TRICKY_STRINGS]),
                     st.sampled_from(["0.1", "123456789012345678901234567890",
                                      "-9223372036854775809", "1_000", "0x10"]))


@st.composite
def traces(draw):
    lines = draw(gen.kv_traces(max_lines=7, rich=False, vals=cache_values(),
                               events=EVENTS, increasing=False))
    for line in lines:
        if line["k"] != "ev":
            continue
        line["comm"] = draw(gen.comms())
        kind = draw(st.integers(0, 7))
        if kind == 0:
            line["ev"] = "tracing_mark_write"
            line["data"] = draw(st.sampled_from(
                ["mark_one: a=1", "mark_two: b=00000030", "free text",
                 "mark_one: a=x", "B|12|func|d", "E", "C|3|n|5"]))
            line.pop("fields")
        elif kind == 1:
            vals = draw(st.lists(st.integers(0, 99), min_size=1, max_size=3))
            line["data"] += " arr={" + " ".join(map(str, vals)) + "}"
    return lines


@st.composite
def opens(draw, pool=None):
    scope = draw(st.sampled_from(["custom"] * 8 + ["sched", "all"]))
    known = pool or EVENTS
    if scope == "all":
        # known words are part of the scope already
        known = EVENTS + ["mark_one"]
    bound = st.one_of(st.integers(0, 20), st.integers(0, 10**6)).map(
        lambda n: n / 16)
    window = st.one_of(st.none(), st.none(), st.none(),
                       st.tuples(bound, st.none()).map(list),
                       st.tuples(bound, bound).map(sorted))
    return dict(op="open", scope=scope,
                events=draw(st.lists(st.sampled_from(known), min_size=draw(st.sampled_from([0, 1, 1, 1, 1, 1])),
                                     max_size=4, unique=True)),
                cls=draw(st.sampled_from(["FTrace"] * 5 + ["SysTrace"])),
                window=draw(window), abs_window=draw(window),
                normalize=draw(st.booleans()))


def ops(pool):
    spoils = st.fixed_dictionaries(dict(
        op=st.just("spoil"),
        what=st.sampled_from(["delete", "delete", "truncate", "truncate",
                              "lose_line", "json", "remove", "as_file"]),
        which=st.integers(0, 5), meta=st.booleans(),
        at=st.floats(0, 1).map(lambda f: round(f, 3)),
        text=st.sampled_from(["{}", "[]", "3", "null", '{"md5sum": "x"}', "",
                              '"md5sum basetime endtime"'])))
    return st.one_of(
        opens(pool), opens(pool), opens(pool), opens(pool), spoils,
        st.fixed_dictionaries(dict(op=st.just("rewrite"),
                                   n=st.integers(0, 1))),
        st.fixed_dictionaries(dict(op=st.just("register"),
                                   word=st.sampled_from(
                                       ["evalpha:", "evbeta:", "mark_two",
                                        None]))))


@st.composite
def cases(draw):
    pool = draw(st.lists(st.sampled_from(
        EVENTS + ["tracing_mark_write", "mark_one", "user_event"]),
        min_size=1, max_size=4, unique=True))
    history = [draw(opens(pool))] + \
        draw(st.lists(ops(pool), min_size=1, max_size=7))
    again = draw(opens(pool))
    first = history[0]
    # Mostly the same events again, so that the cache is of use
    if draw(st.integers(0, 3)):
        again["events"] = first["events"]
        again["scope"] = first["scope"]
        again["cls"] = first["cls"]
    return dict(traces=[draw(traces()), draw(traces())],
                ops=history + [again], html=draw(st.integers(0, 2)) == 0,
                padding=draw(st.sampled_from([0] * 9 + [70, 300, 3000])),
                same=draw(st.sampled_from([None, 0, 0.3, 0.6, 0.9])))


SUBS = [Sub("histories", cases, check, quick=1600, shards=8)]
