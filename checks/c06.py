"""C06: array fields"""
from hypothesis import strategies as st

import gen
import tr
from checks.c01 import compare, expected, clean
from harness import Sub, expect

LEVEL = "exploration"
RULE = ("Traces of two events whose lines mix plain fields, arrays of 0-12 "
        "elements and lines without arrays, in any position; rows are "
        "compared with a model that pads each array to its longest instance. "
        "Non-trivial: some array needs padding or some line has no array or an empty one.")
ASSUMPTIONS = ["array names followed by digits do not collide with plain "
               "fields", "elements are separated by single spaces"]

EVENTS = ["evalpha", "evbeta"]
ARRAYS = ["load", "req_power", "v", "Z_", "preload", "oad", "l2cache", "load99"]
PLAIN = ["freq", "cpus", "tot", "name"]


def text_of(fields):
    out = []
    for name, val in fields:
        if isinstance(val, list):
            out.append("{}={{{}}}".format(name, " ".join(val)))
        else:
            out.append("{}={}".format(name, val))
    return " ".join(out)


def check(case):
    lines = case["lines"]
    for line in lines:
        if line["k"] == "ev":
            line["data"] = text_of(line["fields"])
    clean(lines, EVENTS)
    if case["repeat"] > 1:
        # Many lines, all different
        lines = gen.repeated(lines, case["repeat"])
        events = [l for l in lines if l["k"] == "ev"]
        for num, line in enumerate(events):
            line["fields"] = line["fields"] + [["seq", str(num)]]
        # One that is short but for an array has the longest one
        odd = events[(case["odd"] * len(events)) // 100]
        odd["fields"] = [[n, ["7"] * 9] for n, v in odd["fields"]
                         if isinstance(v, list)][:1] or odd["fields"]
        for line in events:
            line["data"] = text_of(line["fields"])
    trace = tr.parse(gen.render(lines), scope="custom", events=EVENTS,
                     normalize_time=False)
    labels = {"many lines"} if len(lines) > 50 else set()
    for ev in EVENTS:
        mine = [l for l in lines if l["k"] == "ev" and l["ev"] == ev]
        longest = {}
        for line in mine:
            for name, val in line["fields"]:
                if isinstance(val, list) and val:
                    longest[name] = max(longest.get(name, 0), len(val))

        def values(line):
            row = {}
            for name, val in line["fields"]:
                if not isinstance(val, list):
                    row[name] = gen.value_of(val)
                elif val:
                    for i in range(longest[name]):
                        row[name + str(i)] = gen.value_of(val[i]) \
                            if i < len(val) else 0
            return row

        want = expected(lines, [ev], values)[ev]
        compare(ev, tr.frame(trace, ev), want)
        for line in mine:
            arrays = [(n, v) for n, v in line["fields"] if isinstance(v, list)]
            if longest and not arrays:
                labels.add("line without arrays")
            for name, val in arrays:
                if not val:
                    labels.add("empty")
                elif len(val) < longest[name]:
                    labels.add("padded")
            if len(arrays) > 1:
                labels.add("several arrays")
    if not labels & {"line without arrays", "padded", "empty"}:
        labels.add("trivial")
    return labels


@st.composite
def cases(draw):
    n = draw(st.integers(1, 7))
    clock = draw(gen.clocks(n))
    elem = st.one_of(st.integers(0, 9).map(str), st.integers(-999, 99999).map(str),
                     st.sampled_from(["0x1f", "a", "0f", "1.5", "x:y"]))
    lines = []
    for i in range(n):
        if draw(st.integers(0, 7)) == 0:
            lines.append(draw(gen.junk()))
        line = draw(gen.simple_headers())
        line["ts"] = clock[i]
        line["ev"] = draw(st.sampled_from(EVENTS[:1] * 3 + EVENTS))
        arrays = draw(st.lists(st.sampled_from(ARRAYS), max_size=3, unique=True))
        plain = draw(st.lists(st.sampled_from(PLAIN), max_size=3, unique=True,
                              min_size=0 if arrays else 1))
        fields = [[a, draw(st.lists(elem, max_size=draw(
            st.sampled_from([0, 3, 3, 3, 12]))))] for a in arrays] + \
            [[p, draw(gen.int_texts() if p != "name" else st.sampled_from(
                ["a b", "00000003", "x", "7"]))] for p in plain]
        line["fields"] = draw(st.permutations(fields))
        if arrays and draw(st.integers(0, 3)) == 0:
            # The same list again under a name that ends the same
            name, val = fields[0]
            line["fields"] = line["fields"] + [["z" + name, val]]
        if any(f[0] == "name" and " " in str(f[1]) for f in fields):
            # a text with spaces ends at the next field
            line["fields"] = [f for f in line["fields"]]
        lines.append(line)
    return dict(lines=lines, repeat=draw(gen.repeats()),
                odd=draw(st.integers(0, 99)))


SUBS = [Sub("arrays", cases, check, quick=1200, shards=8)]
