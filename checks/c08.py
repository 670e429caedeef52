"""C08: user markers and systrace files"""
import re
import string

from hypothesis import strategies as st

import gen
import tr
import trappy
from checks.c01 import builtin_classes, compare, expected
from harness import Sub, Skip, expect

LEVEL = "exploration"
RULE = ("Traces that mix events, markers of any text, markers claimed by user "
        "events and systrace annotations, opened as ftrace text or as systrace "
        "(HTML of both layouts, with decoy lines outside of the trace section). "
        "Rows are compared with a model. Non-trivial: markers of at "
        "least two kinds, or an HTML file with decoys.")
ASSUMPTIONS = ["marker texts do not start with 'word: ' (taken as part of the "
               "header), hold no array notation and no trailing blanks",
               "no marker holds the word of an event it does not belong to"]

CLAIMS = ["mark_one", "mark_two"]
EVENTS = ["evalpha", "sched_wakeup"]


def check(case):
    lines = case["lines"]
    requested = case["events"]
    words = {w: w + ":" for w in CLAIMS + EVENTS}
    builtin = [c.unique_word for c in builtin_classes()]
    for line in lines:
        text = gen.render_event(line)
        if line["kind"] == "free" and (
                re.match(r"\w+:\s", line["data"]) or
                any(w in text for w in words.values())):
            raise Skip()
        if any(w in text for w in builtin if w != "tracing_mark_write:" and
               not w.startswith(line["ev"])):
            raise Skip()
        if line["kind"] == "claimed" and \
                sum(w in text for w in words.values()) != 1:
            raise Skip()
        if "</script>" in text:
            raise Skip()
    body = gen.render(lines)
    systrace = case["html"] is not None
    if systrace:
        html = case["html"]
        decoy = "  sh-1 [000] 0.5: tracing_mark_write: decoy\n" \
            "  sh-1 [000] 0.6: evalpha: a=77\n"
        pre = "<!DOCTYPE html>\n<html>\n"
        if html["decoys"]:
            pre += decoy
        if html["layout"] == 0:
            pre += "<!-- BEGIN TRACE -->\n"
            if html["decoys"]:
                pre += decoy
            pre += '  <script class="trace-data" type="application/text">\n'
        else:
            pre += "<title>Android System Trace</title>\n"
            if html["decoys"]:
                pre += decoy
            pre += "  var linuxPerfData = \"\\\n"
        pre += "# tracer: nop\n#\n"
        post = html["end"] + "</script>\n<!-- END TRACE -->\n"
        if html["decoys"]:
            post += decoy.replace("0.5", "99999999.5").replace(
                "0.6", "99999999.6")
        text = pre + body + post
        trace = tr.parse(text, cls=trappy.SysTrace, scope=case["scope"],
                         events=requested, normalize_time=False)
    else:
        trace = tr.parse(body, scope=case["scope"], events=requested,
                         normalize_time=False)

    def name_of(line):
        if line["kind"] == "event":
            return line["ev"]
        if line["kind"] == "claimed" and line["word"] in requested:
            return line["word"]
        return "tracing_mark_write"

    def values(line):
        if line["kind"] == "event":
            return {k: gen.value_of(v) for k, v in line["fields"]}
        if line["kind"] == "claimed":
            if line["word"] in requested:
                return {k: gen.value_of(v) for k, v in line["fields"]}
            # the leading word reads as part of the header
            return {"string": gen.join_fields(line["fields"])}
        if line["kind"] == "note" and systrace:
            row = dict(line["note"])
            return {k: row.get(k) for k in ("event", "pid", "func", "data")}
        return {"string": line["data"]}

    names = sorted(set(requested) | set(EVENTS) | {"tracing_mark_write"})
    for line in lines:
        line["k"] = "ev"
    relabelled = [dict(line, real=line["ev"], ev=name_of(line))
                  for line in lines]
    want = expected(relabelled, names, values)
    for name in names:
        if name not in trace.class_definitions:
            expect(name not in requested, "{} is not among the events", name)
            continue
        compare(name, tr.frame(trace, name), [
            (dict(l, ev=l["real"]), row) for l, row in want[name]])
    kinds = set(l["kind"] for l in lines)
    labels = set("has " + k for k in kinds)
    if systrace:
        labels.add("systrace")
        if case["html"]["decoys"]:
            labels.add("decoys")
    if len(kinds - {"event"}) < 2 and "decoys" not in labels:
        labels.add("trivial")
    return labels


MARK = string.ascii_letters + string.digits + "_-./:<>[]()@#+,%*\"'|!?^~;&$\\= é"


def marks():
    return st.one_of(
        st.text(MARK, min_size=1, max_size=24).map(str.strip).filter(bool),
        st.sampled_from(["Hello world", "B", "Begin", "E|12", "B|x|y", "C|1",
                         "E", "S|1|a|2", "0", "nan", "a=b c=d", "|", "Bad|1|f",
                         "sh-9 [003] 7.5: fake: a=1", "x  y", "B|1|f|d|e",
                         "BB|1|f", "b|1|f", "a = b"]))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 8))
    clock = draw(gen.clocks(n))
    html = draw(st.one_of(st.none(), st.fixed_dictionaries(dict(
        layout=st.integers(0, 1), decoys=st.booleans(),
        end=st.sampled_from(["", "  ", "\t"])))))
    lines = []
    func = st.text(MARK.replace("|", ""), max_size=10).map(str.strip)
    for i in range(n):
        line = draw(gen.headers() if draw(st.booleans())
                    else gen.simple_headers())
        line["ts"] = clock[i]
        kind = draw(st.sampled_from(["event", "free", "claimed", "note",
                                     "note"]))
        line["kind"] = kind
        line["ev"] = "tracing_mark_write"
        if kind == "event":
            line["ev"] = draw(st.sampled_from(EVENTS))
            line["fields"] = [["a", draw(gen.int_texts())],
                              ["b", draw(st.sampled_from(["x", "y z", "3"]))]]
            line["data"] = gen.join_fields(line["fields"])
        elif kind == "claimed":
            line["word"] = draw(st.sampled_from(CLAIMS))
            line["fields"] = [["v", draw(gen.int_texts())],
                              ["w", draw(st.one_of(
                                  st.sampled_from(["x", "00", "q r", "x:"]),
                                  marks().filter(lambda t: "=" not in t and
                                                 "  " not in t)))]]
            line["data"] = line["word"] + ": " + gen.join_fields(line["fields"])
        elif kind == "free":
            line["data"] = draw(marks())
            if html is not None:
                # what is an annotation is a note
                if re.match(r"[A-Z](\||$)", line["data"]):
                    line["data"] = "x" + line["data"]
        else:
            what = draw(st.sampled_from(["B", "B+", "E", "C", "S"]))
            pid = draw(st.one_of(st.integers(0, 3), st.integers(0, 99999)))
            if what == "E":
                line["note"], line["data"] = dict(event="E"), "E"
            else:
                name = draw(func)
                note = dict(event=what[0], pid=pid, func=name)
                text = "{}|{}|{}".format(what[0], pid, name)
                if what != "B":
                    note["data"] = draw(
                        st.integers(-99, 10**6).map(str) if what == "C" else
                        st.text(MARK, max_size=8).map(str.strip))
                    text += "|" + note["data"]
                if text != text.rstrip():
                    note["func"] = note["func"].rstrip()
                    text = text.rstrip()
                line["note"], line["data"] = note, text
        lines.append(line)
    return dict(
        lines=lines, html=html,
        scope=draw(st.sampled_from(["custom", "custom", "all", "sched"])),
        events=draw(st.lists(st.sampled_from(CLAIMS + EVENTS +
                                             ["tracing_mark_write"]),
                             unique=True, max_size=5)))


SUBS = [Sub("markers", cases, check, quick=1600, shards=8)]
