"""Strategies for ftrace text, and its rendering.  Cases are plain JSON."""
import math
import os
import string

from hypothesis import strategies as st

NAME0 = string.ascii_lowercase
COMM_CHARS = string.ascii_letters + string.digits + "_-./:<>[]()@#+ "

# Names which can not be a substring of each other, nor appear in payloads
# (payload alphabet never has a colon directly after one of them)
EVENT_NAMES = ["evalpha", "evbeta", "evgamma", "evdelta", "ev_eps2"]


def idents(max_size=8):
    plain = st.builds(lambda a, b: a + b, st.sampled_from(string.ascii_letters),
                      st.text(string.ascii_lowercase + string.digits + "_",
                              max_size=max_size - 1)).filter(
                                  lambda s: s != "Index")
    odd = st.sampled_from(["Time", "name", "index", "cpu", "pid", "comm",
                           "line", "Line", "0"])
    return st.integers(0, 11).flatmap(lambda n: plain if n < 11 else odd)


def comms():
    fixed = st.sampled_from([
        "<idle>", "kworker/0:1H", "trace-cmd", "rcu_preempt", "bash",
        "Binder:1234_2", "a-1-2", "sh -c x", "[kthreadd]", "(sd-pam)",
        "GL updater", "x-y [z]", "irq/17-foo", "123", "NA", "nan", "null",
        "kworker/u16:3-ev", "C1 CompilerThre", "-", "a'b\"c", "x,y", "#", "1.5",
        "True", "None", "<...>"])
    free = st.text(COMM_CHARS, min_size=1, max_size=15).map(str.strip).filter(
        lambda s: s != "")
    return st.one_of(fixed, free)


def tgids():
    return st.one_of(st.none(), st.none(), st.integers(0, 99999).map(
        lambda n: "({:>5})".format(n)), st.just("(-----)"))


FLAGS = ["....", "d...", "d.h.", "dNs2", "...1", "d..2", "X.H3"]


def flags():
    return st.one_of(st.none(), st.sampled_from(FLAGS))


# Beyond 63 bits (pointers), and other literals of Python
BIG_INTS = ["0xffffffffffffffff", "18446744073709551615", "0xffffff8008081000",
            "9223372036854775808", "+5", "0b101", "0o17", "1_000", "-0x10"]


def int_texts():
    """(text, value) pairs of integers the parser documents as such"""
    dec = st.one_of(st.integers(-5, 300), st.integers(-2**31, 2**31),
                    st.integers(-2**63, 2**63 - 1),
                    st.sampled_from([0, 4294967295, 2**53 + 1]))
    return st.one_of(dec.map(str), dec.map(str),
                     st.integers(0, 2**63 - 1).map(hex),
                     st.sampled_from(BIG_INTS),
                     st.integers(0, 2**32).map(lambda n: "0x{:08X}".format(n)))


WORD_CHARS = string.ascii_letters + string.digits + "_-./:<>[]()@#+,%*\"'|!?^~;&$\\"


def words():
    return st.text(WORD_CHARS, min_size=1, max_size=8)


def is_int_text(text):
    """Would the documented rule (python integer literals) call this an int?"""
    try:
        int(text, 0)
        return True
    except ValueError:
        return False


TRICKY_STRINGS = ["00000003", "0000000f", "010", "1.5", "1e5", "NA", "nan",
                  "null", "None", "True", "False", "", "inf", "-", "N/A",
                  "a=b", "==", "x=1", "\"q", "'", "a,b", "a\"b\"", "00"]


def decorated():
    """Numbers with something around them, so that they are none"""
    return st.builds(
        lambda t, d: d.format(t), st.one_of(
            st.integers(-5, 300).map(str), st.integers(0, 255).map(hex)),
        st.sampled_from(["({})", "[{}]", "<{}>", "{},", "{};", "{}%", "#{}",
                         "{}.", "{}.0", "{}e0", "{}L", "{}u", "'{}'", "\"{}\"",
                         "{}:", "={}", "0{}", "{}/2", "{}-", "~{}", "--{}",
                         "{}ns", "{}K", "0x{}h", "__{}", "{}_"])).filter(
                             lambda t: not is_int_text(t))


def string_texts():
    """String values: words separated by single spaces.  The first word may
    contain '=', the following words may not (they would start a field)"""
    first = st.one_of(words(), words(), st.sampled_from(
        [t for t in TRICKY_STRINGS if not is_int_text(t)]), decorated())
    single = first.filter(lambda s: not is_int_text(s))
    multi = st.builds(lambda a, b: " ".join([a] + b), single.filter(bool),
                      st.lists(words().filter(lambda w: "=" not in w),
                               min_size=1, max_size=3))
    return st.one_of(single, single, multi)


def value_of(text):
    """Reference value of a field's text: base-0 integer or the string"""
    if is_int_text(text):
        return int(text, 0)
    return text


def values():
    return st.one_of(int_texts(), string_texts())


def quoting_values():
    """Texts that quote a line of a trace now and then"""
    quotes = st.builds(
        "{} {}-{} [{:03d}] {} {}: other: {}".format,
        st.sampled_from(["seen", "<", "'"]), comms().filter(
            lambda c: "=" not in c and "  " not in c), st.integers(0, 99999),
        st.integers(0, 7), st.sampled_from(["....", "d..2"]),
        st.sampled_from(["1.500000", "0.000001", "99999.5", "12345"]),
        st.sampled_from(["x", "tracing_mark_write: y", "3 4"]))
    return st.integers(0, 9).flatmap(
        lambda n: values() if n < 9 else quotes)


def render_ts(ts):
    """ts: [kind, seconds, digits] -> text"""
    kind, sec, frac = ts
    if kind == "us":
        return "{}.{}".format(sec, frac)
    # nanoseconds, no decimal point
    return "{}{:>09}".format(sec, frac) if sec else str(int(frac))


def ts_value(ts):
    """The value in seconds, correctly rounded the way the text reads"""
    kind, sec, frac = ts
    if kind == "us":
        return float("{}.{}".format(sec, frac))
    return float(render_ts(ts)) / 1e9


def render_event(line):
    text = line.get("indent", "  ")
    text += "{}-{}".format(line["comm"], line["pid"])
    if line.get("tgid"):
        text += " " + line["tgid"]
    text += line.get("gap", " ") + "[{:03d}]".format(line["cpu"])
    if line.get("flags"):
        text += " " + line["flags"]
    text += line.get("gap2", "  ") + render_ts(line["ts"]) + ": "
    text += line["ev"] + ":" + line.get("gap3", " ")
    text += line["data"]
    return text


def render(lines):
    out = []
    for line in lines:
        out.append(line["text"] if line["k"] == "junk" else render_event(line))
    return "\n".join(out) + "\n"


def join_fields(fields):
    return " ".join("{}={}".format(k, v) for k, v in fields)


JUNK = ["", "# tracer: nop", "#           TASK-PID   CPU#", "version = 6",
        "cpus=8", "CPU:3 [LOST 42 EVENTS]", "CPU 1 is empty", "garbage",
        "   ---------- evbeta without a header", "evalpha: a=1",
        "  <idle>-0 [000] d..2 evalpha: a=1", "x-1 [zz] 1.0: evalpha: a=1",
        "x-1 [001] 1.0 evalpha a=1", "  |", "\t", "=> 0xffffffff",
        "name-12 [001] nan: evalpha: a=2"]


def junk():
    return st.sampled_from(JUNK).map(lambda t: dict(k="junk", text=t))


def write(path, text):
    with open(path, "w", encoding="utf-8") as fout:
        fout.write(text)
    return path


def same_value(got, want, exact_int=True):
    """A frame's cell against the reference value"""
    if want is None:
        return got is None or (isinstance(got, float) and math.isnan(got))
    if isinstance(want, str):
        return isinstance(got, str) and str(got) == want
    if isinstance(got, str) or isinstance(got, bool):
        return False
    try:
        if isinstance(want, int):
            if float(got) != float(want):
                return False
            if exact_int:
                return int(got) == want
            return True
        return float(got) == float(want)
    except (TypeError, ValueError, OverflowError):
        return False


@st.composite
def clocks(draw, n, increasing=True):
    """n timestamps of one trace clock.  increasing: strictly, as read"""
    kind = draw(st.sampled_from(["us6", "us9", "ns"]))
    step = 1000 if kind == "us6" else 1
    start = draw(st.one_of(st.integers(0, 10**9), st.integers(0, 10**15)))
    cur = max(step, start // step * step)
    out = []
    for i in range(n):
        sec, ns = divmod(cur, 10**9)
        if kind == "us6":
            out.append(["us", sec, "{:06d}".format(ns // 1000)])
        elif kind == "us9":
            out.append(["us", sec, "{:09d}".format(ns)])
        else:
            out.append(["ns", sec, str(ns) if not sec else
                        "{:09d}".format(ns)])
        delta = draw(st.one_of(st.integers(1, 50), st.integers(1, 10**6),
                               st.integers(1, 10**10)))
        if not increasing:
            # Equal and out-of-order times as well
            pick = draw(st.integers(0, 5))
            if pick in (0, 1):
                delta = 0
            elif pick == 2:
                delta = -delta
        cur = max(step, cur + delta * step)
    return out


@st.composite
def headers(draw):
    """The fixed part of a trace line"""
    return dict(k="ev", comm=draw(comms()), pid=draw(st.integers(0, 4194304)),
                cpu=draw(st.one_of(st.integers(0, 7), st.integers(0, 4096))),
                tgid=draw(tgids()), flags=draw(flags()),
                indent=draw(st.sampled_from(["  ", "", "     "])),
                gap=draw(st.sampled_from([" ", "  "])),
                gap2=draw(st.sampled_from([" ", "  ", "     "])),
                gap3=draw(st.sampled_from([" ", "      ", "\t"])))


def simple_headers():
    return st.builds(
        lambda c, p, u: dict(k="ev", comm=c, pid=p, cpu=u),
        st.sampled_from(["sh", "kworker/0:1", "<idle>", "a b", "x-2"]),
        st.integers(0, 99999), st.integers(0, 7))


@st.composite
def kv_traces(draw, max_lines=10, increasing=True, with_junk=True,
              rich=True, vals=None, events=None, min_lines=1):
    events = events or EVENT_NAMES
    keys = draw(st.lists(idents(), min_size=1, max_size=5, unique=True))
    n = draw(st.integers(min_lines, max_lines))
    clock = draw(clocks(n, increasing))
    vals = vals or values()
    lines = []
    for i in range(n):
        if with_junk and draw(st.integers(0, 5)) == 0:
            lines.append(draw(junk()))
        line = draw(headers() if rich else simple_headers())
        line["ts"] = clock[i]
        line["ev"] = draw(st.sampled_from(events))
        mine = draw(st.lists(st.sampled_from(keys), min_size=1,
                             max_size=len(keys), unique=True))
        fields = [[k, draw(vals)] for k in mine]
        line["fields"] = fields
        line["data"] = join_fields(fields)
        lines.append(line)
    if with_junk and draw(st.booleans()):
        lines.insert(0, dict(k="junk", text="version = 6"))
        lines.insert(1, dict(k="junk", text="cpus={}".format(
            draw(st.integers(1, 64)))))
    return lines


def repeats():
    """How often the lines of a trace are repeated: mostly once, at times so
    often that the trace has hundreds of lines"""
    return st.integers(0, 49).flatmap(
        lambda n: st.just(1) if n < 45 else st.integers(2, 6) if n < 48
        else st.integers(20, 60))


def repeated(lines, times):
    """The lines, and again later on, `times` times in all"""
    secs = [line["ts"][1] for line in lines if line["k"] == "ev"]
    span = max(secs) - min(secs) + 1 if secs else 0
    out = list(lines)
    for num in range(1, times):
        for line in lines:
            if line["k"] == "ev":
                kind, sec, frac = line["ts"]
                if kind == "ns":
                    frac = "{:>09}".format(frac)
                line = dict(line, ts=[kind, sec + num * span, frac])
            out.append(line)
    return out


def sized(elements, low, high, unique=False):
    """Lists whose length is spread evenly over low..high"""
    return st.integers(low, high).flatmap(
        lambda n: st.lists(elements, min_size=n, max_size=n, unique=unique))
