"""C10: finding the trace, converting it and cleaning up"""
import hashlib
import os
import stat
import tempfile

from hypothesis import strategies as st

import gen
import harness
import tr
import trappy
from harness import Sub, Violation, expect

LEVEL = "fault_enumeration"
RULE = ("Directories with every subset of the trace files are opened with every "
        "spelling of the path and a stand-in report tool that fails in all the "
        "ways a tool can (missing, exit status, undecodable output, line that "
        "doesn't parse); the result, the tool's arguments and the files left "
        "are compared with a model.  Non-trivial: the tool runs, or more than "
        "one file is there.")
ASSUMPTIONS = ["the report tool is a stand-in that prints events raw only if "
               "asked with -r, and nanoseconds only if asked with -t"]

TOOL = """#!/bin/sh
base='{base}'
printf '%s\\n' call >> "$base/log"
raws=' '
full=
while [ $# -gt 0 ]; do
  printf 'arg:%s\\n' "$1" >> "$base/log"
  case "$1" in
    -r) shift; printf 'arg:%s\\n' "$1" >> "$base/log"; raws="$raws$1 ";;
    -t) full=1;;
  esac
  shift
done
while IFS= read -r ev && IFS= read -r raw && IFS= read -r rawus && IFS= read -r fmt; do
  case "$raws" in
    *" $ev "*) if [ -n "$full" ]; then printf '%s\\n' "$raw"; else printf '%s\\n' "$rawus"; fi;;
    *) printf '%s\\n' "$fmt";;
  esac
done < "$base/lines"
[ -f "$base/tail" ] && cat "$base/tail"
exit {code}
"""


def tree(path):
    out = {}
    for root, dirs, files in os.walk(path):
        for name in files:
            full = os.path.join(root, name)
            with open(full, "rb") as fin:
                out[os.path.relpath(full, path)] = hashlib.md5(
                    fin.read()).hexdigest()
        for name in dirs:
            out[os.path.relpath(os.path.join(root, name), path) + "/"] = "dir"
    return out


def without_cache(files):
    return {k: v for k, v in files.items()
            if not k.split("/")[0].endswith(".cache")}


def both_forms(line):
    """Raw and formatted text of a generated event"""
    ev, n = line["ev"], line["n"]
    if ev == "sched_wakeup":
        raw = "comm=sh pid={} prio=120 success=1 target_cpu=3".format(n)
        fmt = "sh:{} [120] success=1 CPU:003".format(n)
    elif ev == "sched_switch":
        raw = ("prev_comm=sh prev_pid={0} prev_prio=120 prev_state=0 next_comm="
               "<idle> next_pid=0 next_prio=120".format(n))
        fmt = "sh:{} [120] R ==> swapper/1:0 [120]".format(n)
    elif ev in ("evbeta", "evgamma"):
        raw = "n={} mask=0x{:x}".format(n, n)
        fmt = "n={} mask=<bits {}>".format(n, n)
    else:
        raw = fmt = "n={}".format(n)
    return raw, fmt


def render(lines):
    """[(event, raw line, raw line in us, formatted line)]"""
    out = []
    for i, line in enumerate(lines):
        raw, fmt = both_forms(line)
        head = "  sh-{} [00{}] ".format(line["n"], i % 4)
        ts = "{}.{:09d}".format(10 + i, line["ns"])
        us = "{}.{:06d}".format(10 + i, line["ns"] // 1000)
        out.append((line["ev"], head + ts + ": " + line["ev"] + ": " + raw,
                    head + us + ": " + line["ev"] + ": " + raw,
                    head + ts + ": " + line["ev"] + ": " + fmt))
    return out


def header(case):
    out = []
    for key in case["header"]:
        if key == "version":
            out.append("version = {}".format(case["version"]))
        elif key == "cpus":
            out.append("cpus={}".format(case["cpus"]))
        else:
            out.append(key)
    return out


def check(case):
    restore = tr.pristine()
    old_path = os.environ["PATH"]
    old_tmp = tempfile.tempdir
    cwd = os.getcwd()
    try:
        return run(case)
    finally:
        os.environ["PATH"] = old_path
        tempfile.tempdir = old_tmp
        os.chdir(cwd)
        restore()


def run(case):
    base = harness.fresh_dir("case")
    tooldir, tmp, tdir = [os.path.join(base, d) for d in ("bin", "tmp", "t.d")]
    for d in (tooldir, tmp, tdir):
        os.mkdir(d)
    tempfile.tempdir = tmp

    registered = {}
    for word, cls_name, raw in case["dynamic"]:
        registered[word] = trappy.register_dynamic_ftrace(
            cls_name, word + ":", parse_raw=raw)

    forms = render(case["lines"])
    head = header(case)
    text = "\n".join(head + [f[1] for f in forms]) + "\n"
    other = "\n".join(head + [f[1].replace("sh-", "other-")
                              for f in forms]) + "\n"

    stem = case["stem"]
    for ext in case["files"]:
        path = os.path.join(tdir, stem + ext)
        if ext == ".txt":
            gen.write(path, other)
        elif ext == ".dat":
            with open(path, "wb") as fout:
                fout.write(b"\x17\x08\x44tracing" + bytes(range(256)))
        else:
            gen.write(path, "raw\n")

    def write_tool(outcome):
        tool = os.path.join(tooldir, "trace-cmd")
        for name in ("tail", "lines"):
            if os.path.exists(os.path.join(base, name)):
                os.remove(os.path.join(base, name))
        if outcome == "missing":
            if os.path.exists(tool):
                os.remove(tool)
            return
        with open(os.path.join(base, "lines"), "w") as fout:
            for h in head:
                fout.write("-\n-\n-\n" + h + "\n")
            for f in forms:
                fout.write("\n".join(f) + "\n")
        if outcome == "undecodable":
            with open(os.path.join(base, "tail"), "wb") as fout:
                fout.write(b"  \xff\xfe is not an event\n")
        elif outcome == "bad line":
            gen.write(os.path.join(base, "tail"),
                      "  sh-1 [000] 99.000001: evalpha: nothing here\n")
        gen.write(tool, TOOL.format(base=base,
                                    code=1 if outcome == "exit" else 0))
        os.chmod(tool, stat.S_IRWXU)

    os.environ["PATH"] = tooldir + ":/nonexistent"
    if case["tool"] != "missing":
        os.environ["PATH"] += ":/usr/bin:/bin"

    # How the path is given
    os.chdir(base)
    full = {"dir": "t.d", "dir/": "t.d/", "abs": tdir, "dot": ".",
            "default": None, "dat": os.path.join(tdir, stem + ".dat"),
            "txt": os.path.join("t.d", stem + ".txt"),
            "none": os.path.join("t.d", "nothing")}[case["path"]]
    if case["path"] in ("dot", "default"):
        os.chdir(tdir)
    as_file = full is not None and os.path.isfile(full)
    found_stem = stem if as_file else "trace"
    if case["path"] in ("none",) or (case["path"] in ("dat", "txt") and
                                     not as_file):
        present = []
    else:
        present = case["files"] if found_stem == stem else []

    events = ["evalpha"] + [c.name for c in registered.values()]
    kwargs = dict(events=events, normalize_time=case["normalize"])
    if case["scope"] is not None:
        kwargs["scope"] = case["scope"]
    before = without_cache(tree(tdir))

    def open_it():
        args = [] if full is None else [full]
        old = trappy.ftrace.GenericFTrace.disable_cache
        trappy.ftrace.GenericFTrace.disable_cache = not case["cache"]
        try:
            return trappy.FTrace(*args, **kwargs)
        finally:
            trappy.ftrace.GenericFTrace.disable_cache = old

    def no_litter():
        expect(os.listdir(tmp) == [], "temporary files left behind: {}",
               os.listdir(tmp))
        now = without_cache(tree(tdir))
        expect(now == before, "the files of the trace changed: {} became {}",
               sorted(before), sorted(now))
        if not case["cache"]:
            expect(tree(tdir) == before, "files were added: {}",
                   sorted(set(tree(tdir)) - set(before)))

    labels = set(["path " + case["path"]])
    if len(case["files"]) < 2 and ".dat" not in present:
        labels.add("trivial")

    if ".dat" in present:
        outcome = case["tool"]
        write_tool(outcome)
        labels.add("tool " + outcome)
        if outcome not in ("ok", "undecodable"):
            try:
                open_it()
            except Exception as exc:
                if outcome == "bad line":
                    expect("nothing here" in str(exc), "the error doesn't show "
                           "the line: {!r}", exc)
                elif outcome == "missing":
                    expect("trace-cmd" in str(exc), "the error doesn't name "
                           "the tool: {!r}", exc)
            else:
                raise Violation("opening works although the tool's outcome is "
                                "'{}'".format(outcome))
            no_litter()
            write_tool("ok")
            os.environ["PATH"] = tooldir + ":/usr/bin:/bin"
        log = os.path.join(base, "log")
        if os.path.exists(log):
            os.remove(log)
        trace = open_it()
        no_litter()
        with open(log) as fin:
            calls = fin.read().split("call\n")[1:]
        expect(len(calls) == 1, "the tool ran {} times", len(calls))
        args = [a[4:] for a in calls[0].splitlines()]
        raws = [args[i + 1] for i, a in enumerate(args) if a == "-r"]
        opts = [a for i, a in enumerate(args) if a != "-r" and
                (i == 0 or args[i - 1] != "-r")]
        expect(opts and opts[0] == "report", "arguments {}", args)
        expect(any(os.path.exists(a) and os.path.realpath(a) == os.path.join(
            os.path.realpath(tdir), stem + ".dat") for a in opts),
            "the tool was not given the trace: {}", args)
        must = {c.unique_word.rstrip(":")
                for c in trace.class_definitions.values()
                if getattr(c, "parse_raw", False)}
        expect(must <= set(raws), "{} not requested raw, only {}",
               sorted(must - set(raws)), raws)
        plain = {w for w, _, raw in case["dynamic"] if not raw} | {
            "evalpha", "cpu_idle", "cpu_frequency"}
        expect(not plain & set(raws), "{} requested raw",
               sorted(plain & set(raws)))
        want_text = text
    elif ".txt" in present:
        trace = open_it()
        no_litter()
        expect(not os.path.exists(os.path.join(base, "log")),
               "the tool ran for a text trace")
        want_text = other
    else:
        labels.add("error")
        try:
            open_it()
        except RuntimeError as exc:
            expect(".raw.txt" in present, "unexpected error {}", exc)
        except (IOError, OSError) as exc:
            expect(".raw.txt" not in present, "unexpected error {}", exc)
            name = full if full is not None else "."
            expect(name.rstrip("/") in str(exc),
                   "the error doesn't name {}: {}", name, exc)
        else:
            raise Violation("opened although there are only {} files".format(
                present))
        no_litter()
        return labels

    def against(trace):
        # A plain text trace with every event raw is the reference
        ref = tr.parse(want_text, path=os.path.join(
            harness.fresh_dir("ref"), "trace.txt"), **kwargs)
        got, want = tr.trace_snapshot(trace), tr.trace_snapshot(ref)
        count = 0
        asis = set(w for w, _, raw in case["dynamic"] if not raw)
        for name in list(want["events"]):
            word = trace.class_definitions[name].unique_word.rstrip(":")
            if word in asis and ".dat" in present:
                expect(len(got["events"][name]["index"]) ==
                       len(want["events"][name]["index"]),
                       "{}: number of rows", name)
                del got["events"][name], want["events"][name]
                continue
            mine = [l for l in case["lines"] if l["ev"] == word]
            expect(len(want["events"][name]["index"]) == len(mine),
                   "{}: {} rows for {} lines", name,
                   len(want["events"][name]["index"]), len(mine))
            count += len(mine)
        res = tr.diff(got, want)
        expect(res is None, "the rows are not those of the text trace: {}", res)
        for key, attr in (("version", "_version"), ("cpus", "_cpus")):
            val = getattr(trace, attr)
            want_val = str(case[key]) if key in case["header"] else None
            expect((None if val is None else str(val)) == want_val,
                   "{} is {!r} instead of {}", attr, val, want_val)
        return count

    if not against(trace):
        labels.add("no rows")
    if case["again"]:
        trace = open_it()
        no_litter()
        against(trace)
        labels.add("opened twice, cache {}".format(case["cache"]))
    return labels


EVENTS = ["evalpha", "evbeta", "evgamma", "sched_wakeup", "sched_switch"]


@st.composite
def cases(draw):
    path = draw(st.sampled_from(["dir", "dir/", "abs", "dot", "default",
                                 "dir", "dir/", "abs", "dot", "default",
                                 "dat", "txt", "dat", "txt", "dat", "txt",
                                 "none"]))
    stem = "trace"
    if path in ("dat", "txt"):
        stem = draw(st.sampled_from(["trace", "my.trace", "x", "with space"]))
    elif draw(st.integers(0, 12)) == 12:
        stem = "other"
    files = draw(st.sampled_from(
        [[".dat"], [".dat"], [".dat"], [".dat", ".txt"], [".dat", ".txt"],
         [".dat", ".txt"], [".dat", ".txt", ".raw.txt"],
         [".txt"], [".txt", ".raw.txt"], [".raw.txt"], []]))
    lines = draw(st.lists(st.fixed_dictionaries(dict(
        ev=st.sampled_from(EVENTS), n=st.integers(1, 99999),
        ns=st.integers(0, 10**9 - 1))), min_size=1, max_size=7))
    names = {"evbeta": st.sampled_from(["Evbeta", "MyRaw"]),
             "evgamma": st.sampled_from(["Evgamma", "OtherName"])}
    dynamic = []
    for word in draw(st.lists(st.sampled_from(["evbeta", "evgamma"]),
                              max_size=2, unique=True)):
        dynamic.append([word, draw(names[word]), draw(st.booleans())])
    hdr = draw(st.lists(st.sampled_from(
        ["version", "cpus", "version", "cpus", "# a comment",
         "CPU 1 is empty", "# version = 3", "  cpus=77", "# cpus=5",
         "uncpus=9", "file-version=2", "version: 6", "cpus = many",
         "versions = 8"]), max_size=5, unique=True))
    return dict(
        path=path, stem=stem, files=files, lines=lines, dynamic=dynamic,
        header=hdr, version=draw(st.integers(1, 9)),
        cpus=draw(st.integers(1, 512)),
        scope=draw(st.sampled_from([None, "sched", "all"])),
        tool=draw(st.sampled_from(["ok", "ok", "ok", "missing", "exit",
                                   "undecodable", "bad line"])),
        cache=draw(st.booleans()), normalize=draw(st.booleans()),
        again=draw(st.booleans()))


SUBS = [Sub("open", cases, check, quick=1200, shards=8)]
