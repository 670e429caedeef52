"""Mutation runs: which small changes of trappy pass its tests, and which
checks notice them.  Works in copies of /repo under a scratch directory.

    mutate.py list                 > mutants.jsonl
    mutate.py tests  DIR JOBS      < mutants.jsonl > survivors.jsonl
    mutate.py checks DIR JOBS      < survivors.jsonl > results.jsonl
"""
import ast
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"

# Fail with this version of Python whatever trappy does
DESELECT = ["--deselect=tests/" + test for test in (
    "test_caching.py::TestCaching::test_cache_window_narrow",
    "test_ftrace.py::TestFTrace::test_ftrace_dont_normalize_time",
    "test_ftrace.py::TestHelpfulAttributeError::test_helpful_error",
    "test_plotter.py::TestPlotter::test_get_trace_event_data_corrupted_trace",
    "test_results.py::TestResults::test_get_results",
    "test_stats_grammar.py::TestStatsGrammar::test_no_events")]

CHECKS = {
    "bare_trace.py": "C12 C09 C03 C10 C18",
    "base.py": "C01 C06 C27 C07 C04 C05 C11 C02 C13",
    "common_clk.py": "C07", "filesystem.py": "C07", "function.py": "C07",
    "function_graph.py": "C07", "idle.py": "C07", "raw_syscalls.py": "C07 C27",
    "sched.py": "C07 C27", "fallback.py": "C08", "systrace.py": "C08 C27",
    "dynamic.py": "C09 C07", "exception.py": "C27",
    "compare_runs.py": "C26", "plot_utils.py": "C26", "thermal.py": "C26 C07",
    "pid_controller.py": "C26", "cpu_power.py": "C23 C26 C07",
    "devfreq_power.py": "C23 C26 C07",
    "ftrace.py": "C01 C04 C03 C10 C02 C05 C09 C11 C23 C26 C27 C08 C06 C30",
    "utils.py": "C13 C15 C18 C01 C19", "nbexport/exporter.py": "C25",
    "plotter/AbstractDataPlotter.py": "C19 C21 C18", "plotter/AttrConf.py":
    "C19 C20 C21", "plotter/BarPlot.py": "C19",
    "plotter/ColorMap.py": "C20 C19", "plotter/Constraint.py": "C18 C19 C21",
    "plotter/EventPlot.py": "C22 C25 C28 C29", "plotter/ILinePlot.py": "C21 C25 C28 C29",
    "plotter/ILinePlotGen.py": "C21 C25 C28", "plotter/IPythonConf.py":
    "C29 C25 C21 C22", "plotter/LinePlot.py": "C19", "plotter/PlotLayout.py":
    "C20 C19", "plotter/StaticPlot.py": "C19 C20", "plotter/Utils.py":
    "C22 C18 C21 C19", "plotter/__init__.py": "C22 C19 C21",
    "stats/Aggregator.py": "C14", "stats/Correlator.py": "C15",
    "stats/Indexer.py": "C15", "stats/Topology.py": "C14",
    "stats/Trigger.py": "C14", "stats/grammar.py": "C17 C16",
    "stats/StatConf.py": "C16 C17 C14", "wa/results.py": "C24",
    "wa/sysfs_extractor.py": "C24 C26", "__init__.py": "C09 C12",
    "stats/__init__.py": "", "wa/__init__.py": "", "nbexport/__init__.py": "",
}

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not",
       ast.IsNot: "is"}
CMP2 = {ast.Lt: ">", ast.Gt: "<", ast.LtE: ">=", ast.GtE: "<="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
       ast.FloorDiv: "/", ast.Mod: "*"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any",
         "startswith": "endswith", "endswith": "startswith",
         "ffill": "bfill", "sorted": "list", "ceil": "floor",
         "append": "extend", "search": "match", "match": "search"}
IDENTITY = {"copy", "sort_index", "fillna", "dropna", "strip", "rstrip",
            "lstrip", "lower", "sort_values", "astype", "drop_duplicates",
            "reindex", "reset_index", "loc", "apply", "tolist"}


def mutants(path, name):
    with open(path) as fin:
        src = fin.read()
    lines = src.splitlines(True)
    offs = [0]
    for line in lines:
        offs.append(offs[-1] + len(line.encode()))
    raw = src.encode()
    tree = ast.parse(src)
    out = []

    def pos(node):
        return (offs[node.lineno - 1] + node.col_offset,
                offs[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        a, b = pos(node)
        return raw[a:b].decode()

    def add(node, new, kind):
        a, b = pos(node)
        mut = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(mut)
        except SyntaxError:
            return
        if mut != raw:
            out.append(dict(file=name, line=node.lineno, kind=kind,
                            old=raw[a:b].decode(), new=new, a=a, b=b))

    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                    node.body[0].value, ast.Constant):
                docs.add(id(node.body[0]))
                docs.add(id(node.body[0].value))
    for fun in ast.walk(tree):
        if not isinstance(fun, ast.FunctionDef):
            continue
        for node in [n for stmt in fun.body for n in ast.walk(stmt)]:
            if id(node) in docs:
                continue
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                for table in (CMP, CMP2):
                    if type(node.ops[0]) in table:
                        add(node, "{} {} {}".format(
                            text(node.left), table[type(node.ops[0])],
                            text(node.comparators[0])), "compare")
            elif isinstance(node, ast.BoolOp):
                word = " or " if isinstance(node.op, ast.And) else " and "
                add(node, "(" + word.join(text(v) for v in node.values) + ")",
                    "bool")
                for v in node.values:
                    add(node, text(v), "one of bool")
            elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
                add(node, "({} {} {})".format(text(node.left), BIN[type(
                    node.op)], text(node.right)), "arith")
            elif isinstance(node, ast.UnaryOp):
                add(node, text(node.operand), "unary")
            elif isinstance(node, ast.Constant):
                if isinstance(node.value, bool):
                    add(node, str(not node.value), "const")
                elif isinstance(node.value, (int, float)):
                    add(node, repr(node.value + 1), "const")
                    if node.value:
                        add(node, "0", "const")
            elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
                add(node.test, "(not ({}))".format(text(node.test)), "negate")
                if isinstance(node, ast.If):
                    add(node.test, "True", "always")
                    add(node.test, "False", "never")
            elif isinstance(node, ast.Call):
                func = node.func
                if isinstance(func, ast.Attribute):
                    if func.attr in IDENTITY:
                        add(node, text(func.value), "no call")
                    if func.attr in NAMES:
                        add(node, "{}.{}({})".format(
                            text(func.value), NAMES[func.attr], ", ".join(
                                text(a) for a in node.args)), "name")
                elif isinstance(func, ast.Name):
                    if func.id in NAMES:
                        add(func, NAMES[func.id], "name")
                    if func.id in ("list", "set", "sorted", "int", "float",
                                   "str", "listify", "reversed") and \
                            len(node.args) == 1:
                        add(node, text(node.args[0]), "no call")
                for kw in node.keywords:
                    if kw.arg:
                        a, b = pos(node)
                        rest = [text(x) for x in node.args] + [
                            text(k) for k in node.keywords if k is not kw]
                        add(node, "{}({})".format(text(func),
                                                  ", ".join(rest)),
                            "no keyword " + kw.arg)
            elif isinstance(node, ast.Slice):
                if node.lower is not None:
                    add(node.lower, "", "slice")
                if node.upper is not None:
                    add(node.upper, "", "slice")
            if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr,
                                 ast.Continue, ast.Break, ast.Raise,
                                 ast.Delete)):
                add(node, "pass", "no statement")
            elif isinstance(node, ast.Return) and node.value is not None:
                add(node, "return None", "return")
    seen, res = set(), []
    for mut in out:
        key = (mut["a"], mut["b"], mut["new"])
        if key not in seen:
            seen.add(key)
            mut["id"] = hashlib.sha1(repr((name, key)).encode()
                                     ).hexdigest()[:8]
            res.append(mut)
    return res


def apply(root, mut):
    path = os.path.join(root, "trappy", mut["file"])
    with open(os.path.join(REPO, "trappy", mut["file"]), "rb") as fin:
        raw = fin.read()
    with open(path, "wb") as fout:
        fout.write(raw[:mut["a"]] + mut["new"].encode() + raw[mut["b"]:])
    return path, raw


def make_copy(base, num):
    root = os.path.join(base, "w{}".format(num))
    if os.path.exists(root):
        shutil.rmtree(root)
    # tests/trappy is a link: it has to stay one
    shutil.copytree(REPO, root, symlinks=True, ignore=shutil.ignore_patterns(
        ".git", "__pycache__"))
    return root


def env_of(root, more=()):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", PYTHONPATH=root)
    env.update(more)
    return env


def run_tests(root):
    try:
        res = subprocess.run(
            [PYTHON, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
             "--timeout=60", "tests"] + DESELECT, cwd=root, env=env_of(root),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return res.returncode == 0


def run_checks(root, mut):
    for pid in CHECKS[mut["file"]].split():
        env = env_of(root, dict(VERIF_REPO=root, VERIF_TIER="quick",
                                VERIF_EVIDENCE=root + "-evidence"))
        env.pop("PYTHONPATH")
        try:
            res = subprocess.run(
                [PYTHON, "check.py", pid], cwd=VERIF, env=env, text=True,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        except subprocess.TimeoutExpired:
            return pid, "timeout"
        if res.returncode:
            return pid, "\n".join(res.stdout.splitlines()[-8:])[-700:]
    return None, ""


def each(base, jobs, work):
    todo = [json.loads(line) for line in sys.stdin if line.strip()]
    todo.reverse()
    lock = threading.Lock()

    def loop(num):
        root = make_copy(base, num)
        while True:
            with lock:
                if not todo:
                    break
                mut = todo.pop()
            path, raw = apply(root, mut)
            try:
                line = work(root, mut)
            finally:
                with open(path, "wb") as fout:
                    fout.write(raw)
            if line is not None:
                with lock:
                    print(json.dumps(line), flush=True)
        shutil.rmtree(root)

    threads = [threading.Thread(target=loop, args=(n,)) for n in range(jobs)]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()


def test_work(root, mut):
    return mut if run_tests(root) else None


def check_work(root, mut):
    pid, out = run_checks(root, mut)
    return dict(mut, caught=pid, output=out)


def main():
    if sys.argv[1] == "list":
        for name in sorted(CHECKS):
            for mut in mutants(os.path.join(REPO, "trappy", name), name):
                print(json.dumps(mut))
    else:
        each(sys.argv[2], int(sys.argv[3]),
             test_work if sys.argv[1] == "tests" else check_work)


main()
