"""Confirms planted bugs in scratch copies of /repo, and says which checks
catch them.

    plant.py DIR JOBS SEEDED... [--all | --checks C01,C02]

For each folder: the patch applies, the tests still pass, the demonstration
passes without the patch and fails with it, and what the check of its property
(or other checks too) says.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PYTHON = "/opt/venv/bin/python"

# Fail with this version of Python whatever trappy does
DESELECT = ["--deselect=tests/" + test for test in (
    "test_caching.py::TestCaching::test_cache_window_narrow",
    "test_ftrace.py::TestFTrace::test_ftrace_dont_normalize_time",
    "test_ftrace.py::TestHelpfulAttributeError::test_helpful_error",
    "test_plotter.py::TestPlotter::test_get_trace_event_data_corrupted_trace",
    "test_results.py::TestResults::test_get_results",
    "test_stats_grammar.py::TestStatsGrammar::test_no_events")]


def run(cmd, cwd, timeout=900, **env):
    try:
        res = subprocess.run(
            cmd, cwd=cwd, timeout=timeout, text=True, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, errors="replace",
            env=dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                     PYTHONHASHSEED="0", **env))
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return res.returncode, res.stdout


def one(base, seeded, checks):
    seeded = os.path.abspath(seeded)
    name = os.path.basename(seeded)
    with open(os.path.join(seeded, "meta.json")) as fin:
        prop = json.load(fin)["property"]
    root = os.path.join(base, name)
    if os.path.exists(root):
        shutil.rmtree(root)
    # tests/trappy is a link: it has to stay one
    shutil.copytree(REPO, os.path.join(root, "repo"), symlinks=True,
                    ignore=shutil.ignore_patterns("__pycache__"))
    # The demonstration and the checks get copies: nothing of /verif is there
    shutil.copytree(seeded, os.path.join(root, "demo"),
                    ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    shutil.copytree(VERIF, os.path.join(root, "verif"),
                    ignore=shutil.ignore_patterns(".git", "seeded",
                                                  "__pycache__"))
    repo = os.path.join(root, "repo")
    out = ["{} ({})".format(name, prop)]
    demo = ["bash", os.path.join(root, "demo", "demo.sh")]
    code, text = run(demo, repo, 300)
    if code:
        out.append("  DEMO FAILS UNPATCHED: " + text[-400:])
    code, text = run(["git", "apply", os.path.join(seeded, "patch.diff")], repo)
    if code:
        out.append("  DOES NOT APPLY: " + text)
        return "\n".join(out)
    code, text = run(demo, repo, 300)
    if not code:
        out.append("  DEMO PASSES PATCHED")
    code, text = run([PYTHON, "-m", "pytest", "-q", "-x", "-p",
                      "no:cacheprovider", "--timeout=120", "tests"] + DESELECT, repo,
                     PYTHONPATH=repo)
    if code:
        out.append("  TESTS FAIL: " + text[-600:])
    caught = []
    for check in [prop] + [c for c in checks if c != prop]:
        code, text = run([PYTHON, "check.py", check],
                         os.path.join(root, "verif"), VERIF_REPO=repo,
                         VERIF_JOBS="3", VERIF_TIER="quick", VERIF_SEED="1")
        hit = "VIOLATION property={}".format(check) in text
        if code not in (0, 1) or bool(code) != hit:
            out.append("  CHECK {} BROKEN ({}): {}".format(check, code,
                                                           text[-500:]))
        if hit:
            caught.append(check)
    out.append("  caught by: {}{}".format(
        " ".join(caught) or "NOTHING", "" if prop in caught else "  MISSED"))
    shutil.rmtree(root)
    return "\n".join(out)


def main():
    args = sys.argv[3:]
    checks = []
    if "--all" in args:
        args.remove("--all")
        checks = ["C{:02}".format(n) for n in range(1, 28)]
    if "--checks" in args:
        pos = args.index("--checks")
        checks = args[pos + 1].split(",")
        del args[pos:pos + 2]
    with ThreadPoolExecutor(int(sys.argv[2])) as pool:
        for res in pool.map(lambda s: one(sys.argv[1], s, checks), args):
            print(res, flush=True)


main()
