"""Generated-input harness shared by every check.

A check is a list of Sub objects.  Each Sub has a Hypothesis strategy that
builds JSON-serialisable cases and a `check(case)` function holding the oracle.
`check` returns a set of class labels (the case's classification); the label
"trivial" marks a case that does not count as non-trivial.  It raises Violation
when the property is broken.

The deciding step is always `check(case)`; Hypothesis only generates and
shrinks.  A failing case is stored as JSON and is replayed without Hypothesis.
"""
import collections
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, signature=None):
        super().__init__(msg)
        self.signature = signature


class HarnessError(BaseException):
    """The check itself is broken (never reported as a violation)."""


class CaseHang(Exception):
    """A case burned its CPU budget without finishing."""


class Skip(BaseException):
    """Case outside the property's domain (counted as excluded)."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Sub(object):
    def __init__(self, name, strategy, check, quick=200, thorough=20, shards=1,
                 rule="", cpu_limit=60, setup=None):
        self.name = name
        self.strategy = strategy        # zero-argument callable -> strategy
        self.check = check
        self.quick = quick              # examples in total at the quick tier
        self.thorough = thorough        # multiplier at the thorough tier
        self.shards = shards
        self.rule = rule
        self.cpu_limit = cpu_limit
        self.setup = setup


def bootstrap():
    """Make /repo and hypothesis importable, in that order of preference"""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if _HYP not in sys.path:
        sys.path.append(_HYP)
    warnings.simplefilter("ignore")


def case_key(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True).encode("utf-8")).hexdigest()


def derive_seed(seed, *parts):
    text = ":".join([str(seed)] + [str(p) for p in parts])
    return int(hashlib.sha256(text.encode("utf-8")).hexdigest()[:12], 16)


SCRATCH = None
KNOWN = {}              # signatures of this property's known findings


def scratch():
    """This worker's scratch directory"""
    return SCRATCH


def fresh_dir(name="case"):
    path = os.path.join(SCRATCH, name)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def _hang(_sig, _frm):
    raise CaseHang("the case used up its CPU budget without finishing")


def violation(msg, signature):
    """Report a violation that may be a known finding: the label to count if
    it is one, Violation otherwise"""
    if signature in KNOWN:
        return "known finding: " + signature
    raise Violation(msg, signature)


def run_case(sub, case):
    """Run one case; returns labels, raises Violation"""
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu_limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            labels = sub.check(case)
        # A check returns labels, or a dict of how often each one occurred
        return labels if isinstance(labels, dict) else \
            {lab: 1 for lab in labels or ()}
    except Violation:
        raise
    except CaseHang as exc:
        raise Violation("no termination: " + str(exc))
    except Exception as exc:
        tb = traceback.format_exc().strip().splitlines()
        raise Violation("unexpected {}: {}\n{}".format(
            type(exc).__name__, exc, "\n".join(tb[-12:])))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(prop, sub, shard, nshards, seed, tier, deadline, out_path):
    global SCRATCH
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis import seed as hseed
    import hypothesis.errors

    SCRATCH = tempfile.mkdtemp(prefix="verif-{}-".format(prop))
    os.chdir(SCRATCH)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    res = dict(sub=sub.name, evaluations=0, nontrivial=[], labels={},
               samples=[], skipped=0, failure=None, error=None,
               out_of_time=False, after_failure=0)
    labels_count = collections.Counter()
    nontrivial = set()
    best = {"len": None, "case": None, "msg": None, "sig": None, "t": None}
    try:
        if sub.setup:
            sub.setup()
        total = sub.quick * (sub.thorough if tier == "thorough" else 1)
        n = max(1, (total + nshards - 1) // nshards)

        def body(case):
            now = time.time()
            if best["case"] is not None:
                # shrinking: bounded in time
                if now - best["t"] > 45:
                    return
                res["after_failure"] += 1
            elif now > deadline:
                res["out_of_time"] = True
                return
            try:
                labels = run_case(sub, case)
            except Skip:
                res["skipped"] += 1
                return
            except Violation as exc:
                size = len(json.dumps(case))
                if best["len"] is None:
                    best["t"] = now
                if best["len"] is None or size <= best["len"]:
                    best.update(len=size, case=case, msg=str(exc),
                                sig=exc.signature)
                raise
            res["evaluations"] += 1
            for lab, times in labels.items():
                labels_count[lab] += times
            if "trivial" not in labels:
                key = case_key(case)
                if key not in nontrivial:
                    nontrivial.add(key)
                    if len(res["samples"]) < 2:
                        text = json.dumps(case)
                        res["samples"].append(
                            case if len(text) < 1500 else text[:1500] + "...")

        test = given(sub.strategy())(body)
        test = hseed(derive_seed(seed, prop, sub.name, shard))(test)
        test = settings(
            max_examples=n, database=None, deadline=None,
            report_multiple_bugs=False, print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.target, Phase.shrink])(test)
        try:
            test()
        except Violation:
            pass
        except hypothesis.errors.HypothesisException:
            if best["case"] is None:
                raise
        except BaseException as exc:
            # Hypothesis raises Flaky* (exception groups in places) once the
            # shrink budget is used up
            if best["case"] is None or isinstance(exc, KeyboardInterrupt):
                raise
        if best["case"] is not None:
            res["failure"] = dict(case=best["case"], msg=best["msg"],
                                  signature=best["sig"])
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)
    res["labels"] = dict(labels_count)
    res["nontrivial"] = sorted(nontrivial)
    with open(out_path, "w") as fout:
        json.dump(res, fout)


def _run_pool(prop, jobs, seed, tier, ncpu, deadline):
    """Run jobs [(sub, shard, nshards)] in forked workers"""
    outdir = tempfile.mkdtemp(prefix="verif-out-")
    pending = collections.deque(enumerate(jobs))
    running = {}
    results = [None] * len(jobs)
    try:
        while pending or running:
            while pending and len(running) < ncpu:
                idx, (sub, shard, nshards) = pending.popleft()
                path = os.path.join(outdir, "{}.json".format(idx))
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        _worker(prop, sub, shard, nshards, seed, tier,
                                deadline, path)
                        code = 0
                    finally:
                        os._exit(code)
                running[pid] = (idx, path)
            pid, status = os.wait()
            if pid not in running:
                continue
            idx, path = running.pop(pid)
            if os.path.exists(path):
                with open(path) as fin:
                    results[idx] = json.load(fin)
            else:
                sub = jobs[idx][0]
                results[idx] = dict(
                    sub=sub.name, evaluations=0, nontrivial=[], labels={},
                    samples=[], skipped=0, failure=None, after_failure=0,
                    out_of_time=False,
                    error="worker ended with status {}".format(status))
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    return results


def load_known(prop):
    """Known findings of this property: signature -> text"""
    known = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as fin:
            for line in fin:
                line = line.strip()
                if not line or line.startswith("fixed:"):
                    continue
                rec = json.loads(line)
                if rec["property"] == prop:
                    known[rec["signature"]] = rec["what"]
    return known


def write_replay(prop, sub_name, failure):
    path = os.path.join(VERIF, "evidence", "replay-{}-{}.json".format(
        prop, sub_name))
    with open(path, "w") as fout:
        json.dump(dict(property=prop, sub=sub_name, case=failure["case"],
                       message=failure["msg"]), fout, indent=1)
    return path


def replay(prop, subs, path):
    global SCRATCH
    KNOWN.update(load_known(prop))
    with open(path) as fin:
        rec = json.load(fin)
    sub = [s for s in subs if s.name == rec["sub"]][0]
    SCRATCH = tempfile.mkdtemp(prefix="verif-{}-".format(prop))
    os.chdir(SCRATCH)
    try:
        if sub.setup:
            sub.setup()
        try:
            run_case(sub, rec["case"])
        except Skip:
            print("case is outside the property's domain")
            return 2
        except Violation as exc:
            print(str(exc))
            print("VIOLATION property={} replay={}".format(prop, path))
            return 1
        print("property {} holds on this case".format(prop))
        return 0
    finally:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)


def main(prop, level, subs, rule, assumptions=(), findings=(), argv=None):
    """findings: list of (signature, text, probe) where probe() is True when
    the known finding still shows on this tree."""
    t0 = time.time()
    argv = sys.argv[2:] if argv is None else argv
    if "--replay" in argv:
        return replay(prop, subs, argv[argv.index("--replay") + 1])
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ncpu = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    limit = float(os.environ.get("VERIF_BUDGET_S",
                                 "420" if tier == "quick" else "5400"))
    known = load_known(prop)
    KNOWN.update(known)

    # Longest first, every sub-check split in shards with its own seed
    jobs = []
    for sub in subs:
        if only and sub.name != only:
            continue
        nsh = sub.shards if tier == "quick" else max(sub.shards, 4)
        jobs += [(sub, i, nsh) for i in range(nsh)]
    results = _run_pool(prop, jobs, seed, tier, ncpu, t0 + limit)

    per_sub = collections.OrderedDict()
    for (sub, _, _), res in zip(jobs, results):
        agg = per_sub.setdefault(sub.name, dict(
            evaluations=0, nontrivial=set(), labels=collections.Counter(),
            samples=[], skipped=0, failure=None, errors=[],
            out_of_time=False, rule=sub.rule))
        agg["evaluations"] += res["evaluations"]
        agg["nontrivial"].update(res["nontrivial"])
        agg["labels"].update(res["labels"])
        if len(agg["samples"]) < 2:
            agg["samples"] += res["samples"][:2 - len(agg["samples"])]
        agg["skipped"] += res["skipped"]
        agg["out_of_time"] |= res["out_of_time"]
        if res["error"]:
            agg["errors"].append(res["error"])
        fail = res["failure"]
        if fail and (agg["failure"] is None or len(json.dumps(fail["case"])) <
                     len(json.dumps(agg["failure"]["case"]))):
            agg["failure"] = fail

    violations = []
    errors = []
    for name, agg in per_sub.items():
        errors += [(name, e) for e in agg["errors"]]
        fail = agg["failure"]
        if fail:
            if fail.get("signature") and fail["signature"] in known:
                continue
            violations.append((name, fail))

    for signature, probe in findings:
        if signature not in known:
            continue
        if probe():
            print("KNOWN-FINDING: property={} {}".format(
                prop, known[signature]))

    evaluations = sum(a["evaluations"] for a in per_sub.values())
    distinct = sum(len(a["nontrivial"]) for a in per_sub.values())
    samples = []
    for name, agg in per_sub.items():
        for case in agg["samples"][:1]:
            samples.append(dict(sub=name, case=case))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=distinct, rule=rule,
            samples=samples[:12],
            per_subcheck={name: dict(
                evaluations=a["evaluations"],
                distinct_nontrivial=len(a["nontrivial"]),
                excluded=a["skipped"], rule=a["rule"],
                inconclusive_time_budget=a["out_of_time"],
                classes=dict(a["labels"].most_common(40)))
                for name, a in per_sub.items()}),
        assumptions=list(assumptions), wall_s=round(time.time() - t0, 2),
        violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    epath = os.path.join(VERIF, "evidence", prop + ".json")
    with open(epath + ".tmp", "w") as fout:
        json.dump(evidence, fout, indent=1)
    os.replace(epath + ".tmp", epath)

    for name, agg in per_sub.items():
        print("{}/{}: {} cases, {} distinct non-trivial, {} excluded{}".format(
            prop, name, agg["evaluations"], len(agg["nontrivial"]),
            agg["skipped"], ", FAILED" if agg["failure"] else ""))
    for name, fail in violations:
        path = write_replay(prop, name, fail)
        print("--- {}/{}: {}".format(prop, name, fail["msg"]))
        print("VIOLATION property={} replay={}".format(prop, path))
    if violations:
        return 1
    if errors:
        for name, err in errors:
            sys.stderr.write("{}/{}: harness error\n{}\n".format(
                prop, name, err))
        return 2
    if evaluations == 0:
        sys.stderr.write("no case was evaluated\n")
        return 2
    print("{}: held on {} cases ({} distinct non-trivial) in {:.1f}s".format(
        prop, evaluations, distinct, time.time() - t0))
    return 0
