"""C16: expressions"""
import math

from hypothesis import strategies as st

import gen
import trappy
from harness import Sub, Skip, expect, violation

LEVEL = "exploration"
RULE = ("Typed expression trees (numbers, booleans, arrays, boolean arrays) are "
        "printed with only the parentheses the documented precedence needs, "
        "plus redundant ones and random spacing, and solved; the tree is "
        "evaluated in plain Python.  Texts that don't follow the grammar must "
        "be refused.  Non-trivial: at least two operators.")
ASSUMPTIONS = ["both operands of a logical operator are evaluated",
               "variables and functions give numbers, booleans or arrays"]

LEVELS = {"**": 1, "*": 3, "/": 3, "//": 3, "%": 3, "+": 4, "-": 4,
          ">": 5, "<": 5, ">=": 5, "<=": 5, "==": 5, "!=": 5,
          "&&": 6, "||": 6, "&": 6, "|": 6}

VARS = {"x": 3, "y": -2.5, "z_1": 0, "_w": 7.0, "big": 12345678901,
        "neg": -4, "half": 0.5, "e5": 11, "n1": 1}
BOOLS = {"t": True, "f_alse": False}
VECS = {"v": [1.0, 2.0, 3.0], "w": [3.0, -1.0, 0.5], "i": [1, 2, 2]}


class Fn(object):
    """A callable that isn't a plain function"""

    def __call__(self, *args):
        return sum(args) + 0.25


def functions():
    import functools
    import numpy as np
    return {
        "f": lambda a: a * 2 + 1,
        "g": lambda a, b: a - b,
        "h3": lambda a, b, c: a * b - c,
        "const": lambda: 42,
        "obj": Fn(),
        "part": functools.partial(lambda a, b: a - 2 * b, 5),
        "npmax": np.maximum,
        "numpy.minimum": np.minimum,
        "math.fabs": math.fabs,
        "numpy.mean": np.mean,
        "total": np.sum,
    }


ARITY = {"f": [1], "g": [2], "h3": [3], "const": [0], "obj": [0, 1, 2, 4],
         "part": [1], "npmax": [2], "numpy.minimum": [2], "math.fabs": [1]}


def number(text):
    return float(text)


def vec(vals):
    import numpy as np
    return np.array(vals)


def evaluate(tree, funs):
    kind = tree[0]
    if kind == "num":
        return number(tree[1])
    if kind == "var":
        name = tree[1]
        if name in VECS:
            return vec(VECS[name])
        return VARS[name] if name in VARS else BOOLS[name]
    if kind == "un":
        val = evaluate(tree[2], funs)
        return -val if tree[1] == "-" else +val
    if kind == "call":
        return funs[tree[1]](*[evaluate(t, funs) for t in tree[2]])
    if kind == "paren":
        return evaluate(tree[1], funs)
    op = tree[1]
    a, b = evaluate(tree[2], funs), evaluate(tree[3], funs)
    if op == "**":
        return a ** b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "//":
        return a // b
    if op == "%":
        return a % b
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == ">":
        return a > b
    if op == "<":
        return a < b
    if op == ">=":
        return a >= b
    if op == "<=":
        return a <= b
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "&&":
        return a and b
    if op == "||":
        return a or b
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    raise ValueError(op)


class Printer(object):
    def __init__(self, spaces):
        self.spaces = spaces
        self.pos = 0

    def gap(self):
        if not self.spaces:
            return " "
        res = self.spaces[self.pos % len(self.spaces)]
        self.pos += 1
        return res

    def show(self, tree):
        """(text, level)"""
        kind = tree[0]
        if kind == "num":
            return tree[1], 0
        if kind == "var":
            return tree[1], 0
        if kind == "paren":
            return "(" + self.gap() + self.show(tree[1])[0] + self.gap() + \
                ")", 0
        if kind == "call":
            args = ("," + self.gap()).join(self.show(t)[0] for t in tree[2])
            return tree[1] + "(" + args + ")", 0
        if kind == "un":
            text = self.limit(tree[2], 2)
            return tree[1] + self.gap() + text, 2
        op = tree[1]
        level = LEVELS[op]
        left = self.limit(tree[2], level)
        right = tree[3]
        if op == "**" and right[0] == "un" and right[2][0] == "num":
            # A sign right before a number is part of the number
            text = right[1] + right[2][1]
        else:
            text = self.limit(right, level - 1)
        return left + self.gap() + op + self.gap() + text, level

    def limit(self, tree, level):
        text, got = self.show(tree)
        return text if got <= level else "(" + text + ")"


def equal(got, want):
    import numpy as np
    if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
        return isinstance(got, np.ndarray) and got.shape == want.shape and \
            all(equal(g, w) for g, w in zip(got.tolist(), want.tolist()))
    if isinstance(want, complex) or isinstance(got, complex):
        return got == want or repr(got) == repr(want)
    if isinstance(want, (bool, np.bool_)) != isinstance(got, (bool, np.bool_)):
        return False
    if want != want:
        return got != got
    return got == want and (got != 0 or str(got)[0] == str(want)[0])


def count_ops(tree):
    own = 1 if tree[0] in ("un", "bin", "call") else 0
    return own + sum(count_ops(t) if t and isinstance(t[0], str) else
                     sum(map(count_ops, t))
                     for t in tree[1:] if isinstance(t, list))


def parser(funs):
    from trappy.stats.grammar import Parser
    pvars = dict(VARS)
    pvars.update(BOOLS)
    pvars.update({k: vec(v) for k, v in VECS.items()})
    pvars.update({k: f for k, f in funs.items() if "." not in k})
    return Parser(trappy.BareTrace(), pvars=pvars)


def solve_quiet(prs, text):
    import numpy as np
    with np.errstate(all="ignore"):
        return prs.solve(text)


def check_values(case):
    import numpy as np
    funs = functions()
    prs = parser(funs)
    labels = set()
    worst = 0
    for tree, spaces in case["exprs"]:
        text = Printer(spaces).show(tree)[0]
        error = None
        try:
            with np.errstate(all="ignore"):
                want = evaluate(tree, funs)
        except (ArithmeticError, ValueError, TypeError) as exc:
            error = exc
        if error is not None:
            try:
                got = solve_quiet(prs, text)
            except Exception:
                labels.add("error")
                continue
            expect(False, "{} gives {} instead of {!r}", text, got, error)
        if isinstance(want, float) and math.isinf(want):
            labels.add("infinite")
        try:
            got = solve_quiet(prs, text)
        except Exception as exc:
            expect(False, "{} raises {!r} instead of giving {!r}", text, exc,
                   want)
        expect(equal(got, want), "{} is {!r} instead of {!r}", text, got, want)
        worst = max(worst, count_ops(tree))
    labels.add("operators: {}".format(min(worst, 8)))
    if worst < 2:
        labels.add("trivial")
    return labels


def valid_prefix_value(text, funs):
    """What the grammar makes of the text if whatever follows the longest
    valid start of it is ignored: (found, value)"""
    prs = parser(funs)
    try:
        return True, solve_quiet(prs, text)
    except Exception:
        return False, None


def check_refused(case):
    funs = functions()
    prs = parser(funs)
    labels = set()
    good = Printer([]).show(case["tree"])[0]
    kind = case["kind"]
    text = case["text"].replace("$", good)
    try:
        got = solve_quiet(prs, text)
    except Exception:
        return {"refused " + kind}
    try:
        want = evaluate(case["tree"], funs)
    except Exception:
        raise Skip()
    if kind == "after" and equal(got, want):
        labels.add(violation(
            "{} gives {} although it is not an expression".format(text, got),
            "text after an expression is ignored"))
        return labels
    expect(kind == "after prefix", "{} gives {}", text, got)
    # Only a valid start of the text was looked at
    labels.add(violation("{} gives {} although it is not an expression".format(
        text, got), "text after an expression is ignored"))
    return labels


def numbers():
    ints = st.one_of(st.integers(0, 12), st.integers(0, 10**6)).map(str)
    reals = st.sampled_from(["0.5", "2.", "1.25", "10.0", "1e3", "2.5e-1",
                             "1E2", "3e+1", "4.e1", "007", "0.1", "1e-3",
                             "100", "1.0E+2"])
    return st.one_of(ints, ints, reals).map(lambda t: ["num", t])


@st.composite
def num_trees(draw, depth):
    if depth <= 0 or draw(st.integers(0, 5)) == 0:
        return draw(st.one_of(numbers(), st.sampled_from(sorted(VARS)).map(
            lambda v: ["var", v])))
    kind = draw(st.integers(0, 9))
    if kind <= 5:
        op = draw(st.sampled_from(["+", "-", "*", "/", "//", "%", "-", "+",
                                   "**"]))
        if op == "**":
            right = draw(st.one_of(
                st.sampled_from(["0", "1", "2", "3", "0.5"]).map(
                    lambda t: ["num", t]),
                st.sampled_from(["1", "2"]).map(
                    lambda t: ["un", "-", ["num", t]]),
                st.just(["var", "half"])))
            left = draw(num_trees(depth - 1))
            if draw(st.integers(0, 3)) == 0:
                left = ["bin", "**", draw(num_trees(0)), draw(
                    st.sampled_from([["num", "2"], ["num", "3"]]))]
            return ["bin", op, left, right]
        return ["bin", op, draw(num_trees(depth - 1)),
                draw(num_trees(depth - 1))]
    if kind == 6:
        return ["un", draw(st.sampled_from(["-", "-", "+"])),
                draw(num_trees(depth - 1))]
    if kind == 7:
        return ["paren", draw(num_trees(depth - 1))]
    if kind == 8:
        name = draw(st.sampled_from(sorted(ARITY)))
        n = draw(st.sampled_from(ARITY[name]))
        return ["call", name, [draw(num_trees(depth - 1 if n < 2 else
                                              depth - 2)) for _ in range(n)]]
    return ["call", draw(st.sampled_from(["numpy.mean", "total"])),
            [draw(vec_trees(depth - 1))]]


@st.composite
def vec_trees(draw, depth):
    if depth <= 0 or draw(st.integers(0, 4)) == 0:
        return ["var", draw(st.sampled_from(sorted(VECS)))]
    kind = draw(st.integers(0, 7))
    if kind == 0:
        return ["un", draw(st.sampled_from(["-", "+"])),
                draw(vec_trees(depth - 1))]
    if kind == 1:
        return ["paren", draw(vec_trees(depth - 1))]
    if kind == 2:
        return ["call", draw(st.sampled_from(["npmax", "g"])),
                [draw(vec_trees(depth - 1)), draw(num_trees(depth - 1))]]
    op = draw(st.sampled_from(["+", "-", "*", "/", "//", "%"]))
    left, right = draw(vec_trees(depth - 1)), draw(st.one_of(
        num_trees(depth - 1), vec_trees(depth - 1)))
    if draw(st.booleans()):
        left, right = right, left
    return ["bin", op, left, right]


REL = [">", "<", ">=", "<=", "==", "!="]


@st.composite
def bool_trees(draw, depth, leaf=num_trees, name=True):
    if depth <= 0 and name:
        return ["var", draw(st.sampled_from(sorted(BOOLS)))]
    kind = draw(st.integers(0, 7))
    if depth <= 0 or kind <= 3:
        return ["bin", draw(st.sampled_from(REL)), draw(leaf(max(
            0, depth - 1))), draw(num_trees(max(0, depth - 1)))]
    if kind == 4:
        return ["paren", draw(bool_trees(depth - 1, leaf, name))]
    ops = ["&&", "||", "&", "|"] if name else ["&", "|"]
    return ["bin", draw(st.sampled_from(ops)),
            draw(bool_trees(depth - 1, leaf, name)),
            draw(bool_trees(depth - 1, leaf, name))]


@st.composite
def mixed_trees(draw, depth):
    """Logical operators between numbers, chained comparisons"""
    kind = draw(st.integers(0, 2))
    if kind == 0:
        return ["bin", draw(st.sampled_from(["&&", "||"])),
                draw(num_trees(depth - 1)), draw(num_trees(depth - 1))]
    if kind == 1:
        return ["bin", draw(st.sampled_from(REL)),
                ["bin", draw(st.sampled_from(REL)), draw(num_trees(depth - 1)),
                 draw(num_trees(depth - 1))], draw(num_trees(depth - 1))]
    return ["bin", draw(st.sampled_from(["&&", "||"])), ["bin", draw(
        st.sampled_from(["&&", "||"])), draw(bool_trees(depth - 1)),
        draw(num_trees(depth - 1))], draw(bool_trees(depth - 1))]


SPACES = st.one_of(
    st.just([""]), st.just([" "]),
    st.lists(st.sampled_from(["", " ", "  ", "\n ", "\t"]), min_size=1,
             max_size=5))


@st.composite
def trees(draw):
    depth = draw(st.integers(1, 4))
    return draw(st.one_of(
        num_trees(depth), num_trees(depth), bool_trees(depth),
        vec_trees(depth), bool_trees(depth, vec_trees, False),
        mixed_trees(depth)))


def value_cases():
    return st.fixed_dictionaries(dict(exprs=gen.sized(
        st.tuples(trees(), SPACES).map(list), 1, 3)))


INVALID = [("never", "* 2"), ("never", ") 1"), ("never", ""),
           ("never", "( $ "), ("never", "!x"), ("never", "< $"),
           ("after prefix", "f($"), ("never", "nosuchvar"), ("never", "no_fun($)"),
           ("never", "$ + nosuchvar"), ("never", "nosuchvar * ($)"),
           ("never", "no.such.module($)"), ("never", "nothing:there"),
           ("never", "numpy.nosuchfunction($)"), ("never", "&& $"),
           ("never", "$ + nothing:there"), ("never", ".5"), ("never", "'a'"),
           ("after", "($))"), ("after", "($) ($)"), ("after", "($) 5"),
           ("after", "($) +"), ("after", "($) **"), ("after", "($) && "),
           ("after", "($) !"), ("after", "($) = 1"), ("after", "($) * (2"),
           ("after", "($) & * 3"), ("after", "($) x"),
           ("after", "($) $$$".replace("$$$", "@"))]


@st.composite
def invalid_cases(draw):
    kind, text = draw(st.sampled_from(INVALID))
    return dict(kind=kind, text=text, tree=draw(num_trees(draw(
        st.integers(0, 2)))))


def probe():
    try:
        return solve_quiet(parser(functions()), "2 3") == 2
    except Exception:
        return False


FINDINGS = [("text after an expression is ignored", probe)]

SUBS = [Sub("values", value_cases, check_values, quick=1600, shards=7),
        Sub("refused", invalid_cases, check_refused, quick=300, shards=1)]
