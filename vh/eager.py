"""Properties of amzn-smt-eager-arithmetic."""
import os
import re

from . import smt
from .core import (Discard, Inconclusive, Outcome, Property, Violation, exe, run, scratch, write,
                   write_at)
from .gen import D, cases
from .smt import show, sym

NAMES = ["x", "y", "z", "u", "v", "w", "a1", "b_2", "|q r|", "X", "k!0", "foo.bar", "n", "m",
         "$c", "~d", "|e|", "g1", "h-2"]
BNAMES = ["p", "q", "r", "flag", "|b 0|"]
FNAMES = ["f", "g", "h"]


# ---------------------------------------------------------------- formula generator

class LiaGen:
    """Quantifier-free linear integer arithmetic with uninterpreted functions.  `rho` is a chosen
    assignment; constants are drawn near the values it gives to sums, so that formulas sit close to
    the border between sat and unsat."""

    def __init__(self, d, ints=(1, 5), bools=(0, 2), funs=(0, 0), cmax=6, vmax=12, ite=True,
                 bigs=False, depth=2, let=True, bool_args=True):
        self.d = d
        self.cmax, self.vmax, self.ite, self.bigs, self.depth = cmax, vmax, ite, bigs, depth
        n = d.i(*ints)
        start = d.i(0, len(NAMES) - 1) if d.flag(1, 4) else 0
        self.ints = [NAMES[(start + i) % len(NAMES)] for i in range(n)]
        self.bools = BNAMES[:d.i(*bools)]
        self.funs = {}
        for f in FNAMES[:d.i(*funs)]:
            args = ["Bool" if bool_args and d.flag(1, 5) else "Int" for _ in range(d.i(1, 2))]
            self.funs[f] = (args, "Bool" if d.flag(1, 4) else "Int")
        self.interp = {}
        for x in self.ints:
            self.interp[sym(x)] = d.i(-vmax, vmax)
        for x in self.bools:
            self.interp[sym(x)] = d.flag()
        for k, f in enumerate(self.funs):
            a, b = d.i(-3, 3), d.i(-3, 3)
            if self.funs[f][1] == "Int":
                self.interp[f] = lambda *xs, a=a, b=b: a + sum((b + i) * int(x) for i, x in enumerate(xs)) % 7
            else:
                self.interp[f] = lambda *xs, a=a, b=b: (a + sum((b + i) * int(x) for i, x in enumerate(xs))) % 2 == 0
        self.sorts = {sym(x): ([], "Int") for x in self.ints}
        self.sorts.update({sym(x): ([], "Bool") for x in self.bools})
        self.sorts.update({f: s for f, s in self.funs.items()})
        self.env = smt.Env(self.sorts, self.interp)
        self.lets = let

    def decls(self):
        d = self.d
        out = []
        for x in self.ints:
            out.append(("declare-fun", x, (), "Int") if d.flag(1, 3) else ("declare-const", x, "Int"))
        for x in self.bools:
            out.append(("declare-fun", x, (), "Bool") if d.flag(1, 3) else ("declare-const", x, "Bool"))
        for f, (args, res) in self.funs.items():
            out.append(("declare-fun", f, tuple(args), res))
        return out

    def val(self, t, loc=None):
        return smt.ev(t, self.env, loc)

    def num(self, n):
        return str(n) if n >= 0 else ("-", str(-n))

    def coeff(self):
        d = self.d
        c = d.i(1, self.cmax) if d.flag(7, 8) else d.i(0, 2 * self.cmax)
        return c

    def atom_var(self, depth):
        """something that behaves like a variable in a sum"""
        d = self.d
        opts = [(8, "var")]
        if any(s[1] == "Int" for s in self.funs.values()):
            opts.append((5, "fun"))
        if self.ite and depth > 0:
            opts.append((1, "ite"))
        k = d.weighted(opts)
        if k == "var":
            return d.pick(self.ints)
        if k == "fun":
            return self.app("Int", depth)
        return ("ite", self.formula(depth - 1), self.term(depth - 1), self.term(depth - 1))

    def app(self, sort, depth):
        d = self.d
        f = d.pick([f for f, s in self.funs.items() if s[1] == sort])
        args = []
        for s in self.funs[f][0]:
            if s == "Int":
                args.append(self.term(depth - 1) if depth > 0 else d.pick(self.ints))
            else:
                args.append(self.formula(depth - 1) if depth > 0 else d.pick(self.bools + ["true", "false"]))
        return (f,) + tuple(args)

    def monomial(self, depth):
        d = self.d
        v = self.atom_var(depth)
        k = d.i(0, 5)
        if k <= 1:
            return v
        if k == 2:
            return ("-", v)
        c = self.coeff()
        if k == 3:
            return ("*", str(c), v)
        if k == 4:
            return ("*", v, self.num(c if d.flag() else -c))
        return ("*", ("-", str(c)), v)

    def term(self, depth):
        d = self.d
        k = d.weighted([(4, "mono"), (1, "num"), (4, "plus"), (3, "minus"), (1, "neg")])
        if depth <= 0 and k in ("plus", "minus", "neg"):
            k = "mono"
        if k == "mono":
            return self.monomial(depth)
        if k == "num":
            return self.num(d.i(-self.vmax, self.vmax))
        if k == "plus":
            return ("+",) + tuple(self.term(depth - 1) for _ in range(d.i(1, 3)))
        if k == "minus":
            return ("-",) + tuple(self.term(depth - 1) for _ in range(d.i(2, 3)))
        return ("-", self.term(depth - 1))

    def const_term(self, depth):
        d = self.d
        if depth > 0 and d.flag(1, 3):
            return (d.pick(["+", "-"]),) + tuple(self.const_term(depth - 1) for _ in range(d.i(1, 3)))
        return self.num(d.i(-3, 3))

    def sum_with_var(self, depth):
        """a sum in which at least one variable occurs"""
        m = self.monomial(depth)
        k = self.d.i(0, 3)
        if k == 0:
            return m
        rest = tuple(self.term(depth) for _ in range(self.d.i(1, 3)))
        return ("+" if k <= 2 else "-", m) + rest

    def near(self, v):
        d = self.d
        if self.bigs and d.flag(1, 6):
            return v + d.pick([2 ** 31, 2 ** 62, 2 ** 63, 2 ** 64 + 1, 10 ** 25]) * d.pick([1, -1])
        if d.flag(1, 10):
            return d.i(-self.vmax * 4, self.vmax * 4)
        return v + d.pick([0, 0, 1, -1, 2, -2, 5, -5])

    def constraint(self, depth):
        d = self.d
        k = d.weighted([(12, "const"), (6, "terms"), (4, "diff"), (4, "chain"), (1, "novar")])
        op = d.pick(["<=", ">=", "=", "<", ">", "distinct"])
        if k == "novar":
            return (op,) + tuple(self.const_term(depth) for _ in range(d.i(2, 3)))
        if k == "diff":
            l = ("-", d.pick(self.ints), d.pick(self.ints))
        else:
            l = self.sum_with_var(depth)
        if k == "chain":
            args = [l]
            for _ in range(d.i(1, 2)):
                args.append(self.sum_with_var(depth - 1))
            if d.flag(1, 2):
                args.insert(d.i(0, len(args)), self.num(self.near(self.val(args[-1]))))
            return (op,) + tuple(args)
        if k == "terms":
            return (op, l, self.sum_with_var(depth))
        c = self.num(self.near(self.val(l)))
        return (op, c, l) if d.flag(1, 4) else (op, l, c)

    def formula(self, depth):
        d = self.d
        opts = [(6, "con")]
        if depth > 0:
            opts += [(2, "not"), (3, "and"), (3, "or"), (1, "=>"), (1, "xor"), (1, "iff"), (1, "ite")]
        if self.bools:
            opts.append((2, "bool"))
        if any(s[1] == "Bool" for s in self.funs.values()):
            opts.append((3, "pred"))
        opts.append((1, "lit"))
        k = d.weighted(opts)
        if k == "con":
            return self.constraint(max(depth, 0))
        if k == "bool":
            return d.pick(self.bools)
        if k == "pred":
            return self.app("Bool", depth)
        if k == "lit":
            return d.pick(["true", "false"])
        f = lambda: self.formula(depth - 1)
        if k == "not":
            return ("not", f())
        if k in ("and", "or"):
            return (k,) + tuple(f() for _ in range(d.i(2, 3)))
        if k == "=>":
            return ("=>", f(), f())
        if k == "xor":
            return ("xor", f(), f())
        if k == "iff":
            return ("=", f(), f())
        return ("ite", f(), f(), f())

    def assertion(self, depth):
        """an assertion; mostly true under rho so that many instances are satisfiable"""
        f = self.formula(depth)
        if self.d.flag(5, 6) and not self.val(f):
            f = ("not", f) if not (isinstance(f, tuple) and f[0] == "not") else f[1]
        if self.lets and self.d.flag(1, 8):
            n = "l!%d" % self.d.i(0, 3)
            t = self.d.pick(self.ints)
            f = ("let", ((n, t),), subst(f, t, n))
        return f


def subst(t, a, b):
    if t == a and isinstance(t, str):
        return b
    if isinstance(t, tuple):
        if t and t[0] == "let":
            return t
        return tuple([t[0] if isinstance(t[0], str) else subst(t[0], a, b)] + [subst(x, a, b) for x in t[1:]])
    return t


def script(decls, asserts, logic=None):
    out = []
    if logic:
        out.append(("set-logic", logic))
    out += decls
    out += [("assert", a) for a in asserts]
    out.append(("check-sat",))
    return "\n".join(show(c) for c in out) + "\n"


# ---------------------------------------------------------------- running the solver

CONFLICTS = 15000  # work limit of the stand-in SAT solver on one instance


class Answer:
    __slots__ = ("verdict", "model", "out", "r")


def solve(text, seed=0, fmt=0, extra=None, name="in.smt2"):
    path = write(name, text)
    gave_up = os.path.join(scratch(), "gave-up")
    env = {"VHSAT_SEED": str(seed), "VHSAT_FORMAT": str(fmt), "VHSAT_CONF": str(CONFLICTS),
           "VHSAT_GAVEUP": gave_up}
    if extra:
        env.update(extra)
    r = run([exe("eager"), "solve", "--instance", path, "--solver", exe("fakesat")], env=env)
    if os.path.exists(gave_up):
        os.unlink(gave_up)
        raise Inconclusive("SAT solver reached its conflict limit")
    return interpret(r)


def interpret(r):
    a = Answer()
    a.r, a.out, a.model, a.verdict = r, r.out, None, None
    lines = r.out.split("\n")
    if r.rc == 0:
        if "sat" in lines:
            a.verdict = "sat"
            a.model = "\n".join(lines[lines.index("sat") + 1:])
            if "unsat" in lines:
                raise Violation("both verdicts printed: " + r.brief())
        elif "unsat" in lines:
            a.verdict = "unsat"
    elif "sat" in lines or "unsat" in lines:
        raise Violation("verdict printed but the program failed: " + r.brief())
    return a


def check_model(cmds, a, what=""):
    """All assertions must evaluate to true under the printed model (missing symbols: any value)."""
    sorts = smt.declarations(cmds)
    try:
        interp = smt.parse_model(a.model, sorts)
    except Exception as e:
        raise Violation("%sthe printed model cannot be read (%r):\n%s" % (what, e, a.model))
    for name in interp:
        if name not in sorts:
            raise Violation("%smodel defines %s, which the script does not declare:\n%s" % (what, name, a.model))
    env = smt.Env(sorts, interp)
    for t in smt.assertions(cmds):
        if smt.ev(t, env) is not True:
            raise Violation("%sanswered sat, but the printed model falsifies %s\nmodel:\n%s" % (what, show(t), a.model))
    return interp


def truth(text, cmds, planted=None):
    """'sat'/'unsat' of the original formula, by a planted solution or z3 (whose models we evaluate)."""
    if planted is not None:
        return "sat"
    try:
        r, m = smt.z3_check(text)
    except smt.Unsupported as e:
        raise Discard(str(e))
    if r == "unknown":
        raise Inconclusive("z3 unknown")
    return r


def confirm_sat(text, cmds):
    """A model from z3, checked by our own evaluator."""
    r, m = smt.z3_check(text, 20000)
    if r != "sat":
        return None
    interp = smt.parse_model("(" + m.sexpr() + ")")
    env = smt.Env(smt.declarations(cmds), interp)
    if all(smt.ev(t, env) is True for t in smt.assertions(cmds)):
        return m.sexpr()
    raise Inconclusive("z3 model not confirmed")


def planted_ok(case, cmds):
    """Does the recorded assignment satisfy every assertion?"""
    if not case.get("rho"):
        return False
    env = smt.Env(smt.declarations(cmds), {k: v for k, v in case["rho"].items()})
    try:
        return all(smt.ev(t, env) is True for t in smt.assertions(cmds))
    except smt.Unsupported:
        return False


def need_answer(a, text):
    if a.verdict is None:
        kind = "crashed" if a.r.crashed else "gave no answer"
        raise Violation("the solver %s on a formula of the supported fragment: %s\n%s" % (kind, a.r.brief(), text))


class EagerProperty(Property):
    bins = ("eager", "fakesat")
    assumptions = (
        "own s-expression reader and evaluator decide whether a model satisfies a formula",
        "the SAT solver stand-in (tools/fakesat.cpp) checks its own models; its unsat answers were compared with z3",
    )


# ---------------------------------------------------------------- A01

class A01(EagerProperty):
    id = "A01"
    quick, thorough = 1500, 120000
    rule = ("random QF_LIA scripts (sums, scaled and negated variables, chained/negated comparisons, "
            "distinct, ite, let, Boolean structure, wide constants) solved with a SAT solver that returns "
            "different satisfying assignments for different seeds; non-trivial: answered sat and at least "
            "one integer variable occurs in the model")

    def strategy(self):
        def mk(d):
            k = d.weighted([(30, "lia"), (10, "idl"), (12, "tight"), (6, "wide"), (4, "dioph"), (1, "coeff")])
            if k == "lia":
                g = LiaGen(d, ints=(1, 5), bools=(0, 2), bigs=d.flag(1, 3), depth=2)
                n = d.i(1, 4)
                decls, asserts = g.decls(), [g.assertion(d.i(0, 2)) for _ in range(n)]
            else:
                decls, asserts, _ = SPECIAL[k](d)
            return {"smt": script(decls, asserts), "seeds": [d.i(0, 3), d.i(4, 1000000)], "fmt": d.i(0, 3)}
        return cases(mk)

    def judge(self, case):
        text = case["smt"]
        cmds = smt.parse(text)
        ok = False
        tags = set()
        for s in case["seeds"]:
            a = solve(text, s, case["fmt"])
            if a.verdict is None:
                raise Discard("no answer (see A02)")
            tags.add(a.verdict)
            if a.verdict == "unsat":
                break
            interp = check_model(cmds, a)
            vals = [v for v in interp.values() if isinstance(v, int) and not isinstance(v, bool)]
            ok = ok or bool(vals)
            if any(abs(v) >= 2 ** 62 for v in vals):
                tags.add("wide-value")
            if any(v < 0 for v in vals):
                tags.add("negative-value")
        return Outcome(ok, tags)


# ---------------------------------------------------------------- A02

def gen_growth(d):
    """Satisfiable chains whose smallest solution is as large as the structure allows."""
    n = d.i(2, 14)
    base = d.i(0, 3)
    names = ["v%d" % d.i(0, 99999) if d.flag(1, 3) else "c%d" % i for i in range(n)]
    names = ["%s_%d" % (x, i) for i, x in enumerate(names)]
    val = [d.i(1, 3)]
    asserts = [(d.pick([">=", "="]), names[0], str(val[0]))]
    sign = d.pick([1, 1, -1])
    if sign < 0:
        asserts = [(d.pick(["<=", "="]), names[0], ("-", str(val[0])))]
    kind = d.pick(["double", "step", "mix", "sum"])
    for i in range(1, n):
        k = kind if kind != "mix" else d.pick(["double", "step", "sum"])
        x, y = names[i - 1], names[i]
        rel = d.pick([">=", "="])
        if sign < 0:
            rel = "<=" if rel == ">=" else "="
        if k == "double":
            c = d.i(2, 4)
            v = c * val[-1]
            form = d.i(0, 4)
            t = [(rel, y, ("*", str(c), x)), (rel, ("-", y, ("*", str(c), x)), "0"),
                 (rel, ("+", y, ("*", ("-", str(c)), x)), "0"),
                 (rel, "0", ("-", ("*", str(c), x), y)),
                 (rel, y, ("+",) + (x,) * c)][form]
        elif k == "sum" and i >= 2:
            z = names[i - 2]
            v = val[-1] + val[-2]
            t = d.pick([(rel, y, ("+", x, z)), (rel, ("-", y, x, z), "0"), (rel, ("-", y, x), z)])
        else:
            c = base
            v = val[-1] + c
            t = d.pick([(rel, ("-", y, x), self_num(sign * c)), (rel, y, ("+", x, self_num(sign * c))),
                        (rel, ("+", ("-", x), y), self_num(sign * c))])
        if rel in (">=", "<=") and d.flag(1, 3):
            t = strict(t, rel)
            v += 1
        val.append(v)
        asserts.append(t)
    if d.flag(1, 3):
        i = d.i(0, n - 1)
        asserts.append(("<=", names[i], self_num(val[i])) if sign > 0 else (">=", names[i], self_num(-val[i])))
    asserts = d.shuffled(asserts)
    rho = {x: sign * v for x, v in zip(names, val)}
    decls = [("declare-const", x, "Int") for x in d.shuffled(names)]
    return decls, asserts, rho


def self_num(n):
    return str(n) if n >= 0 else ("-", str(-n))


def strict(t, rel):
    return ({">=": ">", "<=": "<"}[rel],) + t[1:]


def gen_distinct(d):
    """All variables different, possibly ordered, in a tight box: needs n different values."""
    n = d.i(2, 7)
    names = ["d%d" % i for i in range(n)]
    lo = d.i(-3, 3)
    perm = d.shuffled(range(n))
    rho = {x: lo + p for x, p in zip(names, perm)}
    k = d.i(0, 2)
    asserts = []
    if k == 0:
        asserts.append(("distinct",) + tuple(names))
        rho = {x: p for x, p in zip(names, perm)}
        if d.flag():
            # 0 must not be used either: pure equalities, n non-zero values
            asserts += [("not", ("=", x, "0")) for x in names]
            rho = {x: p + 1 for x, p in zip(names, perm)}
    elif k == 1:
        for i in range(n):
            for j in range(i):
                asserts.append(("not", ("=", names[i], names[j])))
        asserts += [(">=", x, self_num(lo)) for x in names]
        asserts += [("<=", x, self_num(lo + n - 1)) for x in names]
    else:
        order = sorted(names, key=lambda x: rho[x])
        op = d.pick(["<", ">"])
        asserts.append((op,) + tuple(order if op == "<" else order[::-1]))
        asserts += [(">=", order[0], self_num(lo)), ("<=", order[-1], self_num(lo + n - 1))]
        asserts = d.shuffled(asserts)
    decls = [("declare-const", x, "Int") for x in names]
    return decls, asserts, rho


def gen_dioph(d):
    """Equations with a planted solution (a x + b y = c and friends)."""
    n = d.i(2, 4)
    names = ["e%d" % i for i in range(n)]
    rho = {x: d.i(-9, 9) for x in names}
    asserts = []
    for _ in range(d.i(1, n)):
        t = ("+",)
        v = 0
        for x in names:
            c = d.i(-7, 7)
            if c:
                t += (("*", self_num(c), x),)
                v += c * rho[x]
        if len(t) == 1:
            continue
        off = d.pick([0, 0, v])
        asserts.append((d.pick(["=", "=", "<=", ">="]), t + ((self_num(-off),) if off else ()), self_num(v - off)))
    if not asserts:
        asserts = [("=", names[0], self_num(rho[names[0]]))]
    return [("declare-const", x, "Int") for x in names], asserts, rho


def holds(op, a, b):
    return {"<=": a <= b, ">=": a >= b, "<": a < b, ">": a > b, "=": a == b, "distinct": a != b}[op]


def gen_idl(d):
    """Many comparisons between few variables: both directions of one pair, orders, cycles."""
    n = d.i(2, 5)
    names = ["i%d" % i for i in range(n)]
    width = d.pick([1, 2, 3, 9])
    rho = {x: d.i(-width, width) for x in names}
    plant = d.flag(3, 5)
    off = d.pick([[0], [0, 0, 1, -1], [0, 1, -1, 3, -7]])

    def atom():
        x, y = d.pick(names), d.pick(names)
        if x == y:
            x, y = names[0], names[1]
        c = d.pick(off)
        op = d.pick(["<=", ">=", "<", ">", "=", "distinct", ">=", "<"])
        form = d.i(0, 4)
        if form <= 1:
            t, v = (op, x, y), (rho[x], rho[y])
        elif form == 2:
            t, v = (op, ("-", x, y), self_num(c)), (rho[x] - rho[y], c)
        elif form == 3:
            t, v = (op, x, ("+", y, self_num(c))), (rho[x], rho[y] + c)
        else:
            t, v = (op, x, self_num(c)), (rho[x], c)
        ok = holds(op, *v)
        if plant and not ok:
            return ("not", t)
        return ("not", t) if d.flag(1, 4) and not (plant and ok) else t
    asserts = []
    for _ in range(d.i(2, 9)):
        k = d.weighted([(6, "one"), (2, "or"), (1, "chain"), (1, "and")])
        if k == "one":
            asserts.append(atom())
        elif k == "or":
            asserts.append(("or", atom(), atom()))
        elif k == "and":
            asserts.append(("and", atom(), atom(), atom()))
        else:
            xs = d.shuffled(names)[:d.i(2, 4)]
            op = d.pick(["<=", "<", ">", ">=", "distinct", "="])
            v = [rho[x] for x in xs]
            pairs = [(a, b) for i, a in enumerate(v) for b in v[i + 1:]] if op == "distinct" else list(zip(v, v[1:]))
            t = (op,) + tuple(xs)
            asserts.append(t if not plant or all(holds(op, a, b) for a, b in pairs) else ("not", t))
    return [("declare-const", x, "Int") for x in names], asserts, rho if plant else None


def gen_tight(d):
    """Distinct or ordered variables in a box that has just enough room, one place too few or one to spare."""
    n = d.i(2, 5)
    names = ["t%d" % i for i in range(n)]
    lo = d.i(-4, 3)
    hi = lo + n - 1 + d.pick([0, 0, -1, -1, 1])
    k = d.i(0, 3)
    if k == 0:
        asserts = [("distinct",) + tuple(names)]
    elif k == 1:
        asserts = [(d.pick(["<", ">"]),) + tuple(names)]
    elif k == 2:
        asserts = [("not", (d.pick(["=", "<=", ">="]),) + tuple(names))]
        hi = lo + d.i(0, 2)
    else:
        # one of the outer values must be taken twice
        asserts = [("distinct",) + tuple(names), ("=", names[0], names[-1]) if d.flag() else
                   ("=", ("+", names[0], "1"), ("+", names[-1], "1"))]
    for x in names:
        asserts += [(">=", x, self_num(lo)), ("<=", x, self_num(hi))] if d.flag(3, 4) else \
            [("<=", self_num(lo), x, self_num(hi))]
    return [("declare-const", x, "Int") for x in names], d.shuffled(asserts), None


def gen_groups(d):
    """Groups of variables with different magnitudes and widths that are joined afterwards."""
    groups, rho, asserts, k = [], {}, [], 0
    for _ in range(d.i(2, 4)):
        xs = ["g%d" % (k + i) for i in range(d.i(1, 3))]
        k += len(xs)
        mag = d.pick([1, 3, 50, 10 ** 4, 10 ** 7, 2 ** 40])
        sign = d.pick([1, 1, -1])
        for x in xs:
            rho[x] = sign * d.i(mag // 2, mag)
        groups.append(xs)
        cmax = d.pick([1, 1, 2, 9])
        for _ in range(d.i(1, 2)):
            ys = d.shuffled(xs)[:d.i(1, len(xs))]
            co = [d.i(1, cmax) * d.pick([1, 1, -1]) for _ in ys]
            v = sum(c * rho[y] for c, y in zip(co, ys))
            t = [y if c == 1 else ("-", y) if c == -1 else ("*", self_num(c), y) for c, y in zip(co, ys)]
            t = t[0] if len(t) == 1 else ("+",) + tuple(t)
            slack = d.pick([0, 0, 1])
            op = d.pick([">=", "<=", "="]) if cmax > 1 or d.flag() else (">=" if sign > 0 else "<=")
            asserts.append((op, t, self_num(v + (0 if op == "=" else slack if op == "<=" else -slack))))
    links = []
    for i in range(1, len(groups)):
        x, y = d.pick(groups[i]), d.pick(groups[d.i(0, i - 1)])
        diff = rho[x] - rho[y]
        op = d.pick([">=", "<=", "=", ">=", "<="])
        small = d.flag(2, 3)
        if small:  # a link that mentions no large constant
            links.append((">=", x, y) if diff >= 0 else ("<", x, y) if d.flag() else (">=", ("-", y, x), "1"))
        else:
            links.append((op, ("-", x, y), self_num(diff)))
    if d.flag(1, 4):
        asserts = d.shuffled(asserts + links)
    else:
        asserts += links
    names = list(rho)
    return [("declare-const", x, "Int") for x in d.shuffled(names)], asserts, rho


def gen_wide(d):
    """Long scripts: many conditionals, many small constraints, long sums or disjunctions."""
    n = d.i(6, 14)
    names = ["w%d" % i for i in range(n)]
    rho = {x: d.i(-5, 5) for x in names}
    bools = ["p%d" % i for i in range(3)]
    asserts = []
    k = d.weighted([(3, "ite"), (2, "sum"), (2, "or"), (1, "small")])
    if k == "sum":
        for _ in range(d.i(1, 3)):
            co = [d.i(-2, 2) or 1 for _ in names]
            v = sum(c * rho[x] for c, x in zip(co, names))
            asserts.append((d.pick(["<=", ">=", "="]), ("+",) + tuple(("*", self_num(c), x) for c, x in zip(co, names)),
                            self_num(v)))
        asserts = asserts[:1] + [("=", x, self_num(rho[x])) for x in names[:d.i(0, n)]] + asserts[1:]
    elif k == "or":
        for i in range(d.i(2, 4)):
            good = d.pick(names)
            asserts.append(("or",) + tuple(("=", x, self_num(rho[x] + (0 if x == good else 1))) for x in names))
            if d.flag():
                asserts.append(("<=", good, self_num(rho[good])))
    else:
        rho.update({b: d.flag() for b in bools})
        for i, x in enumerate(names):
            if k == "ite":
                y = d.pick(names)
                b = d.pick(bools)
                other = rho[x] - d.pick([0, 1, -1, 5])
                t, e = (self_num(rho[x]), self_num(other)) if rho[b] else (self_num(other), self_num(rho[x]))
                if d.flag(1, 3):
                    b2 = d.pick(bools)
                    t = ("ite", b2, t, ("+", t, "1")) if rho[b2] else ("ite", b2, ("+", t, "1"), t)
                asserts.append((d.pick(["=", ">=", "<="]), x, ("ite", b, t, e)))
                if d.flag(1, 3):
                    asserts.append(("=", x, self_num(rho[x])))
            else:
                asserts.append((d.pick([">=", "<=", "="]), x, self_num(rho[x])))
        for b in bools:
            if d.flag(1, 3):
                asserts.append(b if rho[b] else ("not", b))
        if d.flag(1, 3):
            # usually contradicts the conditionals
            x = d.pick(names)
            asserts.append(("not", ("=", x, self_num(rho[x]))))
            return ([("declare-const", x, "Int") for x in names] + [("declare-const", b, "Bool") for b in bools],
                    asserts, None)
    used = [b for b in bools if b in rho]
    return ([("declare-const", x, "Int") for x in names] + [("declare-const", b, "Bool") for b in used],
            asserts, rho)


def gen_coeff(d):
    """Coefficients far beyond those of ordinary scripts, on variables whose values are given (so that the
    SAT solver only has to propagate)."""
    n = d.i(1, 2)
    names = ["b%d" % i for i in range(n)]
    rho = {x: d.i(-3, 3) or 1 for x in names}
    co = [d.pick([64, 127, 128, 129, 200, 255, 256, 257, 300]) + d.i(0, 3) for _ in names]
    if n == 2:
        co[1] = d.i(1, 9)
    co = [c * d.pick([1, 1, -1]) for c in co]
    v = sum(c * rho[x] for c, x in zip(co, names))
    t = ("+",) + tuple(("*", self_num(c), x) if d.flag(2, 3) else ("*", x, self_num(c)) for c, x in zip(co, names))
    op = d.pick(["=", "=", ">=", "<=", ">", "<"])
    asserts = [(op, t, self_num(v + {">": -1, "<": 1}.get(op, 0)))]
    asserts += [("=", x, self_num(rho[x])) for x in names]
    return [("declare-const", x, "Int") for x in names], asserts, rho


SPECIAL = {"growth": gen_growth, "distinct": gen_distinct, "dioph": gen_dioph, "idl": gen_idl,
           "tight": gen_tight, "groups": gen_groups, "wide": gen_wide, "coeff": gen_coeff}


class A02(EagerProperty):
    id = "A02"
    quick, thorough = 1800, 120000
    rule = ("half the scripts are satisfiable by construction and need large or many different values "
            "(growth chains, tight boxes of distinct values, equation systems), half are random LIA scripts "
            "decided by z3; non-trivial: satisfiable by construction, or answered unsat and confirmed")

    def strategy(self):
        def mk(d):
            k = d.weighted([(30, "lia"), (30, "growth"), (10, "distinct"), (20, "dioph"), (30, "idl"), (15, "tight"),
                            (25, "groups"), (10, "wide"), (2, "coeff")])
            if k == "lia":
                g = LiaGen(d, ints=(1, 4), bools=(0, 2), funs=(0, 1), bigs=d.flag(1, 4), depth=2)
                asserts = [g.assertion(d.i(0, 2)) for _ in range(d.i(1, 4))]
                return {"smt": script(g.decls(), asserts), "rho": None, "kind": k, "seed": d.i(0, 99)}
            decls, asserts, rho = SPECIAL[k](d)
            return {"smt": script(decls, asserts), "rho": rho, "kind": k, "seed": d.i(0, 99)}
        return cases(mk)

    def judge(self, case):
        text = case["smt"]
        cmds = smt.parse(text)
        planted = planted_ok(case, cmds)
        if case["rho"] is not None and not planted:
            raise AssertionError("generator: planted solution does not satisfy the script")
        a = solve(text, case["seed"])
        need_answer(a, text)
        if a.verdict == "sat":
            check_model(cmds, a)
            return Outcome(planted, [case["kind"] + "-sat"])
        if planted:
            raise Violation("answered unsat, but %s satisfies the script:\n%s" % (case["rho"], text))
        t = truth(text, cmds)
        if t == "sat":
            m = confirm_sat(text, cmds)
            if m is not None:
                raise Violation("answered unsat, but this model satisfies the script:\n%s\n%s" % (m, text))
            raise Inconclusive("z3 model lost")
        return Outcome(True, [case["kind"] + "-unsat"])


# ---------------------------------------------------------------- A03

MINISAT_STUB = """#!/bin/bash
# stands in for minisat: keeps the DIMACS problem it is given
out=
for a in "$@"; do case "$a" in -dimacs=*) out="${a#-dimacs=}";; esac; done
if [ "$VHMINI" = fail ]; then cat > /dev/null; exit 3; fi
cat > "$out"
exit 0
"""


def dimacs_check(text):
    """(vars, clauses) of a well-formed DIMACS file; Violation otherwise."""
    lines = [l for l in text.split("\n") if l and not l.startswith("c")]
    if not lines or not lines[0].startswith("p cnf "):
        raise Violation("encoding has no DIMACS header: %r" % text[:200])
    h = lines[0].split()
    if len(h) != 4:
        raise Violation("bad DIMACS header %r" % lines[0])
    nv, nc = int(h[2]), int(h[3])
    clauses, cur = [], []
    for l in lines[1:]:
        if l.startswith("p"):
            raise Violation("second DIMACS header")
        for t in l.split():
            try:
                x = int(t)
            except ValueError:
                raise Violation("bad DIMACS literal %r" % t)
            if x == 0:
                clauses.append(cur)
                cur = []
            else:
                if abs(x) > nv:
                    raise Violation("literal %d out of range (header declares %d variables)" % (x, nv))
                cur.append(x)
    if cur:
        raise Violation("last DIMACS clause is not terminated by 0")
    if len(clauses) != nc:
        raise Violation("DIMACS header declares %d clauses, file has %d" % (nc, len(clauses)))
    return nv, clauses


class A03(EagerProperty):
    id = "A03"
    quick, thorough = 1600, 60000
    rule = ("random LIA/UF scripts and satisfiable-by-construction chains run through `encode` with a stand-in "
            "for minisat that keeps its input; the DIMACS is parsed strictly and solved, its verdict compared "
            "with the script's (planted solution or z3); non-trivial: at least 20 clauses and a decided script")

    def strategy(self):
        def mk(d):
            k = d.weighted([(50, "lia"), (15, "growth"), (5, "distinct"), (10, "dioph"), (15, "idl"), (10, "tight"),
                            (10, "groups"), (8, "wide"), (4, "coeff")])
            if k == "lia":
                g = LiaGen(d, ints=(1, 4), bools=(0, 2), funs=(0, 1), depth=2)
                asserts = [g.assertion(d.i(0, 2)) for _ in range(d.i(1, 3))]
                return {"smt": script(g.decls(), asserts), "rho": None, "kind": k, "fail": d.flag(1, 20)}
            decls, asserts, rho = SPECIAL[k](d)
            return {"smt": script(decls, asserts), "rho": rho, "kind": k, "fail": d.flag(1, 20)}
        return cases(mk)

    def judge(self, case):
        text = case["smt"]
        cmds = smt.parse(text)
        bindir = os.path.join(scratch(), "bin")
        os.mkdir(bindir)
        stub = write_at(os.path.join(bindir, "minisat"), MINISAT_STUB)
        os.chmod(stub, 0o755)
        path = write("in.smt2", text)
        outp = os.path.join(scratch(), "out file.cnf")
        env = {"PATH": bindir + ":" + os.environ.get("PATH", "/usr/bin:/bin")}
        if case["fail"]:
            env["VHMINI"] = "fail"
        r = run([exe("eager"), "encode", "--instance", path, "--cnf-outfile", outp], env=env)
        if case["fail"]:
            if r.rc == 0:
                raise Violation("encode reports success although the DIMACS writer failed")
            return Outcome(True, ["writer-fails"])
        if r.rc != 0:
            raise Violation("encode failed on a formula of the supported fragment: %s\n%s" % (r.brief(), text))
        if not os.path.exists(outp):
            raise Violation("encode reported success but handed over no encoding")
        with open(outp) as f:
            dim = f.read()
        nv, clauses = dimacs_check(dim)
        r = run([exe("fakesat")], stdin=dim.encode(), env={"VHSAT_CONF": str(CONFLICTS)})
        if r.rc not in (10, 20):
            raise Inconclusive("stand-in solver failed")
        got = "sat" if r.rc == 10 else "unsat"
        want = truth(text, cmds, case["rho"] if planted_ok(case, cmds) else None)
        if got != want:
            if want == "sat" and not planted_ok(case, cmds):
                if confirm_sat(text, cmds) is None:
                    raise Inconclusive("z3 model lost")
            if want == "unsat":
                # z3 must be sure of itself when asked again
                if smt.z3_check(text, 20000)[0] != "unsat":
                    raise Inconclusive("z3 changed its mind")
            raise Violation("the script is %s but its encoding is %s\n%s" % (want, got, text))
        return Outcome(len(clauses) >= 20, [case["kind"] + "-" + got])


# ---------------------------------------------------------------- A04

NO_VERDICT = ["noread", "empty", "crash", "unknown", "garbage", "comment_only", "lowercase", "cut_unsat",
              "badlit", "missing"]


class A04(EagerProperty):
    id = "A04"
    quick, thorough = 10000, 60000
    rule = ("random scripts x behaviours of the external SAT solver (dies, says nothing, answers unknown or "
            "garbage, truncated or malformed answers, is missing, claims unsat) and x damaged instances "
            "(missing file, truncated text, unbalanced parentheses); non-trivial: a fault was injected")

    def strategy(self):
        def mk(d):
            g = LiaGen(d, ints=(1, 3), bools=(0, 1), depth=1)
            asserts = [g.assertion(d.i(0, 1)) for _ in range(d.i(1, 2))]
            text = script(g.decls(), asserts)
            kind = d.weighted([(6, "solver"), (2, "force_unsat"), (1, "cut_model"), (2, "cut"), (2, "paren"),
                               (1, "nofile"), (1, "none")])
            c = {"smt": text, "kind": kind, "seed": d.i(0, 99), "fmt": d.i(0, 3)}
            if kind == "solver":
                c["fault"] = d.pick(NO_VERDICT)
            if kind == "cut":
                c["at"] = d.i(1, max(1, text.rindex("(check-sat)") - 3))
            if kind == "paren":
                c["at"] = d.i(0, text.count("(") + text.count(")") - 1)
            return c
        return cases(mk)

    def judge(self, case):
        text, kind = case["smt"], case["kind"]
        cmds = smt.parse(text)
        if kind in ("cut", "paren"):
            if kind == "cut":
                bad = text[:case["at"]]
            else:
                k = -1
                for i, c in enumerate(text):
                    if c in "()":
                        k += 1
                        if k == case["at"]:
                            bad = text[:i] + text[i + 1:]
                            break
            try:
                smt.parse(bad)
                raise Discard("still balanced")
            except ValueError:
                pass
            a = solve(bad, case["seed"], case["fmt"])
            if a.verdict is not None:
                raise Violation("answered %s to an instance that is not well-formed:\n%s" % (a.verdict, bad))
            if a.r.rc == 0:
                raise Violation("exit status 0 for an instance that is not well-formed:\n%s" % bad)
            return Outcome(True, [kind])
        if kind == "nofile":
            r = run([exe("eager"), "solve", "--instance", os.path.join(scratch(), "absent.smt2"),
                     "--solver", exe("fakesat")])
            if r.rc == 0 or interpret(r).verdict is not None:
                raise Violation("a missing instance is not reported as an error: " + r.brief())
            return Outcome(True, [kind])
        if kind == "none":
            a = solve(text, case["seed"], case["fmt"])
            need_answer(a, text)
            if a.verdict == "sat":
                check_model(cmds, a)
            return Outcome(False, [kind])
        if kind == "solver" and case["fault"] == "missing":
            path = write("in.smt2", text)
            r = run([exe("eager"), "solve", "--instance", path, "--solver", os.path.join(scratch(), "nosuchsolver")])
            a = interpret(r)
        else:
            a = solve(text, case["seed"], case["fmt"], {"VHSAT_FAULT": case.get("fault") or kind})
        if kind == "solver":
            if a.verdict is not None:
                raise Violation("solver misbehaviour %r, but %s was answered: %s" % (case["fault"], a.verdict, a.r.brief()))
            if a.r.rc == 0:
                raise Violation("solver misbehaviour %r is not reported: exit status 0" % case["fault"])
            return Outcome(True, [case["fault"]])
        if kind == "force_unsat":
            if a.verdict != "unsat":
                raise Violation("the SAT solver reported unsatisfiable, but the program said: " + a.r.brief())
            return Outcome(True, [kind])
        if a.verdict == "unsat":
            if solve(text, case["seed"], case["fmt"]).verdict != "unsat":
                raise Violation("the SAT solver reported satisfiable (with a truncated model), the program unsat")
        return Outcome(True, [kind])


# ---------------------------------------------------------------- A05

class A05(EagerProperty):
    id = "A05"
    quick, thorough = 3000, 80000
    rule = ("random scripts over 1-3 uninterpreted functions (1-2 arguments, Int/Bool arguments and results, "
            "nested applications, applications under ite and let); sat: the printed function tables are evaluated "
            "in every assertion, unsat: z3 agrees; non-trivial: some function is applied to two different terms")

    def strategy(self):
        def mk(d):
            g = LiaGen(d, ints=(1, 3), bools=(0, 2), funs=(1, 3), depth=2, vmax=6, cmax=3)
            asserts = [g.assertion(d.weighted([(3, 0), (3, 1), (1, 2)])) for _ in range(d.i(1, 4))]
            # equal arguments must give equal results: congruence-shaped assertions
            for _ in range(d.i(0, 2)):
                f = d.pick(list(g.funs))
                args, res = g.funs[f]
                xs = [d.pick(g.ints) if s == "Int" else d.pick(g.bools + ["true"]) for s in args]
                ys = [d.pick(g.ints) if s == "Int" else d.pick(g.bools + ["false"]) for s in args]
                a, b = (f,) + tuple(xs), (f,) + tuple(ys)
                ne = ("not", ("=", a, b)) if d.flag() else (("distinct", a, b) if res == "Int" else ("xor", a, b))
                asserts.append(ne if d.flag(2, 3) else ("=", a, b))
                for x, y, s in zip(xs, ys, args):
                    if d.flag(1, 2):
                        asserts.append(("=", x, y) if s == "Bool" or d.flag() else ("and", ("<=", x, y), (">=", x, y)))
            return {"smt": script(g.decls(), asserts), "seeds": [d.i(0, 3), d.i(4, 100000)], "funs": list(g.funs)}
        return cases(mk)

    def judge(self, case):
        text = case["smt"]
        cmds = smt.parse(text)
        apps = set()

        def walk(t):
            if isinstance(t, tuple) and t:
                if t[0] in case["funs"]:
                    apps.add(t)
                for x in t[1:]:
                    walk(x)
        for t in smt.assertions(cmds):
            walk(t)
        per = [len({a for a in apps if a[0] == f}) for f in case["funs"]]
        if sum(n * (n - 1) // 2 for n in per) > 40:
            raise Discard("too many pairs of applications for one case")
        multi = any(n > 1 for n in per)
        tags = set()
        for s in case["seeds"]:
            a = solve(text, s, extra={"VHSAT_CONF": "3000"})
            need_answer(a, text)
            tags.add(a.verdict)
            if a.verdict == "unsat":
                if truth(text, cmds) == "sat":
                    m = confirm_sat(text, cmds)
                    if m is not None:
                        raise Violation("answered unsat, but this model satisfies the script:\n%s\n%s" % (m, text))
                    raise Inconclusive("z3 model lost")
                break
            check_model(cmds, a)
        return Outcome(multi, tags)


# ---------------------------------------------------------------- A06

class A06(EagerProperty):
    id = "A06"
    quick, thorough = 9000, 100000
    rule = ("random Boolean combinations of bvule over bit-vector variables and constants of width 1-70 "
            "(#b and (_ bvN w) notation), mixed with integer constraints; sat: model evaluated, unsat: checked "
            "against a planted assignment or z3; non-trivial: a constant occurs, or unsat")

    def strategy(self):
        def mk(d):
            w = d.weighted([(6, d.i(1, 5)), (1, d.i(6, 20)), (1, d.i(60, 70))])
            names = ["x", "y", "z", "|v w|"][:d.i(1, 4)]
            rho = {sym(x): d.i(0, 2 ** w - 1) for x in names}

            def const(n):
                n %= 2 ** w
                return "#b" + format(n, "0%db" % w) if d.flag(2, 3) else ("_", "bv%d" % n, str(w))

            def atom():
                x = d.pick(names)
                k = d.i(0, 4)
                if k == 0:
                    return ("bvule", x, d.pick(names))
                c = const(rho[sym(x)] + d.pick([0, 0, 1, -1, 2, -2, 2 ** (w - 1)]) if d.flag(3, 4) else d.i(0, 2 ** w - 1))
                return ("bvule", x, c) if k <= 2 else ("bvule", c, x)

            def form(n):
                k = d.i(0, 6) if n else 0
                if k <= 2:
                    return atom()
                if k == 3:
                    return ("not", form(n - 1))
                if k == 4:
                    return ("or", form(n - 1), form(n - 1))
                if k == 5:
                    return ("and", form(n - 1), form(n - 1))
                return ("=>", form(n - 1), form(n - 1))
            env = smt.Env({}, {k: smt.BV(v, w) for k, v in rho.items()})
            asserts = []
            for _ in range(d.i(1, 5)):
                f = form(d.i(0, 2))
                if d.flag(4, 5) and not smt.ev(strip_bv(f), env):
                    f = ("not", f)
                asserts.append(f)
            decls = [("declare-const", x, ("_", "BitVec", str(w))) for x in names]
            if d.flag(1, 4):
                decls.append(("declare-const", "k", "Int"))
                c = ("<=", ("*", str(d.i(1, 3)), "k"), str(d.i(0, 9)))
                asserts.append(c if d.flag() else ("or", c, atom()))
            return {"smt": script(decls, asserts), "rho": rho, "w": w, "seeds": [d.i(0, 3), d.i(4, 1000)]}
        return cases(mk)

    def judge(self, case):
        text = case["smt"]
        cmds = [strip_bv(c) for c in smt.parse(text)]
        env = smt.Env(smt.declarations(cmds), {k: smt.BV(v, case["w"]) for k, v in case["rho"].items()})
        planted = all(smt.ev(t, env) is True for t in smt.assertions(cmds))
        tags = {"wide"} if case["w"] > 5 else set()
        for s in case["seeds"]:
            a = solve(text, s)
            need_answer(a, text)
            tags.add(a.verdict)
            if a.verdict == "sat":
                check_model(cmds, a)
            else:
                if planted:
                    raise Violation("answered unsat, but %s satisfies the script:\n%s" % (case["rho"], text))
                if truth(text, cmds) == "sat":
                    raise Violation("answered unsat, but z3 finds the script satisfiable:\n" + text)
                break
        return Outcome("#b" in text or "_ bv" in text or "unsat" in tags, tags)


def strip_bv(t):
    """(_ bvN w) -> #b..."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "_" and isinstance(t[1], str) and t[1].startswith("bv"):
            return "#b" + format(int(t[1][2:]) % (1 << int(t[2])), "0%sb" % t[2])
        return tuple(strip_bv(x) for x in t)
    return t


# ---------------------------------------------------------------- A07

def has_unsupported(d, g):
    """An assertion using one construct outside the documented fragment."""
    x = d.pick(g.ints)
    y = d.pick(g.ints)
    c = str(d.i(0, 9))
    k = d.pick(["mulvar", "square", "mulsum", "mul3", "div", "mod", "abs", "divisible", "booldistinct", "iteb",
                "constonly", "forall", "exists", "real", "bveq", "bvult", "bvadd", "hex", "select", "strlen",
                "usort", "definefun", "const-eq"])
    decl, pre = [], None
    if k == "mulvar":
        t = ("=", ("*", x, y), c)
    elif k == "square":
        t = ("<=", ("*", x, x), ("-", c))
    elif k == "mulsum":
        t = (">=", ("*", str(d.i(2, 4)), ("+", x, c)), y)
    elif k == "mul3":
        t = ("=", ("*", "2", "3", x), str(d.i(0, 20)))
    elif k == "div":
        t = ("=", ("div", x, str(d.i(2, 5))), c)
    elif k == "mod":
        t = ("=", ("mod", x, str(d.i(2, 5))), c)
    elif k == "abs":
        t = ("=", ("abs", x), ("-", c))
    elif k == "divisible":
        t = ((("_", "divisible", str(d.i(2, 5))), x))
    elif k == "booldistinct":
        t = ("distinct", (">=", x, c), (">=", y, c), (">", x, y))
    elif k == "iteb":
        t = ("=", ("ite", (">=", x, c), ("<=", y, c), "false"), (">", x, y))
    elif k == "constonly":
        t = (d.pick([">=", "<", "=", "distinct"]), c, str(d.i(0, 9)))
    elif k == "const-eq":
        t = ("=", x, str(d.i(0, 5)), str(d.i(0, 5)))
    elif k == "forall":
        t = ("forall", (("qq", "Int"),), (">=", ("+", x, "qq"), c))
    elif k == "exists":
        t = ("exists", (("qq", "Int"),), ("and", (">", x, ("*", "2", "qq")), ("<", x, ("+", ("*", "2", "qq"), "2"))))
    elif k == "real":
        decl = [("declare-const", "re", "Real")]
        t = ("and", (">", "re", "0.0"), ("<", "re", "1.0"))
    elif k in ("bveq", "bvult", "bvadd", "hex"):
        decl = [("declare-const", "bb", ("_", "BitVec", "4")), ("declare-const", "bc", ("_", "BitVec", "4"))]
        t = {"bveq": ("=", "bb", d.pick(["bc", "#b0101"])),
             "bvult": (d.pick(["bvult", "bvugt", "bvuge", "bvsle"]), "bb", d.pick(["bc", "#b0000", "#b1111"])),
             "bvadd": ("bvule", ("bvadd", "bb", "bc"), "#b0000"),
             "hex": ("bvule", "bb", d.pick(["#x3", "#xc"]))}[k]
        if d.flag():
            t = ("not", t)
    elif k == "select":
        decl = [("declare-const", "ar", ("Array", "Int", "Int"))]
        t = (">", ("select", "ar", x), ("select", "ar", y))
    elif k == "strlen":
        decl = [("declare-const", "s", "String")]
        t = ("<", ("str.len", "s"), "0")
    elif k == "usort":
        decl = [("declare-sort", "U", "0"), ("declare-const", "u1", "U"), ("declare-const", "u2", "U"),
                ("declare-const", "u3", "U")]
        t = ("distinct", "u1", "u2") if d.flag() else ("and", ("=", "u1", "u2"), ("=", "u2", "u3"), ("not", ("=", "u1", "u3")))
    else:
        decl = [("define-fun", "mac", (("a", "Int"),), "Int", ("+", "a", c))]
        t = ("<", ("mac", x), x)
    return k, decl, t


def effective(cmds):
    """The commands that count for the (only) satisfiability check: retracted assertions dropped,
    assumptions asserted."""
    stack, decls = [[]], []
    for c in cmds:
        if c[0] == "assert":
            stack[-1].append(c)
        elif c[0] == "push":
            stack += [[] for _ in range(int(c[1]))]
        elif c[0] == "pop":
            del stack[len(stack) - int(c[1]):]
        elif c[0] == "reset-assertions":
            stack = [[]]
        elif c[0].startswith("check-sat"):
            if len(c) > 1:
                stack[-1] += [("assert", l) for l in c[1]]
            break
        else:
            decls.append(c)
    return decls + [a for l in stack for a in l] + [("check-sat",)]


class A07(EagerProperty):
    id = "A07"
    quick, thorough = 9000, 80000
    rule = ("a random supported script plus one construct outside the documented fragment (non-linear terms, "
            "div/mod/abs, quantifiers, reals, other bit-vector operations, arrays, strings, uninterpreted sorts, "
            "macros, constant-only constraints, retracted assertions, assumptions); if a verdict is printed it must be z3's, and a model must satisfy "
            "the script; refusing is fine; non-trivial: every case")

    def strategy(self):
        def mk(d):
            g = LiaGen(d, ints=(1, 3), bools=(0, 1), depth=1, vmax=6)
            asserts = [g.assertion(d.i(0, 1)) for _ in range(d.i(0, 2))]
            k, decl, t = has_unsupported(d, g)
            if d.flag(1, 4):
                t = ("or", t, g.assertion(0))
            elif d.flag(1, 4):
                t = ("not", t)
            asserts.insert(d.i(0, len(asserts)), t)
            return {"smt": script(g.decls() + decl, asserts), "kind": k, "seed": d.i(0, 99)}

        def inc(d):
            g = LiaGen(d, ints=(1, 2), bools=(1, 2), depth=1, vmax=6)
            out, lvl = [], 0
            for _ in range(d.i(2, 7)):
                k = d.weighted([(5, "a"), (2, "push"), (2, "pop"), (1, "ra")])
                if k == "a":
                    out.append(("assert", g.assertion(d.i(0, 1))))
                elif k == "push":
                    lvl += 1
                    out.append(("push", "1"))
                elif k == "pop" and lvl:
                    n = d.i(1, lvl)
                    lvl -= n
                    out.append(("pop", str(n)))
                elif k == "ra" and d.flag(1, 3):
                    out.append(("reset-assertions",))
                    lvl = 0
            if d.flag(1, 3):
                out.append(("check-sat-assuming", tuple(("not", b) if d.flag() else b for b in g.bools if d.flag(3, 4))))
            else:
                out.append(("check-sat",))
            if d.flag(1, 3):
                out += [("pop", "1")] * lvl
            return {"smt": "\n".join(show(c) for c in g.decls() + out) + "\n", "kind": "incremental", "seed": d.i(0, 99)}
        return cases(lambda d: inc(d) if d.flag(1, 5) else mk(d))

    def judge(self, case):
        text = case["smt"]
        cmds = smt.parse(text)
        orig = text
        if case["kind"] == "incremental":
            cmds = effective(cmds)
            text = "\n".join(show(c) for c in cmds) + "\n"
            a = solve(orig, case["seed"])
            if a.verdict is None:
                return Outcome(True, ["incremental-refused"])
            want = truth(text, cmds)
            if want != a.verdict:
                raise Violation("answered %s, but the assertions that count are %s:\n%s" % (a.verdict, want, orig))
            if a.verdict == "sat":
                check_model(cmds, a)
            return Outcome(True, ["incremental-answered"])
        a = solve(text, case["seed"])
        if a.verdict is None:
            return Outcome(True, [case["kind"] + "-refused"])
        want = truth(text, cmds)
        if want != a.verdict:
            raise Violation("answered %s, but the script is %s:\n%s" % (a.verdict, want, text))
        if a.verdict == "sat":
            try:
                check_model(cmds, a)
            except smt.Unsupported:
                pass
        return Outcome(True, [case["kind"] + "-answered"])


# ---------------------------------------------------------------- A08

PARTITION = re.compile(r"^Partition '(.*)': stats: Stats \{ vars: (\d+), constraints: (\d+), a_max: (\d+), "
                       r"b_max: (\d+), k: (\d+), w: (\d+) \}, bound: (\d+) bits$", re.M)


def ceil_log2_plus1(x):
    """ceil(log2(x) + 1) for x >= 1"""
    return (x - 1).bit_length() + 1


class A08(EagerProperty):
    id = "A08"
    quick, thorough = 12000, 120000
    rule = ("random conjunctions/disjunctions of linear constraints written in many surface forms; n, m, a_max, "
            "b_max, k, w and the bit width are recomputed per group of connected variables from the documented "
            "formulas and compared with the printed statistics; non-trivial: at least two variables share a constraint")
    assumptions = EagerProperty.assumptions + (
        "constraints of one script are pairwise different up to sign, and no variable cancels out, so that the "
        "documented counts do not depend on how equal constraints are identified",
        "the printed width may exceed the documented one by one bit; for pure equalities it may use n instead of min(n, m)",
    )

    def strategy(self):
        def mk(d):
            nparts = d.i(1, 3)
            vars_ = ["v%d" % i for i in range(d.i(1, 8))]
            if d.flag(1, 3):
                vars_ = ["%s_%d" % (d.pick(["x", "long.name", "k!"]), i) for i in range(len(vars_))]
            groups = [[] for _ in range(nparts)]
            for x in vars_:
                groups[d.i(0, nparts - 1)].append(x)
            groups = [g for g in groups if g]
            cons = []
            mode = d.weighted([(4, "mix"), (2, "sep"), (1, "eq")])
            for _ in range(d.i(1, 8)):
                g = d.pick(groups)
                k = d.i(1, min(len(g), 4))
                xs = d.shuffled(g)[:k]
                if mode != "mix":
                    xs = xs[:2]
                    co = [1] if len(xs) == 1 else [1, -1]
                    if d.flag():
                        co = [-c for c in co]
                elif d.flag(1, 3):
                    xs = xs[:2]
                    co = [d.pick([1, -1]) for _ in xs]
                else:
                    co = [d.i(1, 5) * d.pick([1, -1]) if d.flag(2, 3) else d.pick([1, -1]) for _ in xs]
                    if d.flag(1, 20):
                        co[0] *= 7
                b = 0 if mode == "eq" or d.flag(1, 3) else d.i(-30, 30)
                if d.flag(1, 25):
                    b = d.pick([10 ** 12, 2 ** 64, -2 ** 70])
                op = "=" if mode == "eq" else d.pick(["<=", ">=", "=", "<", ">"])
                cons.append({"co": dict(zip(xs, co)), "b": b, "op": op, "t": self.surface(d, xs, co, b, op)})
            # pairwise different up to sign
            seen, keep = set(), []
            for c in cons:
                key = tuple(sorted(c["co"].items())) + (c["b"],)
                neg = tuple(sorted((x, -a) for x, a in c["co"].items())) + (-c["b"],)
                if key in seen or neg in seen:
                    continue
                seen.add(key)
                keep.append(c)
            forms = [c.pop("t") for c in keep]
            asserts = []
            while forms:
                n = min(len(forms), d.weighted([(3, 1), (1, 2), (1, 3)]))
                fs, forms = forms[:n], forms[n:]
                fs = [("not", f) if d.flag(1, 5) else f for f in fs]
                asserts.append(fs[0] if n == 1 else (d.pick(["and", "or", "=>"]),) + tuple(fs))
            decls = [("declare-const", x, "Int") for x in vars_]
            return {"smt": script(decls, asserts), "cons": keep, "mode": mode}
        return cases(mk)

    @staticmethod
    def surface(d, xs, co, b, op):
        """Writes sum(co*xs) op b in one of many ways."""
        left, right = [], []
        lk = rk = 0
        for x, c in zip(xs, co):
            if len(xs) > 1 and d.flag(1, 4) and abs(c) < 6:
                e = d.i(1, 3)
                # split the coefficient between the sides: (c+e) on the left, e on the right
                parts = [(c + e, left), (e, right)]
            elif d.flag(1, 3):
                parts = [(-c, right)]
            else:
                parts = [(c, left)]
            for k, side in parts:
                if k == 0:
                    continue
                a = abs(k)
                form = d.i(0, 4)
                if a == 1 and form < 3:
                    t = x if k > 0 else ("-", x)
                elif form <= 1:
                    t = ("*", self_num(k), x)
                elif form == 2:
                    t = ("*", x, self_num(k))
                elif form == 3 and k < 0:
                    t = ("-", ("*", str(a), x))
                else:
                    t = ("+",) + (x,) * a if k > 0 else ("-",) + (("-", x),) + (x,) * (a - 1) if a > 1 else ("-", x)
                side.append(t)
        kind = d.i(0, 3)
        if kind == 0:
            rk = b
        elif kind == 1:
            lk = -b
        else:
            s = d.i(-9, 9)
            lk, rk = s, b + s

        def side(ts, k):
            ts = list(ts)
            if k:
                ts.insert(d.i(0, len(ts)), self_num(k))
            if not ts:
                return "0"
            if len(ts) == 1 and d.flag(3, 4):
                return ts[0]
            if len(ts) > 2 and d.flag(1, 3):
                return ("+", ts[0], ("+",) + tuple(ts[1:]))
            return ("+",) + tuple(ts)
        if not left and not right:
            left = [xs[0]]
        l, r = side(left, lk), side(right, rk)
        if d.flag(1, 5):
            flip = {"<=": ">=", ">=": "<=", "<": ">", ">": "<", "=": "="}
            return (flip[op], r, l)
        return (op, l, r)

    def judge(self, case):
        text = case["smt"]
        path = write("in.smt2", text)
        r = run([exe("eager"), "solve", "--instance", path, "--solver", exe("fakesat")],
                env={"VHSAT_FAULT": "force_unsat"})
        if r.rc != 0:
            raise Violation("the solver gave no answer on a supported formula: %s\n%s" % (r.brief(), text))
        got = {}
        for m in PARTITION.finditer(r.out):
            got[m.group(1)] = tuple(int(x) for x in m.groups()[1:])
        # connected groups
        parent = {}

        def find(x):
            while parent[x] != x:
                x = parent[x]
            return x
        for c in case["cons"]:
            for x in c["co"]:
                parent.setdefault(x, x)
        for c in case["cons"]:
            xs = list(c["co"])
            for y in xs[1:]:
                parent[find(y)] = find(xs[0])
        groups = {}
        for x in parent:
            groups.setdefault(find(x), set()).add(x)
        tags = set()
        for root, xs in groups.items():
            cons = [c for c in case["cons"] if find(next(iter(c["co"]))) == root]
            hit = [v for k, v in got.items() if k in xs]
            if len(hit) != 1:
                raise Violation("variables %s are connected, but %d lines of statistics are printed for them:\n%s\n%s"
                                % (sorted(xs), len(hit), r.out, text))
            n, m, a, b, k, w, bits = hit[0]
            sep = lambda c: sorted(c["co"].values()) in ([1], [-1], [-1, 1])
            want = (len(xs), len(cons), max([1] + [abs(v) for c in cons for v in c["co"].values()]),
                    max(abs(c["b"]) for c in cons), sum(1 for c in cons if not sep(c)),
                    max(len(c["co"]) for c in cons))
            if (n, m, a, b, k, w) != want:
                raise Violation("statistics (n, m, a_max, b_max, k, w) for %s are %s, documented definition gives %s\n%s"
                                % (sorted(xs), (n, m, a, b, k, w), want, text))
            if k == 0:
                bound = min(n, m) * (b + 1)
                if b == 0 and all(c["op"] == "=" for c in cons):
                    top = max(bound, n)
                    tags.add("equality")
                else:
                    top = bound
                    tags.add("separation")
            else:
                bound = top = ((a * w) ** k) * (n + 2) * min(n + 1, m) * (b + 1)
                tags.add("general")
            lo, hi = ceil_log2_plus1(bound + 1), ceil_log2_plus1(top + 1) + 1
            if not lo <= bits <= hi:
                raise Violation("width for %s is %d bits, documented formula gives %d (bound %d)\n%s"
                                % (sorted(xs), bits, lo, bound, text))
        if len(got) != len(groups):
            raise Violation("%d groups of connected variables, %d lines of statistics\n%s\n%s" % (len(groups), len(got), r.out, text))
        if len(groups) > 1:
            tags.add("several-groups")
        return Outcome(any(len(x) > 1 for x in groups.values()), tags)


# ---------------------------------------------------------------- A09

FLIP = {"<=": ">=", ">=": "<=", "<": ">", ">": "<"}
NEG = {"<=": ">", ">=": "<", "<": ">=", ">": "<="}


def variant(d, t, boolean=True):
    """An equivalent way of writing t (d draws which)."""
    if not isinstance(t, tuple) or not t:
        return t
    op = t[0]
    if op == "let":
        return ("let", t[1], variant(d, t[2]))
    if op in ("and", "or"):
        a = [variant(d, x) for x in t[1:]]
        k = d.i(0, 3)
        if k == 1:
            a = a[::-1]
        elif k == 2:
            dual = "or" if op == "and" else "and"
            return ("not", (dual,) + tuple(("not", x) for x in a))
        elif k == 3 and len(a) > 2:
            return (op, a[0], (op,) + tuple(a[1:]))
        return (op,) + tuple(a)
    if op == "not":
        x = variant(d, t[1])
        return d.pick([("not", x), ("=>", x, "false"), ("xor", x, "true"), ("not", ("not", ("not", x)))])
    if op == "=>":
        a, b = variant(d, t[1]), variant(d, t[2])
        return d.pick([("=>", a, b), ("or", ("not", a), b), ("=>", ("not", b), ("not", a))])
    if op == "xor":
        a, b = variant(d, t[1]), variant(d, t[2])
        return d.pick([("xor", a, b), ("xor", b, a), ("not", ("=", a, b)), ("=", a, ("not", b))])
    if op in FLIP:
        a = t[1:]
        if len(a) > 2:
            k = d.i(0, 2)
            if k == 0:
                return t
            if k == 1:
                return (FLIP[op],) + tuple(a[::-1])
            return ("and",) + tuple(variant(d, (op, a[i], a[i + 1])) for i in range(len(a) - 1))
        l, r = a
        k = d.i(0, 6)
        if k == 1:
            return (FLIP[op], r, l)
        if k == 2:
            return ("not", (NEG[op], l, r))
        if k == 3:
            return (op, ("-", l, r), "0")
        if k == 4:
            c = str(d.i(1, 9))
            return (op, ("+", l, c), ("+", c, r))
        if k == 5:
            return (op, ("+", l, l), ("+", r, r))
        if k == 6:
            return ("not", (FLIP[NEG[op]], r, l))
        return t
    if op in ("=", "distinct") and boolean is not None:
        return variant_eq(d, t)
    return t


def variant_eq(d, t):
    op, a = t[0], t[1:]
    if len(a) == 2 and is_int(a[0]):
        l, r = a
        k = d.i(0, 5)
        if k == 1:
            return (op, r, l)
        if k == 2:
            e = ("and", ("<=", l, r), (">=", l, r))
            return e if op == "=" else ("not", e)
        if k == 3:
            return (op, ("-", l, r), "0")
        if k == 4:
            return ("not", ("distinct" if op == "=" else "=", l, r))
        if k == 5:
            return (op, ("+", l, "3"), ("+", "3", r))
        return t
    if is_int(a[0]):
        if op == "=":
            return d.pick([t, ("and",) + tuple(("=", a[i], a[i + 1]) for i in range(len(a) - 1)), ("=",) + a[::-1]])
        return d.pick([t, ("and",) + tuple(("not", ("=", a[i], a[j])) for i in range(len(a)) for j in range(i)),
                       ("distinct",) + a[::-1]])
    if op == "=" and len(a) == 2:
        l, r = variant(d, a[0]), variant(d, a[1])
        return d.pick([("=", l, r), ("=", r, l), ("and", ("=>", l, r), ("=>", r, l)), ("not", ("xor", l, r))])
    return t


def is_int(t):
    if isinstance(t, str):
        return t[0].isdigit() or (t not in BNAMES and t not in ("true", "false"))
    if t[0] in ("+", "-", "*"):
        return True
    if t[0] == "ite":
        return is_int(t[2])
    return False


def rename(t, m):
    if isinstance(t, tuple):
        if t and t[0] == "let":
            return ("let", tuple((b[0], rename(b[1], m)) for b in t[1]), rename(t[2], m))
        return tuple(rename(x, m) for x in t)
    return m.get(t, t)


class A09(EagerProperty):
    id = "A09"
    quick, thorough = 1600, 80000
    rule = ("a random script and a rewriting of it that preserves satisfiability (renamed and reordered symbols, "
            "reordered/duplicated/split assertions, flipped or negated comparisons, terms moved across, constants "
            "added on both sides, De Morgan, comments); the verdicts must agree and each model satisfy its script; "
            "non-trivial: the two texts differ beyond whitespace")

    def strategy(self):
        def mk(d):
            k = d.weighted([(30, "lia"), (20, "growth"), (8, "distinct"), (20, "dioph"), (25, "idl"), (15, "tight"),
                            (10, "groups"), (10, "wide"), (2, "coeff")])
            if k == "lia":
                g = LiaGen(d, ints=(1, 4), bools=(0, 2), depth=2, let=False)
                decls, asserts = g.decls(), [g.assertion(d.i(0, 2)) for _ in range(d.i(1, 3))]
            else:
                decls, asserts, _ = SPECIAL[k](d)
            b = [variant(d, t) for t in asserts]
            if d.flag():
                b = d.shuffled(b)
            if d.flag(1, 4) and b:
                b.append(variant(d, d.pick(asserts)))
            if d.flag(1, 4) and len(b) > 1:
                b = [("and", b[0], b[1])] + b[2:]
            m = {}
            db = decls
            if d.flag():
                names = [c[1] for c in decls]
                new = ["r%d" % i for i in d.shuffled(range(len(names)))]
                m = dict(zip(names, new))
                db = [rename(c, m) for c in decls]
                b = [rename(t, m) for t in b]
            if d.flag():
                db = d.shuffled(db)
            t2 = script(db, b)
            style = d.i(0, 3)
            if style == 1:
                t2 = "; (assert false)\n" + t2.replace("\n", " ; ) x\n")
            elif style == 2:
                t2 = t2.replace(" ", "\n\t ").replace(")", ")\r\n")
            elif style == 3:
                t2 = "(set-info :status unknown)\n(set-logic QF_LIA)\n" + t2 + "(get-model)\n(exit)\n"
            if style == 2 and "|" in t2:
                t2 = script(db, b)
            return {"a": script(decls, asserts), "b": t2, "seed": d.i(0, 99)}
        return cases(mk)

    def judge(self, case):
        r = []
        for n in ("a", "b"):
            a = solve(case[n], case["seed"])
            need_answer(a, case[n])
            if a.verdict == "sat":
                check_model(smt.parse(case[n]), a)
            r.append(a.verdict)
        if r[0] != r[1]:
            raise Violation("equivalent scripts answered %s and %s:\n%s\n----\n%s" % (r[0], r[1], case["a"], case["b"]))
        return Outcome(case["a"].split() != case["b"].split(), [r[0]])
