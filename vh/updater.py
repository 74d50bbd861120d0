"""The string-function updater (amzn-smt-string-fct-updater), driven as a program on generated
scripts in the old Z3 dialect and judged against an independent rewriting of the s-expressions."""
import os

from . import core, smt
from .core import Outcome, Property, Violation
from .gen import cases
from .smt import StrLit, parse, show

RENAME = {
    "str.to.re": "str.to_re",
    "str.in.re": "str.in_re",
    "str.to.int": "str.to_int",
    "int.to.str": "str.from_int",
}
ARITH = {"+", "-", "*", "<", "<=", ">", ">=", "div", "mod", "abs", "divisible"}
SIMPLE_ESC = {"a": "07", "b": "08", "f": "0C", "n": "0A", "r": "0D", "t": "09", "v": "0B"}
HEX = "0123456789abcdefABCDEF"


# ---------------------------------------------------------------- reference

def conv_pairs(s):
    """Left to right; a backslash always takes the character after it along."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != "\\" or i + 1 >= len(s):
            out.append(c)
            i += 1
            continue
        d = s[i + 1]
        if d == "x":
            h = s[i + 2:i + 4]
            if len(h) == 2 and h[0] in HEX and h[1] in HEX:
                out.append("\\u{" + h + "}")
                i += 4
            else:
                n = 4 if h[:1] and h[0] in HEX else 3
                out.append(s[i:i + n])
                i += n
        elif d in SIMPLE_ESC:
            out.append("\\u{" + SIMPLE_ESC[d] + "}")
            i += 2
        else:
            out.append(c + d)
            i += 2
    return "".join(out)


def conv_leftmost(s):
    """Left to right; a backslash that starts no escape of the table stands for itself."""
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            d = s[i + 1]
            h = s[i + 2:i + 4]
            if d == "x" and len(h) == 2 and h[0] in HEX and h[1] in HEX:
                out.append("\\u{" + h + "}")
                i += 4
                continue
            if d in SIMPLE_ESC:
                out.append("\\u{" + SIMPLE_ESC[d] + "}")
                i += 2
                continue
        out.append(s[i])
        i += 1
    return "".join(out)


def ref_term(t):
    if isinstance(t, StrLit):
        return ("$str", conv_pairs(t), conv_leftmost(t))
    if isinstance(t, str):
        return "re.none" if t == "re.nostr" else smt.sym(t)
    a = tuple(ref_term(x) for x in t)
    if a and isinstance(t[0], str) and not isinstance(t[0], StrLit):
        if t[0] in RENAME:
            return (RENAME[t[0]],) + a[1:]
        if t[0] == "re.loop" and len(t) == 4:
            return (("_", "re.loop", a[2], a[3]), a[1])
    return a


def plain(t):
    """Symbols in normal form, literals tagged, nothing rewritten."""
    if isinstance(t, StrLit):
        return ("$str", str(t), str(t))
    if isinstance(t, str):
        return smt.sym(t)
    return tuple(plain(x) for x in t)


TERM_AT = {"assert": (1,), "define-fun": (4,), "define-const": (3,), "get-value": (1,)}


def ref_command(c):
    at = TERM_AT.get(c[0], ())
    return tuple(ref_term(x) if i in at else plain(x) for i, x in enumerate(c))


def same(got, want):
    """got: parsed output; want: reference form."""
    if isinstance(want, tuple) and len(want) == 3 and want[0] == "$str":
        return isinstance(got, StrLit) and (str(got) == want[1] or str(got) == want[2])
    if isinstance(got, StrLit):
        return False
    if isinstance(got, str) or isinstance(want, str):
        return isinstance(got, str) and isinstance(want, str) and smt.sym(got) == want
    return len(got) == len(want) and all(same(g, w) for g, w in zip(got, want))


def uses_arith(t):
    if isinstance(t, str):
        return False
    if t and isinstance(t[0], str) and not isinstance(t[0], StrLit) and t[0] in ARITH:
        return True
    if tuple(t[:2]) == ("_", "divisible"):
        return True
    return any(uses_arith(x) for x in t)


def has_logic(cmds):
    return any(c and c[0] == "set-logic" for c in cmds)


def script_arith(cmds):
    return any(uses_arith(c[i]) for c in cmds for i in TERM_AT.get(c[0], ()) if i < len(c))


def strip_logic(cmds, out):
    """If the input names no logic, the output has exactly one more command, a set-logic: returns
    (output without it, its position, its name); otherwise (output, None, None)."""
    if has_logic(cmds) or not cmds:
        return out, None, None
    at = [i for i, c in enumerate(out) if isinstance(c, tuple) and c and c[0] == "set-logic"]
    if len(at) != 1 or len(out[at[0]]) != 2:
        raise Violation("the script names no logic; expected exactly one set-logic in the output, got %d" % len(at))
    i = at[0]
    return out[:i] + out[i + 1:], i, out[i][1]


# ---------------------------------------------------------------- running

def update(text, stem="in", ext=".smt2"):
    d = core.scratch()
    src = os.path.join(d, stem + ext)
    dst = os.path.join(d, stem + "_upt" + ext)
    if os.path.exists(dst):
        os.unlink(dst)
    core.write_at(src, text)
    r = core.run([core.exe("updater"), os.path.join(d, stem)], cwd=d)
    if r.rc != 0:
        raise Violation("the updater failed on a well-formed script: %s\nscript:\n%s" % (r.brief(), text))
    try:
        with open(dst, encoding="utf-8", newline="") as f:
            return f.read()
    except OSError:
        raise Violation("the updater reported success but wrote no %s\nscript:\n%s" % (os.path.basename(dst), text))


def parse_out(out, text):
    try:
        return parse(out)
    except ValueError as e:
        raise Violation("the output is not a list of s-expressions (%s)\noutput:\n%s\nscript:\n%s" % (e, out, text))


def compare(text, out, what="output"):
    cmds = parse(text)
    got, pos, logic = strip_logic(cmds, parse_out(out, text))
    if len(got) != len(cmds):
        raise Violation("%d commands became %d\nscript:\n%s\n%s:\n%s" % (len(cmds), len(got), text, what, out))
    for c, g in zip(cmds, got):
        if not isinstance(g, tuple) or not same(g, ref_command(c)):
            raise Violation("command\n  %s\nbecame\n  %s\nexpected\n  %s" % (show(c), show(g), want_text(ref_command(c))))
    return cmds, pos, logic


def want_text(w):
    if isinstance(w, str):
        return w
    if len(w) == 3 and w[0] == "$str":
        return '"' + w[1] + '"'
    return "(" + " ".join(want_text(x) for x in w) + ")"


# ---------------------------------------------------------------- generation

LIT_CHARS = ["a", "b", "z", "0", "7", "A", "f", "n", "x", "t", "u", " ", "-", "{", "}", "'", ";", "(", ")", "|", "\\", "\\",
             '""', "é", "\u4e2d", "_", "\n"]
ESCAPES = ["\\x41", "\\x0a", "\\xFf", "\\x00", "\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\u{41}", "\\u0041",
           "\\x4", "\\x", "\\xg1", "\\q", "\\\\", "\\0", "\\u", "\\x4g", "\\X41", "\\N", "\\u{7}", "\\e", "\\x411"]


def lit(d, esc):
    n = d.weighted([(3, 1), (2, 0), (4, 2), (3, 4), (1, 8)])
    parts = []
    for _ in range(n):
        if d.flag(*esc):
            parts.append(d.pick(ESCAPES))
        else:
            parts.append(d.pick(LIT_CHARS))
    return StrLit("".join(parts))


class G:
    def __init__(self, d, old=(3, 5), esc=(1, 4), loops=(1, 4), arith=True, nostr=True):
        self.d, self.oldp, self.esc, self.loops, self.arith, self.nostr = d, old, esc, loops, arith, nostr
        self.strs, self.ints, self.bools, self.funs = [], [], [], []
        self.fresh = 0
        self.ops = sorted(ARITH)

    def op(self, among):
        l = [o for o in among if o in self.ops]
        return self.d.pick(l) if l else None

    def old(self):
        return self.d.flag(*self.oldp)

    def name(self):
        self.fresh += 1
        base = self.d.pick(["x", "str.to.re%d", "re.nostr%d", "|a b %d|", "re.loop.%d", "str_in_re%d", "int.to.str_%d", "v%d", "$s%d"])
        return base % self.fresh if "%d" in base else base + str(self.fresh)

    def s(self, k):
        d = self.d
        if k <= 0 or d.flag(1, 3):
            if self.strs and d.flag(3, 5):
                return d.pick(self.strs)
            return lit(d, self.esc)
        op = d.i(0, 9)
        if op == 0:
            return ("str.++",) + tuple(self.s(k - 1) for _ in range(d.i(2, 3)))
        if op == 1:
            return ("int.to.str" if self.old() else "str.from_int", self.n(k - 1))
        if op == 2:
            return ("str.at", self.s(k - 1), self.n(k - 1))
        if op == 3:
            return ("str.substr", self.s(k - 1), self.n(k - 1), self.n(k - 1))
        if op == 4:
            return (d.pick(["str.replace", "str.replace_all"]), self.s(k - 1), self.s(k - 1), self.s(k - 1))
        if op == 5:
            return (d.pick(["str.replace_re", "str.replace_re_all"]), self.s(k - 1), self.r(k - 1), self.s(k - 1))
        if op == 6:
            return ("ite", self.b(k - 1), self.s(k - 1), self.s(k - 1))
        if op == 7:
            return self.let(k, self.s)
        if op == 8 and self.funs:
            f = d.pick(self.funs)
            return (f, self.s(k - 1))
        return ("str.from_code", self.n(k - 1))

    def n(self, k):
        d = self.d
        if k <= 0 or d.flag(1, 2):
            if self.ints and d.flag(1, 2):
                return d.pick(self.ints)
            return d.pick(["0", "1", "7", "12", "123456789012345678901234567890"])
        op = d.i(0, 7)
        if op == 0:
            return ("str.len", self.s(k - 1))
        if op in (1, 2):
            return ("str.to.int" if self.old() else "str.to_int", self.s(k - 1))
        if op == 3:
            return ("str.indexof", self.s(k - 1), self.s(k - 1), self.n(k - 1))
        if op == 4:
            return ("ite", self.b(k - 1), self.n(k - 1), self.n(k - 1))
        if op == 5 or not self.arith:
            return ("str.to_code", self.s(k - 1))
        if op == 6:
            o = self.op(["-", "abs"])
            if o is not None:
                return (o, self.n(k - 1))
        o = self.op(["+", "-", "*", "div", "mod"])
        if o is None:
            return ("str.len", self.s(k - 1))
        return (o, self.n(k - 1), self.n(k - 1))

    def r(self, k):
        d = self.d
        tore = lambda: ("str.to.re" if self.old() else "str.to_re", self.s(k - 1))
        if d.flag(*self.loops) and k > 0:
            lo, hi = d.pick([("0", "3"), ("2", "2"), ("12", "12"), ("1", "10"), ("5", "2"), ("0", "99999999999999999999999")])
            if self.old():
                return ("re.loop", self.r(k - 1), lo, hi)
            return (("_", "re.loop", lo, hi), self.r(k - 1))
        if k <= 0 or d.flag(1, 3):
            op = d.i(0, 5)
            if op <= 1:
                return tore()
            if op == 2:
                return "re.nostr" if (self.nostr and self.old()) else "re.none"
            return d.pick([("re.range", StrLit("0"), StrLit("9")), "re.all", "re.allchar", ("re.range", StrLit("a"), StrLit("z"))])
        op = d.i(0, 4)
        if op == 0:
            return (d.pick(["re.*", "re.+", "re.opt", "re.comp"]), self.r(k - 1))
        if op == 1:
            return (("_", "re.^", d.pick(["0", "3"])), self.r(k - 1))
        if op == 2:
            return ("re.diff", self.r(k - 1), self.r(k - 1))
        return (d.pick(["re.++", "re.union", "re.inter"]),) + tuple(self.r(k - 1) for _ in range(d.i(2, 3)))

    def let(self, k, body):
        d = self.d
        names = []
        binds = []
        for _ in range(d.i(1, 2)):
            nm = self.name()
            binds.append((nm, self.s(k - 1)))
            names.append(nm)
        saved = list(self.strs)
        self.strs = saved + names
        t = ("let", tuple(binds), body(k - 1))
        self.strs = saved
        return t

    def b(self, k):
        d = self.d
        if k <= 0:
            if self.bools and d.flag(1, 3):
                return d.pick(self.bools)
            return ("=", self.s(0), self.s(0))
        op = d.i(0, 9)
        if op <= 2:
            return ("str.in.re" if self.old() else "str.in_re", self.s(k - 1), self.r(k - 1))
        if op == 3:
            return (d.pick(["str.contains", "str.prefixof", "str.suffixof", "str.<", "str.<=", "="]), self.s(k - 1), self.s(k - 1))
        if op == 4:
            return (d.pick(["and", "or", "xor", "=>"]),) + tuple(self.b(k - 1) for _ in range(2))
        if op == 5:
            return ("not", self.b(k - 1))
        if op == 6:
            o = self.op(["<", "<=", ">", ">=", "divisible"]) if self.arith else None
            if o == "divisible":
                return (("_", "divisible", d.pick(["2", "3", "10"])), self.n(k - 1))
            if o is not None:
                return (o, self.n(k - 1), self.n(k - 1))
            return ("=", self.n(k - 1), self.n(k - 1))
        if op == 7:
            return self.let(k, self.b)
        if op == 8 and self.bools:
            return d.pick(self.bools)
        nm = self.name()
        saved = list(self.strs)
        self.strs = saved + [nm]
        t = (d.pick(["forall", "exists"]), ((nm, "String"),), self.b(k - 1))
        self.strs = saved
        return t

    def body(self, lo=1, hi=5, depth=4):
        """Declarations and commands with terms, as a list of s-expressions."""
        d = self.d
        out = []
        for _ in range(d.i(1, 3)):
            nm = self.name()
            so = d.pick(["String", "Int", "String", "Bool"])
            out.append(("declare-const", nm, so) if d.flag() else ("declare-fun", nm, (), so))
            {"String": self.strs, "Int": self.ints, "Bool": self.bools}[so].append(nm)
        if d.flag(1, 3):
            nm = self.name()
            out.append(("declare-fun", nm, ("String",), "String"))
            self.funs.append(nm)
        for _ in range(d.i(lo, hi)):
            op = d.i(0, 9)
            if op <= 5:
                out.append(("assert", self.b(d.i(1, depth))))
            elif op == 6:
                nm, p = self.name(), self.name()
                saved = list(self.strs)
                self.strs = saved + [p]
                out.append(("define-fun", nm, ((p, "String"),), "String", self.s(d.i(1, depth - 1))))
                self.strs = saved
                self.funs.append(nm)
            elif op == 7:
                out.append(("get-value", (self.s(d.i(1, depth - 1)), self.b(d.i(1, 2)))))
            elif op == 8:
                out.append(d.pick([("push", "1"), ("echo", StrLit("a\\n\\x41")), ("check-sat",),
                                   ("set-info", ":source", "|str.to.re \\n|"), ("set-info", ":note", StrLit("re.nostr \\x41"))]))
            else:
                out.append(("check-sat",))
        return out


def head(d, logic):
    """Option / info / logic commands a script may start with."""
    out = []
    opts = [("set-option", ":produce-models", "true"), ("set-option", ":random-seed", "3"),
            ("set-option", ":produce-unsat-cores", "false")]
    for _ in range(d.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])):
        out.append(d.pick(opts))
    if logic:
        out.append(("set-logic", d.pick(["QF_S", "QF_SLIA", "ALL", "QF_UFSLIA"])))
    for _ in range(d.weighted([(3, 0), (2, 1), (1, 2)])):
        out.append(d.pick([("set-info", ":status", "sat"), ("set-info", ":smt-lib-version", "2.6"), ("set-info", ":source", "|a\nb \\n|")]))
    return out


def layout(d, sexprs):
    """One rendering of the commands: comments, blank lines, odd spacing."""
    out = []
    for s in sexprs:
        t = show(s)
        if d.flag(1, 5):
            out.append(d.pick(["; a comment (str.to.re \"x\")\n", "\n\n", "   ", "\t", ";; re.nostr \\n\n"]))
        out.append(spaced(d, s) if d.flag(1, 3) else t)
        out.append(d.pick(["\n", "\n", " ", "\n\n", "  \r\n", " ; tail )\n"]))
    return "".join(out)


def spaced(d, s):
    if isinstance(s, str):
        return show(s)
    seps = [" ", " ", "  ", "\n  ", "\t", " ; c \"\n"]
    o = "("
    for i, x in enumerate(s):
        if i:
            o += d.pick(seps)
        elif d.flag(1, 6):
            o += " "
        o += spaced(d, x)
    return o + (" " if d.flag(1, 6) else "") + ")"


def count(t, pred):
    if isinstance(t, str):
        return 1 if pred(t) else 0
    return sum(count(x, pred) for x in t) + (1 if pred(t) else 0)


def head_is(*names):
    return lambda t: isinstance(t, tuple) and len(t) > 0 and isinstance(t[0], str) and not isinstance(t[0], StrLit) and t[0] in names


# ---------------------------------------------------------------- properties

class U(Property):
    bins = ("updater",)
    replay_runs = 2
    assumptions = (
        "scripts stay inside what the parser keeps: no term attributes (they are dropped with a warning), no define-fun-rec",
        "string literals where a backslash directly follows an unfinished escape are accepted in either of the two readings of the table",
    )


class U01(U):
    id = "U01"
    rule = "the script has at least one old-style operator (renamed function, re.nostr or three-argument re.loop)"
    quick, thorough = 24000, 200000

    fixed = (
        {"script": '(assert (str.in.re x (re.++ (str.to.re "a") re.nostr)))'},
        {"script": '(define-fun f ((s String)) String (int.to.str (str.to.int s)))(check-sat)'},
    )

    def strategy(self):
        def mk(d):
            g = G(d)
            return {"script": layout(d, head(d, d.flag(2, 3)) + g.body())}
        return cases(mk)

    def judge(self, case):
        text = case["script"]
        cmds, _, _ = compare(text, update(text))
        n = count(tuple(cmds), head_is(*RENAME)) + count(tuple(cmds), head_is("re.loop")) \
            + count(tuple(cmds), lambda t: t == "re.nostr")
        tags = [k for k in RENAME if count(tuple(cmds), head_is(k))]
        if count(tuple(cmds), head_is("re.loop")):
            tags.append("re.loop")
        if count(tuple(cmds), lambda t: t == "re.nostr"):
            tags.append("re.nostr")
        return Outcome(n > 0, tags)


class U02(U):
    id = "U02"
    rule = "a literal inside a term holds a convertible escape, or a backslash that must stay as it is"
    quick, thorough = 24000, 200000

    def strategy(self):
        def mk(d):
            if d.flag(1, 2):
                g = G(d, esc=(1, 2))
                return {"script": layout(d, head(d, True) + g.body(1, 2, 3))}
            out = [("declare-const", "s", "String")]
            for _ in range(d.i(1, 4)):
                out.append(("assert", ("=", "s", lit(d, (2, 3)))))
            return {"script": layout(d, out)}
        return cases(mk)

    def judge(self, case):
        text = case["script"]
        cmds, _, _ = compare(text, update(text))
        lits = []

        def walk(t):
            if isinstance(t, StrLit):
                lits.append(t)
            elif not isinstance(t, str):
                for x in t:
                    walk(x)
        for c in cmds:
            for i in TERM_AT.get(c[0], ()):
                walk(c[i])
        tags = []
        if any(conv_leftmost(l) != l for l in lits):
            tags.append("converted")
        if any("\\" in l and conv_leftmost(l) == l for l in lits):
            tags.append("kept backslash")
        if any(conv_leftmost(l) != conv_pairs(l) for l in lits):
            tags.append("ambiguous")
        return Outcome(bool(tags), tags)


class U03(U):
    id = "U03"
    rule = "the script has at least one assertion; tagged by whether it was already modern"
    quick, thorough = 14000, 100000

    def strategy(self):
        def mk(d):
            modern = d.flag(1, 2)
            g = G(d, old=(0, 1) if modern else (3, 5), esc=(0, 1) if modern else (1, 4))
            body = head(d, modern or d.flag(1, 2)) + g.body()
            return {"a": layout(d, body), "b": layout(d, body), "modern": modern}
        return cases(mk)

    def judge(self, case):
        a, b = update(case["a"]), update(case["b"])
        if a != b:
            raise Violation("the same commands laid out differently gave different outputs\nfirst:\n%s\ngave\n%s\nsecond:\n%s\ngave\n%s"
                            % (case["a"], a, case["b"], b))
        again = update(a)
        amb = not all(conv_pairs(x) == x for x in literals(parse(a)))
        if again != a and not amb:
            raise Violation("updating the output again changes it\nfirst:\n%s\nsecond:\n%s" % (a, again))
        if case["modern"] and has_logic(parse(case["a"])):
            out = parse_out(a, case["a"])
            src = parse(case["a"])
            if not same(tuple(out), plain(tuple(src))) and all(conv_leftmost(x) == x for x in literals(src)):
                raise Violation("a script already in modern syntax was changed\nscript:\n%s\noutput:\n%s" % (case["a"], a))
        tags = ["modern" if case["modern"] else "old"]
        return Outcome("(assert" in a, tags)


def literals(t):
    if isinstance(t, StrLit):
        return [t]
    if isinstance(t, str):
        return []
    return [l for x in t for l in literals(x)]


class U04(U):
    id = "U04"
    rule = "the script names no logic, so one has to be guessed and placed; tagged by guess"
    quick, thorough = 20000, 150000
    fixed = ({"script": "(set-option :produce-models true)"},)

    def strategy(self):
        def mk(d):
            logic = d.flag(1, 6)
            g = G(d, arith=d.flag(1, 2))
            if d.flag(3, 4):
                g.ops = [d.pick(sorted(ARITH))]  # one operator at a time: each has to be recognised
            h = head(d, logic)
            body = g.body(0, 3, 3) if d.flag(6, 7) else []
            if body and g.arith and d.flag(2, 3):
                o = g.ops[0]
                if o in ("+", "-", "*", "div", "mod", "abs"):
                    n = (o, g.n(1), g.n(1)) if o != "abs" else (o, g.n(1))
                    t = d.pick([("=", n, "3"), ("str.in.re", ("str.at", g.s(1), n), g.r(1)), ("=", ("int.to.str", n), g.s(1))])
                elif o == "divisible":
                    t = (("_", o, "3"), g.n(1))
                else:
                    t = (o, g.n(1), g.n(1))
                t = d.pick([t, ("not", t), ("let", (("lb", g.s(1)),), t), ("exists", (("qz", "Int"),), t), ("ite", t, g.b(1), g.b(1))])
                body.append(d.pick([("assert", t), ("define-fun", "df", (), "Bool", t), ("get-value", (t,))]))
            if logic and d.flag(1, 2):
                h.sort(key=lambda c: c[0] != "set-info")
            if not h and not body:
                h = [("set-info", ":status", "sat")]
            return {"script": layout(d, h + body)}
        return cases(mk)

    def judge(self, case):
        text = case["script"]
        out = update(text)
        cmds, pos, logic = compare(text, out)
        if pos is None:
            return Outcome(False, ["logic given"])
        ar = script_arith(cmds)
        want = "QF_SLIA" if ar else "QF_S"
        if logic != want:
            raise Violation("guessed logic %s, but the script %s linear arithmetic operators (expected %s)\nscript:\n%s"
                            % (logic, "uses" if ar else "does not use", want, text))
        lead = 0
        while lead < len(cmds) and cmds[lead][0] == "set-option":
            lead += 1
        if pos < lead:
            raise Violation("set-logic was put at position %d, before one of the %d leading set-option commands\nscript:\n%s" % (pos, lead, text))
        for c in cmds[:pos]:
            if c[0] not in ("set-option", "set-info"):
                raise Violation("set-logic was put after %s\nscript:\n%s" % (show(c), text))
        return Outcome(True, [want, "leading options" if lead else "no options", "options only" if lead == len(cmds) else "with body"])


class U05(U):
    id = "U05"
    rule = "at least one old three-argument loop in the script; tagged by nesting"
    quick, thorough = 20000, 150000

    def strategy(self):
        def mk(d):
            g = G(d, loops=(2, 3), old=(3, 4))
            out = [("declare-const", "s", "String")]
            g.strs.append("s")
            for _ in range(d.i(1, 3)):
                out.append(("assert", ("str.in.re" if d.flag() else "str.in_re", "s", g.r(d.i(1, 4)))))
            return {"script": layout(d, head(d, d.flag()) + out)}
        return cases(mk)

    def judge(self, case):
        text = case["script"]
        cmds, _, _ = compare(text, update(text))
        old = count(tuple(cmds), head_is("re.loop"))
        new = count(tuple(cmds), lambda t: isinstance(t, tuple) and len(t) == 4 and t[:2] == ("_", "re.loop"))
        return Outcome(old > 0, ["old loops %d" % min(old, 4), "indexed loops too" if new else "old only"])


class U06(U):
    id = "U06"
    rule = "the program ran over a directory holding the input and other files; tagged by the situation"
    quick, thorough = 16000, 100000

    def strategy(self):
        def mk(d):
            g = G(d)
            return {
                "stem": d.pick(["q", "a.b", "dir with space", "q_upt", "x.smt2", "UPPER", "é"]),
                "sub": d.flag(1, 3),
                "files": d.pick([[".smt2"], [".smtlib"], [".smtlib", ".smt2"], []]),
                "one": layout(d, head(d, d.flag()) + g.body(1, 2, 2)),
                "two": layout(d, head(d, d.flag()) + G(d).body(1, 2, 2)),
                "broken": d.weighted([(4, ""), (1, d.pick(["(assert", ")", "(assert (str.in.re x))x", '(assert (= x "a)']))]),
                "stale": d.flag(1, 2),
                "relative": d.flag(1, 2),
            }
        return cases(mk)

    def judge(self, case):
        d = core.scratch()
        base = os.path.join(d, "sub") if case["sub"] else d
        os.makedirs(base, exist_ok=True)
        stem = case["stem"]
        texts = {".smtlib": case["one"], ".smt2": case["two"]}
        chosen = ".smtlib" if ".smtlib" in case["files"] else (".smt2" if case["files"] else None)
        for e in case["files"]:
            core.write_at(os.path.join(base, stem + e), texts[e] + (case["broken"] if e == chosen else ""))
        core.write_at(os.path.join(base, "other.smt2"), "(check-sat)\n")
        if case["stale"]:
            for e in (".smtlib", ".smt2"):
                core.write_at(os.path.join(base, stem + "_upt" + e), "; stale " + "x" * 20000 + "\n")
        before = snapshot(d)
        arg = os.path.join("sub", stem) if case["sub"] else stem
        if not case["relative"]:
            arg = os.path.join(d, arg)
        r = core.run([core.exe("updater"), arg], cwd=d)
        after = snapshot(d)
        broken = bool(case["broken"])
        outname = os.path.relpath(os.path.join(base, stem + "_upt" + (chosen or "")), d)
        if chosen is None or broken:
            if r.rc == 0:
                raise Violation("reported success on %s\ncase %r" % ("a missing input" if chosen is None else "a file that does not parse", case))
            if after != before:
                raise Violation("failed, yet changed files: %s\ncase %r" % (diff(before, after), case))
            return Outcome(True, ["missing input" if chosen is None else "broken input"])
        if r.rc != 0:
            raise Violation("failed on a readable, well-formed input: %s\ncase %r" % (r.brief(), case))
        exp = set(before) | {outname}
        if set(after) != exp:
            raise Violation("files after the run: %s; expected %s" % (sorted(after), sorted(exp)))
        for k in before:
            if k != outname and before[k] != after[k]:
                raise Violation("the run changed %s, which is not its output file\ncase %r" % (k, case))
        compare(texts[chosen], after[outname].decode("utf-8", "replace"))
        return Outcome(True, ["both extensions" if len(case["files"]) == 2 else chosen, "stale output" if case["stale"] else "no stale output"])


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
