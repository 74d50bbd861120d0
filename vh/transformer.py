"""The string transformer (amzn-smt-string-transformer), driven as a program on generated scripts and
judged by evaluating original and transformed scripts under corresponding assignments, with our own
string semantics (vh/strings.py)."""
import hashlib
import itertools
import json
import os
import re

from . import core, smt, strings
from .core import Discard, Inconclusive, Outcome, Property, Violation
from .gen import cases
from .smt import StrLit, parse, show, sym
from .strings import SEnv, decode, encode, lit

BAIL = "Encountered unsupported string function: BAILING OUT"
DIGITS = "0123456789"
PROG = None


def prog():
    return core.exe("transformer")


# ---------------------------------------------------------------- running the program

def commands(text):
    """A script's commands without trivial assertions."""
    return [c for c in parse(text) if not tautology(c)]


class Converted:
    __slots__ = ("text", "cmds", "mapping", "run")


def convert(script, mode, name="q", ext="smt2", global_map=False, cwd=None):
    d = cwd or core.scratch()
    p = os.path.join(d, name + "." + ext)
    core.write_at(p, script)
    out = os.path.join(d, name + "_transformed." + ext)
    mp = os.path.join(d, "global_mapping.json" if global_map else name + "_mapping.json")
    if os.path.exists(out):
        os.unlink(out)
    argv = [prog(), "convert", "--mapping", mode, "--input-file", p] + (
        ["--use-global-map"] if global_map else [])
    r = core.run(argv, cwd=d)
    if r.rc != 0 or not os.path.exists(out) or not os.path.exists(mp):
        raise Violation("the conversion failed\n%s\non %s" % (r.brief(), script))
    c = Converted()
    c.run = r
    with open(out, encoding="utf-8", newline="") as f:
        c.text = f.read()
    with open(mp, encoding="utf-8") as f:
        c.mapping = json.load(f)
    c.cmds = None
    if c.text.strip() != BAIL:
        try:
            c.cmds = commands(c.text)
        except ValueError as e:
            raise Violation("the transformed script does not parse (%s)\n%s" % (e, c.text))
    return c


# ---------------------------------------------------------------- alignment
HEADER = ("set-logic", "set-info", "set-option", "declare-sort", "define-sort",
          "declare-datatype", "declare-datatypes")
DECL = ("declare-const", "declare-fun")


def tautology(c):
    """(assert (= t t)): a conversion may leave such an assertion out."""
    return (c[0] == "assert" and isinstance(c[1], tuple) and len(c[1]) == 3 and c[1][0] == "="
            and show(plainly(c[1][1])) == show(plainly(c[1][2])))


def plainly(t):
    """The term with its literals written the one way encode() has."""
    if isinstance(t, tuple):
        return tuple(plainly(x) for x in t)
    return lit(decode(t)) if isinstance(t, StrLit) else t


class Misaligned(Exception):
    pass


class Align:
    """Walks an original script and its transformation in parallel: everything but string literals
    and declared names has to be the same.  Collects literal pairs."""

    def __init__(self, orig, new):
        self.alpha = {}
        self.lits = []      # (original raw, new raw, kind)
        parts = ([], [], [])
        for c in orig:
            parts[0 if c[0] in HEADER else 1 if c[0] in DECL else 2].append(c)
        want = parts[0] + parts[1] + parts[2]
        if len(want) != len(new):
            raise Misaligned("%d commands became %d" % (len(want), len(new)))
        new = list(new)
        at = [iter(new[:len(parts[0])]), iter(new[len(parts[0]):len(parts[0] + parts[1])]),
              iter(new[len(parts[0] + parts[1]):])]
        pairs = [(w, next(at[0 if w[0] in HEADER else 1 if w[0] in DECL else 2])) for w in orig]
        self.declared = []      # (original name, new name) of each declaration
        for w, n in pairs:
            if w[0] in DECL:
                if n[0] != w[0] or len(n) != len(w):
                    raise Misaligned("%s became %s" % (show(w), show(n)))
                if tuple(w[2:]) != tuple(n[2:]):
                    raise Misaligned("%s became %s" % (show(w), show(n)))
                self.declared.append((sym(w[1]), sym(n[1])))
        if len({n for _, n in self.declared}) != len(self.declared):
            raise Misaligned("two declarations share one name: %s" % self.declared)
        defined = {sym(c[1]) for c in orig if c[0] == "define-fun"}
        if defined & {n for _, n in self.declared}:
            raise Misaligned("a declared symbol gets the name of a definition: %s" % self.declared)
        for w, n in pairs:
            if w[0] in HEADER:
                if show(w) != show(n):
                    raise Misaligned("%s became %s" % (show(w), show(n)))
            elif w[0] in DECL:
                # a symbol may be declared again after a pop
                self.alpha[sym(w[1])] = sym(n[1])
            else:
                if n[:1] != w[:1] or len(n) != len(w):
                    raise Misaligned("%s became %s" % (show(w), show(n)))
                if w[0] == "define-fun":
                    if n[1:4] != w[1:4]:
                        raise Misaligned("%s became %s" % (show(w), show(n)))
                    self.term(w[4], n[4], frozenset(sym(p[0]) for p in w[2]))
                elif w[0] in ("assert", "get-value", "check-sat-assuming", "simplify"):
                    for a, b in zip(w[1:], n[1:]):
                        self.term(a, b, frozenset())
                elif show(w) != show(n):
                    raise Misaligned("%s became %s" % (show(w), show(n)))

    def name(self, a, bound):
        s = sym(a)
        if s in bound:
            return s
        t = self.alpha.get(s, s)
        if t in bound:
            raise Misaligned("%s is renamed %s where that is bound" % (s, t))
        return t

    def term(self, a, b, bound):
        if isinstance(a, StrLit) or isinstance(b, StrLit):
            if not (isinstance(a, StrLit) and isinstance(b, StrLit)):
                raise Misaligned("%s became %s" % (show(a), show(b)))
            self.lits.append((str(a), str(b)))
            return
        if isinstance(a, str) or isinstance(b, str):
            if not (isinstance(a, str) and isinstance(b, str)) or sym(b) != self.name(a, bound):
                raise Misaligned("%s became %s" % (show(a), show(b)))
            return
        if len(a) != len(b):
            raise Misaligned("%s became %s" % (show(a), show(b)))
        if a and a[0] in ("let", "forall", "exists"):
            if b[0] != a[0] or len(a[1]) != len(b[1]):
                raise Misaligned("%s became %s" % (show(a), show(b)))
            inner = bound | {sym(x[0]) for x in a[1]}
            for x, y in zip(a[1], b[1]):
                if len(y) != 2 or sym(x[0]) != sym(y[0]):
                    raise Misaligned("%s became %s" % (show(a), show(b)))
                if a[0] == "let":
                    self.term(x[1], y[1], bound)
                elif x[1] != y[1]:
                    raise Misaligned("%s became %s" % (show(a), show(b)))
            self.term(a[2], b[2], inner)
            return
        for x, y in zip(a, b):
            self.term(x, y, bound)


# ---------------------------------------------------------------- facts about an original script

def walk(t, f):
    f(t)
    if not isinstance(t, str):
        for x in t:
            walk(x, f)


EXACT = {"str.to_int", "str.from_int"}


class Facts:
    def __init__(self, cmds):
        self.ranges = set()
        self.refusable = False   # uses something the transformer says it does not support
        self.exact = self.digit = False
        self.chars = set()
        self.ops = set()

        def f(t):
            if isinstance(t, StrLit):
                self.chars |= set(decode(t))
            elif isinstance(t, tuple) and t and isinstance(t[0], str) and not isinstance(t[0], StrLit):
                self.ops.add(t[0])
                if t[0] in EXACT:
                    self.exact = True
                if t[0] == "str.is_digit":
                    self.digit = True
                if t[0] in ("str.<", "str.<="):
                    self.refusable = True
                if t[0] == "re.range" and not (
                        all(isinstance(x, StrLit) and len(decode(x)) == 1 and decode(x) < "\x80" for x in t[1:])
                        and decode(t[1]) != decode(t[2])):
                    self.refusable = True
                if t[0] == "re.range" and len(t) == 3 and all(isinstance(x, StrLit) for x in t[1:]):
                    a, b = decode(t[1]), decode(t[2])
                    if len(a) == 1 and len(b) == 1 and a <= b:
                        self.ranges.add((a, b))
            elif isinstance(t, tuple) and t and isinstance(t[0], tuple):
                self.ops.add(t[0][1] if len(t[0]) > 1 else "")
        for c in cmds:
            walk(c, f)


class NoBijection(Exception):
    pass


def bijection(orig_facts, new_facts, pairs):
    """The one-to-one correspondence of characters a char-to-char transformation induces, from its
    literals alone: extended so that ranges go to ranges of the same size and digits to digits
    wherever the script can tell.  Returns a function from characters to characters."""
    pi, inv = {}, {}

    def put(a, b):
        if pi.get(a, b) != b:
            raise NoBijection("character %r becomes both %r and %r" % (a, pi[a], b))
        if inv.get(b, a) != a:
            raise NoBijection("characters %r and %r both become %r" % (inv[b], a, b))
        pi[a] = b
        inv[b] = a

    for x, y in pairs:
        u, v = decode(x), decode(y)
        if len(u) != len(v):
            raise NoBijection("literal %r becomes %r, of another length" % (u, v))
        for a, b in zip(u, v):
            put(a, b)
    if orig_facts.exact:
        for c in DIGITS:
            put(c, c)
    classes = []
    if orig_facts.digit and not orig_facts.exact:
        classes.append((set(DIGITS), set(DIGITS)))
    for a, b in orig_facts.ranges:
        src = set(map(chr, range(ord(a), ord(b) + 1)))
        lo, hi = pi[a], pi[b]
        dst = set(map(chr, range(ord(lo), ord(hi) + 1)))
        if len(src) != len(dst):
            raise NoBijection("range %r..%r of %d characters becomes %r..%r of %d" % (
                a, b, len(src), lo, hi, len(dst)))
        classes.append((src, dst))
    # atoms of the classes: characters on both sides that every class treats alike
    def signature(c, side):
        return tuple(c in cl[side] for cl in classes)
    src_atoms, dst_atoms = {}, {}
    for c in sorted(set().union(*[cl[0] for cl in classes])) if classes else ():
        src_atoms.setdefault(signature(c, 0), []).append(c)
    for c in sorted(set().union(*[cl[1] for cl in classes])) if classes else ():
        dst_atoms.setdefault(signature(c, 1), []).append(c)
    nothing = tuple(False for _ in classes)
    for a, b in list(pi.items()):
        if signature(a, 0) != signature(b, 1):
            raise NoBijection("character %r becomes %r, which is on the other side of a range" % (a, b))
    for k in set(src_atoms) | set(dst_atoms):
        s, t = src_atoms.get(k, []), dst_atoms.get(k, [])
        if len(s) != len(t):
            raise NoBijection("ranges overlap differently after the transformation: %d and %d characters" % (
                len(s), len(t)))
        free_s = [c for c in s if c not in pi]
        free_t = [c for c in t if c not in inv]
        for a, b in zip(free_s, free_t):
            put(a, b)
    fresh = [0x1F300]

    def f(c):
        if c not in pi:
            while chr(fresh[0]) in inv:
                fresh[0] += 1
            put(c, chr(fresh[0]))
        return pi[c]
    f.pi = pi
    del nothing
    return f


# ---------------------------------------------------------------- interpretations

def digest(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def value(sort, pool, ints, h):
    if sort == "String":
        return pool[h % len(pool)]
    if sort == "Int":
        return ints[h % len(ints)]
    if sort == "Bool":
        return bool(h % 2)
    raise smt.Unsupported("sort %s" % (sort,))


def function(name, sort, pool, ints, salt):
    def f(*args):
        return value(sort, pool, ints, digest(salt, name, args))
    return f


class World:
    """An interpretation of a script's declared symbols, drawn as data: pool of strings, of integers,
    explicit values for variables, a salt for functions."""

    def __init__(self, cmds, data):
        self.sorts = smt.declarations(cmds)
        self.pool = data["pool"]
        self.ints = data["ints"]
        self.salt = data.get("salt", 0)
        self.interp = {}
        for name, (args, res) in self.sorts.items():
            if args:
                self.interp[name] = function(name, res, self.pool, self.ints, self.salt)
            elif name in data["vals"]:
                self.interp[name] = data["vals"][name]
            else:
                self.interp[name] = value(res, self.pool, self.ints, digest(self.salt, name))
        self.dom = {"String": self.pool[:3], "Int": self.ints[:3], "Bool": [False, True]}

    def env(self, cmds):
        return strings.add_definitions(cmds, dict(self.interp), self.dom)

    def mapped(self, pi, alpha):
        """The same world after renaming characters by pi and declared names by alpha."""
        def up(v):
            return "".join(map(pi, v)) if isinstance(v, str) else v
        back = {}

        def img(v):
            r = up(v)
            if isinstance(v, str):
                back[r] = v
            return r

        w = World.__new__(World)
        w.sorts = {}
        w.pool = [img(v) for v in self.pool]
        w.ints = self.ints
        w.salt = self.salt
        w.dom = {"String": w.pool[:3], "Int": self.ints[:3], "Bool": [False, True]}
        w.interp = {}
        inv = {}

        def down(v):
            if not isinstance(v, str):
                return v
            if not inv or any(c not in inv for c in v):
                inv.clear()
                inv.update({b: a for a, b in pi.pi.items()})
            out = []
            for c in v:
                if c not in inv:
                    # a character nothing has been mapped to: it stands for some character that
                    # nothing stands for; take one
                    k = 0x1F600
                    while chr(k) in pi.pi:
                        k += 1
                    pi.pi[chr(k)] = c
                    inv[c] = chr(k)
                out.append(inv[c])
            return "".join(out)

        for name, v in self.interp.items():
            if callable(v):
                w.interp[alpha[name]] = (lambda *a, _f=v: up(_f(*[down(x) for x in a])))
            else:
                w.interp[alpha[name]] = up(v)
        return w


def truths(cmds, env):
    return [strings.ev(t, env) for t in smt.assertions(cmds)]


# ---------------------------------------------------------------- generator

# names the transformer gives to declared symbols and to symbols of its own, when they are free
OWN_NAMES = ["a0", "a1", "a2", "a3", "new_var0", "new_var1"]


def kept_names(cmds):
    """Names that a script binds or defines: they stay as they are."""
    out = set()

    def binders(t):
        if not isinstance(t, str) and len(t) == 3 and t[0] in ("let", "forall", "exists"):
            out.update(sym(x[0]) for x in t[1])
    for c in cmds:
        if c[0] in ("define-fun", "define-fun-rec"):
            out.add(sym(c[1]))
            out.update(sym(p[0]) for p in c[2])
        if c[0] == "declare-datatypes":
            for dt in c[2]:
                for con in dt:
                    out.add(sym(con if isinstance(con, str) else con[0]))
                    out.update(sym(s[0]) for s in con[1:] if not isinstance(con, str))
        if c[0] not in DECL:
            walk(c, binders)
    return out


class Gen:
    """Scripts over strings.  feats: the language features this script uses."""

    def __init__(self, d, feats, chars, lits, nvars):
        self.d, self.feats = d, feats
        self.chars, self.lits = chars, lits
        self.vars = {"String": [], "Int": [], "Bool": []}
        self.funs = {"String": [], "Int": [], "Bool": []}   # (name, [arg sorts])
        self.ranges = []
        self.nlets = 0
        for s, n in nvars.items():
            self.vars[s] = list(n)

    def on(self, f):
        return f in self.feats

    def literal(self):
        return lit(self.d.pick(self.lits))

    def leaf(self, sort):
        d = self.d
        if sort == "String":
            if self.vars["String"] and d.flag(1, 2):
                return d.pick(self.vars["String"])
            return self.literal()
        if sort == "Int":
            if self.vars["Int"] and d.flag(2, 5):
                return d.pick(self.vars["Int"])
            return str(d.i(0, 4))
        if self.vars["Bool"] and d.flag(3, 4):
            return d.pick(self.vars["Bool"])
        return d.pick(["true", "false"])

    def common(self, sort, k, opts):
        if self.on("ite"):
            opts.append((1, lambda: ("ite", self.bool(k - 1), self.t(sort, k - 1), self.t(sort, k - 1))))
        fs = self.funs[sort]
        if fs:
            def app():
                f, args = self.d.pick(fs)
                return (f,) + tuple(self.t(a, k - 1) for a in args)
            opts.append((2, app))
        if self.on("let"):
            opts.append((1, lambda: self.let(sort, k)))

    def t(self, sort, k):
        return {"String": self.str, "Int": self.int, "Bool": self.bool, "RegLan": self.re}[sort](k)

    def fresh(self, taken=()):
        """A name to bind; maybe one that the transformer gives to symbols of its own."""
        if self.on("capture") and self.d.flag():
            fs = [f for s in self.funs for f, _ in self.funs[s]]
            pool = [n for n in OWN_NAMES if n not in taken and n not in fs]
            if pool:
                return self.d.pick(pool)
        self.nlets += 1
        return "k%d" % self.nlets

    def let(self, sort, k):
        d = self.d
        n = d.i(1, 2)
        binds, names = [], []
        for _ in range(n):
            s = d.weighted([(3, "String"), (1, "Int"), (1, "Bool")])
            binds.append((s, self.t(s, k - 1)))
        for s, _ in binds:
            # every now and then a let shadows a declared variable
            pool = [v for v in self.vars[s] if v not in names] if self.on("shadow") else []
            if pool and d.flag(1, 2):
                names.append(d.pick(pool))
            else:
                names.append(self.fresh(names))
        saved = {s: list(v) for s, v in self.vars.items()}
        for (s, _), n_ in zip(binds, names):
            self.vars = {q: [v for v in vs if v != n_] for q, vs in self.vars.items()}
            self.vars[s] = self.vars[s] + [n_, n_]
        body = self.t(sort, k - 1)
        self.vars = saved
        return ("let", tuple((n_, b) for n_, (_, b) in zip(names, binds)), body)

    def str(self, k):
        d = self.d
        if k <= 0:
            return self.leaf("String")
        opts = [(3, lambda: self.leaf("String")),
                (3, lambda: ("str.++",) + tuple(self.str(k - 1) for _ in range(d.i(2, 3))))]
        if self.on("sub"):
            opts.append((1, lambda: ("str.at", self.str(k - 1), self.int(k - 2))))
            opts.append((2, lambda: ("str.substr", self.str(k - 1), self.int(k - 2), self.int(k - 2))))
        if self.on("replace"):
            opts.append((2, lambda: (d.pick(["str.replace", "str.replace_all"]),
                                     self.str(k - 1), self.str(k - 2), self.str(k - 2))))
            if self.on("re"):
                opts.append((1, lambda: (d.pick(["str.replace_re", "str.replace_re_all"]),
                                         self.str(k - 1), self.re(k - 2), self.str(k - 2))))
        if self.on("ints"):
            opts.append((1, lambda: ("str.from_int", self.int(k - 1))))
        self.common("String", k, opts)
        return d.weighted(opts)()

    def int(self, k):
        d = self.d
        if k <= 0:
            return self.leaf("Int")
        opts = [(2, lambda: self.leaf("Int")), (1, lambda: ("+", self.int(k - 1), self.int(k - 1))),
                (1, lambda: ("-", self.int(k - 1), self.int(k - 1)))]
        if self.on("len"):
            opts.append((4, lambda: ("str.len", self.str(k - 1))))
        if self.on("sub"):
            opts.append((2, lambda: ("str.indexof", self.str(k - 1), self.str(k - 2), self.int(k - 2))))
        if self.on("ints"):
            opts.append((2, lambda: ("str.to_int", self.str(k - 1))))
        self.common("Int", k, opts)
        return d.weighted(opts)()

    def bool(self, k):
        d = self.d
        if k <= 0:
            return self.leaf("Bool")
        opts = [(5, lambda: ("=", self.str(k - 1), self.str(k - 1))),
                (2, lambda: (d.pick(["=", "<=", "<", ">=", ">"]), self.int(k - 1), self.int(k - 1))),
                (1, lambda: ("distinct",) + tuple(self.str(k - 1) for _ in range(d.i(2, 3)))),
                (2, lambda: ("not", self.bool(k - 1))),
                (2, lambda: (d.pick(["and", "or", "=>", "xor"]), self.bool(k - 1), self.bool(k - 1)))]
        if self.on("sub"):
            opts.append((4, lambda: (d.pick(["str.prefixof", "str.suffixof", "str.contains"]),
                                     self.str(k - 1), self.str(k - 1))))
        if self.on("digit"):
            opts.append((2, lambda: ("str.is_digit", self.str(k - 1))))
        if self.on("re"):
            opts.append((5, lambda: ("str.in_re", self.str(k - 1), self.re(k))))
        if self.on("quant"):
            opts.append((1, lambda: self.quant(k)))
        self.common("Bool", k, opts)
        return d.weighted(opts)()

    def quant(self, k):
        d = self.d
        s = d.weighted([(4, "String"), (1, "Int")])
        n = self.fresh()
        pool = self.vars[s] if self.on("shadow") else []
        if pool and d.flag(1, 2):
            n = d.pick(pool)
        saved = {q: list(v) for q, v in self.vars.items()}
        for q in self.vars:
            self.vars[q] = [v for v in self.vars[q] if v != n]
        self.vars[s] = self.vars[s] + [n, n]
        body = self.bool(k - 1)
        self.vars = saved
        return (d.pick(["forall", "exists"]), ((n, s),), body)

    def re(self, k):
        d = self.d
        leaf = [(4, lambda: ("str.to_re", self.literal()))]
        if self.ranges:
            leaf.append((4, lambda: ("re.range",) + tuple(lit(c) for c in d.pick(self.ranges))))
        leaf.append((1, lambda: d.pick(["re.allchar", "re.all", "re.none"])))
        if k <= 0:
            return d.weighted(leaf)()
        opts = leaf + [
            (4, lambda: ("re.++",) + tuple(self.re(k - 1) for _ in range(d.i(2, 3)))),
            (3, lambda: (d.pick(["re.*", "re.+", "re.opt", "re.comp"]), self.re(k - 1))),
            (3, lambda: (d.pick(["re.union", "re.inter", "re.diff"]), self.re(k - 1), self.re(k - 1))),
            (1, lambda: (("_", "re.^", str(d.i(0, 3))), self.re(k - 1))),
            (1, lambda: (("_", "re.loop", str(d.i(0, 2)), str(d.i(0, 3))), self.re(k - 1)))]
        if self.on("re-terms"):
            opts.append((1, lambda: ("str.to_re", self.str(k - 1))))
        return d.weighted(opts)()


ALPHABETS = [
    "ab", "abc", "xyz-", "ab01", "019a", "aAzZ", "\U0002ffff\U0002fffea", "/:.a", " _#%", "a\"b", "a\\u", "\u00e9a", "\r\n\t", "\x00\x7fq",
    "'()*+", "abcdefghijklm", "\u4e2d\U00010000a", "{}u\\", "~}|z",
]


def alphabet(d):
    cs = list(d.pick(ALPHABETS))
    if d.flag(1, 3):
        cs += [c for c in d.pick(ALPHABETS) if c not in cs]
    return cs


def some_string(d, chars, lo=0, hi=4):
    return "".join(d.pick(chars) for _ in range(d.i(lo, hi)))


def literals(d, chars, hi=5, lo=0):
    out = [some_string(d, chars, 1, 3)]
    for _ in range(d.i(lo, hi)):
        k = d.weighted([(3, "new"), (2, "ext"), (2, "cut"), (1, "char"), (1, "empty"), (1, "join")])
        if k == "new":
            s = some_string(d, chars, 1, 4)
        elif k == "ext":
            s = d.pick(out) + some_string(d, chars, 1, 2)
        elif k == "cut":
            s = d.pick(out)
            i = d.i(0, len(s))
            s = s[i:i + d.i(0, len(s))]
        elif k == "char":
            s = d.pick(chars)
        elif k == "empty":
            s = ""
        else:
            s = (d.pick(out) + d.pick(out))[:6]
        out.append(s)
    if d.flag(1, 10):
        # many different characters: more than there are printable ones left to map them to
        for _ in range(d.i(1, 4)):
            lo = d.pick([0x20, 0x21, 0x30, 0x41, 0x5b, 0xa0, 0x3b1, 0x4e00])
            out.append("".join(map(chr, range(lo, lo + d.i(8, 94)))))
    return out


RANGES = [("a", "f"), ("A", "F"), ("0", "9"), ("a", "z"), ("A", "Z"), (" ", "/"), ("b", "d"), ("e", "h"), ("0", "5"),
          ("x", "z"), ("z", "x"), ("#", "&"), ("+", "z"), (" ", "~"), ("W", "^"), ("g", "k")]

FEATS = ["sub", "len", "re", "replace", "ints", "digit", "ite", "let", "quant", "uf", "define", "shadow", "re-terms", "capture"]
NAMES = ["x", "y", "|x y|", "a1", "a0", "new_var0", "s!1", "|a0 b|", "x.1", "str", "|let|"]
PLAIN_NAMES = [n for n in NAMES if n != "|let|"]     # reserved words lose their bars when printed


def script_case(d, feats_all=FEATS, depth=3, nassert=3, names=NAMES, ranges=RANGES):
    chars = alphabet(d)
    feats = {f for f in feats_all if d.flag(1, 2)}
    lits = literals(d, chars)
    pool_names = d.shuffled(names)
    decls = []
    nvars = {"String": [], "Int": [], "Bool": []}
    for s, hi in (("String", 3), ("Int", 2), ("Bool", 1)):
        for _ in range(d.i(1 if s == "String" else 0, hi)):
            if not pool_names:
                break
            n = pool_names.pop()
            nvars[s].append(n)
            decls.append(("declare-const", n, s) if d.flag() else ("declare-fun", n, (), s))
    g = Gen(d, feats, chars, lits, nvars)
    if "re" in feats and ranges:
        g.ranges = [d.pick(ranges) for _ in range(d.i(0, 3))]
    funs = []
    if "uf" in feats:
        for i in range(d.i(1, 2)):
            res = d.pick(["String", "Int", "Bool"])
            args = [d.weighted([(3, "String"), (1, "Int")]) for _ in range(d.i(1, 2))]
            n = pool_names.pop() if pool_names and d.flag(1, 3) else "f%d" % i
            funs.append((res, n, args))
            decls.append(("declare-fun", n, tuple(args), res))
    for res, n, args in funs:
        g.funs[res].append((n, args))
    body = []
    if "define" in feats:
        saved = {s: list(v) for s, v in g.vars.items()}
        args = [d.weighted([(3, "String"), (1, "Int")]) for _ in range(d.i(0, 2))]
        res = d.pick(["Bool", "String", "Int"])
        own = d.shuffled(OWN_NAMES) if "capture" in feats else []
        own = [n for n in own if n not in names or n in pool_names]     # not declared
        name = own.pop() if own and d.flag() else "def"
        ps = tuple((own.pop() if own and d.flag() else "p%d" % i, s) for i, s in enumerate(args))
        for p, s in ps:
            g.vars[s] = g.vars[s] + [p, p]
        t = g.t(res, depth - 1)
        g.vars = saved
        body.append(("define-fun", name, ps, res, t))
        if args:
            g.funs[res].append((name, args))
        else:
            g.vars[res].append(name)
    for _ in range(d.i(1, nassert)):
        body.append(("assert", g.bool(depth)))
    vals = {}
    charpool = list(chars) + [c for r in g.ranges for c in (r[0], r[1])]
    extra = charpool + list("am09#%'~$") + ["\u0101"]
    for s, ns in nvars.items():
        for n in ns:
            if s == "String":
                vals[sym(n)] = some_value(d, lits, extra)
            elif s == "Int":
                vals[sym(n)] = d.i(-1, 5)
            else:
                vals[sym(n)] = d.flag()
    data = {"vals": vals, "pool": [some_value(d, lits, extra) for _ in range(4)],
            "ints": [d.i(-1, 4) for _ in range(3)], "salt": d.i(0, 999)}
    return {"decls": [show(c) for c in decls], "body": [show(c) for c in body], "world": data}


def some_value(d, lits, chars):
    k = d.weighted([(3, "lit"), (3, "mix"), (2, "rand"), (1, "empty")])
    if k == "lit":
        return d.pick(lits)
    if k == "mix":
        return some_string(d, chars, 0, 1) + d.pick(lits) + some_string(d, chars, 0, 2)
    if k == "rand":
        return some_string(d, chars, 1, 4)
    return ""


def script_of(case, header=("(set-logic ALL)",), tail=("(check-sat)",)):
    return "\n".join(list(header) + case["decls"] + case["body"] + list(tail)) + "\n"


TOKEN = re.compile(r'\|[^|]*\||;[^\n]*|"(?:[^"]|"")*"')


def respelled(d, raw):
    """Another way of writing the literal with this raw text."""
    s = decode(raw)
    style = d.i(0, 4)
    out = []
    for c in s:
        k = d.i(0, 4) if style == 4 else style
        n = ord(c)
        if k == 1 and n <= 0xffff:
            out.append("\\u%04x" % n if d.flag() else "\\u%04X" % n)
        elif k == 2:
            out.append("\\u{%s}" % d.pick(["%x", "%X", "%05x", "%03X", "%02x"]) % n)
        elif k == 3 and (n >= 0xa0 or " " <= c <= "~"):
            out.append(c.replace('"', '""'))
        else:
            out.append(encode(c))
    new = "".join(out)
    return new if decode(new) == s else encode(s)


def spelled(fn):
    """fn's cases, some with their literals written in other ways."""
    def f(d):
        case = fn(d)
        if not d.flag(1, 4):
            return case
        def sub(m):
            return '"%s"' % respelled(d, m.group()[1:-1]) if m.group()[0] == '"' and d.flag(2, 3) else m.group()
        return dict(case, **{k: [TOKEN.sub(sub, x) for x in case[k]] for k in ("decls", "body", "cmds") if k in case})
    return f


# ---------------------------------------------------------------- T01

def correspondence(orig, conv, script):
    """Alignment and character correspondence of a char-to-char conversion."""
    if conv.cmds is None:
        if Facts(orig).refusable:
            raise Discard("refused")
        raise Violation("the conversion gave up although every function is supported\n%s" % script)
    try:
        al = Align(orig, conv.cmds)
    except Misaligned as e:
        raise Violation("the transformed script is not the original with other literals and names: %s\n%s\n--- became\n%s"
                        % (e, script, conv.text))
    try:
        pi = bijection(Facts(orig), None, al.lits)
    except NoBijection as e:
        raise Violation("no one-to-one correspondence of characters: %s\n%s\n--- became\n%s" % (e, script, conv.text))
    return al, pi


def literal_count(orig):
    return len(Facts(orig).chars)


class T01(Property):
    id = "T01"
    bins = ("transformer",)
    rule = ("the script's literals have at least two different characters, at least one changed, and its "
            "assertions are neither all true nor all false, or more than one assignment was tried")
    quick = 16000
    thorough = 200000

    def strategy(self):
        return cases(spelled(script_case))

    def judge(self, case):
        script = script_of(case)
        orig = commands(script)
        conv = convert(script, "char-to-char")
        al, pi = correspondence(orig, conv, script)
        seen = set()
        for world in worlds(case["world"]):
            w = World(orig, world)
            want = truths(orig, w.env(orig))
            w2 = w.mapped(pi, al.alpha)
            got = truths(conv.cmds, w2.env(conv.cmds))
            seen |= set(want)
            if got != want:
                i = [a == b for a, b in zip(got, want)].index(False)
                raise Violation(
                    "assertion %d is %s, its transformation %s under the corresponding assignment\n"
                    "assignment %s -> %s\n%s\n--- became\n%s" % (
                        i + 1, want[i], got[i],
                        {k: v for k, v in w.interp.items() if not callable(v)},
                        {k: v for k, v in w2.interp.items() if not callable(v)}, script, conv.text))
        f = Facts(orig)
        changed = any(a != b for a, b in al.lits)
        tags = ["both-truths" if len(seen) == 2 else "one-truth"]
        tags += [t for t, c in (("ranges", f.ranges), ("digits", f.digit or f.exact),
                                ("uf", any(callable(v) for v in w.interp.values())),
                                ("binders", "let" in f.ops or "forall" in f.ops or "exists" in f.ops),
                                ("regex", "str.in_re" in f.ops)) if c]
        return Outcome(len(f.chars) >= 2 and changed and len(seen) == 2, tags)


def worlds(data):
    """A few interpretations from one drawn one: the values dealt differently."""
    yield data
    for salt in range(1, 4):
        vals = {}
        for k, v in data["vals"].items():
            h = digest(salt, k)
            if isinstance(v, bool):
                vals[k] = bool(h % 2)
            elif isinstance(v, int):
                vals[k] = data["ints"][h % len(data["ints"])]
            else:
                vals[k] = data["pool"][h % len(data["pool"])]
        yield dict(data, vals=vals, salt=data["salt"] + salt)



# ---------------------------------------------------------------- T02

def mapping_faults(script, conv, al, mode):
    """What the mapping file says against what the conversion did."""
    m = conv.mapping
    cm, sm = [tuple(x) for x in m["char_map"]], [tuple(x) for x in m["string_map"]]
    if mode == "no-reconstruct" and cm:
        mode = "char-to-char"       # the documented fallback
    fwd = dict(cm)
    if len(fwd) != len(cm) or len({b for _, b in cm}) != len(cm):
        return "the character map is not one-to-one: %s" % cm
    strings_ = dict(sm)
    if len(strings_) != len(sm):
        return "the string map lists a string twice: %s" % sm
    if len(set(strings_.values())) != len(strings_):
        return "the string map sends two strings to one: %s" % sm
    for a, b in sm:
        if (a == "") != (b == ""):
            return "the string map sends %r to %r" % (a, b)
        if mode == "char-to-char" and "".join(fwd.get(c, c) for c in a) != b:
            return "the string map sends %r to %r, the character map %s does not" % (a, b, cm)
    for x, y in al.lits:
        a, b = decode(x), decode(y)
        if a and strings_.get(a) != b and not (mode != "char-to-char" and len(a) == 1 and a not in strings_):
            return "literal %r became %r, the string map says %r" % (a, b, strings_.get(a))
        if mode == "char-to-char":
            if "".join(fwd.get(c, c) for c in a) != b:
                return "literal %r became %r, not what the character map %s says" % (a, b, cm)
    alpha = [(sym(a), sym(b)) for a, b in m["alpha_renaming_map"]]
    if dict(alpha) != al.alpha or len(alpha) != len(al.alpha):
        return "the renaming in the mapping file is %s, that of the script %s" % (alpha, al.alpha)
    if m["failed_transformed_constraint_vars"]:
        return "variables are reported as failed: %s" % m["failed_transformed_constraint_vars"]
    for v in m["affected_constraint_vars"]:
        if sym(v) not in al.alpha.values():
            return "%s is reported as affected, and not a constant of the converted script" % v
    for k, o in m["persistent_string_map"]:
        if not cm and k in strings_ and strings_[k] != o["mapped_to"]:
            return "the persistent map sends %r to %r, the string map to %r" % (k, o["mapped_to"], strings_[k])
    return None


def any_case(d):
    if d.flag(1, 3):
        return flat_case(d)
    return script_case(d)


class T02(Property):
    id = "T02"
    bins = ("transformer",)
    rule = "at least two different literals were changed and at least one name"
    quick = 18000
    thorough = 200000

    def strategy(self):
        return cases(spelled(lambda d: dict(any_case(d), mode=d.pick(["char-to-char", "no-reconstruct"]))))

    def judge(self, case):
        script = script_of(case)
        orig = commands(script)
        conv = convert(script, case["mode"])
        if conv.cmds is None:
            if Facts(orig).refusable:
                raise Discard("refused")
            raise Violation("the conversion gave up although every function is supported\n%s" % script)
        try:
            al = Align(orig, conv.cmds)
        except Misaligned as e:
            raise Violation("the transformed script is not the original with other literals and names: %s\n%s\n--- became\n%s"
                            % (e, script, conv.text))
        f = mapping_faults(script, conv, al, case["mode"])
        if f:
            raise Violation("%s\n%s\n--- became (%s)\n%s" % (f, script, case["mode"], conv.text))
        return Outcome(len({a for a, b in al.lits if a != b}) >= 2 and bool(al.alpha), [case["mode"]] + (
            ["fallback"] if case["mode"] == "no-reconstruct" and conv.mapping["char_map"] else []))


# ---------------------------------------------------------------- flat scripts, T03

FLAT_FEATS = ["pre", "con", "cat", "len", "re", "idx", "at", "sub", "rep", "dig", "int"]
FLAT_RANGES = [("a", "f"), ("0", "9"), ("x", "z"), ("a", "z"), (" ", "~"), ("+", "z"), ("A", "Z"), ("/", ":")]
FLAT_CHARS = ["ab", "abc", "xyz-", "ab01", "019a", "/:.a", "abcdefghijklm", "a\"\\", "\u00e9a"]


def flat_case(d, nvars=3, nassert=6, feats=None, chars=None, lits=None):
    """Scripts whose atoms apply one string function to variables and literals: what the
    no-reconstruct mapping tracks."""
    if feats is None:
        feats = {f for f in FLAT_FEATS if d.flag(1, 3)}
    chars = list(chars or d.pick(FLAT_CHARS))
    lits = lits or literals(d, chars, 6, 2)
    vs = ["x", "y", "z"][:d.i(1, nvars)]
    g = Gen(d, set(), chars, lits, {"String": [], "Int": [], "Bool": []})
    if "re" in feats and d.flag():
        g.ranges = [d.pick(FLAT_RANGES) for _ in range(d.i(1, 2))]
    var = lambda: d.pick(vs)
    num = lambda: str(d.i(0, 4))
    one = lambda: lit(d.pick(lits))
    arg = lambda: var() if d.flag() else one()

    def two(op):
        a, b = (var(), arg()) if d.flag() else (arg(), var())
        return (op, a, b)
    cmp_ = lambda: d.pick(["=", "<=", ">="])
    opts = [(4 if len(feats) > 1 else 1, lambda: ("=", var(), one())), (1, lambda: ("=", var(), var())),
            (1, lambda: ("distinct", var(), one(), one()))]
    table = {
        "pre": (3, lambda: two(d.pick(["str.prefixof", "str.suffixof"]))),
        "con": (3, lambda: two("str.contains")),
        "cat": (3, lambda: ("=", arg(), two("str.++"))),
        "re": (4, lambda: ("str.in_re", var(), g.re(2))),
        "len": (2, lambda: (cmp_(), ("str.len", var()), num())),
        "idx": (2, lambda: (cmp_(), ("str.indexof",) + two("x")[1:] + (num(),), num())),
        "at": (2, lambda: ("=", arg(), ("str.at", var(), num()))),
        "sub": (2, lambda: ("=", arg(), ("str.substr", var(), num(), num()))),
        "rep": (2, lambda: ("=", var(), (d.pick(["str.replace", "str.replace", "str.replace_all"]), arg(), arg(), arg()))),
        "dig": (2, lambda: ("str.is_digit", var())),
        "int": (2, lambda: (cmp_(), ("str.to_int", var()), num())),
    }
    opts += [table[f] for f in FLAT_FEATS if f in feats]

    def atom():
        a = d.weighted(opts)()
        return ("not", a) if d.flag(1, 3) else a

    def form():
        if d.flag(1, 4):
            return (d.pick(["or", "=>", "and"]), atom(), atom())
        return atom()
    body = [show(("assert", form())) for _ in range(d.i(2, nassert))]
    used = [v for v in vs if any(v in flatten(parse(b)) for b in body)]
    return {"decls": ["(declare-const %s String)" % v for v in used], "body": body}


def crowded_case(d):
    """Several variables that have to be different and are all related to one literal in the same way:
    whether that can be depends on how many strings the relation leaves."""
    chars = list(d.pick(["ab", "abc", "01", "019a"]))
    l = some_string(d, chars, 1, 4)
    q = lit(l)
    vs = ["x", "y", "z", "u", "v"][:d.i(2, 5)]
    i, j = str(d.i(0, 3)), str(d.i(0, 3))
    other = lit(some_string(d, chars, 0, 2))
    form = d.pick([
        lambda v: ("str.contains", q, v), lambda v: ("str.prefixof", v, q), lambda v: ("str.suffixof", v, q),
        lambda v: ("=", q, ("str.++", v, v)), lambda v: ("=", q, ("str.++", v, other)),
        lambda v: ("=", q, ("str.++", other, v)),
        lambda v: ("=", v, ("str.substr", q, i, j)), lambda v: ("=", v, ("str.at", q, i)),
        lambda v: ("=", ("str.indexof", q, v, i), j),
        lambda v: ("=", q, ("str.replace", q, v, other)), lambda v: ("=", v, ("str.replace", q, other, v)),
        lambda v: ("str.in_re", v, ("re.opt", ("str.to_re", q))),
        lambda v: ("str.in_re", v, ("re.union", ("str.to_re", q), ("str.to_re", other))),
        lambda v: ("and", ("str.prefixof", v, q), ("<=", ("str.len", v), i)),
        lambda v: ("and", ("str.contains", q, v), ("=", ("str.len", v), i)),
    ])
    body = [("assert", form(v)) for v in vs]
    away = [v for v in vs] + [lit(d.pick(["", l, l[:1], l[-1:], l[1:]])) for _ in range(d.i(0, 2))]
    body.append(("assert", ("distinct",) + tuple(away)))
    for _ in range(d.i(0, 2)):
        body.insert(d.i(0, len(body)), ("assert", ("distinct", d.pick(vs), lit(some_string(d, chars, 0, 3)))))
    return {"decls": ["(declare-const %s String)" % v for v in vs], "body": [show(b) for b in body]}


def range_case(d):
    """Variables in a small range of characters, compared with most of the strings there are in it."""
    lo, n = ord(d.pick("ax0Am")), d.i(1, 5)
    inside = [chr(lo + i) for i in range(n)]
    ends = "(re.range %s %s)" % (show(lit(inside[0])), show(lit(inside[-1])))
    near = [chr(lo - 1), chr(lo + n)] + (["#", ":"] if d.flag(1, 3) else [])
    vs = ["x", "y"][:d.i(1, 2)]
    size = d.pick([1, 1, 2])

    def some():
        k = d.i(0, 9)
        if k == 0:
            return some_string(d, near, 1, size)
        if k == 1:
            return some_string(d, inside + near, 1, 3)
        return some_string(d, inside, size, size) if k < 7 else some_string(d, inside, 1, 3)
    lits = [some() for _ in range(d.i(1, 7))]
    body = []
    for v in vs:
        for _ in range(d.i(1, 2)):
            body.append("(str.in_re %s %s)" % (v, d.pick([
                "%s", "%s", "(re.+ %s)", "(re.* %s)", "(re.comp %s)", "(re.opt %s)", "((_ re.loop 1 2) %s)", "(re.++ %s re.all)",
                "(re.++ %s %s)", "(re.++ %s (str.to_re {l}))", "(re.union %s (str.to_re {l}))", "(re.diff re.allchar %s)",
                "(re.++ (re.* %s) (str.to_re {l}))"]).replace("{l}", show(lit(d.pick(lits)))).replace("%s", ends)))
    for l in lits:
        v = d.pick(vs)
        body.append(d.pick(["(= %s %s)", "(= %s %s)", "(distinct %s %s)", "(str.prefixof %s %s)" if d.flag(1, 4) else "(= %s %s)"])
                    % (v, show(lit(l))))
    body = ["(not %s)" % b if d.flag(1, 4) else b for b in d.shuffled(body)]
    out = []
    while body:
        k = d.i(1, min(3, len(body)))
        out.append("(assert %s)" % (body[0] if k == 1 else "(or %s)" % " ".join(body[:k])))
        body = body[k:]
    return {"decls": ["(declare-const %s String)" % v for v in vs], "body": out}


def overlap_case(d):
    """Strings that have to fit into a short one, so that they overlap: that depends on which ends of
    literals are beginnings of others."""
    chars = list(d.pick(["ab", "abc", "abc", "aab1"]))
    lits = [some_string(d, chars, 1, 3) for _ in range(d.i(1, 3))]
    if d.flag():
        lits.append(lits[0][1:] + some_string(d, chars, 1, 2))
    vs = ["x", "y"][:d.i(1, 2)]
    body = []
    for _ in range(d.i(1, 4)):
        x, a, b, k = d.pick(vs), lit(d.pick(lits)), lit(d.pick(lits)), str(d.i(0, 4))
        any1 = d.pick(["re.allchar", "re.all", ("re.opt", "re.allchar"), ("re.*", "re.allchar"),
                       (("_", "re.^", "2"), "re.allchar"), ("re.comp", ("str.to_re", b))])
        ra, rb = ("str.to_re", a), ("str.to_re", b)
        t = d.pick([
            lambda: ("str.prefixof", a, x), lambda: ("str.suffixof", a, x), lambda: ("str.contains", x, a),
            lambda: ("=", ("str.substr", x, k, str(d.i(1, 3))), a), lambda: ("=", ("str.indexof", x, a, "0"), k),
            lambda: ("=", ("str.replace", x, a, b), x), lambda: ("=", x, ("str.++", a, "y" if len(vs) > 1 else b)),
            lambda: ("=", x, ("str.++", x, a)),
            lambda: ("str.in_re", x, ("re.++", ra, any1)), lambda: ("str.in_re", x, ("re.++", any1, ra)),
            lambda: ("str.in_re", x, ("re.++", any1, ra, any1)), lambda: ("str.in_re", x, ("re.*", ("re.++", any1, ra))),
            lambda: ("str.in_re", x, ("re.++", ("re.*", ra), any1)), lambda: ("str.in_re", x, ("re.*", ("re.union", ra, rb))),
            lambda: ("str.in_re", x, ("re.inter", ("re.++", ra, any1), ("re.++", any1, rb)))])()
        body.append(("not", t) if d.flag(1, 5) else t)
    for v in vs:
        if d.flag(3, 4):
            body.append((d.pick(["=", "=", "<=", ">="]), ("str.len", v), str(d.i(0, 6))))
    return {"decls": ["(declare-const %s String)" % v for v in vs], "body": [show(("assert", b)) for b in body]}


def flatten(t):
    out = []
    walk(tuple(t), lambda x: out.append(x) if isinstance(x, str) and not isinstance(x, StrLit) else None)
    return out


def literals_of(cmds, names):
    """For each of the names the literals in atoms that mention it."""
    out = {n: set() for n in names}

    def go(t):
        if isinstance(t, tuple) and t and t[0] in ("not", "or", "=>", "and", "assert"):
            for x in t[1:]:
                go(x)
            return
        vs, ls = set(), set()

        def f(x):
            if isinstance(x, StrLit):
                ls.add(decode(x))
            elif isinstance(x, str):
                vs.add(x)
        walk(t, f)
        for v in vs:
            if v in out:
                out[v] |= ls
    for c in cmds:
        if c[0] == "assert":
            go(c)
    return out


def literal_map(al, script, conv):
    """Where the literals went; each has to go to one place, different ones to different places."""
    m = {}
    for x, y in al.lits:
        a, b = decode(x), decode(y)
        if m.get(a, b) != b:
            raise Violation("literal %r became both %r and %r\n%s\n--- became\n%s" % (a, m[a], b, script, conv.text))
        m[a] = b
    if m.get("", "") != "" or "" in [b for a, b in m.items() if a]:
        raise Violation("the empty literal is not kept apart: %s\n%s\n--- became\n%s" % (m, script, conv.text))
    if len(set(m.values())) != len(m):
        raise Violation("two literals became one: %s\n%s\n--- became\n%s" % (m, script, conv.text))
    m.setdefault("", "")
    return m


def converted_flat(script, mode="no-reconstruct", **kw):
    orig = commands(script)
    conv = convert(script, mode, **kw)
    if conv.cmds is None:
        if Facts(orig).refusable:
            raise Discard("refused")
        raise Violation("the conversion gave up although every function is supported\n%s" % script)
    try:
        al = Align(orig, conv.cmds)
    except Misaligned as e:
        raise Violation("the transformed script is not the original with other literals and names: %s\n%s\n--- became\n%s"
                        % (e, script, conv.text))
    return orig, conv, al


def check_homomorphism(script, orig, conv, al, cap=300):
    """Every assertion has the same truth value when its variables take literals they are related to
    as its conversion when they take what those literals became.  Returns (assignments, truths)."""
    m = literal_map(al, script, conv)
    names = list(smt.declarations(orig))
    by = literals_of(orig, names)
    cand = [sorted(by[n], key=lambda s: (len(s), s)) or [""] for n in names]
    total = 1
    for c in cand:
        total *= len(c)
    seen, n = set(), 0
    step = max(1, total // cap)
    k = 0
    while k < total:
        q, vals = k, {}
        for name, c in zip(names, cand):
            vals[name] = c[q % len(c)]
            q //= len(c)
        w = World(orig, {"pool": [""], "ints": [0], "vals": vals})
        want = truths(orig, w.env(orig))
        w2 = World(conv.cmds, {"pool": [""], "ints": [0],
                               "vals": {al.alpha[v]: m[x] for v, x in vals.items()}})
        got = truths(conv.cmds, w2.env(conv.cmds))
        seen |= set(want)
        n += 1
        if got != want:
            i = [a == b for a, b in zip(got, want)].index(False)
            raise Violation("assertion %d is %s under %s, its conversion %s under the converted literals %s\n%s\n--- became\n%s" % (
                i + 1, want[i], vals, got[i], {v: m[x] for v, x in vals.items()}, script, conv.text))
        k += step
    return n, seen


class T03(Property):
    id = "T03"
    bins = ("transformer",)
    rule = ("the script has at least two different literals of which one changed, and among the assignments tried "
            "some assertion was true and some false")
    quick = 18000
    thorough = 200000

    def strategy(self):
        return cases(spelled(lambda d: d.weighted([(8, flat_case), (1, range_case)])(d)))

    def judge(self, case):
        script = script_of(case)
        orig, conv, al = converted_flat(script)
        n, seen = check_homomorphism(script, orig, conv, al)
        nlits = len({a for a, _ in al.lits})
        return Outcome(nlits >= 2 and len(seen) == 2 and any(a != b for a, b in al.lits),
                       ["fallback" if conv.mapping["char_map"] else "compressed"] + sorted(
                           o for o in Facts(orig).ops if o.startswith("str.")))



# ---------------------------------------------------------------- T04

TOKEN = re.compile(r'\|[^|]*\||;[^\n]*|"(?:[^"]|"")*"')


def solver_input(text):
    """The script with \\u{..} for characters beyond ASCII in literals, whose bytes z3 takes for one character each."""
    return TOKEN.sub(lambda m: m[0] if m[0][0] != '"' else "".join(
        c if ord(c) < 128 else "\\u{%x}" % ord(c) for c in m[0]), text)


def z3_verdict(text, cmds, timeout_ms=1500):
    """'sat' with a model our own evaluator confirms, 'unsat', or None.  A process of its own: z3's limit on
    time does not hold everywhere in its theory of strings."""
    p = os.path.join(core.scratch(), "z3.smt2")
    core.write_at(p, solver_input(text) + "\n(get-model)\n")
    r = core.run(["z3-new", "-t:%d" % timeout_ms, "-T:%d" % (timeout_ms // 1000 + 1), "-memory:2000", p])
    first, _, rest = r.out.partition("\n")
    os.unlink(p)
    if first == "unsat":
        return "unsat", None
    if first != "sat":
        return None, None
    try:
        model = parse(rest)[0]
        vals = {sym(x[1]): decode(x[4]) for x in model if x[0] == "define-fun" and isinstance(x[4], StrLit)}
        w = World(cmds, {"pool": [""], "ints": [0], "vals": {
            n: vals.get(n, "") for n in smt.declarations(cmds)}})
        ok = all(truths(cmds, w.env(cmds)))
    except (ValueError, IndexError, smt.Unsupported):
        return None, None
    return ("sat", w.interp) if ok else (None, None)


def cvc5_unsat(text):
    """False when cvc5 contradicts an unsat verdict."""
    p = os.path.join(core.scratch(), "cvc5.smt2")
    core.write_at(p, solver_input(text))
    r = core.run(["cvc5", "--lang=smt2", "--strings-exp", "--tlimit=10000", p])
    return r.out.split("\n")[0].strip() != "sat"


class T04(Property):
    id = "T04"
    bins = ("transformer",)
    rule = "both verdicts are definite and at least two literals were changed"
    quick = 2600
    thorough = 40000

    def strategy(self):
        return cases(spelled(lambda d: d.weighted([
            (5, lambda d: flat_case(d, nassert=7)), (2, crowded_case), (2, overlap_case), (1, range_case)])(d)))

    def judge(self, case):
        script = script_of(case)
        orig, conv, al = converted_flat(script)
        a, wa = z3_verdict(script, orig)
        b, wb = z3_verdict(conv.text, conv.cmds)
        if a and b and a != b:
            unsat_text = script if a == "unsat" else conv.text
            if not cvc5_unsat(unsat_text):
                raise Inconclusive("z3 and cvc5 disagree")
            raise Violation("the script is %s, its conversion %s (satisfied by %s)\n%s\n--- became\n%s" % (
                a, b, wa or wb, script, conv.text))
        if not (a and b):
            raise Inconclusive("no verdict")
        return Outcome(len({x for x, y in al.lits if x != y}) >= 2,
                       [a, "fallback" if conv.mapping["char_map"] else "compressed"])



# ---------------------------------------------------------------- T05

ANSWERS = {"unsat\n": "UNSAT", "timeout\n": "timeout", "unknown\n": "unknown", "sat\n": "SAT: no model"}
BAD_ANSWERS = ["", "error\n", "(error \"line 3\")\n", "UNSAT\n", "segmentation fault\nsat\n", " \n", "satt\n"]


def recon_case(d):
    feats = [f for f in FEATS if f != "quant"]
    case = script_case(d, feats_all=feats, names=PLAIN_NAMES)
    parts = lambda: [(d.i(0, 9) if d.flag(2, 3) else d.pick(list("ab0#$%z'/")))
                     for _ in range(d.weighted([(1, 0), (4, 1), (3, 2), (1, 3)]))]
    sorts = smt.declarations([tuple(parse(x)[0]) for x in case["decls"]])
    tail = d.weighted([(6, ["(check-sat)"]), (2, ["(check-sat)", "(get-model)"]),
                       (1, ["(check-sat)", "(assert true)", "(check-sat)"]), (1, [])])
    bools = [smt.quote(n) for n, (a, r) in sorts.items() if r == "Bool" and not a]
    if bools and d.flag(1, 3):
        tail.insert(d.i(0, len(tail)), "(check-sat-assuming (%s))" % d.pick(bools + ["(not %s)" % b for b in bools]))
    if d.flag(1, 3):
        # constants that are declared after the first check, maybe for some checks only
        for i in range(d.i(1, 2)):
            n = "late%d" % i
            sorts[n] = ((), "String")
            x = d.pick([smt.quote(m) for m, (a, r) in sorts.items() if r == "String" and not a])
            more = [d.pick(["(declare-const %s String)", "(declare-fun %s () String)"]) % n,
                    "(assert %s)" % d.pick(["(= {n} {t})", "(str.contains {n} {t})", "(= (str.++ {x} {t}) {n})"]).format(
                        n=n, x=x, t=show(lit(some_string(d, list("ab0 #"), 0, 3)))), "(check-sat)"]
            if d.flag():
                more = ["(push 1)"] + more + ["(pop 1)"] + ["(check-sat)"] * d.flag()
            tail += more
    val = lambda r: parts() if r == "String" else d.i(-1, 5) if r == "Int" else d.flag()
    case["model"] = {n: val(r) if not a else {"keys": [val(s) for s in a], "hit": val(r), "else": val(r), "table": d.flag()}
                     for n, (a, r) in sorts.items()}
    case["style"] = d.pick(["z3", "cvc", "one"])
    # entries for symbols the conversion has nothing to do with
    case["extra"] = [[d.i(0, 9), d.pick([UNIVERSE, d.pick(OTHER_ENTRIES)])] for _ in range(d.i(1, 2))] if d.flag(1, 4) else []
    case["omit"] = []
    case["tail"] = tail
    case["answer"] = d.weighted([(12, "model")] + [(1, a) for a in ANSWERS] + [(1, d.pick(BAD_ANSWERS))])
    del case["world"]
    return case


def numeral(i):
    return str(i) if i >= 0 else "(- %d)" % -i


# what z3 prints for an uninterpreted sort
UNIVERSE = """;; universe for S:
  ;;   S!val!0 S!val!1 
  ;; -----------
  ;; definitions for universe elements:
  (declare-fun S!val!0 () S)
  (declare-fun S!val!1 () S)
  ;; cardinality constraint:
  (forall ((x S)) (or (= x S!val!0) (= x S!val!1)))
  ;; -----------"""
# and for other symbols
OTHER_ENTRIES = ["(define-fun s1 () S\n    S!val!0)", "(define-fun |s )(| () S (as @S_0 S))", '(define-fun sf ((x!0 S) (x!1 String)) S\n    (ite (= x!1 ")") S!val!1 S!val!0))',
                 '(define-fun sg ((x!0 String)) Bool\n    (= x!0 (str.++ (seq.unit (_ Char 36))\n (seq.unit (_ Char 38)))))',
                 "; cardinality of S is 2", "(define-fun l1 () L (cons \"(\" nil))", "(define-fun r1 () Real (/ 1.0 3.0))",
                 '(define-fun b1 () (_ BitVec 8) #x0f)', '(define-fun arr () (Array Int String) ((as const (Array Int String)) "x"))']


def model_text(sorts, alpha, vals, style, extra=()):
    defs = []
    text = lambda v, r: show(lit(v)) if r == "String" else numeral(v) if r == "Int" else ("true" if v else "false")
    for n, (args, r) in sorts.items():
        v = vals[n]
        ps = ["x!%d" % i for i in range(len(args))]
        if not args:
            t = text(v, r)
        elif v["table"]:
            t = "(ite (and true %s) %s %s)" % (
                " ".join("(= %s %s)" % (p, text(k, s)) for p, k, s in zip(ps, v["keys"], args)), text(v["hit"], r), text(v["else"], r))
        else:
            t = text(v["else"], r)
        defs.append("(define-fun %s (%s) %s%s%s)" % (
            alpha[n], " ".join("(%s %s)" % x for x in zip(ps, args)), r, "\n    " if style == "z3" else " ", t))
    for at, e in extra:
        defs.insert(at % (len(defs) + 1), e + "\n")
    if style == "one":
        return "sat\n(model\n" + " ".join(defs) + "\n)\n"
    ind = "  " if style == "z3" else ""
    return "sat\n(\n" + "".join(ind + x + "\n" for x in defs) + ")\n"


def reverse_map(char_map):
    """The character map turned around and closed to a one-to-one map of all characters."""
    fwd = {a: b for a, b in char_map}
    back = {b: a for a, b in char_map}

    def f(c):
        if c in back:
            return back[c]
        if c in fwd:
            while c in fwd:
                c = fwd[c]
        return c
    return f


CHECKS = ("check-sat", "check-sat-assuming")


def table(v):
    """The function with this table of at most one entry."""
    return lambda *args: v["hit"] if v["table"] and list(args) == v["keys"] else v["else"]


class T05(Property):
    id = "T05"
    bins = ("transformer",)
    rule = ("a model was reconstructed, it gives at least one variable a non-empty value that contains a mapped "
            "character, and at least one assertion depends on the values")
    quick = 10000
    thorough = 150000

    def strategy(self):
        return cases(spelled(recon_case))

    def judge(self, case):
        script = script_of(case, tail=tuple(case["tail"]))
        orig = parse(script)
        if case["answer"] != "model":
            return self.other_answer(case, script)
        conv = convert(script, "char-to-char", "q")
        al, _ = correspondence(commands(script), conv, script)
        sorts = smt.declarations(orig)
        images = sorted({b for _, b in al.lits}) or [""]

        def val(v):
            if isinstance(v, list):
                return "".join(decode(images[p % len(images)]) if isinstance(p, int) else p for p in v)
            return v
        vals = {n: val(v) if not isinstance(v, dict) else dict(
            v, keys=[val(k) for k in v["keys"]], hit=val(v["hit"]), **{"else": val(v["else"])})
            for n, v in case["model"].items()}

        def world(cmds, vals, alpha=lambda n: n):
            fs = {alpha(n): table(v) for n, v in vals.items() if isinstance(v, dict)}
            w = World(cmds, {"pool": [""], "ints": [0], "vals": {alpha(n): v for n, v in vals.items() if not isinstance(v, dict)}})
            w.interp.update(fs)
            return w
        w2 = world(conv.cmds, vals, lambda n: al.alpha[n])
        t = iter(truths(conv.cmds, w2.env(conv.cmds)))
        # negate what the assignment falsifies, so that it is a model
        flipped = 0
        new = []
        for c in orig:
            if c[0] == "assert" and not tautology(c):
                if not next(t):
                    c = ("assert", ("not", c[1]))
                    flipped += 1
            new.append(c)
        script = "\n".join(show(c) for c in new) + "\n"
        orig = new
        d = core.scratch()
        conv = convert(script, "char-to-char", "q")
        al, _ = correspondence(commands(script), conv, script)
        w2 = world(conv.cmds, vals, lambda n: al.alpha[n])
        if not all(truths(conv.cmds, w2.env(conv.cmds))):
            raise Discard("the mapping changed")
        core.write_at(os.path.join(d, "q_transformed.out"), model_text(sorts, al.alpha, vals, case["style"], case.get("extra", ())))
        check = os.path.join(d, "q_recon_check.smt2")
        if os.path.exists(check):
            os.unlink(check)
        r = core.run([prog(), "reconstruct", "--input-file", os.path.join(d, "q.smt2")], cwd=d)
        where = "%s\n--- converted\n%s\n--- model\n%s" % (
            script, conv.text, model_text(sorts, al.alpha, vals, case["style"], case.get("extra", ())))
        if not any(c[0] in CHECKS for c in orig):
            if r.rc == 0 or os.path.exists(check):
                raise Violation("a model was reconstructed for a script that does not check satisfiability\n%s" % where)
            return Outcome(False, ["no-check-sat"])
        if r.rc != 0 or r.out.strip() != "SAT: model reconstructed" or not os.path.exists(check):
            raise Violation("the model was not reconstructed: %s\n%s" % (r.brief(), where))
        with open(check, encoding="utf-8", newline="") as f:
            text = f.read()
        got = parse(text)
        affected = {sym(a) for a in conv.mapping["affected_constraint_vars"]}
        recon = {}
        k = 0
        scopes = [set()]
        for c in orig:
            if c[0] in CHECKS:
                here = {}
                while k < len(got) and got[k][0] == "assert":
                    a = got[k]
                    t_ = a[1]
                    if not (isinstance(t_, tuple) and len(t_) == 3 and t_[0] == "=" and isinstance(t_[1], str)
                            and isinstance(t_[2], StrLit) and sym(t_[1]) in sorts and not sorts[sym(t_[1])][0]
                            and sym(t_[1]) not in here):
                        raise Violation("%s was added to the script\n%s" % (show(a), where))
                    here[sym(t_[1])] = v = decode(t_[2])
                    if recon.setdefault(sym(t_[1]), v) != v:
                        raise Violation("two checks of the script get different values\n%s\n--- reconstructed\n%s" % (where, text))
                    k += 1
                inside = set().union(*scopes)
                if not set(here) <= inside:
                    raise Violation("%s was given a value where it is not declared\n%s\n--- reconstructed\n%s" % (
                        sorted(set(here) - inside), where, text))
                for n in sorted(inside):
                    if n not in here and sorts[n] == ((), "String") and al.alpha[n] in affected:
                        raise Violation("no value was reconstructed for %s, a variable the conversion affected\n%s\n--- reconstructed\n%s" % (
                            n, where, text))
            if k >= len(got) or show(got[k]) != show(c):
                raise Violation("the reconstructed script is not the original with assertions added before its checks: at %s\n%s\n--- reconstructed\n%s" % (
                    show(c), where, text))
            k += 1
            if c[0] in DECL:
                scopes[-1].add(sym(c[1]))
            elif c[0] == "push":
                scopes.append(set())
            elif c[0] == "pop":
                scopes.pop()
        if k != len(got):
            raise Violation("commands were added at the end\n%s\n--- reconstructed\n%s" % (where, text))
        back = reverse_map([tuple(x) for x in conv.mapping["char_map"]])
        full = {}
        for n, (a, s) in sorts.items():
            if n in recon:
                full[n] = recon[n]
            elif a:
                f = lambda v: "".join(map(back, v)) if isinstance(v, str) else v
                full[n] = dict(vals[n], keys=[f(x) for x in vals[n]["keys"]], hit=f(vals[n]["hit"]), **{"else": f(vals[n]["else"])})
            elif s == "String":
                full[n] = "".join(map(back, vals[n]))
            else:
                full[n] = vals[n]
        w = world(orig, full)
        ts = truths(orig, w.env(orig))
        if not all(ts):
            raise Violation("assertion %d is false under the reconstructed values %s\n%s\n--- reconstructed\n%s" % (
                ts.index(False) + 1, full, where, text))
        images = {b for a, b in map(tuple, conv.mapping["char_map"]) if a != b}
        hit = any(set(vals[n]) & images for n in recon)
        return Outcome(hit and any("String" == sorts[n][1] and any(n2 == n for n2 in names_in(orig)) for n in recon),
                       ["flipped" if flipped else "as-is", "added=%d" % len(recon)] + ["functions"] * any(a for a, _ in sorts.values()) + ["late"] * ("late0" in sorts))

    def other_answer(self, case, script):
        d = core.scratch()
        conv = convert(script, "char-to-char", "q")
        if conv.cmds is None:
            raise Discard("refused")
        core.write_at(os.path.join(d, "q_transformed.out"), case["answer"])
        check = os.path.join(d, "q_recon_check.smt2")
        r = core.run([prog(), "reconstruct", "--input-file", os.path.join(d, "q.smt2")], cwd=d)
        want = ANSWERS.get(case["answer"])
        if os.path.exists(check):
            raise Violation("a script was reconstructed from the solver's answer %r\n%s" % (case["answer"], script))
        if want is not None and (r.rc != 0 or r.out.strip() != want):
            raise Violation("the solver's answer %r is reported as: %s" % (case["answer"], r.brief()))
        if want is None and (r.rc == 0 or "SAT" in r.out.split("\n")):
            raise Violation("the solver's answer %r is reported as: %s" % (case["answer"], r.brief()))
        return Outcome(False, ["answer"])


def names_in(cmds):
    out = set()
    for c in cmds:
        if c[0] in ("assert", "define-fun"):
            walk(c, lambda x: out.add(sym(x)) if isinstance(x, str) and not isinstance(x, StrLit) else None)
    return out



# ---------------------------------------------------------------- T06

def structure_case(d):
    """Scripts with every kind of command the transformer passes through."""
    case = script_case(d, nassert=4)
    cmds = list(case["body"])
    decls = list(case["decls"])
    head = ["(set-logic %s)" % d.pick(["ALL", "QF_S", "QF_SLIA", "QF_UFSLIA"])] if d.flag(3, 4) else []
    sorts = smt.declarations([tuple(parse(x)[0]) for x in decls])
    strs = [smt.quote(n) for n, (a, r) in sorts.items() if r == "String" and not a]
    ints = [smt.quote(n) for n, (a, r) in sorts.items() if r == "Int" and not a]
    text = lambda: show(lit(some_string(d, list("ab0 #/z"), 0, 4)))
    term = lambda: d.pick([d.pick(strs), text(), "(str.len %s)" % d.pick(strs),
                           "(str.++ %s %s)" % (d.pick(strs), text())] + ints)
    extra = []
    if d.flag(1, 3):
        extra += [(0, "(declare-sort S 0)"), (1, "(declare-const s1 S)"), (1, "(declare-fun s2 () S)"),
                  (1, "(declare-fun sf (S String) S)"), (2, "(assert (= s1 s2))"),
                  (2, "(assert (distinct s1 (sf s2 %s)))" % term_string(d, strs)),
                  (2, "(assert (forall ((u S) (v String)) (= (sf u v) s1)))")][:d.i(3, 7)]
    if d.flag(1, 5):
        extra += [(0, "(define-sort T () String)"), (1, "(declare-const t1 T)"),
                  (2, "(assert (= t1 %s))" % term_string(d, strs))]
    if d.flag(1, 5):
        nil, cons, hd = "nil", "cons", "hd"
        if d.flag():
            used = {sym(tuple(parse(x)[0])[1]) for x in decls} | names_in([tuple(c) for x in cmds for c in parse(x)])
            own = [n for n in d.shuffled(OWN_NAMES) if n not in used]
            nil, cons, hd = ([n for n in own] + [nil, cons, hd][min(3, len(own)):])[:3]
        extra += [(0, "(declare-datatypes ((L 0)) (((%s) (%s (%s String) (tl L)))))" % (nil, cons, hd)),
                  (1, "(declare-const l1 L)"), (2, "(assert (= l1 (%s %s %s)))" % (cons, text(), nil)),
                  (2, "(assert (distinct (%s l1) %s))" % (hd, text()))]
    levels = [[x for k, x in extra if k == i] for i in range(3)]
    rest = cmds + levels[2]
    # user declarations in between, commands of every kind at random places
    out = []
    pending = list(levels[1])
    depth = 0
    for c in rest:
        while d.flag(1, 2):
            k = d.i(0, 9)
            if k == 0:
                out.append("(check-sat)")
            elif k == 1:
                out.append("(push 1)")
                depth += 1
            elif k == 2 and depth:
                out.append("(pop 1)")
                depth -= 1
            elif k == 3:
                out.append("(get-value (%s %s))" % (term(), term()))
            elif k == 4:
                out.append("(get-model)")
            elif k == 5:
                out.append("(echo %s)" % text())
            elif k == 6:
                out.append("(set-info :%s %s)" % (d.pick(["source", "status", "category"]), d.pick(["sat", text(), "3"])))
            elif k == 7:
                out.append("(set-option :%s true)" % d.pick(["produce-models", "print-success"]))
            elif k == 8:
                out.append("(get-info :reason-unknown)")
            elif k == 9:
                out.append(d.pick(["(get-assertions)", "(get-unsat-core)", "(get-assignment)", "(get-proof)",
                                   "(get-unsat-assumptions)"]))
        out.append(c)
    bools = [smt.quote(n) for n, (a, r) in sorts.items() if r == "Bool" and not a]
    if bools and d.flag():
        out.append("(check-sat-assuming (%s))" % " ".join(
            d.pick([b, "(not %s)" % b]) for b in bools))
    else:
        out.append("(check-sat)")
    if d.flag(1, 4):
        out.append("(exit)")
    # spread the declarations: each anywhere before the first use, here at the front or after header
    cmds = levels[0] + decls + pending + out
    if d.flag(1, 3):
        # declarations after assertions that do not need them
        at = d.i(len(levels[0] + decls + pending), len(cmds) - 1)
        late = []
        for i in range(d.i(1, 3)):
            k = d.i(0, 4)
            n = "late%d" % i
            if k == 4:
                # declared again after a pop
                s = d.pick(["String", "Int", "Bool"])
                if s == "Bool":
                    uses = [d.pick(["(assert %s)" % n, "(check-sat-assuming (%s))" % n, "(check-sat-assuming ((not %s)))" % n])
                            for _ in range(2)]
                    late += ["(push 1)", "(declare-const %s Bool)" % n, uses[0], "(pop 1)",
                             "(declare-%s Bool)" % d.pick(["const %s" % n, "fun %s ()" % n]), uses[1]]
                    continue
                late += ["(push 1)", "(declare-const %s String)" % n, "(assert (= %s %s))" % (n, text()), "(pop 1)",
                         "(declare-const %s %s)" % (n, s),
                         "(assert (= %s %s))" % (n, text() if s == "String" else "(str.len %s)" % text())]
                continue
            if k == 0:
                late += ["(declare-const %s String)" % n, "(assert (= %s %s))" % (n, text())]
            elif k == 1:
                late += ["(declare-fun %s () String)" % n, "(assert (= %s %s))" % (n, text())]
            elif k == 2:
                late += ["(declare-fun %s (String) String)" % n, "(assert (= (%s %s) %s))" % (n, term_string(d, strs), text())]
            else:
                late += ["(declare-fun %s (Int) Bool)" % n, "(assert (%s (str.len %s)))" % (n, text())]
        cmds[at:at] = late
    return {"cmds": head + cmds, "mode": d.pick(["char-to-char", "no-reconstruct"]), "global": d.flag(1, 5),
            "ext": d.pick(["smt2", "smtlib"]), "name": d.pick(["q", "a.b", "x_y-1"])}


def term_string(d, strs):
    return d.pick(strs + [show(lit(some_string(d, list("ab0#"), 0, 3)))])


class T06(Property):
    id = "T06"
    bins = ("transformer",)
    rule = "the script has at least eight commands of five kinds, declares two symbols, and a literal changed"
    quick = 18000
    thorough = 150000

    def strategy(self):
        return cases(spelled(structure_case))

    def judge(self, case):
        script = "\n".join(case["cmds"]) + "\n"
        d = core.scratch()
        orig = commands(script)
        p = os.path.join(d, case["name"] + "." + case["ext"])
        conv = convert(script, case["mode"], name=case["name"], ext=case["ext"], global_map=case["global"])
        with open(p, encoding="utf-8", newline="") as f:
            if f.read() != script:
                raise Violation("the conversion changed its input file\n%s" % script)
        files = sorted(os.listdir(d))
        want = sorted([case["name"] + "." + case["ext"], case["name"] + "_transformed." + case["ext"],
                       "global_mapping.json" if case["global"] else case["name"] + "_mapping.json"])
        if files != want:
            raise Violation("the conversion left the files %s, not %s\n%s" % (files, want, script))
        if conv.cmds is None:
            if Facts(orig).refusable:
                raise Discard("refused")
            raise Violation("the conversion gave up although every function is supported\n%s" % script)
        try:
            al = Align(orig, conv.cmds)
        except Misaligned as e:
            raise Violation("the transformed script is not the original with other literals and names: %s\n%s\n--- became (%s)\n%s"
                            % (e, script, case["mode"], conv.text))
        literal_map(al, script, conv)
        # names: a0, a1, ... in the order of the declarations, without those the script uses itself
        kept = kept_names(orig)
        numbers = (i for i in itertools.count() if "a%d" % i not in kept)
        for (k, v), i in zip(al.declared, numbers):
            if v != "a%d" % i:
                raise Violation("%s is renamed %s, it should be a%d\n%s\n--- became\n%s" % (
                    k, v, i, script, conv.text))
        kinds = {c[0] for c in orig}
        return Outcome(len(orig) >= 8 and len(kinds) >= 5 and len(al.alpha) >= 2 and any(a != b for a, b in al.lits),
                       sorted(kinds) + [case["mode"]] + (["global"] if case["global"] else []))



# ---------------------------------------------------------------- T07

def unsupported_atom(d, lits, strs):
    """An application of something unsupported that touches a literal, and what makes the link."""
    a, b = show(lit(d.pick(lits) or "q")), show(lit(d.pick(lits) or "q"))
    x = d.pick(strs)
    k = d.i(0, 5)
    if k == 0:
        return "(%s %s %s)" % (d.pick(["str.<", "str.<="]), a, x), []
    if k == 1:
        return "(%s %s %s)" % (d.pick(["str.<", "str.<="]), x, a), []
    if k == 2:
        link = d.pick(["(= {x} {a})", "(str.prefixof {a} {x})", "(str.contains {x} {a})",
                       "(distinct {a} {x})", "(str.in_re {x} (str.to_re {a}))"]).format(x=x, a=a)
        return "(%s %s %s)" % (d.pick(["str.<", "str.<="]), x, x), ["(assert %s)" % link]
    if k == 3:
        return "(str.in_re %s (re.range %s %s))" % (x, x, show(lit(d.pick(["a", "z", "ab"])))), []
    if k == 4:
        return "(str.in_re %s (re.range %s %s))" % (x, show(lit(d.pick(["ab", "", "aaa", "\u00e9"]))), '"z"'), []
    return "(str.in_re %s (re.union (str.to_re %s) (re.range %s %s)))" % (
        x, a, '"a"', show(lit(d.pick(["zz", "", "\u0101"])))), []


def refusal_case(d):
    case = any_case(d)
    sorts = smt.declarations([tuple(parse(x)[0]) for x in case["decls"]])
    strs = [smt.quote(n) for n, (a, r) in sorts.items() if r == "String" and not a]
    lits = ["a", "b", "ab", "zz", "0", " "]
    body = list(case["body"])
    bad = d.flag(3, 4) and bool(strs)
    if bad:
        for _ in range(d.i(1, 2)):
            atom, links = unsupported_atom(d, lits, strs)
            wrap = d.pick(["%s", "(not %s)", "(or %s (= {0} {0}))", "(and (str.contains {0} \"q\") %s)",
                           "(ite %s true false)", "(=> %s false)"])
            body.insert(d.i(0, len(body)), "(assert %s)" % (wrap.replace("{0}", strs[0]) % atom))
            for l in links:
                body.insert(d.i(0, len(body)), l)
    return {"decls": case["decls"], "body": body, "bad": bad, "mode": d.pick(["char-to-char", "no-reconstruct"])}


class T07(Property):
    id = "T07"
    bins = ("transformer",)
    rule = "something unsupported is applied to a literal or to a variable that is related to one"
    quick = 18000
    thorough = 150000

    def strategy(self):
        return cases(spelled(refusal_case))

    def judge(self, case):
        script = script_of(case)
        orig = parse(script)
        # a definition has to come before its uses
        if [c[0] for c in orig if c[0] in ("define-fun", "assert")] != sorted(
                [c[0] for c in orig if c[0] in ("define-fun", "assert")], key=lambda k: k == "assert"):
            orig = [c for c in orig if c[0] != "define-fun"]
            raise Discard("definition after use")
        f = Facts(orig)
        conv = convert(script, case["mode"])
        refused = conv.cmds is None
        failed = conv.mapping["failed_transformed_constraint_vars"]
        if refused != bool(failed):
            raise Violation("the script was %s, failed variables in the mapping file: %s\n%s" % (
                "refused" if refused else "converted", failed, script))
        if case["bad"] and not refused:
            raise Violation("the script applies an unsupported function to literals, yet it was converted (%s)\n%s\n--- became\n%s" % (
                case["mode"], script, conv.text))
        if refused and not f.refusable:
            raise Violation("the conversion gave up although every function is supported\n%s" % script)
        return Outcome(case["bad"], ["refused" if refused else "converted", case["mode"]])


# ---------------------------------------------------------------- T08

def damage_case(d):
    case = any_case(d)
    text = script_of(case)
    kind = d.weighted([(4, "cut"), (2, "drop"), (2, "add"), (1, "quote"), (1, "intact")])
    n = len(text)
    if kind == "cut":
        text = text[:d.i(1, n - 1)]
    elif kind == "drop":
        at = [i for i, c in enumerate(text) if c in "()"]
        i = d.pick(at)
        text = text[:i] + text[i + 1:]
    elif kind == "add":
        i = d.i(0, n)
        text = text[:i] + d.pick(["(", ")"]) + text[i:]
    elif kind == "quote":
        i = d.i(0, n)
        text = text[:i] + d.pick(['"', "|"]) + text[i:]
    return {"text": text, "op": d.pick(["char-to-char", "no-reconstruct", "sub-formula"]), "kind": kind,
            "stale": d.flag(1, 3)}


def unfinished(text):
    """Is the text cut off inside a command, a literal or a quoted symbol, or has it a parenthesis too many?"""
    depth, i, n = 0, 0, len(text)
    while i < n:
        c = text[i]
        if c == '"' or c == "|":
            j = text.find(c, i + 1)
            if j < 0:
                # between commands the parser the program uses takes this for the end
                return depth > 0
            i = j
        elif c == ";":
            j = text.find("\n", i)
            i = n if j < 0 else j
        elif c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if depth < 0:
                return True
        elif depth == 0 and not c.isspace():
            return True
        i += 1
    return depth > 0


class T08(Property):
    id = "T08"
    bins = ("transformer",)
    rule = "the script is damaged: unbalanced, or cut off inside a command"
    quick = 16000
    thorough = 150000

    def strategy(self):
        return cases(damage_case)

    def judge(self, case):
        text = case["text"]
        bad = unfinished(text)
        if not bad and case["kind"] != "intact":
            raise Discard("still a script")
        d = core.scratch()
        p = os.path.join(d, "q.smt2")
        core.write_at(p, text)
        outs = ["q_recon.json"] if case["op"] == "sub-formula" else ["q_transformed.smt2", "q_mapping.json"]
        if case["op"] == "sub-formula":
            argv = [prog(), "sub-formula", "--input-file", p]
        else:
            argv = [prog(), "convert", "--mapping", case["op"], "--input-file", p]
        if case["stale"]:
            for o in outs:
                core.write_at(os.path.join(d, o), "left over\n")
        r = core.run(argv, cwd=d)
        with open(p, encoding="utf-8", newline="") as f:
            if f.read() != text:
                raise Violation("the input file was changed\n%s" % text)
        now = {}
        for o in outs:
            q = os.path.join(d, o)
            if os.path.exists(q):
                with open(q, encoding="utf-8", newline="") as f:
                    now[o] = f.read()
        if bad:
            if r.rc == 0:
                raise Violation("a damaged script was accepted (%s)\n%s\n--- wrote\n%s" % (case["op"], text, now))
            if any(v != "left over\n" for v in now.values()):
                raise Violation("the damaged script was rejected, but output was written (%s)\n%s\n--- wrote\n%s" % (
                    case["op"], text, now))
            if case["stale"] and len(now) != len(outs):
                raise Violation("the damaged script was rejected, but the results of an earlier run are gone (%s)\n%s\n--- left\n%s" % (
                    case["op"], text, now))
        elif r.rc != 0 or sorted(now) != sorted(outs) or "left over\n" in now.values():
            raise Violation("an intact script was rejected: %s\n%s" % (r.brief(), text))
        return Outcome(bad, [case["kind"], case["op"]])



# ---------------------------------------------------------------- T09

def history_case(d):
    feats = {f for f in FLAT_FEATS if d.flag(1, 3)}
    chars = d.pick(FLAT_CHARS)
    pool = literals(d, list(chars), 6, 2)
    scripts = []
    for _ in range(d.i(2, 4)):
        mine = {f for f in FLAT_FEATS if (f in feats if d.flag(2, 3) else d.flag(1, 4))}
        new = flat_case(d, nvars=2, nassert=4, feats=mine, chars=chars,
                        lits=pool if d.flag(2, 3) else pool[:2] + literals(d, list(chars), 3, 1))
        if scripts and d.flag():
            # an earlier script with something added to it, possibly one kind of function only
            old = d.pick(scripts)
            if d.flag():
                new = flat_case(d, nvars=2, nassert=2, feats={d.pick(["len", "dig", "int", "re", "pre", "con"])},
                                chars=chars, lits=pool)
            new = {"decls": sorted(set(old["decls"]) | set(new["decls"])), "body": old["body"] + new["body"]}
        scripts.append(new)
    order = list(range(len(scripts)))
    for _ in range(d.i(0, 2)):
        order.append(d.i(0, len(scripts) - 1))
    return {"scripts": scripts, "order": order}


class T09(Property):
    id = "T09"
    bins = ("transformer",)
    rule = "a script was converted with a mapping that an earlier conversion left for one of its literals"
    quick = 6000
    thorough = 60000

    def strategy(self):
        return cases(history_case)

    def judge(self, case):
        d = core.scratch()
        before, reused, texts = {}, 0, []
        for step, k in enumerate(case["order"]):
            script = script_of(case["scripts"][k])
            try:
                orig, conv, al = converted_flat(script, name="q%d" % step, global_map=True)
                check_homomorphism(script, orig, conv, al, cap=60)
            except Violation as e:
                raise Violation("conversion number %d, after those of\n%s\n%s" % (step + 1, "\n".join(texts), e))
            texts.append(script)
            if not conv.mapping["char_map"]:
                for x, y in al.lits:
                    if before.get(decode(x)) == decode(y) and decode(x):
                        reused += 1
            before = {a: o["mapped_to"] for a, o in conv.mapping["persistent_string_map"]}
        return Outcome(reused > 0, ["reused=%d" % min(reused, 5), "steps=%d" % len(case["order"])])



# ---------------------------------------------------------------- T10

NULLARY = {"true", "false", "re.all", "re.allchar", "re.none"}


def subformulas(cmds):
    """The applications of a script, arguments before the application they are in; each as (term,
    does it contain a binder)."""
    out = []

    def go(t, bound):
        """Returns whether t contains a binder."""
        if isinstance(t, StrLit):
            return False
        if isinstance(t, str):
            if t in NULLARY:
                out.append((t, False))
            return False
        if t[0] in ("let", "forall", "exists"):
            if t[0] == "let":
                for b in t[1]:
                    go(b[1], bound)
            go(t[2], bound)
            return True
        inside = False
        for x in t[1:]:
            inside |= go(x, bound)
        out.append((t, inside))
        return inside
    for c in cmds:
        if c[0] == "assert":
            go(c[1], ())
        elif c[0] == "define-fun":
            go(c[4], ())
        elif c[0] == "get-value":
            for t in c[1]:
                go(t, ())
    return out


def is_number(t):
    return t[0].isdigit()


def normalized(t):
    """t with its variables named v0, v1, ... in order of appearance."""
    names = {}

    def go(x, head):
        if isinstance(x, StrLit) or (isinstance(x, str) and (head or x in NULLARY or is_number(x))):
            return x
        if isinstance(x, str):
            return names.setdefault(sym(x), "v%d" % len(names))
        return tuple([x[0]] + [go(y, False) for y in x[1:]])
    return go(t, False)


def listing_case(d):
    case = script_case(d, nassert=4, names=PLAIN_NAMES) if d.flag(2, 3) else flat_case(d)
    body = list(case["body"])
    if d.flag(1, 3):
        body.append(d.pick(body))
    if d.flag(1, 3):
        x = parse(case["decls"][0])[0][1]
        body.append("(get-value (%s (= %s %s)))" % (x, x, x))
    return {"decls": case["decls"], "body": body}


class T10(Property):
    id = "T10"
    bins = ("transformer",)
    rule = "the list has at least five entries, two of them with variables"
    quick = 16000
    thorough = 200000

    def strategy(self):
        return cases(listing_case)

    def judge(self, case):
        script = script_of(case)
        cmds = parse(script)
        d = core.scratch()
        p = os.path.join(d, "q.smt2")
        core.write_at(p, script)
        r = core.run([prog(), "sub-formula", "--input-file", p], cwd=d)
        q = os.path.join(d, "q_recon.json")
        if r.rc != 0 or not os.path.exists(q):
            raise Violation("no list of subformulas: %s\n%s" % (r.brief(), script))
        with open(p, encoding="utf-8", newline="") as f:
            if f.read() != script:
                raise Violation("the input file was changed\n%s" % script)
        with open(q, encoding="utf-8") as f:
            got = json.load(f)
        if set(got) != {"sub_formula_list"}:
            raise Violation("unexpected contents: %s\n%s" % (sorted(got), script))
        got = got["sub_formula_list"]
        want = subformulas(cmds)
        for i, g in enumerate(got):
            if i >= len(want):
                raise Violation("%d subformulas are listed, the script has %d\n%s\n%s" % (len(got), len(want), script, got))
            t, binder = want[i]
            try:
                g_ = parse(g)
            except ValueError:
                g_ = ()
            if len(g_) != 1:
                raise Violation("entry %d is not a term: %s\n%s" % (i + 1, g, script))
            if not binder and show(g_[0]) != show(normalized(t)):
                raise Violation("entry %d is %s, expected %s (from %s)\n%s" % (
                    i + 1, g, show(normalized(t)), show(t), script))
        if len(got) != len(want):
            raise Violation("%d subformulas are listed, the script has %d: %s is missing\n%s\n%s" % (
                len(got), len(want), show(want[len(got)][0]), script, got))
        wv = sum(1 for t, b in want if not b and "v0" in flatten((normalized(t),)))
        return Outcome(len(want) >= 5 and wv >= 2, ["binder" if any(b for _, b in want) else "plain"])



# ---------------------------------------------------------------- T11

def pairs_case(d):
    contents = ["(check-sat)\n", "(assert (= a0 \"#\"))\n(check-sat)\n", "(assert (= a0 \"$\"))\n(check-sat)\n",
                "(check-sat)", "", "(check-sat)\n\n", "(assert (= a0 \"#\"))\n(check-sat)\n ",
                "(assert (= a0 \"#  $\"))\n(check-sat)\n", "(assert (= a0 \"# $\"))\n(check-sat)\n",
                "(assert (= A0 \"#\"))\n(check-sat)\n", "(assert (= a0 \"#\"))\r\n(check-sat)\r\n",
                "(assert  (= a0 \"#\"))\n(check-sat)\n", "(check-sat)\n(assert (= a0 \"#\"))\n"]
    pool = d.shuffled(contents)[:d.i(1, 4)]
    stems = d.shuffled(["a", "b", "a.b", "q-1", "Q", "x_y", "00", "z9"])[:d.i(1, 7)]
    return {"files": [[s, d.pick(pool)] for s in stems],
            "others": d.flag(), "dir": d.pick(["out", "out.d", "a/b"])}


class T11(Property):
    id = "T11"
    bins = ()
    rule = "at least two files are the same and at least two differ"
    quick = 2000
    thorough = 6000

    def strategy(self):
        return cases(pairs_case)

    def judge(self, case):
        d = core.scratch()
        sub = os.path.join(d, case["dir"])
        os.makedirs(sub)
        files = {}
        for s, text in case["files"]:
            files["%s/%s_transformed.smtlib" % (case["dir"], s)] = text
            core.write_at(os.path.join(sub, s + "_transformed.smtlib"), text)
            if case["others"]:
                core.write_at(os.path.join(sub, s + ".smtlib"), text)
                core.write_at(os.path.join(sub, s + "_transformed.out"), text)
        r = core.run(["bash", os.path.join(core.REPO, "amzn-smt-string-transformer", "pairwise_diff_count.sh"),
                      case["dir"]], cwd=d)
        got, same = {}, []
        for line in r.out.splitlines():
            w = line.split()
            if not w:
                continue
            if w[0] == "---" and len(w) == 2:
                same.append(w[1])
            elif len(w) == 3 and w[1] == ":" and w[2].isdigit():
                if w[0] in got:
                    raise Violation("%s is counted twice\n%s" % (w[0], r.out))
                got[w[0]] = (int(w[2]), sorted(same))
                same = []
            else:
                raise Violation("unexpected line %r\n%s" % (line, r.brief()))
        want = {}
        for f, t in files.items():
            eq = sorted(g for g, u in files.items() if u == t)
            want[f] = (len(eq), eq)
        if got != want:
            raise Violation("the counts are %s, expected %s\nfiles %s" % (got, want, files))
        n = len(set(files.values()))
        return Outcome(2 <= n and n < len(files), ["files=%d" % len(files)])


PROPERTIES = [T01, T02, T03, T04, T05, T06, T07, T08, T09, T10, T11]
