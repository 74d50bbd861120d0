"""SMT-LIB strings, evaluated: our own reference semantics (theory UnicodeStrings) for terms over
strings, integers, Booleans and regular expressions.  Shares nothing with the code under test."""
from . import smt
from .smt import StrLit, Unsupported, sym

MAXCODE = 0x2FFFF
HEX = set("0123456789abcdefABCDEF")


def decode(raw):
    """Characters of a string literal from its raw text (quotes still doubled)."""
    s = raw.replace('""', '"')
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u", i):
            if s.startswith("{", i + 2):
                j = s.find("}", i + 3)
                d = s[i + 3:j] if j > 0 else ""
                if 1 <= len(d) <= 5 and set(d) <= HEX and int(d, 16) <= MAXCODE:
                    out.append(chr(int(d, 16)))
                    i = j + 1
                    continue
            else:
                d = s[i + 2:i + 6]
                if len(d) == 4 and set(d) <= HEX:
                    out.append(chr(int(d, 16)))
                    i += 6
                    continue
        out.append(s[i])
        i += 1
    return "".join(out)


def encode(s):
    """A literal's raw text for the given characters; everything unusual escaped."""
    out = []
    for c in s:
        if c == '"':
            out.append('""')
        elif " " <= c <= "~" and c != "\\":
            out.append(c)
        else:
            out.append("\\u{%x}" % ord(c))
    return "".join(out)


def lit(s):
    return StrLit(encode(s))


class Re:
    """A regular expression; ends(s, i, memo) = all j with s[i:j] in the language."""
    __slots__ = ("op", "a")

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def ends(self, s, i, memo):
        k = (id(self), i)
        r = memo.get(k)
        if r is None:
            r = memo[k] = frozenset(self._ends(s, i, memo))
        return r

    def _ends(self, s, i, memo):
        op, a, n = self.op, self.a, len(s)
        if op == "lit":
            return {i + len(a[0])} if s.startswith(a[0], i) else set()
        if op == "none":
            return set()
        if op == "all":
            return range(i, n + 1)
        if op == "allchar":
            return {i + 1} if i < n else set()
        if op == "range":
            return {i + 1} if i < n and a[0] <= s[i] <= a[1] else set()
        if op == "union":
            return set().union(*[x.ends(s, i, memo) for x in a])
        if op == "inter":
            r = set(a[0].ends(s, i, memo))
            for x in a[1:]:
                r &= x.ends(s, i, memo)
            return r
        if op == "diff":
            r = set(a[0].ends(s, i, memo))
            for x in a[1:]:
                r -= x.ends(s, i, memo)
            return r
        if op == "comp":
            return set(range(i, n + 1)) - a[0].ends(s, i, memo)
        if op == "cat":
            cur = {i}
            for x in a:
                cur = set().union(*[x.ends(s, j, memo) for j in cur]) if cur else cur
            return cur
        if op == "star":
            seen, todo = {i}, [i]
            while todo:
                j = todo.pop()
                for k in a[0].ends(s, j, memo):
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
            return seen
        if op == "loop":
            r, lo, hi = a
            cur, out = {i}, set()
            for c in range(hi + 1):
                if c >= lo:
                    out |= cur
                if c == hi or not cur:
                    break
                nxt = set()
                for j in cur:
                    nxt |= r.ends(s, j, memo)
                if c >= lo and nxt <= out:
                    break
                cur = nxt
            return out
        raise Unsupported(op)

    def matches(self, s):
        return len(s) in self.ends(s, 0, {})


def shortest_leftmost(r, s, start, nonempty):
    memo = {}
    for i in range(start, len(s) + 1):
        e = [j for j in r.ends(s, i, memo) if j > i or not nonempty]
        if e:
            return i, min(e)
    return None


class SEnv:
    """interp: symbol -> value or callable; dom: sort -> list of values quantifiers range over."""

    def __init__(self, interp, dom=None):
        self.interp = interp
        self.dom = dom or {}


def is_numeral(t):
    return t.isdigit()


def chain(f, a):
    return all(f(a[i], a[i + 1]) for i in range(len(a) - 1))


def op_at(s, i):
    return s[i] if 0 <= i < len(s) else ""


def op_substr(s, i, n):
    if not 0 <= i < len(s) or n <= 0:
        return ""
    return s[i:i + n]


def op_indexof(s, t, i):
    if not 0 <= i <= len(s):
        return -1
    return s.find(t, i)


def op_replace(s, t, u):
    if t == "":
        return u + s
    return s.replace(t, u, 1)


def op_replace_all(s, t, u):
    return s if t == "" else s.replace(t, u)


def op_replace_re(s, r, t):
    m = shortest_leftmost(r, s, 0, False)
    return s if m is None else s[:m[0]] + t + s[m[1]:]


def op_replace_re_all(s, r, t):
    out, i = [], 0
    while True:
        m = shortest_leftmost(r, s, i, True)
        if m is None:
            out.append(s[i:])
            return "".join(out)
        out.append(s[i:m[0]])
        out.append(t)
        i = m[1]


def digits(s):
    return s != "" and all("0" <= c <= "9" for c in s)


def need(cond, what):
    if not cond:
        raise Unsupported("ill-sorted " + what)


def re_range(a, b):
    if len(a) == 1 and len(b) == 1 and a <= b:
        return Re("range", a, b)
    return Re("none")


OPS = {
    "str.++": lambda *a: "".join(a),
    "str.len": len,
    "str.<": lambda *a: chain(lambda x, y: x < y, a),
    "str.<=": lambda *a: chain(lambda x, y: x <= y, a),
    "str.at": op_at,
    "str.substr": op_substr,
    "str.prefixof": lambda s, t: t.startswith(s),
    "str.suffixof": lambda s, t: t.endswith(s),
    "str.contains": lambda s, t: t in s,
    "str.indexof": op_indexof,
    "str.replace": op_replace,
    "str.replace_all": op_replace_all,
    "str.replace_re": op_replace_re,
    "str.replace_re_all": op_replace_re_all,
    "str.is_digit": lambda s: len(s) == 1 and "0" <= s <= "9",
    "str.to_code": lambda s: ord(s) if len(s) == 1 else -1,
    "str.from_code": lambda i: chr(i) if 0 <= i <= MAXCODE else "",
    "str.to_int": lambda s: int(s) if digits(s) else -1,
    "str.from_int": lambda i: str(i) if i >= 0 else "",
    "str.to_re": lambda s: Re("lit", s),
    "str.in_re": lambda s, r: r.matches(s),
    "re.union": lambda *a: Re("union", *a),
    "re.inter": lambda *a: Re("inter", *a),
    "re.diff": lambda *a: Re("diff", *a),
    "re.++": lambda *a: Re("cat", *a),
    "re.*": lambda r: Re("star", r),
    "re.+": lambda r: Re("cat", r, Re("star", r)),
    "re.opt": lambda r: Re("union", r, Re("lit", "")),
    "re.comp": lambda r: Re("comp", r),
    "re.range": re_range,
}
OPS["str.to.re"] = OPS["str.to_re"]
OPS["str.in.re"] = OPS["str.in_re"]
CONSTS = {"re.none": lambda: Re("none"), "re.nostr": lambda: Re("none"), "re.all": lambda: Re("all"),
          "re.allchar": lambda: Re("allchar"), "true": lambda: True, "false": lambda: False}


def ev(t, env, loc=None):
    if isinstance(t, StrLit):
        return decode(t)
    if isinstance(t, str):
        if is_numeral(t):
            return int(t)
        s = sym(t)
        if loc and s in loc:
            return loc[s]
        if s in env.interp:
            v = env.interp[s]
            return v() if callable(v) else v
        if t in CONSTS:
            return CONSTS[t]()
        raise Unsupported("symbol " + t)
    op = t[0]
    if isinstance(op, tuple):
        if op[:1] == ("_",) and op[1] == "re.^":
            n = int(op[2])
            return Re("loop", ev(t[1], env, loc), n, n)
        if op[:1] == ("_",) and op[1] == "re.loop":
            return Re("loop", ev(t[1], env, loc), int(op[2]), int(op[3]))
        raise Unsupported("operator %s" % smt.show(op))
    if op == "let":
        vals = [(sym(b[0]), ev(b[1], env, loc)) for b in t[1]]
        new = dict(loc or {})
        new.update(vals)
        return ev(t[2], env, new)
    if op == "!":
        return ev(t[1], env, loc)
    if op in ("forall", "exists"):
        names = [sym(b[0]) for b in t[1]]
        doms = [env.dom[b[1]] for b in t[1]]

        def go(k, new):
            if k == len(names):
                return ev(t[2], env, new)
            rs = []
            for v in doms[k]:
                n2 = dict(new)
                n2[names[k]] = v
                rs.append(go(k + 1, n2))
            return all(rs) if op == "forall" else any(rs)
        return go(0, dict(loc or {}))
    if op == "_" and len(t) == 3 and t[1] == "char":
        return chr(int(t[2][2:], 16))
    a = [ev(x, env, loc) for x in t[1:]]
    s = sym(op)
    if loc and s in loc:
        raise Unsupported("bound variable applied")
    if s in env.interp:
        return env.interp[s](*a)
    if op in OPS:
        return OPS[op](*a)
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "and":
        return all(a)
    if op == "or":
        return any(a)
    if op == "not":
        return not a[0]
    if op == "=>":
        r = a[-1]
        for x in reversed(a[:-1]):
            r = (not x) or r
        return r
    if op == "xor":
        r = a[0]
        for x in a[1:]:
            r = r != x
        return r
    if op == "=":
        need(not isinstance(a[0], Re), "= over RegLan")
        return chain(lambda x, y: x == y, a)
    if op == "distinct":
        return all(a[i] != a[j] for i in range(len(a)) for j in range(i))
    if op == "+":
        return sum(a)
    if op == "-":
        return -a[0] if len(a) == 1 else a[0] - sum(a[1:])
    if op == "*":
        r = 1
        for x in a:
            r *= x
        return r
    if op == ">=":
        return chain(lambda x, y: x >= y, a)
    if op == ">":
        return chain(lambda x, y: x > y, a)
    if op == "<=":
        return chain(lambda x, y: x <= y, a)
    if op == "<":
        return chain(lambda x, y: x < y, a)
    if op == "abs":
        return abs(a[0])
    raise Unsupported("operator %s" % smt.show(op))


def add_definitions(cmds, interp, dom=None):
    """Adds define-fun / define-const of a script to an interpretation, in order."""
    env = SEnv(interp, dom)
    for c in cmds:
        if not isinstance(c, tuple):
            continue
        if c[0] == "define-fun":
            ps = [sym(p[0]) for p in c[2]]

            def f(*args, _ps=ps, _body=c[4], _env=env):
                return ev(_body, _env, dict(zip(_ps, args)))
            interp[sym(c[1])] = f
        elif c[0] == "define-const":
            interp[sym(c[1])] = (lambda _b=c[3], _env=env: ev(_b, _env))
    return env
