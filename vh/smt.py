"""A small SMT-LIB front end of our own: s-expressions, integer/Boolean/UF/bit-vector evaluation,
and z3 as a second opinion.  Shares nothing with the code under test."""
import re


# ---------------------------------------------------------------- s-expressions
# atoms are str (symbols keep their |quotes|); string literals are StrLit; lists are tuples.

class StrLit(str):
    """A string literal's raw content between the quotes (with "" still doubled)."""
    __slots__ = ()


def parse(text):
    toks = []
    i, n = 0, len(text)
    stack = [[]]
    while i < n:
        c = text[i]
        if c in " \t\r\n":
            i += 1
        elif c == ";":
            while i < n and text[i] != "\n":
                i += 1
        elif c == "(":
            stack.append([])
            i += 1
        elif c == ")":
            if len(stack) < 2:
                raise ValueError("unbalanced )")
            l = tuple(stack.pop())
            stack[-1].append(l)
            i += 1
        elif c == '"':
            j = i + 1
            while True:
                if j >= n:
                    raise ValueError("open string")
                if text[j] == '"':
                    if j + 1 < n and text[j + 1] == '"':
                        j += 2
                        continue
                    break
                j += 1
            stack[-1].append(StrLit(text[i + 1:j]))
            i = j + 1
        elif c == "|":
            j = text.index("|", i + 1)
            stack[-1].append(text[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < n and text[j] not in ' \t\r\n();"|':
                j += 1
            stack[-1].append(text[i:j])
            i = j
    if len(stack) != 1:
        raise ValueError("unbalanced (")
    del toks
    return stack[0]


def show(x):
    if isinstance(x, StrLit):
        return '"' + x + '"'
    if isinstance(x, str):
        return x
    return "(" + " ".join(show(y) for y in x) + ")"


def sym(name):
    """Normal form of a symbol: |x| and x are the same symbol."""
    if name.startswith("|") and name.endswith("|") and len(name) >= 2:
        return name[1:-1]
    return name


RESERVED = {"let", "forall", "exists", "match", "par", "as", "_", "!", "true", "false"}


def quote(name):
    """How a symbol is written."""
    if re.fullmatch(r"[A-Za-z~!@$%^&*_+=<>.?/-][A-Za-z0-9~!@$%^&*_+=<>.?/-]*", name) and name not in RESERVED:
        return name
    return "|" + name + "|"


# ---------------------------------------------------------------- values
class BV:
    __slots__ = ("v", "w")

    def __init__(self, v, w):
        self.v, self.w = v % (1 << w), w

    def __eq__(self, o):
        return isinstance(o, BV) and (self.v, self.w) == (o.v, o.w)

    def __hash__(self):
        return hash((self.v, self.w))

    def __repr__(self):
        return "#b" + format(self.v, "0%db" % self.w)


class Unsupported(Exception):
    pass


def default(sort):
    if sort == "Int":
        return 0
    if sort == "Bool":
        return False
    if isinstance(sort, tuple) and sort[:2] == ("_", "BitVec"):
        return BV(0, int(sort[2]))
    raise Unsupported("sort %s" % (sort,))


class Env:
    """sorts: symbol -> ([arg sorts], result sort); interp: symbol -> value or callable."""

    def __init__(self, sorts=None, interp=None):
        self.sorts = sorts or {}
        self.interp = interp or {}


def ev(t, env, loc=None):
    if isinstance(t, str):
        if t == "true":
            return True
        if t == "false":
            return False
        c = t[0]
        if c.isdigit():
            return int(t)
        if t.startswith("#b"):
            return BV(int(t[2:], 2), len(t) - 2)
        if t.startswith("#x"):
            return BV(int(t[2:], 16), 4 * (len(t) - 2))
        s = sym(t)
        if loc and s in loc:
            return loc[s]
        if s in env.interp:
            return env.interp[s]
        if s in env.sorts:
            return default(env.sorts[s][1])
        raise Unsupported("symbol " + t)
    op = t[0]
    if op == "let":
        new = dict(loc or {})
        vals = [(sym(b[0]), ev(b[1], env, loc)) for b in t[1]]
        new.update(vals)
        return ev(t[2], env, new)
    if op == "!":
        return ev(t[1], env, loc)
    if op == "and":
        return all([ev(x, env, loc) for x in t[1:]])
    if op == "or":
        return any([ev(x, env, loc) for x in t[1:]])
    if op == "ite":
        return ev(t[2], env, loc) if ev(t[1], env, loc) else ev(t[3], env, loc)
    a = [ev(x, env, loc) for x in t[1:]]
    if op == "not":
        return not a[0]
    if op == "=>":
        r = a[-1]
        for x in reversed(a[:-1]):
            r = (not x) or r
        return r
    if op == "xor":
        r = a[0]
        for x in a[1:]:
            r = r != x
        return r
    if op == "=":
        return all(a[i] == a[i + 1] for i in range(len(a) - 1))
    if op == "distinct":
        return all(a[i] != a[j] for i in range(len(a)) for j in range(i))
    if op == "+":
        return sum(a)
    if op == "-":
        return -a[0] if len(a) == 1 else a[0] - sum(a[1:])
    if op == "*":
        r = 1
        for x in a:
            r *= x
        return r
    if op == ">=":
        return all(a[i] >= a[i + 1] for i in range(len(a) - 1))
    if op == ">":
        return all(a[i] > a[i + 1] for i in range(len(a) - 1))
    if op == "<=":
        return all(a[i] <= a[i + 1] for i in range(len(a) - 1))
    if op == "<":
        return all(a[i] < a[i + 1] for i in range(len(a) - 1))
    if op == "bvule":
        return a[0].v <= a[1].v
    if op == "bvult":
        return a[0].v < a[1].v
    if op == "bvuge":
        return a[0].v >= a[1].v
    if op == "bvugt":
        return a[0].v > a[1].v
    if op == "abs":
        return abs(a[0])
    if op == "div":
        if a[1] == 0:
            raise Unsupported("division by zero")
        q = a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
        return q
    if op == "mod":
        if a[1] == 0:
            raise Unsupported("division by zero")
        return a[0] % abs(a[1])
    if isinstance(op, str):
        s = sym(op)
        if s in env.interp:
            return env.interp[s](*a)
        if s in env.sorts:
            return default(env.sorts[s][1])
    raise Unsupported("operator %s" % show(op))


def declarations(cmds):
    sorts = {}
    for c in cmds:
        if not isinstance(c, tuple):
            continue
        if c[0] == "declare-const":
            sorts[sym(c[1])] = ([], c[2])
        elif c[0] == "declare-fun":
            sorts[sym(c[1])] = (list(c[2]), c[3])
    return sorts


def assertions(cmds):
    return [c[1] for c in cmds if isinstance(c, tuple) and c[0] == "assert"]


def parse_model(text, sorts=None):
    """(model (define-fun f ((x Int)) Int body) ...) -> interp dict.  Function bodies may mention
    declared symbols the model leaves open (any value will do for those)."""
    cmds = parse(text)
    defs = {}
    items = []
    for c in cmds:
        if isinstance(c, tuple):
            if c and c[0] == "model":
                items += list(c[1:])
            elif c and c[0] in ("define-fun", "define-const"):
                items.append(c)
            else:
                items += [x for x in c]
        else:
            raise ValueError("unexpected token in model: %r" % (c,))
    env = Env({k: v for k, v in (sorts or {}).items() if not v[0]}, defs)
    for d in items:
        if not isinstance(d, tuple) or d[0] not in ("define-fun", "define-const"):
            raise ValueError("unexpected model entry: %s" % show(d))
        if d[0] == "define-const":
            name, params, sort, body = sym(d[1]), (), d[2], d[3]
        else:
            name, params, sort, body = sym(d[1]), d[2], d[3], d[4]
        if name in defs:
            raise ValueError("symbol %s defined twice in model" % name)
        if not params:
            defs[name] = ev(body, env)
        else:
            ps = [sym(p[0]) for p in params]

            def f(*args, _ps=ps, _body=body):
                return ev(_body, env, dict(zip(_ps, args)))
            defs[name] = f
    return defs


def z3_check(text, timeout_ms=4000):
    """'sat' | 'unsat' | 'unknown', with a model text for sat."""
    import z3
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.set("random_seed", 0)
    try:
        s.from_string(text)
    except z3.Z3Exception as e:
        raise Unsupported("z3: %s" % e)
    r = str(s.check())
    return r, (s.model() if r == "sat" else None)
