"""The prediction toolbox (amzn-smt-prediction): the feature counter and the data-processing scripts,
run as programs in a scratch copy of the directory layout they expect."""
import json
import math
import os
import re
import shlex
import subprocess
import sys

from . import core, smt
from . import updater as up
from .core import Outcome, Property, Violation
from .gen import cases
from .smt import StrLit, parse, show

SCRIPTS = os.path.join(core.REPO, "amzn-smt-prediction", "scripts")

# column -> operator names, straight from the SMT-LIB theory of strings
OPS = [
    ("str_concat", "str.++"), ("len", "str.len"), ("lex_ord", "str.<"), ("to_re", "str.to_re"),
    ("in_re", "str.in_re"), ("re_none", "re.none"), ("re_all", "re.all"), ("re_all_char", "re.allchar"),
    ("re_concat", "re.++"), ("re_union", "re.union"), ("re_intersect", "re.inter"),
    ("re_kleene_star", "re.*"), ("ref_clos_lex_ord", "str.<="), ("sing_str_at", "str.at"),
    ("substr", "str.substr"), ("prefix_of", "str.prefixof"), ("suffix_of", "str.suffixof"),
    ("contains", "str.contains"), ("index_of", "str.indexof"), ("replace", "str.replace"),
    ("replace_all", "str.replace_all"), ("replace_re", "str.replace_re"),
    ("replace_re_all", "str.replace_re_all"), ("re_compl", "re.comp"), ("re_diff", "re.diff"),
    ("re_kleene_cross", "re.+"), ("re_opt", "re.opt"), ("re_range", "re.range"), ("re_pow", "re.^"),
    ("re_loop", "re.loop"), ("is_digit", "str.is_digit"), ("to_code", "str.to_code"),
    ("from_code", "str.from_code"), ("to_int", "str.to_int"), ("from_int", "str.from_int"),
]
COLUMN = {op: col for col, op in OPS}
ALL_COLUMNS = [c for c, _ in OPS]
SMTCOMP_COLUMNS = ["str_concat", "len", "to_re", "in_re", "re_concat", "re_union", "re_kleene_star",
                   "sing_str_at", "substr", "prefix_of", "contains", "index_of", "replace",
                   "re_kleene_cross", "re_range", "to_int", "from_int"]
HEADERS = {"other": ALL_COLUMNS, "smtcomp": SMTCOMP_COLUMNS, "script": SMTCOMP_COLUMNS,
           "kepler": ["str_concat", "len"]}


# ---------------------------------------------------------------- counting, independently

def count_term(t, n):
    if isinstance(t, StrLit):
        return
    if isinstance(t, str):
        c = COLUMN.get(t)
        if c in ("re_none", "re_all", "re_all_char"):
            n[c] += 1
        return
    if not t:
        return
    h = t[0]
    if isinstance(h, StrLit):
        return
    if h == "let":
        for b in t[1]:
            count_term(b[1], n)
        count_term(t[2], n)
        return
    if h in ("forall", "exists"):
        count_term(t[2], n)
        return
    if isinstance(h, tuple):
        if h[:1] == ("_",) and h[1] in ("re.^", "re.loop"):
            n[COLUMN[h[1]]] += 1
    elif h in COLUMN and h not in ("re.^", "re.loop"):
        n[COLUMN[h]] += 1
    for x in t[1:]:
        count_term(x, n)


def count_script(text):
    n = {c: 0 for c in ALL_COLUMNS}
    for c in parse(text):
        if c and c[0] == "assert":
            count_term(c[1], n)
    return n


# ---------------------------------------------------------------- scripts with every operator

SIG = {
    "S": [("str.++", "SS"), ("str.++", "SSS"), ("str.at", "SI"), ("str.substr", "SII"), ("str.replace", "SSS"),
          ("str.replace_all", "SSS"), ("str.replace_re", "SRS"), ("str.replace_re_all", "SRS"),
          ("str.from_code", "I"), ("str.from_int", "I"), ("ite", "BSS"), ("int.to.str", "I"), ("my.str.++", "SS")],
    "I": [("str.len", "S"), ("str.indexof", "SSI"), ("str.to_code", "S"), ("str.to_int", "S"), ("+", "II"),
          ("ite", "BII"), ("str.to.int", "S")],
    "B": [("str.<", "SS"), ("str.<=", "SS"), ("str.in_re", "SR"), ("str.prefixof", "SS"), ("str.suffixof", "SS"),
          ("str.contains", "SS"), ("str.is_digit", "S"), ("=", "SS"), ("=", "II"), ("<", "II"), ("and", "BB"),
          ("or", "BBB"), ("not", "B"), ("str.in.re", "SR"), ("=>", "BB"), ("distinct", "SS"), ("str.<", "SSS")],
    "R": [("re.++", "RR"), ("re.union", "RR"), ("re.union", "RRR"), ("re.inter", "RR"), ("re.*", "R"), ("re.comp", "R"),
          ("re.diff", "RR"), ("re.+", "R"), ("re.opt", "R"), ("re.range", "CC"), (("_", "re.^", "3"), "R"),
          (("_", "re.loop", "1", "4"), "R"), ("str.to_re", "S"), ("str.to.re", "S")],
}
LEAF = {
    "S": ["x", "y", StrLit("ab"), StrLit(""), StrLit("str.len"), "str.len2", "|str.at|"],
    "I": ["n", "0", "3"],
    "B": ["p", "true", ("=", "x", "y")],
    "R": ["re.none", "re.all", "re.allchar", "r"],
}
DECLS = """(declare-const x String)
(declare-const y String)
(declare-const str.len2 String)
(declare-const |str.at| String)
(declare-const n Int)
(declare-const p Bool)
(declare-const r RegLan)
(declare-fun my.str.++ (String String) String)
"""


def term(d, so, k, focus=None):
    if so == "C":
        return d.pick([StrLit("a"), StrLit("0"), StrLit("z")])
    if k <= 0 or d.flag(1, 4):
        return d.pick(LEAF[so])
    r = d.i(0, 11)
    if r == 0:
        nm = d.pick(["l1", "l2", "str.to_re2"])
        return ("let", ((nm, term(d, d.pick(["S", "I", "R"]), k - 1)),), term(d, so, k - 1))
    if r == 1 and so == "B":
        return (d.pick(["forall", "exists"]), (("q", "String"),), term(d, "B", k - 1))
    op, args = d.pick(SIG[so])
    return (op,) + tuple(term(d, a, k - 1) for a in args)


ENTRIES = [(so, e) for so in "SIBR" for e in SIG[so]]


def focused(d):
    """An assertion around one operator, drawn uniformly."""
    so, (op, args) = d.pick(ENTRIES)
    t = (op,) + tuple(term(d, a, d.i(0, 2)) for a in args)
    return {"S": ("=", "x", t), "I": ("=", "n", t), "B": t, "R": ("str.in_re", "x", t)}[so]


def script(d, hi=4):
    out = []
    for _ in range(d.weighted([(1, 0), (5, 1), (4, 2), (2, hi)])):
        r = d.i(0, 9)
        if r <= 7:
            out.append(("assert", focused(d) if d.flag() else term(d, "B", d.i(1, 4))))
        elif r == 8:
            out.append(("define-fun", "f", (("a", "String"),), "Int", term(d, "I", 2)))
        else:
            out.append(("get-value", (term(d, "S", 2),)))
    body = up.layout(d, out)
    return DECLS + body + d.pick(["(check-sat)\n", ""])


def read_csv(path):
    with open(path, encoding="utf-8", newline="") as f:
        text = f.read()
    if not text.endswith("\n"):
        raise Violation("%s does not end with a newline: %r" % (os.path.basename(path), text[-80:]))
    return [l.split(",") for l in text[:-1].split("\n")]


# ---------------------------------------------------------------- layout for the scripts

STUB_SAGEMAKER = {
    "sagemaker/__init__.py": "",
    "sagemaker/serializers.py": "class CSVSerializer:\n    pass\n",
    "sagemaker/deserializers.py": "class CSVDeserializer:\n    pass\n",
    "sagemaker/predictor.py": (
        "import json, os\n"
        "class Predictor:\n"
        "    def __init__(self, endpoint, serializer=None, deserializer=None):\n"
        "        self.endpoint = endpoint\n"
        "    def predict(self, features):\n"
        "        with open(os.environ['VH_LOG'], 'a') as f:\n"
        "            f.write(json.dumps([self.endpoint, list(features)]) + '\\n')\n"
        "        return json.dumps(json.loads(os.environ['VH_ANSWERS'])[self.endpoint]).encode('utf-8')\n"),
}
# the last argument's prepared answer (another one for the other choice of finite model finding, if
# there is one, and for CVC4 without its traces nothing but the verdict); it hangs afterwards where
# that is asked for
CAT_STUB = """#!/bin/sh
for a; do :; done
s=$(basename "$0") k=lazy l=no c=no
for o; do
  case "$o" in --strings-fmf) k=fmf;; strings-lemma|--trace=strings-lemma) l=yes;; strings-conflict|--trace=strings-conflict) c=yes;; esac
done
f="$a.$s.out"
if [ -e "$a.$s.$k.out" ]; then f="$a.$s.$k.out"; fi
if [ "$s $l $c" = "cvc4 yes yes" ] || [ "$s" = z3 ]; then cat "$f"; else echo unknown; fi
if [ -e "$a.hangs" ]; then echo $$ >> "$VH_HANG.pids"; touch "$VH_HANG"; exec sleep 20; fi
"""
# takes (by the clock of tools/standins/clock) what is prepared for the options it is run with
TIMED_STUB = """#!/bin/sh
for a; do :; done
k=lazy
for o; do [ "$o" = --strings-fmf ] && k=fmf; done
t=$(cat "$a.$k") || exit 1
if [ "$t" = hangs ]; then echo $$ >> "$VH_HANG.pids"; touch "$VH_HANG"; exec sleep 20; fi
echo "$t" "$(cat "$VH_CLOCK")" | awk '{ print $1 + $2 }' > "$VH_CLOCK.new"; mv "$VH_CLOCK.new" "$VH_CLOCK"
echo unknown
"""
# the same, for the scripts that run several solvers; what the eager one prints is prepared
RACE_STUB = """#!/bin/sh
for a; do :; done
s=${0##*/}
if [ "$s" = amzn-smt-eager-arithmetic ]; then
  [ "$1 $2 $#" = "solve --instance 3" ] || exit 2
  cat "$a.encoding" || exit 1
fi
t=$(cat "$a.$s") || exit 1
if [ "$t" = hangs ]; then echo $$ >> "$VH_HANG.pids"; touch "$VH_HANG"; exec sleep 20; fi
echo "$t" "$(cat "$VH_CLOCK")" | awk '{ print $1 + $2 }' > "$VH_CLOCK.new"; mv "$VH_CLOCK.new" "$VH_CLOCK"
echo unsat
"""
CLOCK_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools", "standins", "clock")


def layout_tree(bins=()):
    """scratch/amzn-smt-prediction/{scripts,solvers,...} with the built programs in their places."""
    root = core.scratch()
    p = os.path.join(root, "amzn-smt-prediction")
    cwd = os.path.join(p, "scripts")
    for d in (cwd, os.path.join(p, "solvers"), os.path.join(root, "bin"), os.path.join(root, "tmp")):
        os.makedirs(d, exist_ok=True)
    for name in ("cvc4", "z3"):
        f = os.path.join(p, "solvers", name)
        core.write_at(f, CAT_STUB)
        os.chmod(f, 0o755)
    for b in bins:
        d = os.path.join(root, core.CRATES[b], "release")
        os.makedirs(d, exist_ok=True)
        os.symlink(core.exe(b), os.path.join(d, core.CRATES[b]))
    return root, p, cwd


def stub_modules(root):
    d = os.path.join(root, "stubs")
    for name, text in STUB_SAGEMAKER.items():
        f = os.path.join(d, name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        core.write_at(f, text)
    return d


def py(name, args, cwd, env=None):
    e = {"TMPDIR": os.path.join(core.scratch(), "tmp"), "PYTHONIOENCODING": "utf-8"}
    e.update(env or {})
    return core.run([sys.executable, os.path.join(SCRIPTS, name)] + list(args), cwd=cwd, env=e)


def quietly(name, args, cwd, env):
    """As py(), for scripts whose solvers share their output: what they leave running must not be waited for."""
    e = dict(core.BASE_ENV, TMPDIR=os.path.join(core.scratch(), "tmp"), **env)
    err = os.path.join(core.scratch(), "stderr")
    with open(err, "wb") as f:
        try:
            r = subprocess.run([sys.executable, os.path.join(SCRIPTS, name)] + list(args), cwd=cwd, env=e,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=f, timeout=core.CASE_TIMEOUT)
        except subprocess.TimeoutExpired:
            raise core.Inconclusive("watchdog: %s" % name)
    with open(err, encoding="utf-8", errors="replace") as f:
        return core.Run(r.returncode, "", f.read())


def check_ended(hang):
    """No solver that ran into its limit is running any more."""
    left = []
    if os.path.exists(hang + ".pids"):
        with open(hang + ".pids") as f:
            for pid in f.read().split():
                try:
                    with open("/proc/%s/stat" % pid) as st:
                        name, state = st.read().rsplit(")", 1)
                except OSError:
                    continue
                if name.split("(", 1)[1] == "sleep" and state.split()[0] not in "ZX":
                    left.append(pid)
                    try:
                        os.kill(int(pid), 9)
                    except ProcessLookupError:
                        pass
    if left:
        raise Violation("%d solver processes were left running after their time limit" % len(left))


# ---------------------------------------------------------------- properties

class P(Property):
    bins = ("prediction",)
    replay_runs = 2


class P01(P):
    id = "P01"
    rule = "at least one string operator occurs in an asserted formula; tagged by operators seen"
    quick, thorough = 20000, 200000
    assumptions = ("occurrences are counted in asserted formulas as written: definitions are not unfolded, old-style names are not counted",)

    def strategy(self):
        return cases(lambda d: {"script": script(d)})

    def judge(self, case):
        core.write("a.smt2", case["script"])
        core.write("list", "a.smt2\n")
        r = core.run([core.exe("prediction"), "other", "list", "out"], cwd=core.scratch())
        if r.rc != 0:
            raise Violation("the counter failed on a well-formed script: %s\n%s" % (r.brief(), case["script"]))
        rows = read_csv(os.path.join(core.scratch(), "off_features_out.csv"))
        want = count_script(case["script"])
        if len(rows) != 2 or len(rows[0]) != len(rows[1]):
            raise Violation("malformed table %r" % rows)
        got = dict(zip(rows[0], rows[1]))
        if set(got) != set(ALL_COLUMNS):
            raise Violation("columns %r" % rows[0])
        bad = {c: (got[c], want[c]) for c in ALL_COLUMNS if got[c] != str(want[c])}
        if bad:
            raise Violation("counts differ, column: (reported, real) %r\nscript:\n%s" % (bad, case["script"]))
        return Outcome(any(want.values()), [c for c in ALL_COLUMNS if want[c]])


class P02(P):
    id = "P02"
    rule = "a list of at least two benchmarks, or a failing one; tagged by dataset and length"
    quick, thorough = 12000, 100000

    def strategy(self):
        def mk(d):
            ds = d.pick(["other", "script", "smtcomp", "kepler"])
            pool = [script(d, 2) for _ in range(d.i(1, 3))]
            order = d.many(0, 6, lambda: d.i(0, len(pool) - 1))
            bad = d.weighted([(5, ""), (1, "missing"), (1, "broken")])
            return {"dataset": ds, "files": pool, "order": order, "bad": bad, "at": d.i(0, 5),
                    "newline": d.flag(4, 5), "name": d.pick(["o", "x.y", "1700000000"])}
        return cases(mk)

    def judge(self, case):
        d = core.scratch()
        ds = case["dataset"]
        pre, base = ("/non-incremental/b", os.path.join(d, "SMT_Comp_2020", "non-incremental")) \
            if ds in ("smtcomp", "kepler") else ("sub/b", os.path.join(d, "sub"))
        os.makedirs(base)
        for i, t in enumerate(case["files"]):
            core.write_at(os.path.join(base, "b%d.smt2" % i), t)
        lines = [pre + "%d.smt2" % i for i in case["order"]]
        want = [count_script(case["files"][i]) for i in case["order"]]
        at = None
        if case["bad"]:
            at = min(case["at"], len(lines))
            if case["bad"] == "broken":
                core.write_at(os.path.join(base, "b9.smt2"), "(assert (str.len x")
            lines.insert(at, pre + "9.smt2")
        core.write("list", "\n".join(lines) + ("\n" if case["newline"] and lines else ""))
        out = os.path.join(d, "off_features_%s.csv" % case["name"])
        core.write_at(out, "stale\n" * 50)
        r = core.run([core.exe("prediction"), ds, "list", case["name"]], cwd=d)
        if at is not None:
            if r.rc == 0:
                raise Violation("success although benchmark %d of the list is %s\n%r" % (at, case["bad"], case))
            return Outcome(True, ["failing benchmark", case["bad"]])
        if r.rc != 0:
            raise Violation("failed: %s\n%r" % (r.brief(), case))
        rows = read_csv(out)
        if rows[0] != HEADERS[ds]:
            raise Violation("header for %s: %r, expected %r" % (ds, rows[0], HEADERS[ds]))
        if len(rows) - 1 != len(lines):
            raise Violation("%d rows for %d benchmarks\n%r" % (len(rows) - 1, len(lines), case))
        for i, (row, w) in enumerate(zip(rows[1:], want)):
            e = [str(w[c]) for c in HEADERS[ds]]
            if row != e:
                raise Violation("row %d for %s is %r, expected %r under %r" % (i, lines[i], row, e, HEADERS[ds]))
        return Outcome(len(lines) >= 2, [ds, "rows %d" % len(lines)])


# ---- online features

WORDS = ["a", "lemma", "(or", "x)", "1", "é", "--"]


def solver_text(d):
    """Raw solver output: lines with word counts around the bucket limits."""
    lines = []
    for _ in range(d.weighted([(1, 0), (3, 2), (4, 5), (3, 9), (1, 25)])):
        n = d.weighted([(3, d.i(0, 12)), (3, d.pick([6, 7, 8, 9, 10, 11, 19, 20, 21, 39, 40, 41])),
                        (3, d.pick([59, 60, 61, 79, 80, 81, 99, 100, 101, 150]))])
        seps = d.pick([" ", "  ", "\t", " \t "])
        w = d.pick(WORDS)
        lines.append(d.pick(["", " "]) + seps.join([w] * n) + d.pick(["", " "]))
    return "\n".join(lines) + d.pick(["", "\n", "\n\n"])


def kept_lines(text):
    t = text.strip()
    return t.split("\n") if t else []


def label_pred(lab):
    m = re.fullmatch(r"less_than_(\d+)", lab)
    if m:
        return lambda n: n < int(m.group(1))
    m2 = re.fullmatch(r"equal_(\d+)", lab)
    if m2:
        return lambda n: n == int(m2.group(1))
    m3 = re.fullmatch(r"between_(\d+)_(\d+)", lab)
    if m3:
        return lambda n: int(m3.group(1)) <= n < int(m3.group(2))
    m4 = re.fullmatch(r"over_(\d+)", lab)
    if m4:
        return lambda n: n >= int(m4.group(1))
    raise Violation("unknown feature label %r" % lab)


def bucket_labels(buckets):
    out = ["less_than_%d" % buckets[0]]
    for a, b in zip(buckets, buckets[1:]):
        out.append("equal_%d" % a if b == a + 1 else "between_%d_%d" % (a, b))
    return out + ["over_%d" % buckets[-1]]


DEFAULT_BUCKETS = [7, 8, 9, 10, 20, 40, 60, 80, 100]


def bucket_counts(labels, lines):
    ns = [len(l.split()) for l in lines]
    return [sum(1 for n in ns if label_pred(lab)(n)) for lab in labels]


class P03(P):
    id = "P03"
    bins = ()
    rule = "at least two benchmarks with some solver output each"
    quick, thorough = 700, 15000
    assumptions = ("benchmark lists have one path per line, ending in a newline, and paths stay distinct when / becomes _",)

    def strategy(self):
        def mk(d):
            names = []
            for _ in range(d.i(1, 4)):
                stem = d.pick(["t", "2", "a", "es", "m.s", "tests", "2.smt", "x_upt", "s", ".m", "b2t", "q"]) + d.pick(["", "1", "2", "m", "t", ".5"])
                n = d.pick(["", "sub/", "d2/"]) + stem + d.weighted([(6, ".smt2"), (1, ".smtlib")])
                if n.replace("/", "_") not in [x.replace("/", "_") for x in names]:
                    names.append(n)
            return {"solver": d.pick(["cvc4", "z3"]), "names": names, "outs": [solver_text(d) for _ in names],
                    "hangs": [d.flag(1, 8) for _ in names], "fmf": d.flag(),
                    "other": solver_text(d) if d.flag() else None,
                    "earlier": [solver_text(d) for _ in names] if d.flag(1, 5) else None}
        return cases(mk)

    def judge(self, case):
        root, p, cwd = layout_tree()
        base = os.path.join(root, "bench")
        for n in case["names"]:
            f = os.path.join(base, n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            core.write_at(f, "(check-sat)\n")
            if case.get("other") is not None and case["solver"] == "cvc4":
                core.write_at(f + ".cvc4.%s.out" % ("lazy" if case["fmf"] else "fmf"), case["other"])
        core.write_at(os.path.join(cwd, "list"), "".join("/" + n + "\n" for n in case["names"]))
        s = case["solver"]
        # a run may find what one before it has left
        for outs in [case["earlier"]] * bool(case.get("earlier")) + [case["outs"]]:
            hangs = case["hangs"] if outs is case["outs"] else [False] * len(outs)
            for n, o, h in zip(case["names"], outs, hangs):
                core.write_at(os.path.join(base, n) + "." + s + ".out", o)
                if h:
                    core.write_at(os.path.join(base, n) + ".hangs", "")
            r = py("get_solver_output.py", [s, "list", base] + ([] if case["fmf"] else ["--no-strings-fmf"]), cwd,
                   {"PYTHONPATH": CLOCK_DIR, "VH_HANG": os.path.join(root, "hang")} if any(hangs) else None)
            check_ended(os.path.join(root, "hang"))
            if r.rc != 0:
                raise Violation("get_solver_output.py failed: " + r.brief())
            r = py("get_word_counts.py", [s, "list"], cwd)
            if r.rc != 0:
                raise Violation("get_word_counts.py failed: " + r.brief())
            r = py("get_word_count_features.py", [s, "qf_slia", "list"], cwd)
            if r.rc != 0:
                raise Violation("get_word_count_features.py failed: " + r.brief())
        rows = read_csv(os.path.join(p, s + "_output", "features", "on_features_qf_slia_%s.csv" % s))
        if rows[0] != bucket_labels(DEFAULT_BUCKETS):
            raise Violation("labels %r" % rows[0])
        if len(rows) - 1 != len(case["names"]):
            raise Violation("%d rows for %d benchmarks" % (len(rows) - 1, len(case["names"])))
        for n, o, h, row in zip(case["names"], case["outs"], case["hangs"], rows[1:]):
            # what a run that was ended has printed is taken as it is
            lines = o.removesuffix("\n").split("\n") if h and o else kept_lines(o)
            if h and lines != kept_lines(o) and row == [str(x) for x in bucket_counts(rows[0], kept_lines(o))]:
                lines = kept_lines(o)
            want = [str(x) for x in bucket_counts(rows[0], lines)]
            if row != want:
                raise Violation("benchmark %s: features %r, expected %r under %r\nsolver output %r\nall benchmarks %r"
                                % (n, row, want, rows[0], o, case["names"]))
            if sum(int(x) for x in row) != len(lines):
                raise Violation("benchmark %s: the buckets hold %s lines, the output has %d" % (n, row, len(lines)))
        full = sum(1 for o in case["outs"] if kept_lines(o))
        return Outcome(full >= 2, [s, "benchmarks %d" % len(case["names"]), "with output %d" % full]
                       + ["hanging"] * any(case["hangs"]))


# ---- with and without finite model finding

class P09(P):
    id = "P09"
    bins = ()
    rule = "a benchmark that is faster with the option and one that is not"
    quick, thorough = 700, 15000
    assumptions = ("benchmark lists have one path per line, starting with a slash and ending in a newline",
                   "time is what the stand-in solver says it takes, a multiple of 50 s")

    def strategy(self):
        def mk(d):
            names = []
            for _ in range(d.i(1, 5)):
                n = d.pick(["", "sub/", "d2/e/"]) + d.pick(["t", "2", "a", "m.s", "es", "x_upt"]) + d.pick(["", "1", "b"]) + ".smt2"
                if n.replace("/", "_") not in [x.replace("/", "_") for x in names]:
                    names.append(n)
            return {"names": names, "fmf": [d.weighted([(6, d.i(0, 2) * 100), (1, "hangs")]) for _ in names],
                    "lazy": [d.weighted([(6, 50 + d.i(0, 2) * 100), (1, "hangs")]) for _ in names]}
        return cases(mk)

    def judge(self, case):
        root, p, cwd = layout_tree()
        base = os.path.join(root, "bench")
        stub = os.path.join(p, "solvers", "cvc4")
        core.write_at(stub, TIMED_STUB)
        os.chmod(stub, 0o755)
        for n, a, b in zip(case["names"], case["fmf"], case["lazy"]):
            f = os.path.join(base, n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            core.write_at(f, "(check-sat)\n")
            core.write_at(f + ".fmf", str(a))
            core.write_at(f + ".lazy", str(b))
        clock = core.write_at(os.path.join(root, "clock"), "0")
        core.write_at(os.path.join(cwd, "list"), "".join("/" + n + "\n" for n in case["names"]))
        env = {"PYTHONPATH": CLOCK_DIR, "VH_HANG": os.path.join(root, "hang"), "VH_CLOCK": clock}
        r = quietly("find_faster_fmf.py", ["list", base], cwd, env)
        check_ended(env["VH_HANG"])
        if r.rc != 0:
            raise Violation("find_faster_fmf.py failed: " + r.brief())
        sec = [[300.0 if t == "hangs" else float(t) for t in (a, b)] for a, b in zip(case["fmf"], case["lazy"])]
        want = {"faster": ["/" + n for n, (a, b) in zip(case["names"], sec) if a < b],
                "slower": ["/" + n for n, (a, b) in zip(case["names"], sec) if a >= b]}
        for k, w in want.items():
            path = os.path.join(cwd, k + "_fmf.csv")
            with open(path, encoding="utf-8", newline="") as f:
                text = f.read()
            if text != "".join(n + "\n" for n in w):
                raise Violation("%s_fmf.csv has %r, expected %r\nseconds with and without: %s" % (
                    k, text, w, list(zip(case["names"], sec))))
        rows = read_csv(os.path.join(cwd, "runtimes_fmf_exp.csv"))
        if len(rows) != len(sec) or any(len(r) != 2 or any(abs(float(x) - y) > 45 for x, y in zip(r, s))
                                        for r, s in zip(rows, sec)):
            raise Violation("the run times are %s, the solver took %s" % (rows, sec))
        return Outcome(all(want.values()), ["benchmarks %d" % len(sec)] + ["hanging"] * ("hangs" in case["fmf"] + case["lazy"]))


# ---- eager versus lazy data

def py_bound(f):
    """The documented bound; returns (value, exact?) - not exact next to powers of two, where the
    scripts' floating point logarithm may be off by one (as their comments accept)."""
    if f["k"] == 0:
        i = min(f["vars"], f["constraints"]) * (f["b_max"] + 1) + 1
    else:
        i = (f["a_max"] * f["w"]) ** f["k"] * (f["vars"] + 2) * min(f["vars"] + 1, f["constraints"]) * (f["b_max"] + 1) + 1
    v = (i - 1).bit_length() + 1
    lo = 1 << max((i - 1).bit_length() - 1, 0)
    near = min(abs(i - lo), abs(2 * lo - i)) * 10 ** 9 <= i
    return v, not near


def combine(sets):
    if len(sets) == 1:
        return dict(sets[0])
    f = {"vars": sum(s["vars"] for s in sets), "constraints": sum(s["constraints"] for s in sets),
         "k": sum(s["k"] for s in sets)}
    for k in ("a_max", "b_max", "w"):
        f[k] = max(s[k] for s in sets)
    f["bound"] = None
    return f


COLS = ["vars", "constraints", "a_max", "b_max", "k", "w", "bound"]


def check_features(row, sets, ctx):
    """row: list of ints in the order of COLS."""
    want = combine(sets)
    got = dict(zip(COLS, row))
    if len(row) != len(COLS):
        raise Violation("%d features, expected %d: %r (%s)" % (len(row), len(COLS), row, ctx))
    for c in COLS[:-1]:
        if got[c] != want[c]:
            raise Violation("feature %s is %d, expected %d; parameter sets %r (%s)" % (c, got[c], want[c], sets, ctx))
    if want["bound"] is not None:
        if got["bound"] != want["bound"]:
            raise Violation("bound is %d, the statistics say %d (%s)" % (got["bound"], want["bound"], ctx))
    else:
        v, exact = py_bound(want)
        if abs(got["bound"] - v) > (0 if exact else 1):
            raise Violation("combined bound is %d, expected %d for %r (%s)" % (got["bound"], v, want, ctx))


class P04(P):
    id = "P04"
    bins = ()
    rule = "at least one benchmark with several parameter sets, or a rejected bound"
    quick, thorough = 2000, 50000

    def strategy(self):
        def one(d):
            f = {"vars": d.weighted([(3, d.i(1, 9)), (2, d.i(10, 3000))]), "constraints": d.weighted([(3, d.i(1, 9)), (2, d.i(10, 3000))]),
                 "a_max": d.weighted([(3, 1), (2, d.i(2, 50)), (1, d.i(51, 10 ** 9))]), "b_max": d.weighted([(2, 0), (3, d.i(1, 300)), (1, d.i(301, 10 ** 12))]),
                 "k": d.weighted([(3, 0), (3, d.i(1, 6)), (1, d.i(7, 60))]), "w": d.weighted([(3, 2), (2, d.i(1, 12))])}
            f["off"] = d.weighted([(5, 0), (1, 1), (1, -1)])
            return f

        def mk(d):
            bs = []
            for i in range(d.i(1, 5)):
                name = d.pick(["q", "a_b", "x-1", "bits", "7"]) + str(i) + ".smt2"
                # names that begin or end with the name of another benchmark
                if bs and d.flag(1, 3):
                    o = d.pick(bs)["name"]
                    name = d.pick([str(i) + o, o + "." + str(i), o[1:], "x" + o, o[:-1]])
                    if not name or name in [x["name"] for x in bs]:
                        name = str(i) + "_" + o
                bs.append({"name": name, "dir": d.pick(["/home/u/QF_LIA/", "./", "/a b/"]),
                           "sets": d.many(1, 4, lambda: one(d))})
            solvers = d.shuffled(["cvc4", "z3", "sat"])[:d.i(2, 3)]
            times = [[d.pick([0.5, 1.25, 3600, 3600, 17.953, 82, 100, 9.5]) for _ in solvers] for _ in bs]
            return {"theory": d.pick(["lia", "idl"]), "bs": bs, "solvers": solvers, "times": times,
                    "order": d.shuffled(range(len(bs))), "reject": d.weighted([(8, 0), (1, d.pick([-3, 2, 5]))])}
        return cases(mk)

    def judge(self, case):
        root, p, cwd = layout_tree()
        e = os.path.join(p, "Eager_Lazy")
        os.makedirs(e)
        th = case["theory"]
        core.write_at(os.path.join(e, th + "_results.csv"), "\n".join(
            ["bench," + ",".join(case["solvers"])]
            + [b["name"] + "," + ",".join(str(t) for t in ts) for b, ts in zip(case["bs"], case["times"])]) + "\n")
        params = []
        sets = {}
        for j, i in enumerate(case["order"]):
            b = case["bs"][i]
            params.append("Encoding " + b["dir"] + b["name"])
            ss = []
            for s in b["sets"]:
                f = {k: s[k] for k in COLS[:-1]}
                v, exact = py_bound(f)
                f["bound"] = v + (s["off"] if exact else 0)
                if case["reject"] and j == 0 and s is b["sets"][0]:
                    f["bound"] = v + case["reject"] + (1 if case["reject"] > 0 and not exact else 0)
                ss.append(f)
                params.append(", ".join("%s: %d" % (k, f[k]) for k in COLS) + " bits")
            sets[b["name"]] = ss
        core.write_at(os.path.join(e, th + "_params.out"), "\n".join(params) + "\n")
        r = py("clean_eager_lazy_data.py", [th], cwd)
        if case["reject"]:
            if r.rc == 0:
                raise Violation("accepted a bound that is %d bits off\n%r" % (case["reject"], case))
            return Outcome(True, ["rejected bound"])
        if r.rc != 0:
            raise Violation("failed: %s\nparams:\n%s" % (r.brief(), "\n".join(params)))
        rd = lambda n: read_csv(os.path.join(e, n + "_" + th + ".csv"))
        b, s, f = rd("benchmarks"), rd("best_solver"), rd("features")
        if [x[0] for x in b] != ["benchmarks"] + [x["name"] for x in case["bs"]]:
            raise Violation("benchmarks %r" % b)
        if s[0] != ["solver"] or len(s) != len(b) or f[0] != COLS or len(f) != len(b):
            raise Violation("tables do not line up: %r %r %r" % (b, s, f))
        for i, ts in enumerate(case["times"]):
            if s[i + 1][0] not in case["solvers"] or ts[case["solvers"].index(s[i + 1][0])] != min(ts):
                raise Violation("best solver for %r with times %r: %r" % (case["solvers"], ts, s[i + 1]))
            check_features([int(x) for x in f[i + 1]], sets[case["bs"][i]["name"]], case["bs"][i]["name"])
        multi = any(len(x["sets"]) > 1 for x in case["bs"])
        return Outcome(multi, ["several sets" if multi else "single sets", th])


PART = re.compile(r"Partition .*: stats: Stats \{ (.*) \}, bound: (\d+) bits")


def lia_script(d):
    """Small linear problems with several independent groups of variables."""
    out = ["(set-logic QF_LIA)"]
    groups = d.i(1, 3)
    asserts = []
    for g in range(groups):
        vs = ["v%d_%d" % (g, i) for i in range(d.i(1, 3))]
        out += ["(declare-const %s Int)" % v for v in vs]
        for _ in range(d.i(1, 3)):
            r = d.i(0, 3)
            a, b = d.pick(vs), d.pick(vs)
            c = d.i(-9, 40)
            cs = str(c) if c >= 0 else "(- %d)" % -c
            if r == 0:
                asserts.append("(%s %s %s)" % (d.pick(["<", "<=", ">", ">="]), a, cs))
            elif r == 1 and a != b:
                asserts.append("(%s (- %s %s) %s)" % (d.pick(["<=", ">=", "="]), a, b, cs))
            elif a != b:
                asserts.append("(%s (+ (* %d %s) %s) %s)" % (d.pick(["<=", ">=", "<"]), d.i(2, 5), a, b, cs))
            else:
                asserts.append("(>= (* %d %s) %s)" % (d.i(2, 5), a, cs))
        # every variable occurs, so every group is a partition
        asserts += ["(<= %s 99)" % v for v in vs]
    out += ["(assert %s)" % a for a in d.shuffled(asserts)]
    return "\n".join(out) + "\n(check-sat)\n"


def eager_sets(text, cwd, env):
    f = core.write("probe.smt2", text)
    r = core.run([core.exe("eager"), "solve", "--instance", f], cwd=cwd, env=env)
    return encoding_sets(r.out)


def encoding_sets(out):
    sets = []
    for l in out.splitlines():
        m = PART.search(l)
        if m:
            f = {}
            for kv in m.group(1).split(", "):
                k, v = kv.split(": ")
                f[k] = int(v)
            f["bound"] = int(m.group(2))
            sets.append(f)
    return sets


LAZY_OUT = ["Lazy Approach via CVC4", "Lazy Approach via Z3", "Eager Approach via SAT"]


class P05(P):
    id = "P05"
    bins = ("eager", "fakesat")
    rule = "the problem has at least two independent groups of variables"
    quick, thorough = 320, 12000

    def strategy(self):
        def mk(d):
            return {"mode": d.weighted([(2, "predict"), (1, "sweep")]), "scripts": d.many(1, 2, lambda: lia_script(d)),
                    "theory": d.pick(["QF_LIA", "QF_IDL"]), "answer": d.shuffled([0.125, 0.25, 0.625])}
        return cases(mk)

    def judge(self, case):
        root, p, cwd = layout_tree(("eager",))
        os.symlink(core.exe("fakesat"), os.path.join(root, "bin", "kissat"))
        env = {"PATH": os.path.join(root, "bin") + ":" + core.BASE_ENV["PATH"], "PYTHONPATH": stub_modules(root),
               "VH_LOG": os.path.join(root, "log"), "VH_ANSWERS": json.dumps({"ep": case["answer"]})}
        if case["mode"] == "predict":
            text = case["scripts"][0]
            sets = eager_sets(text, root, env)
            if not sets:
                raise core.Discard()
            core.write_at(os.path.join(cwd, "prob.smt2"), text)
            core.write_at(os.path.join(cwd, "conf"), "[REQUIRED]\nTheory = %s\nEndpointEagerVLazy = ep\n" % case["theory"])
            r = py("generate_predictions.py", ["prob.smt2", "conf"], cwd, env)
            if r.rc != 0:
                raise Violation("generate_predictions.py failed: %s\nproblem:\n%s" % (r.brief(), text))
            calls = [json.loads(l) for l in open(os.path.join(root, "log"))]
            if len(calls) != 1 or calls[0][0] != "ep":
                raise Violation("endpoint calls %r" % calls)
            check_features(calls[0][1], sets, "problem:\n" + text)
            want = LAZY_OUT[case["answer"].index(max(case["answer"]))]
            if "is: " + want not in r.out:
                raise Violation("answered %r for probabilities %r" % (r.out[-300:], case["answer"]))
            return Outcome(len(sets) > 1, ["predict", "groups %d" % len(sets)])
        os.symlink(core.exe("eager"), os.path.join(p, "solvers", "amzn-smt-eager-arithmetic"))
        allsets = []
        base = os.path.join(root, "bench")
        os.makedirs(base)
        for i, t in enumerate(case["scripts"]):
            s = eager_sets(t, root, env)
            if not s:
                raise core.Discard()
            allsets.append(s)
            core.write_at(os.path.join(base, "b%d.smt2" % i), t)
            for n in ("cvc4", "z3"):
                core.write_at(os.path.join(base, "b%d.smt2.%s.out" % (i, n)), "sat\n")
        core.write_at(os.path.join(cwd, "list"), "".join("/b%d.smt2\n" % i for i in range(len(allsets))))
        r = py("run_eager_v_lazy.py", ["list", base], cwd, env)
        if r.rc != 0:
            raise Violation("run_eager_v_lazy.py failed: %s" % r.brief())
        rows = read_csv(os.path.join(cwd, "features.csv"))
        best = read_csv(os.path.join(cwd, "fastest_solver.csv"))
        if len(rows) != len(allsets) or len(best) != len(allsets):
            raise Violation("rows %r / %r for %d benchmarks" % (rows, best, len(allsets)))
        for row, s, t, b in zip(rows, allsets, case["scripts"], best):
            check_features([int(x) for x in row], s, "problem:\n" + t)
            if b not in (["z3"], ["cvc4"], ["sat"], ["None"]):
                raise Violation("fastest solver %r" % b)
        return Outcome(any(len(s) > 1 for s in allsets), ["sweep", "benchmarks %d" % len(allsets)])


# ---- which solver answers first

RACERS = ["z3", "cvc4", "amzn-smt-eager-arithmetic"]


class P10(P):
    id = "P10"
    bins = ("eager", "fakesat")
    rule = "a benchmark that the first solver does not win, or that none answers in time"
    quick, thorough = 500, 12000
    assumptions = ("benchmark lists have one path per line, starting with a slash and ending in a newline",
                   "time is what the stand-in solvers say they take, no two of them the same; they print nothing in the first second, "
                   "and the arithmetic solver prints its statistics before it could hang")

    def strategy(self):
        def mk(d):
            names = []
            for _ in range(d.i(1, 4)):
                n = d.pick(["", "sub/", "d2/e/"]) + d.pick(["t", "2", "a", "m.s", "es"]) + d.pick(["", "1", "b"]) + ".smt2"
                if n not in names:
                    names.append(n)

            def times():
                first = d.pick([[0, 50, 25], [0, 50, 25], [100, 50, 25]])
                return [d.weighted([(8, f + 100 * d.pick([0, 1, 1, 4])), (1, "hangs"), (1, f)]) for f in first]
            return {"names": names, "scripts": [lia_script(d) for _ in names], "times": [times() for _ in names],
                    "earlier": d.flag(1, 4)}
        return cases(mk)

    def judge(self, case):
        root, p, cwd = layout_tree()
        base = os.path.join(root, "bench")
        for s in RACERS:
            stub = core.write_at(os.path.join(p, "solvers", s), RACE_STUB)
            os.chmod(stub, 0o755)
        os.symlink(core.exe("fakesat"), os.path.join(root, "bin", "kissat"))
        env = {"PATH": os.path.join(root, "bin") + ":" + core.BASE_ENV["PATH"]}
        allsets = []
        for n, t, secs in zip(case["names"], case["scripts"], case["times"]):
            f = os.path.join(base, n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            core.write_at(f, t)
            r = core.run([core.exe("eager"), "solve", "--instance", f], cwd=root, env=env)
            sets = encoding_sets(r.out)
            if not sets:
                raise core.Discard()
            allsets.append(sets)
            core.write_at(f + ".encoding", r.out)
            for s, x in zip(RACERS, secs):
                core.write_at(f + "." + s, str(x))
        core.write_at(os.path.join(cwd, "list"), "".join("/" + n + "\n" for n in case["names"]))
        if case["earlier"]:  # results of an earlier run
            core.write_at(os.path.join(cwd, "features.csv"), "1,2,3,4,5,6,7\n")
            core.write_at(os.path.join(cwd, "fastest_solver.csv"), "z3\n")
        clock = core.write_at(os.path.join(root, "clock"), "0")
        env = {"PYTHONPATH": CLOCK_DIR + ":" + stub_modules(root), "VH_HANG": os.path.join(root, "hang"), "VH_CLOCK": clock}
        r = quietly("run_eager_v_lazy.py", ["list", base], cwd, env)
        check_ended(env["VH_HANG"])
        if r.rc != 0:
            raise Violation("run_eager_v_lazy.py failed: %s\nseconds: %s" % (r.brief(), case["times"]))
        rows = read_csv(os.path.join(cwd, "features.csv"))
        best = read_csv(os.path.join(cwd, "fastest_solver.csv"))
        if len(rows) != len(allsets) or len(best) != len(allsets):
            raise Violation("rows %r / %r for %d benchmarks" % (rows, best, len(allsets)))
        wants = []
        for row, sets, t, b, secs in zip(rows, allsets, case["scripts"], best, case["times"]):
            done = [(x, n) for x, n in zip(secs, ["z3", "cvc4", "sat"]) if x != "hangs" and x < 300]
            wants.append(min(done)[1] if done else "None")
            if b != [wants[-1]]:
                raise Violation("fastest solver %r, expected %s\nseconds of %s: %s" % (b, wants[-1], RACERS, secs))
            check_features([int(x) for x in row], sets, "seconds %s, problem:\n%s" % (secs, t))
        return Outcome(any(w != "z3" for w in wants), ["fastest %s" % w for w in sorted(set(wants))]
                       + ["hanging"] * any("hangs" in x for x in case["times"]) + ["cut"] * any(
                           not isinstance(t, str) and t >= 300 for x in case["times"] for t in x))


RUNTIMES = ["solve quickly (30 to 60 seconds)", "solve slowly (1 to 12 minutes)", "timeout (over 20 minutes)"]


class P06(P):
    id = "P06"
    rule = "solver output with lines in at least two buckets, or custom buckets, or normalization"
    quick, thorough = 320, 12000

    def strategy(self):
        def mk(d):
            bk = None
            if d.flag(2, 3):
                bk = sorted({d.i(1, 30) for _ in range(d.i(1, 14))})
                if d.flag(1, 3):
                    bk = [7, 8, 9, 10, 20, 40, 60, 80, 100][:d.i(1, 9)]
            nf = len(SMTCOMP_COLUMNS) + len(bk or DEFAULT_BUCKETS) + 1
            norm = None
            if d.flag(1, 2):
                norm = [[d.pick([0, 1, 2.5, 10]) for _ in range(nf)], [d.pick([0, 1, 2, 0.5, 4]) for _ in range(nf)]]
            return {"script": script(d, 2), "out": solver_text(d), "buckets": bk, "norm": norm, "fmf": d.flag(),
                    "answer": d.shuffled([0.125, 0.25, 0.625]), "answer2": d.pick([0.25, 0.75, 0.9375]),
                    "verbosity": d.pick([None, "Full", "Pretty", "Vector"])}
        return cases(mk)

    def judge(self, case):
        root, p, cwd = layout_tree(("prediction",))
        env = {"PYTHONPATH": stub_modules(root), "VH_LOG": os.path.join(root, "log"),
               "VH_ANSWERS": json.dumps({"rt": case["answer"], "fm": case["answer2"]})}
        core.write_at(os.path.join(cwd, "prob.smt2"), case["script"])
        core.write_at(os.path.join(cwd, "prob.smt2.cvc4.out"), case["out"])
        conf = "[REQUIRED]\nTheory = QF_SLIA\nEndpointRuntime = rt\nEndpointFmf = fm\n[OPTIONAL]\n"
        if case["buckets"]:
            conf += "Buckets = %s\n" % json.dumps(case["buckets"])
        if case["norm"]:
            conf += "M1FeatureMeans = %s\nM1FeatureStds = %s\n" % tuple(json.dumps(x) for x in case["norm"])
        if case["fmf"]:
            conf += "FMF = True\n"
        if case["verbosity"]:
            conf += "Verbosity = %s\n" % case["verbosity"]
        core.write_at(os.path.join(cwd, "conf"), conf)
        r = py("generate_predictions.py", ["prob.smt2", "conf"], cwd, env)
        if r.rc != 0:
            raise Violation("generate_predictions.py failed: %s\nconfig:\n%s" % (r.brief(), conf))
        calls = [json.loads(l) for l in open(os.path.join(root, "log"))]
        if [c[0] for c in calls] != ["rt"] + (["fm"] if case["fmf"] else []):
            raise Violation("endpoint calls %r\nconfig:\n%s" % (calls, conf))
        counts = count_script(case["script"])
        labels = bucket_labels(case["buckets"] or DEFAULT_BUCKETS)
        on = bucket_counts(labels, kept_lines(case["out"]))
        feats = [counts[c] for c in SMTCOMP_COLUMNS] + on
        want = feats
        if case["norm"]:
            want = [f if s == 0 else (f - m) / s for f, m, s in zip(feats, *case["norm"])]
        got = calls[0][1]
        if len(got) != len(want) or any(abs(a - b) > 1e-9 * max(1, abs(b)) for a, b in zip(got, want)):
            raise Violation("features sent: %r\nexpected:      %r\nlabels: %r\nconfig:\n%s\nsolver output %r"
                            % (got, want, SMTCOMP_COLUMNS + labels, conf, case["out"]))
        if case["fmf"] and calls[1][1] != on:
            raise Violation("features for the configuration model: %r, expected %r" % (calls[1][1], on))
        v = case["verbosity"] or "Full"
        if v in ("Full", "Pretty"):
            if "CVC4 will: " + RUNTIMES[case["answer"].index(max(case["answer"]))] not in r.out:
                raise Violation("probabilities %r reported as %r" % (case["answer"], r.out[-400:]))
            if case["fmf"]:
                state = "ENABLED" if case["answer2"] > 0.5 else "DISABLED"
                tail = r.out.rstrip("\n").splitlines()[-1]
                if state not in tail:
                    raise Violation("probability %r reported as %r" % (case["answer2"], tail))
        if v == "Full":
            for l in r.out.splitlines():
                if l.startswith("Feature Labels: ") and l[16:] != ",".join(SMTCOMP_COLUMNS + labels):
                    raise Violation("labels %r, expected %r" % (l[16:], SMTCOMP_COLUMNS + labels))
        left = [f for f in os.listdir(cwd) if f.startswith("off_features")]
        if left:
            raise Violation("left behind %r" % left)
        tags = ["custom buckets" if case["buckets"] else "default buckets", "normalized" if case["norm"] else "raw"]
        return Outcome(sum(1 for x in on if x) > 1 or bool(case["buckets"]) or bool(case["norm"]), tags)


class P07(P):
    id = "P07"
    bins = ()
    rule = "rows that are kept and rows that are filtered out both occur"
    quick, thorough = 2000, 60000

    def strategy(self):
        def mk(d):
            rows = []
            for _ in range(d.i(1, 12)):
                logic = d.weighted([(6, "QF_SLIA"), (1, "QF_S"), (1, "QF_LIA")])
                fam = d.pick([["2019-full_str_int"], ["2019-Jiang", "slog"], ["20180523-Reynolds", "pyex", "peterc-pyex-doc-cav17-z3"],
                              ["2018-Kepler"], ["20180523-Reynolds", "pyex", "other"]])
                name = "/".join([logic] + fam + [d.weighted([(5, ""), (1, "a"), (1, "sub/")]) + "b%d.smt2" % d.i(0, 9) + d.weighted([(6, ""), (1, "0"), (1, ".smt2")])])
                if rows and d.flag(1, 6):  # a path that begins like, ends like or is an earlier one
                    o = d.pick(rows)["path"].split("/", 1)[1]
                    name = d.pick([o, o + "_1", o[:-1], o.rsplit("/", 1)[0] + "/x" + o.rsplit("/", 1)[1]])
                rows.append({"path": d.pick(["track1/", "Incremental/"]) + name, "solver": d.weighted([(4, "CVC4-sq-final"), (1, "Z3str4 SMTCOMP2020 v1.1"), (1, "CVC4-sq-final2")]),
                             "status": d.weighted([(4, "complete"), (1, "timeout (wallclock)")]),
                             "wall": d.i(0, 130000) / 100 if d.flag(1, 3) else d.pick([0.01, 29.999, 30.0, 30.5, 150.25, 299.999, 300.0, 315.5, 329.9, 330.0, 330.25, 700.5, 1200.0])})
            names = [r["path"].split("/", 1)[1] for r in rows]
            return {"rows": rows, "disagree": [n for n in names if d.flag(1, 6)], "excluded": [n for n in names if d.flag(1, 6)]}
        return cases(mk)

    def judge(self, case):
        root, p, cwd = layout_tree()
        b = os.path.join(p, "SMT_Comp_2020")
        for x in ("excluded_benchmarks", "experiments_QF_SLIA"):
            os.makedirs(os.path.join(b, x))
        core.write_at(os.path.join(b, "excluded_benchmarks", "disagreements_SLIA"), "".join(n + "\n" for n in case["disagree"]))
        core.write_at(os.path.join(b, "excluded_benchmarks", "excluded_SLIA"), "".join(n + "\n" for n in case["excluded"]))
        lines = ["pair id,benchmark,benchmark id,solver,solver id,configuration,configuration id,status,cpu time,wallclock time,memory,result,expected"]
        short, long = [], []
        for i, r in enumerate(case["rows"]):
            lines.append("%d,%s,%d,%s,7,default,8,%s,%s,%s,100,sat,sat" % (i, r["path"], 100 + i, r["solver"], r["status"], r["wall"] / 2, r["wall"]))
            name = r["path"].split("/", 1)[1]
            parts = name.split("/")
            fam = parts[0] == "QF_SLIA" and (parts[1] in ("2019-full_str_int", "2019-Jiang")
                                             or (len(parts) > 3 and parts[3] == "peterc-pyex-doc-cav17-z3"))
            if not fam or r["solver"] != "CVC4-sq-final" or name in case["disagree"] or name in case["excluded"]:
                continue
            t = 1200 if r["status"].startswith("timeout") else r["wall"]
            if 30 <= t < 300:
                short.append(("/non-incremental/" + name, float(t)))
            elif t >= 330:
                long.append(("/non-incremental/" + name, float(t - 300)))
        core.write_at(os.path.join(b, "Job_info_orig.csv"), "\n".join(lines) + "\n")
        r = py("clean_smt_comp_results.py", [], cwd)
        if r.rc != 0:
            raise Violation("failed: " + r.brief())
        for tag, want in (("30-to-300", short), ("300-to-1200", long)):
            def rd(kind):
                with open(os.path.join(b, "experiments_QF_SLIA", "%s_QF_SLIA_%s.csv" % (kind, tag))) as f:
                    return f.read().split("\n")[:-1]
            bs, ts = rd("benchmarks"), rd("times")
            if ts[:1] != ["time"]:
                raise Violation("times header %r" % ts[:1])
            got = list(zip(bs, [float(x) for x in ts[1:]]))
            if len(bs) != len(ts) - 1 or got != want:
                raise Violation("%s: kept %r (%d names, %d times), expected %r\nrows %r"
                                % (tag, got, len(bs), len(ts) - 1, want, case["rows"]))
        n = len(short) + len(long)
        return Outcome(0 < n < len(case["rows"]), ["kept %d" % min(n, 5)])


class P08(P):
    id = "P08"
    bins = ("updater",)
    rule = "at least two listed benchmarks with old-style functions"
    quick, thorough = 1000, 15000

    def strategy(self):
        def mk(d):
            names = []
            for _ in range(d.i(1, 4)):
                n = d.pick(["", "sub/", "v1.2/"]) + d.pick(["a", "b.c", "x_upt", "q-1", "smt2", "1.0.5"]) + d.pick(["", "1", "2"])
                if n not in names:
                    names.append(n)
            g = lambda: up.layout(d, up.head(d, d.flag()) + up.G(d).body(1, 2, 2))
            return {"names": names, "exts": [d.pick([".smt2", ".smtlib"]) for _ in names], "scripts": [g() for _ in names],
                    # results of earlier runs, and files that belong to nobody
                    "stale": [d.weighted([(5, None), (1, ""), (1, "(check-sat)\n"), (1, "old " * 400)]) for _ in names],
                    "other": d.weighted([(4, []), (1, ["a_upt"]), (1, ["list", "sub/z_upt.smt2"])])}
        return cases(mk)

    def judge(self, case):
        root, p, cwd = layout_tree()
        d = os.path.join(root, "amzn-smt-string-fct-updater", "release")
        os.makedirs(d)
        os.symlink(core.exe("updater"), os.path.join(d, "amzn-smt-string-fct-updater"))
        base = os.path.join(root, "bench", "")
        for n, e, t in zip(case["names"], case["exts"], case["scripts"]):
            f = base + n + e
            os.makedirs(os.path.dirname(f), exist_ok=True)
            core.write_at(f, t)
        outs = [n + "_upt" + e for n, e in zip(case["names"], case["exts"])]
        for o, t in zip(outs, case["stale"]):
            if t is not None and o not in [n + e for n, e in zip(case["names"], case["exts"])]:
                core.write_at(base + o, t)
        for o in case["other"]:
            if o not in outs and not os.path.exists(base + o):
                os.makedirs(os.path.dirname(base + o), exist_ok=True)
                core.write_at(base + o, "not a benchmark\n")
        core.write_at(os.path.join(cwd, "list"), "".join("%s_upt%s\n" % x for x in zip(case["names"], case["exts"])))
        before = up.snapshot(base)
        r = py("modernize_benchmarks.py", ["list", base], cwd)
        if r.rc != 0:
            raise Violation("failed: " + r.brief())
        after = up.snapshot(base)
        want = set(before) | set(outs)
        if set(after) != want or any(after[k] != before[k] for k in before if k not in outs):
            raise Violation("files %r, expected %r (originals unchanged)" % (sorted(after), sorted(want)))
        for n, e, t in zip(case["names"], case["exts"], case["scripts"]):
            up.compare(t, after[n + "_upt" + e].decode("utf-8"))
        return Outcome(len(case["names"]) > 1, ["benchmarks %d" % len(case["names"])])
