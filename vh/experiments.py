"""The experiment scripts around the string transformer (test_and_transform.sh, parallel_test_transform_list.sh,
data_processing.py), run with stand-ins for the solver, for GNU parallel and for pandas."""
import json
import os
import re
import shutil

from . import core
from .core import Outcome, Property, Violation
from .gen import cases
from .transformer import any_case, refusal_case, script_of

HERE = os.path.dirname(os.path.abspath(__file__))
TOOL = "release/release/amzn-smt-string-transformer"
TIMES = re.compile(r"\n(real\t\d+m\d+\.\d+s\nuser\t\d+m\d+\.\d+s\nsys\t\d+m\d+\.\d+s\n)")


def crate():
    return os.path.join(core.REPO, "amzn-smt-string-transformer")


# A solver that records its arguments and answers with something that depends on them and on the file.
SOLVER = r'''#!/usr/bin/python3 -S
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
text = open(sys.argv[-1], "rb").read() if len(sys.argv) > 1 and os.path.isfile(sys.argv[-1]) else None
with open(os.path.join(here, "solver.log"), "a") as f:
    f.write(json.dumps([sys.argv[1:], None if text is None else text.decode("utf-8", "replace")]) + "\n")
if text is None:
    print("(error \"no such file\")")
    sys.exit(1)
k = sum(text) % 7
if k < 3:
    print("sat\n(model %d %d)" % (len(text), sum(text)))
elif k < 5:
    print("unsat")
elif k == 5:
    print("unknown", len(text))
sys.exit(k % 2)
'''

# What the scripts use of GNU parallel: one run of the command per line of the file, {} standing for the line.
PARALLEL = r'''#!/usr/bin/python3 -S
import os, subprocess, sys
a = sys.argv[1:]
listed = None
while a and a[0].startswith("-"):
    if a[0] in ("-j", "--jobs", "-a", "--arg-file", "--timeout", "--joblog"):
        if a[0] in ("-a", "--arg-file"):
            listed = a[1]
        a = a[2:]
    else:
        a = a[1:]
bad = 0
for line in open(listed).read().split("\n"):
    if line:
        bad += subprocess.call(["bash", "-c", " ".join(w.replace("{}", line) for w in a)]) != 0
sys.exit(min(bad, 100))
'''

CARGO = r'''#!/bin/bash
echo "$@" > "$(dirname "$0")/cargo.log"
mkdir -p release/release
ln -s %s release/release/amzn-smt-string-transformer
'''


# The transformer behind the command line that the scripts use (an earlier one than it has now: a known finding, see
# known_findings.json) or the one it has; records what it is asked for.
ADAPTER = r'''#!/usr/bin/python3 -S
import json, os, sys
a = sys.argv[1:]
asked = {"mode": None, "mapping": None, "global": "false", "file": None}
while a:
    w = a.pop(0)
    if w in ("convert", "reconstruct", "sub-formula") and asked["mode"] is None:
        asked["mode"] = w
        continue
    w, eq, v = w.partition("=")
    key = {"--mode": "mode", "--mapping": "mapping", "--input-file": "file", "--use-global-map": "global"}.get(w)
    if key is None:
        sys.exit(2)
    if key == "global" and not eq:
        v = a.pop(0) if a and a[0] in ("true", "false") else "true"
    elif not eq:
        if not a:
            sys.exit(2)
        v = a.pop(0)
    asked[key] = v
with open("%s", "a") as f:
    f.write(json.dumps(asked, sort_keys=True) + "\n")
if not (asked["mode"] and asked["file"]):
    sys.exit(2)
os.execv("%s", ["%s", asked["mode"], "--input-file", asked["file"]]
         + (["--mapping", asked["mapping"]] if asked["mapping"] else [])
         + (["--use-global-map"] if asked["global"] == "true" else []))
'''


def literals(text):
    return set(re.findall(r'"(?:[^"]|"")*"', text))


def program(path, text):
    core.write_at(path, text)
    os.chmod(path, 0o755)


def experiment_case(d):
    batch = d.flag(1, 3)
    n = d.i(1, 3) if batch else 1
    names = d.shuffled(["q", "example1", "ab", "x-1", "Q_2", "main_in", "7", "p_transformed", "v1", "x", "1-2-3"])[:n]
    queries = [[s, script_of(refusal_case(d) if d.flag(1, 6) else any_case(d))] for s in names]
    where = d.pick(["", "data", "da-ta", "data/sub_d", "data/more", "ABS"])
    # paths with dots other than the one before the extension are a known finding
    return {"batch": batch, "queries": queries, "dir": where or ("data" if batch else ""),
            "ext": d.pick(["smtlib", "smt2", "smt"]), "global": d.flag(),
            "options": d.pick([[], ["-T:600"], ["--lang=smtlib", "--produce-models", "--quiet"], ["-t", "12"], ["smt2"]]),
            "built": d.flag(5, 6), "again": d.flag(1, 4)}


class T12(Property):
    id = "T12"
    bins = ("transformer",)
    rule = "a converted query has other string literals than its original"
    quick = 1200
    thorough = 12000

    def strategy(self):
        return cases(experiment_case)

    def judge(self, case):
        top = core.scratch()
        d = os.path.join(top, "w")
        tools = os.path.join(top, "bin")
        ref = os.path.join(top, "ref")
        for x in (d, tools, ref):
            os.makedirs(x)
        for s in ("test_and_transform.sh", "parallel_test_transform_list.sh"):
            shutil.copy(os.path.join(crate(), s), d)
            os.chmod(os.path.join(d, s), 0o755)
        program(os.path.join(tools, "mysolver"), SOLVER)
        program(os.path.join(tools, "parallel"), PARALLEL)
        asked = os.path.join(tools, "tool.log")
        tool = core.exe("transformer")
        if not case.get("raw"):
            tool = os.path.join(tools, "tool")
            program(tool, ADAPTER % (asked, core.exe("transformer"), core.exe("transformer")))
        program(os.path.join(tools, "cargo"), CARGO % tool)
        if case["built"]:
            os.makedirs(os.path.join(d, "release", "release"))
            os.symlink(tool, os.path.join(d, TOOL))
        where = case["dir"].replace("ABS", os.path.join(top, "abs"))
        if "." in top and case["dir"] == "ABS":
            raise core.Discard("dots in the scratch directory's name")
        real = os.path.normpath(os.path.join(d, where))
        os.makedirs(real, exist_ok=True)
        for name, text in case["queries"]:
            core.write_at(os.path.join(real, "%s.%s" % (name, case["ext"])), text)
        env = {"PATH": tools + ":" + core.BASE_ENV["PATH"]}
        flag = "true" if case["global"] else "false"
        if case["batch"]:
            core.write_at(os.path.join(d, "list.txt"), "".join("%s.%s\n" % (n, case["ext"]) for n, _ in case["queries"]))
            argv = ["bash", "./parallel_test_transform_list.sh", "list.txt", "mysolver", where, flag] + case["options"]
        else:
            path = "%s.%s" % (case["queries"][0][0], case["ext"])
            argv = ["bash", "./test_and_transform.sh", "mysolver", where + "/" + path if where else path, flag]
            argv += case["options"]
        changed = False
        for turn in range(2 if case["again"] else 1):
            log = os.path.join(tools, "solver.log")
            for x in (log, asked):
                if os.path.exists(x):
                    os.unlink(x)
            r = core.run(argv, cwd=d, env=env)
            self.look(case, d, where, real, tools, ref, r)
        for name, text in case["queries"]:
            with open(os.path.join(real, "%s_transformed.%s" % (name, case["ext"])), encoding="utf-8", newline="") as f:
                changed = changed or literals(f.read()) != literals(text)
        if not case["built"]:
            with open(os.path.join(tools, "cargo.log")) as f:
                words = f.read().split()
            if words[:1] != ["build"] or "--release" not in words:
                raise Violation("the missing program was built with cargo %s" % words)
        return Outcome(changed, ["batch" if case["batch"] else "single", "global" if case["global"] else "own map"])

    def look(self, case, d, where, real, tools, ref, r):
        def content(p):
            if not os.path.isfile(p):
                raise Violation("%s was not written\n%s" % (os.path.relpath(p, d), r.brief()))
            with open(p, encoding="utf-8", newline="") as f:
                return f.read()

        log = os.path.join(tools, "solver.log")
        calls = [json.loads(l) for l in content(log).splitlines()] if os.path.exists(log) else []
        wanted = []
        ext = case["ext"]
        for name, text in case["queries"]:
            # the same conversion by hand
            p = core.write_at(os.path.join(ref, "%s.%s" % (name, ext)), text)
            c = core.run([core.exe("transformer"), "convert", "--mapping", "no-reconstruct", "--input-file", p]
                         + (["--use-global-map"] if case["global"] else []), cwd=ref)
            if c.rc != 0:
                raise core.Discard("not convertible")
            stem = os.path.join(real, name)
            if content("%s.%s" % (stem, ext)) != text:
                raise Violation("the query file was changed\n%s" % text)
            got = content("%s_transformed.%s" % (stem, ext))
            want = content(os.path.join(ref, "%s_transformed.%s" % (name, ext)))
            if case["global"]:
                mine, theirs = os.path.join(d, "global_mapping.json"), os.path.join(ref, "global_mapping.json")
            else:
                mine, theirs = stem + "_mapping.json", os.path.join(ref, name + "_mapping.json")
            content(mine)
            # the tool's choices are not part of this property: what is converted, and by which mode, is
            if (got.startswith("Encountered") != want.startswith("Encountered")
                    or len(got.splitlines()) != len(want.splitlines())):
                raise Violation("the transformed query is\n%s\na conversion by hand gives\n%s" % (got, want))
            keys, hand = sorted(json.loads(content(mine))), sorted(json.loads(content(theirs)))
            if keys != hand:
                raise Violation("the mapping has %s, that of a conversion by hand %s" % (keys, hand))
            shown = (where + "/" if where else "") + name
            orig = case["options"] + ["%s.%s" % (shown, ext)]
            trans = case["options"] + ["%s_transformed.%s" % (shown, ext)]
            wanted += [[orig, text], [trans, got]]
            for argv, body, out in ((orig, text, name + ".out"), (trans, got, name + "_transformed.out")):
                answer = self.answer(body)
                if content(os.path.join(real, out)) != answer:
                    raise Violation("%s has %r, the solver answers %r" % (out, content(os.path.join(real, out)), answer))
            times = content(os.path.join(real, name + "_times.out"))
            parts = TIMES.split(times)
            heads = [x.strip("\n") for x in parts[0::2]]
            want = [" ".join(["mysolver"] + orig), "./" + TOOL + " convert " + shown, " ".join(["mysolver"] + trans), ""]
            heads = [" ".join(h.split()) for h in heads]
            if heads != want:
                raise Violation("the times file does not hold the three timed commands in order, but %s\nexpected %s\n%s" % (
                    heads, want, times))
        if not case.get("raw"):
            got = [json.loads(l) for l in content(os.path.join(tools, "tool.log")).splitlines()]
            want = [{"mode": "convert", "mapping": "no-reconstruct", "global": "true" if case["global"] else "false",
                     "file": (where + "/" if where else "") + "%s.%s" % (name, ext)} for name, _ in case["queries"]]
            if got != want:
                raise Violation("the transformer was asked for %s\nexpected %s" % (got, want))
        if calls != wanted:
            raise Violation("the solver was called with %s\nexpected %s" % (
                [c[0] for c in calls], [c[0] for c in wanted]))
        for n in os.listdir(ref):
            os.unlink(os.path.join(ref, n))

    @staticmethod
    def answer(text):
        b = text.encode()
        k = sum(b) % 7
        if k < 3:
            return "sat\n(model %d %d)\n" % (len(b), sum(b))
        if k < 5:
            return "unsat\n"
        return "unknown %d\n" % len(b) if k == 5 else ""


# ---------------------------------------------------------------- T13

DATA_LIMIT = 3600  # what the table has as the time of a run that was ended


def duration(d):
    return [d.i(0, 70), d.i(0, 59999)]


def shown_time(t):
    return "%dm%d.%03ds" % (t[0], t[1] // 1000, t[1] % 1000)


def seconds(t):
    return t[0] * 60 + t[1] / 1000


ANSWERS = ["sat\n(model)\n", "unsat\n", "unknown\n", "timeout\n", "", "(error \"line 1\")\nsat\n", "SAT\n", "sat: no model\n",
           "\"\"\n", "sat", "\n", "Unsat\n(error \"x\")\n"]


def table_case(d):
    names = d.shuffled(["q", "main", "a.b", "x-1", "Q_2", "k.in", "7", "plugin", "v1.2", "outer", "times", "e.smtlib"])
    queries = []
    for i, n in enumerate(names[:d.i(1, 7)]):
        queries.append({
            "name": n, "stage": 3 if i == 0 or d.flag(2, 3) else d.i(0, 2),
            "orig": d.pick(ANSWERS), "trans": d.pick(ANSWERS), "recon": d.pick([None] + ANSWERS),
            "times": [[duration(d), duration(d), duration(d)] for _ in range(3)],
            "sizes": [d.i(1, 90), d.i(1, 90)], "chars": [chr(97 + d.i(0, 25)) * d.i(1, 3) for _ in range(d.i(0, 4))],
            "mapping": d.weighted([(6, "full"), (1, "cut"), (1, "without")])})
    return {"queries": queries, "dir": d.pick(["data", "da.ta/x", "."]), "others": d.flag(), "ext": "smtlib",
            "list": d.weighted([(2, "none"), (1, "lines"), (1, "final newline")]),
            "prefix": d.pick(["data/", "/a/b.c/", "./", "d-1/../x/"])}


def first_line(text):
    if text is None:
        return "not_run"
    line = text.split("\n")[0]
    if not line:
        return "no_check_sat"
    if line.startswith("(error"):
        return "error"
    return "gnu_timeout" if line == '""' else line.lower()


class T13(Property):
    id = "T13"
    bins = ()
    rule = "at least three queries, one of which was ended before it was through"
    quick = 2000
    thorough = 30000

    def strategy(self):
        return cases(table_case)

    def judge(self, case):
        d = core.scratch()
        real = os.path.join(d, case["dir"])
        os.makedirs(real, exist_ok=True)
        rows = []
        for q in case["queries"]:
            rows.append(self.leave(q, real, case["prefix"]))
        if case["others"]:
            core.write_at(os.path.join(real, "job.log"), "Seq\tHost\n")
            core.write_at(os.path.join(real, "notes.txt"), "sat\n")
            core.write_at(os.path.join(real, "unrun.smtlib"), "(check-sat)\n")
        argv = [os.path.join(HERE, "..", "tools", "standins", "tables.py"),
                os.path.join(crate(), "data_processing.py"), case["dir"]]
        if case["list"] != "none":
            lines = ["%s.smtlib" % q["name"] for q in case["queries"]]
            core.write_at(os.path.join(d, "list.txt"), "\n".join(lines) + ("\n" if case["list"] != "lines" else ""))
            argv.append("list.txt")
        r = core.run(["/usr/bin/python3", "-S"] + argv, cwd=d)
        if r.rc == 77:
            raise core.Inconclusive("the stand-ins lack something: " + r.err[-300:])
        if r.rc != 0 or "\n=====" not in r.out:
            raise Violation("no table\n%s\nfor %s" % (r.brief(), case))
        got, summary = json.loads(r.out.split("\n=====")[-1])
        seen = [g.get("query") for g in got]
        if sorted(seen) != sorted(q["name"] for q in case["queries"]):
            raise Violation("the table is about %s\nthe directory about %s" % (
                sorted(seen), sorted(q["name"] for q in case["queries"])))
        for want in rows:
            g = got[seen.index(want["query"])]
            for k, v in want.items():
                if not self.same(g.get(k), v):
                    raise Violation("%s of %s is %r, should be %r\n%s" % (k, want["query"], g.get(k), v, case))
        for k, v in self.summary(rows).items():
            if not self.same(summary.get(k), v):
                raise Violation("the summary has %s = %r, should be %r\nfor the rows %s" % (k, summary.get(k), v, rows))
        cut = any(q["stage"] < 3 for q in case["queries"])
        return Outcome(cut and len(rows) >= 3, ["list" if case["list"] != "none" else "directory"])

    @staticmethod
    def same(a, b):
        if isinstance(b, float) and isinstance(a, (int, float)):
            return abs(a - b) < 1e-6
        return a == b

    @staticmethod
    def leave(q, real, prefix):
        """Writes what an experiment on the query leaves; the table row for it."""
        n, stage = q["name"], q["stage"]
        w = lambda name, text: core.write_at(os.path.join(real, name), text)
        w(n + ".smtlib", "x" * q["sizes"][0])
        heads = ["mysolver -t %s%s.smtlib" % (prefix, n),
                 "./release/release/amzn-smt-string-transformer convert %s%s" % (prefix, n),
                 "mysolver -t %s%s_transformed.smtlib" % (prefix, n)]
        text = ""
        for i in range(min(stage, 2) + 1):
            text += heads[i] + "\n"
            if i < stage:
                text += "\nreal\t%s\nuser\t%s\nsys\t%s\n" % tuple(map(shown_time, q["times"][i]))
        w(n + "_times.out", text)
        w(n + ".out", q["orig"])
        row = {"query": n, "orig_res": first_line(q["orig"]) if stage > 0 else "gnu_timeout",
               "trans_res": first_line(q["trans"]) if stage > 2 else "gnu_timeout",
               "recon_res": first_line(q["recon"]),
               "orig_solver_time": seconds(q["times"][0][1]) if stage > 0 else float(DATA_LIMIT),
               "convert_time": seconds(q["times"][1][1]) if stage > 1 else None,
               "trans_solver_time": seconds(q["times"][2][1]) if stage > 2 else float(DATA_LIMIT),
               "orig_size": q["sizes"][0], "trans_size": None, "map_size": None, "num_char_to_char_lits": 0}
        if stage > 1:
            w(n + "_transformed.smtlib", "y" * q["sizes"][1])
            row["trans_size"] = q["sizes"][1]
            m = {"char_map": [], "char_to_char_string_lits": q["chars"]}
            if q["mapping"] == "without":
                del m["char_to_char_string_lits"]
            text = json.dumps(m)
            if q["mapping"] == "cut":
                text = text[:-3]
            w(n + "_mapping.json", text)
            row["map_size"] = len(text)
            if q["mapping"] == "full":
                row["num_char_to_char_lits"] = len(q["chars"])
            w(n + "_transformed.out", q["trans"])
        if q["recon"] is not None:
            w(n + "_recon_check.out", q["recon"])
        return row

    @staticmethod
    def summary(rows):
        def count(f):
            return sum(1 for r in rows if f(r["orig_res"], r["trans_res"]))

        out = {
            "no_check_sat": count(lambda o, t: o == "no_check_sat"),
            "all_gnup_timeout": count(lambda o, t: o == t == "gnu_timeout"),
            "trans_only_gnup_timeout": count(lambda o, t: o != "gnu_timeout" and t == "gnu_timeout"),
            "both_unsat": count(lambda o, t: o == t == "unsat"),
            "both_sat": count(lambda o, t: o == "sat" and t in ("sat", "sat: no model")),
            "sat_no_model": count(lambda o, t: t == "sat: no model"),
            "both_timeout": count(lambda o, t: o == t == "timeout"),
            "orig_only_timeout": count(lambda o, t: o == "timeout" != t),
            "trans_only_timeout": count(lambda o, t: o != "timeout" == t),
            "orig_sat_trans_unsat": count(lambda o, t: o == "sat" and t == "unsat"),
            "orig_unsat_trans_sat": count(lambda o, t: o == "unsat" and t == "sat"),
        }
        for name, key in (("orig_%s_time", "orig_solver_time"), ("trans_%s_time", "trans_solver_time"),
                          ("convert_%s_time", "convert_time"), ("orig_%s_size", "orig_size"),
                          ("trans_%s_size", "trans_size"), ("map_%s_size", "map_size")):
            v = [r[key] for r in rows if r[key] is not None]
            mean = sum(v) / len(v) if v else None
            out[name % "avg"] = None if mean is None else float(mean)
            out[name % "stdev"] = (float((sum((x - mean) ** 2 for x in v) / (len(v) - 1)) ** 0.5)
                                   if len(v) > 1 else None)
        return out


PROPERTIES = [T12, T13]
