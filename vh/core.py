"""Shared machinery: build the repository's programs, run generated cases in worker processes,
shrink failures, write replay files and evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
# sources at another place get a target directory of their own: cargo would take one for the other
BUILD = os.path.join(VERIF, ".build") if REPO == "/repo" else os.path.join(REPO, "target", "vh")
WORKERS = int(os.environ.get("VH_WORKERS", "8"))
QUICK_LIMIT = 240           # seconds after which workers stop generating
THOROUGH_LIMIT = 3 * 3600
CASE_TIMEOUT = 60  # seconds for one run of a program under test: a watchdog, never an oracle

CRATES = {
    "eager": "amzn-smt-eager-arithmetic",
    "transformer": "amzn-smt-string-transformer",
    "updater": "amzn-smt-string-fct-updater",
    "prediction": "amzn-smt-prediction",
}


class Violation(Exception):
    """The property is broken on this case."""


class Inconclusive(Exception):
    """Nothing can be said about this case (watchdog, oracle gave up)."""


class Discard(Exception):
    """The case lies outside the property's domain."""


class BuildError(Exception):
    pass


# ---------------------------------------------------------------- build

def build(bins):
    """Builds the named programs from REPO's working tree; returns nothing, see exe()."""
    os.makedirs(BUILD, exist_ok=True)
    procs = []
    if "fakesat" in bins:
        src = os.path.join(VERIF, "tools", "fakesat.cpp")
        dst = os.path.join(BUILD, "fakesat")
        if not os.path.exists(dst) or os.path.getmtime(dst) < os.path.getmtime(src):
            procs.append(("fakesat", subprocess.Popen(
                ["g++", "-O2", "-o", dst + ".tmp", src],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    crates = [CRATES[b] for b in bins if b in CRATES]
    if crates:
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", lock)
        env = dict(os.environ)
        env.update({
            "CARGO_NET_OFFLINE": "true",
            "CARGO_PROFILE_RELEASE_OPT_LEVEL": "1",
            "CARGO_PROFILE_RELEASE_LTO": "off",
            "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "16",
            "CARGO_PROFILE_RELEASE_DEBUG": "false",
            "CARGO_TERM_COLOR": "never",
        })
        for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        cmd = ["cargo", "build", "--release", "--offline",
               "--manifest-path", os.path.join(REPO, "Cargo.toml"),
               "--target-dir", os.path.join(BUILD, "target"), "--bins"]
        for c in crates:
            cmd += ["-p", c]
        procs.append(("cargo", subprocess.Popen(
            cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=REPO)))
    for name, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError("%s failed:\n%s" % (name, out.decode(errors="replace")[-4000:]))
        if name == "fakesat":
            os.rename(os.path.join(BUILD, "fakesat.tmp"), os.path.join(BUILD, "fakesat"))


def exe(name):
    if name == "fakesat":
        return os.path.join(BUILD, "fakesat")
    return os.path.join(BUILD, "target", "release", CRATES[name])


# ---------------------------------------------------------------- running programs

BASE_ENV = {
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
    "HOME": os.environ.get("HOME", "/"),
    "RUST_BACKTRACE": "0",
    "LC_ALL": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
}


class Run:
    __slots__ = ("rc", "out", "err")

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def crashed(self):
        """Died from a panic or a signal (as opposed to a reported error)."""
        return self.rc == 101 or self.rc < 0 or self.rc >= 128

    def brief(self):
        return "exit %d; stdout %r; stderr %r" % (self.rc, self.out[-600:], self.err[-600:])


def run(argv, cwd=None, env=None, stdin=b"", timeout=CASE_TIMEOUT):
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    try:
        p = subprocess.run(argv, cwd=cwd, env=e, input=stdin, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("watchdog: %s" % argv[0])
    return Run(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))


_scratch = None
_runroot = None


def runroot():
    """Scratch directory of this run; made by the parent, which removes it."""
    global _runroot
    if _runroot is None:
        root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _runroot = (os.getpid(), tempfile.mkdtemp(prefix="vh-", dir=root))
    return _runroot[1]


def drop_runroot():
    global _runroot
    if _runroot is not None and _runroot[0] == os.getpid():
        shutil.rmtree(_runroot[1], ignore_errors=True)
        _runroot = None


def scratch():
    """This process's scratch directory."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix="w-", dir=runroot()))
    return _scratch[1]


def clear_scratch():
    d = scratch()
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


def drop_scratch():
    global _scratch
    if _scratch is not None and _scratch[0] == os.getpid():
        shutil.rmtree(_scratch[1], ignore_errors=True)
        _scratch = None


def write(name, text):
    p = os.path.join(scratch(), name)
    mode = "wb" if isinstance(text, bytes) else "w"
    with open(p, mode, **({} if mode == "wb" else {"encoding": "utf-8", "newline": ""})) as f:
        f.write(text)
    return p


def write_at(path, text):
    mode = "wb" if isinstance(text, bytes) else "w"
    with open(path, mode, **({} if mode == "wb" else {"encoding": "utf-8", "newline": ""})) as f:
        f.write(text)
    return path


# ---------------------------------------------------------------- properties

class Outcome:
    """What a judged case amounted to."""
    __slots__ = ("nontrivial", "tags")

    def __init__(self, nontrivial=True, tags=()):
        self.nontrivial = bool(nontrivial)
        self.tags = tuple(tags)


class Property:
    """id, rule, bins; strategy() -> gen.cases of JSON-able cases; judge(case)."""
    id = None
    bins = ()
    rule = ""
    quick = 800       # generated cases, all workers together
    thorough = 20000
    level = "exploration"
    assumptions = ()
    fixed = ()        # cases that always run first
    known = ()        # [(signature text, case)] recorded findings, run explicitly
    replay_runs = 25

    def strategy(self):
        raise NotImplementedError

    def judge(self, case):
        raise NotImplementedError

    def show(self, case):
        return case


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def clip(v, n=1500):
    s = json.dumps(v, sort_keys=True, ensure_ascii=False)
    return v if len(s) <= n else s[:n] + "..."


class Tally:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.discarded = 0
        self.duplicates = 0
        self.inconclusive = 0
        self.inconclusive_why = {}
        self.tags = {}
        self.samples = []


def judge_counted(prop, case, tally):
    """Runs judge, does the counting; lets Violation through."""
    tally.evaluations += 1
    clear_scratch()
    try:
        o = prop.judge(case)
    except Discard:
        tally.discarded += 1
        return
    except Inconclusive as e:
        tally.inconclusive += 1
        k = str(e)[:120]
        tally.inconclusive_why[k] = tally.inconclusive_why.get(k, 0) + 1
        return
    for t in o.tags:
        tally.tags[t] = tally.tags.get(t, 0) + 1
    if o.nontrivial:
        k = case_key(case)
        if k not in tally.nontrivial:
            tally.nontrivial.add(k)
            n = len(tally.nontrivial)
            if n <= 2 or (n & (n - 1)) == 0 and n <= 64:
                tally.samples.append(clip(prop.show(case)))


def worker(prop, wid, seed, count, limit, queue):
    from .gen import shrink
    import random
    sys.setrecursionlimit(20000)
    tally = Tally()
    result = {"wid": wid, "error": None, "violation": None}
    start = time.time()
    try:
        strategy = prop.strategy()
        rng = random.Random("%s %d %d" % (prop.id, seed, wid))
        seen, pool = set(), []
        attempts = 0
        while len(seen) < count and attempts < 3 * count and time.time() - start < limit:
            attempts += 1
            try:
                case, choices = strategy.random(rng, pool)
            except Discard:
                tally.discarded += 1
                continue
            key = case_key(case)
            if key in seen:
                tally.duplicates += 1
                continue
            seen.add(key)
            before = len(tally.nontrivial)
            try:
                judge_counted(prop, case, tally)
            except Violation as v:
                best = [case, str(v)]
                end = time.time() + 60

                def fails(c):
                    try:
                        judge_counted(prop, c, Tally())
                    except Violation as w:
                        best[:] = [c, str(w)]
                        return True
                    return False

                shrink(strategy, choices, fails, lambda: time.time() > end)
                result["violation"] = tuple(best)
                break
            if len(tally.nontrivial) > before:
                if len(pool) < 200:
                    pool.append(choices)
                else:
                    pool[rng.randrange(200)] = choices
    except BaseException:
        result["error"] = traceback.format_exc()[-3000:]
    finally:
        drop_scratch()
    result["tally"] = tally
    queue.put(result)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def write_replay(prop, case, msg):
    d = os.path.join(VERIF, "replays", prop.id)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, case_key(case) + ".json")
    with open(p, "w") as f:
        json.dump({"property": prop.id, "case": case, "message": msg}, f, indent=1, sort_keys=True, ensure_ascii=False)
        f.write("\n")
    return os.path.relpath(p, VERIF)


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    build(prop.bins)
    for _ in range(prop.replay_runs):
        t = Tally()
        try:
            judge_counted(prop, d["case"], t)
        except Violation as v:
            print(v)
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            drop_scratch()
            return 1
        if t.inconclusive:
            print("inconclusive:", t.inconclusive_why)
    drop_scratch()
    print("replay passes")
    return 0


def check(prop, tier, seed):
    t0 = time.time()
    build(prop.bins)
    t_build = time.time() - t0
    tally = Tally()
    violations = []
    # 1. recorded findings: re-run, announce, never alarm
    for k in load_known():
        if k["property"] != prop.id or k.get("status") != "open":
            continue
        still = False
        for case in k["cases"]:
            for _ in range(prop.replay_runs if k.get("nondeterministic") else 1):
                try:
                    judge_counted(prop, case, Tally())
                except Violation:
                    still = True
                    break
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
        else:
            print("note: recorded finding no longer reproduces: property=%s %s" % (prop.id, k["what"]))
    # 2. fixed cases
    nfixed = 0
    for case in prop.fixed:
        nfixed += 1
        try:
            judge_counted(prop, case, tally)
        except Violation as v:
            violations.append((case, str(v)))
            break
    drop_scratch()
    # 3. generated cases
    total = prop.quick if tier == "quick" else prop.thorough
    errors = []
    if not violations:
        ctx = mp.get_context("fork")
        q = ctx.Queue()
        procs = []
        per = max(1, total // WORKERS)
        limit = QUICK_LIMIT if tier == "quick" else THOROUGH_LIMIT
        for w in range(WORKERS):
            p = ctx.Process(target=worker, args=(prop, w, seed, per, limit, q))
            p.start()
            procs.append(p)
        got = 0
        budget = limit + 240
        deadline = time.time() + budget
        while got < len(procs) and time.time() < deadline:
            try:
                r = q.get(timeout=1.0)
            except Exception:
                if all(not p.is_alive() for p in procs) and q.empty():
                    break
                continue
            got += 1
            if r["error"]:
                errors.append(r["error"])
            if r["violation"]:
                violations.append(r["violation"])
                # one shrunk failure decides; leave the others a little time to finish
                deadline = min(deadline, time.time() + 20)
            t = r["tally"]
            tally.evaluations += t.evaluations
            tally.nontrivial |= t.nontrivial
            tally.discarded += t.discarded
            tally.duplicates += t.duplicates
            tally.inconclusive += t.inconclusive
            for k, v in t.inconclusive_why.items():
                tally.inconclusive_why[k] = tally.inconclusive_why.get(k, 0) + v
            for k, v in t.tags.items():
                tally.tags[k] = tally.tags.get(k, 0) + v
            tally.samples += t.samples[:2]
        if got < len(procs) and not violations:
            errors.append("%d of %d workers did not finish" % (len(procs) - got, len(procs)))
        for p in procs:
            if p.is_alive():
                p.terminate()
        for p in procs:
            p.join(5)
            if p.is_alive():
                p.kill()
    wall = time.time() - t0
    ev = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": tally.evaluations,
            "distinct_nontrivial": len(tally.nontrivial),
            "rule": prop.rule,
            "samples": tally.samples[:12],
            "fixed_cases": nfixed,
            "discarded": tally.discarded,
            "duplicates_skipped": tally.duplicates,
            "inconclusive": tally.inconclusive,
            "inconclusive_reasons": tally.inconclusive_why,
            "distribution": dict(sorted(tally.tags.items())),
            "build_s": round(t_build, 1),
        },
        "assumptions": list(prop.assumptions),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %d inconclusive, %.1fs (build %.1fs)" % (
        prop.id, tier, seed, tally.evaluations, len(tally.nontrivial), tally.discarded,
        tally.inconclusive, wall, t_build))
    if tally.tags:
        print("  distribution:", ", ".join("%s=%d" % kv for kv in sorted(tally.tags.items())))
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v[0])))
        case, msg = violations[0]
        path = write_replay(prop, case, msg)
        print(msg[:3000])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    for e in errors:
        print("ERROR:", e)
    if errors:
        return 2
    if tally.inconclusive * 10 > max(tally.evaluations, 1):
        print("ERROR: too many inconclusive cases:", tally.inconclusive_why)
        return 2
    if len(tally.nontrivial) == 0:
        print("ERROR: no non-trivial case was explored")
        return 2
    return 0


def main(argv):
    from . import registry
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--count", type=int)
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    prop = registry.get(a.id)
    runroot()
    if a.count:
        prop.quick = prop.thorough = a.count
    try:
        if a.replay:
            return replay(prop, a.replay)
        return check(prop, a.tier, a.seed)
    except BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    finally:
        drop_scratch()
        drop_runroot()
