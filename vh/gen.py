"""Drawing helpers and the generation / shrinking engine.

Every random choice of a generator goes through D.i(lo, hi) and is recorded as its distance from lo.
A case is therefore a function of its list of choices: lists are drawn at random, varied from earlier
lists, and on a failure reduced (chunks deleted, choices lowered) while the case still fails."""
import random


class D:
    """A source of choices with shorthands.  With `given`, replays those choices (0 when they run out)."""

    def __init__(self, rng=None, given=None):
        self.rng = rng
        self.given = given
        self.at = 0
        self.choices = []

    def i(self, lo, hi, edges=True):
        if lo >= hi:
            return lo
        if self.given is not None and (self.at < len(self.given) or self.rng is None):
            v = min(self.given[self.at], hi - lo) if self.at < len(self.given) else 0
            self.at += 1
        elif edges and hi - lo >= 64 and self.rng.random() < 0.15:
            v = self.rng.choice([0, 1, 2, (hi - lo) // 2, hi - lo - 1, hi - lo])
        else:
            v = self.rng.randint(0, hi - lo)
        self.choices.append(v)
        return lo + v

    def flag(self, num=1, den=2):
        """True with probability num/den; shrinks towards False."""
        return self.i(0, den - 1, False) >= den - num

    def pick(self, seq):
        return seq[self.i(0, len(seq) - 1, False)]

    def weighted(self, pairs):
        """pairs of (weight, value); shrinks towards the first."""
        total = sum(w for w, _ in pairs)
        k = self.i(0, total - 1, False)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def shuffled(self, seq):
        l = list(seq)
        for i in range(len(l) - 1):
            j = self.i(i, len(l) - 1)
            l[i], l[j] = l[j], l[i]
        return l

    def many(self, lo, hi, f):
        return [f() for _ in range(self.i(lo, hi))]


class cases:
    """Turns fn(D) -> case into a strategy."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *_):
        return self

    def random(self, rng, pool):
        """(case, choices): fresh, or a variation of an earlier list of choices."""
        given = None
        if pool and rng.random() < 0.12:
            given = list(rng.choice(pool))
            for _ in range(rng.randint(1, 3)):
                if not given:
                    break
                k = rng.randrange(len(given))
                op = rng.random()
                if op < 0.4:
                    given[k] = rng.randint(0, max(1, 2 * given[k]))
                elif op < 0.7:  # repeat a stretch elsewhere
                    n = rng.randint(1, 8)
                    j = rng.randrange(len(given))
                    given[j:j] = given[k:k + n]
                elif op < 0.85:
                    n = rng.randint(1, 8)
                    j = rng.randrange(len(given))
                    given[j:j + n] = given[k:k + n]
                else:
                    del given[k:k + rng.randint(1, 4)]
        d = D(rng, given)
        return self.fn(d), d.choices

    def replay(self, choices):
        d = D(None, choices)
        return self.fn(d), d.choices


def shrink(strategy, choices, fails, expired):
    """Reduces a failing list of choices.  fails(case) -> bool."""
    best = list(choices)
    seen = set()

    def smaller(a, b):
        return (len(a), a) < (len(b), b)

    def attempt(cand):
        nonlocal best
        if expired():
            return False
        key = tuple(cand)
        if key in seen:
            return False
        seen.add(key)
        try:
            case, used = strategy.replay(cand)
        except Exception:
            return False
        if not smaller(used, best) or (tuple(used) in seen and tuple(used) != key):
            return False
        seen.add(tuple(used))
        if fails(case):
            best = list(used)
            return True
        return False

    progress = True
    while progress and not expired():
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1 and not expired():
            i = len(best) - size
            while i >= 0 and not expired():
                if attempt(best[:i] + best[i + size:]):
                    progress = True
                    i = min(i, len(best) - size)
                else:
                    i -= max(1, size // 2)
            size //= 2
        for size in (16, 4, 1):
            i = 0
            while i < len(best) and not expired():
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    progress = True
                i += size
        i = 0
        while i < len(best) and not expired():
            while i < len(best) and best[i] > 0 and (
                    attempt(best[:i] + [best[i] // 2] + best[i + 1:]) or
                    attempt(best[:i] + [best[i] - 1] + best[i + 1:])):
                progress = True
            # lowering a count together with deleting what it governed
            if i < len(best) and best[i] > 0:
                for n in (1, 2, 3, 5, 8):
                    if attempt(best[:i] + [best[i] - 1] + best[i + 1:][n:]):
                        progress = True
                        break
            i += 1
    return best
