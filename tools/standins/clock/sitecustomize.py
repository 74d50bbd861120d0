"""Loaded into the scripts under test: a program hangs when it says so (file VH_HANG), and time runs by what
the stand-in solvers say they take (seconds in the file VH_CLOCK).  No case waits or depends on the machine's speed."""
import os
import subprocess
import time

HANG = os.environ.get("VH_HANG", "")
CLOCK = os.environ.get("VH_CLOCK", "")
real_communicate, real_wait = subprocess.Popen.communicate, subprocess.Popen.wait
inside = []


def clock():
    try:
        with open(CLOCK) as f:
            return float(f.read() or 0)
    except OSError:
        return 0.0


def shifted(real):
    return lambda: real() + clock()


def cut(self, result, started, timeout):
    """A program that says it took longer than it was given has been ended at that time.  Programs print
    nothing in their first second."""
    if CLOCK and clock() - started > timeout:
        with open(CLOCK, "w") as f:
            f.write(repr(started + timeout))
        out = result[0]
        out = out.encode() if isinstance(out, str) else out
        raise subprocess.TimeoutExpired(self.args, timeout, output=(out if timeout >= 1 else None) or None)
    return result


def hangs():
    if HANG and os.path.exists(HANG):
        os.unlink(HANG)
        return True
    return False


def communicate(self, input=None, timeout=None):
    if timeout is None:
        return real_communicate(self, input)
    inside.append(1)
    try:
        started = clock()
        last = False
        while True:
            try:
                result = real_communicate(self, input, timeout=0.05)
                return cut(self, result, started, timeout)
            except subprocess.TimeoutExpired as e:
                if self.returncode is not None:
                    raise
                if last:
                    raise subprocess.TimeoutExpired(self.args, timeout, output=e.output, stderr=e.stderr) from None
            input = None
            last = hangs()
    finally:
        inside.pop()


def wait(self, timeout=None):
    if timeout is None or inside:
        return real_wait(self, timeout)
    while True:
        try:
            return real_wait(self, timeout=0.05)
        except subprocess.TimeoutExpired:
            if hangs():
                raise subprocess.TimeoutExpired(self.args, timeout) from None


subprocess.Popen.communicate, subprocess.Popen.wait = communicate, wait
if CLOCK:
    for name in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(time, name, shifted(getattr(time, name)))
