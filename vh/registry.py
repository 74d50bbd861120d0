"""Property id -> check object."""


def get(pid):
    from . import eager
    mods = [eager]
    for name in ("updater", "prediction", "transformer", "experiments"):
        try:
            mods.append(__import__("vh." + name, fromlist=["x"]))
        except ModuleNotFoundError:
            pass
    for m in mods:
        c = getattr(m, pid, None)
        if c is not None:
            return c()
    raise SystemExit("unknown property " + pid)
