"""One worker process: runs the cases it is given against the sanitized build, with the monitors on.

argv: property, spec-file (JSON: cases [[family, index], ...], seed, tier), out-file, first position
Writes one JSON line per event to out-file: {"s": pos} before a case, {"e": pos, ...} after it.
"""
import hashlib
import importlib
import json
import os
import random
import resource
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Violation(Exception):
    pass


class Stop(Exception):
    """The case cannot go on after a violation that was recorded."""


class Skip(Exception):
    """The generated input is outside the property's domain."""


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # the representation of a broken object
        s = "<%s: %s>" % (type(x).__name__, e)
    return s if len(s) <= n else s[: n - 3] + "..."


class Mon:
    """Collects what the monitors of one case observed."""

    def __init__(self, tier):
        self.tier = tier
        self.reset()

    def reset(self):
        self.events = {}
        self.viol = []
        self.desc = None
        self.nontrivial = False
        self.marks = set()

    def case(self, desc, nontrivial=True):
        self.desc = desc
        self.nontrivial = nontrivial

    def note(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def mark(self, *what):
        """A distinct state or situation seen."""
        self.marks.add("|".join(map(str, what)))

    def bad(self, key, **detail):
        if len(self.viol) < 5:
            self.viol.append({"key": key, "detail": {k: short(v) for k, v in detail.items()}})

    def ok(self, cond, key, **detail):
        self.note("checks")
        self.note("m:" + key)
        if not cond:
            self.bad(key, **detail)
            return False
        return True

    def need(self, cond, key, **detail):
        if not self.ok(cond, key, **detail):
            raise Stop()

    def eq(self, got, want, key, **detail):
        return self.ok(got == want, key, got=got, want=want, **detail)

    def close(self, got, want, key, tol=1e-9, scale=None, **detail):
        """Numbers or nested sequences of numbers, within tol*max(1, scale or |want|)."""
        import numpy as np
        a, b = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if a.shape != b.shape:
            return self.ok(False, key, got_shape=a.shape, want_shape=b.shape, got=got, want=want, **detail)
        if a.size == 0:
            return self.ok(True, key)
        with np.errstate(all="ignore"):
            lim = tol * (max(1.0, float(np.nanmax(np.abs(b)))) if scale is None else scale)
            d = np.abs(a - b)
            good = (d <= lim) | (a == b) | (np.isnan(a) & np.isnan(b))
        if good.all():
            return self.ok(True, key)
        w = int(np.argmin(good.ravel()))
        return self.ok(False, key, at=w, got=float(a.ravel()[w]), want=float(b.ravel()[w]), lim=lim, **detail)

    def raises(self, fn, key, **detail):
        """The call must be refused with the library's exception."""
        import medcoupling as m
        try:
            r = fn()
        except m.InterpKernelException:
            return self.ok(True, key)
        except (TypeError, NotImplementedError, ValueError, OverflowError):
            return self.ok(True, key)
        return self.ok(False, key, returned=r, **detail)


def main():
    prop, spec, out, first = sys.argv[1], json.load(open(sys.argv[2])), sys.argv[3], int(sys.argv[4])
    cpu = spec.get("cpu", 0)
    mod = importlib.import_module("props." + prop)
    fams = {f.name: f for f in mod.FAMILIES}
    import medcoupling as m
    mon = Mon(spec["tier"])
    f = open(out, "a", buffering=1)
    if hasattr(mod, "setup"):
        mod.setup(m, spec)
    for pos in range(first, len(spec["cases"])):
        name, index = spec["cases"][pos]
        f.write(json.dumps({"s": pos}) + "\n")
        mon.reset()
        mon.index = index
        rng = random.Random(f"{prop}/{name}/{index}/{spec['seed']}")
        used = resource.getrusage(resource.RUSAGE_SELF)
        used = int(used.ru_utime + used.ru_stime)
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (used + cpu, resource.RLIM_INFINITY))
        inconclusive = None
        try:
            fams[name].fn(rng, mon, m)
        except (Stop, Violation):
            pass
        except Skip:
            mon.note("skipped")
            mon.nontrivial = False
        except (MemoryError, OSError) as e:
            inconclusive = repr(e)
        except m.InterpKernelException as e:
            mon.bad(f"{name}:unexpected-exception", what=str(e), where=traceback.format_exc(limit=-3)[-900:])
        except Exception as e:
            mon.bad(f"{name}:unexpected-{type(e).__name__}", what=str(e), where=traceback.format_exc(limit=-4)[-900:])
        h = hashlib.sha1(repr(mon.desc).encode()).hexdigest()[:12] if mon.desc is not None else f"{name}:{index}"
        f.write(json.dumps({"e": pos, "ev": mon.events, "v": mon.viol, "h": h, "nt": bool(mon.nontrivial),
                            "d": short(mon.desc, 300), "mk": sorted(mon.marks), "inc": inconclusive}) + "\n")
    if hasattr(mod, "teardown"):
        mod.teardown(m)
    f.write(json.dumps({"done": 1}) + "\n")
    f.close()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    # "import props.X" inside property modules must see this module's classes
    sys.modules["vt.worker"] = sys.modules["__main__"]
    main()
