"""Watches calls into the code under test: arguments left alone, same answer again, results that stay.

Only the calls made by the oracles are watched (not those inside the code): the names the oracles imported are replaced by
watching ones, in their own modules.
"""

import copy
import inspect
import time
import types

import numpy as np

# what a function is documented to change: (module, function) -> arguments it may change
OUTPUTS = {}
# what it is documented to change only when another argument says so: (module, function, argument) -> the argument that says so
OUTPUTS_IF = {}


def name_of_io(name):
    """Functions whose answer hangs on files."""
    return name.startswith(("read_", "write_")) or "file" in name


class TooBig(Exception):
    pass


def digest(x, seen=None, budget=None):
    """All values of an object, as nested tuples (floats by their bits)."""
    budget = budget if budget is not None else [20000]
    budget[0] -= 1
    if budget[0] < 0:
        raise TooBig
    if isinstance(x, np.ndarray):
        if x.size > 4_000_000:
            raise TooBig
        if x.dtype.hasobject:
            return ("objs", tuple(digest(v, seen, budget) for v in x.ravel().tolist()))
        return ("array", x.dtype.str if not x.dtype.names else str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return ("scalar", x.dtype.str, x.tobytes())
    if x is None or isinstance(x, (bool, int, str, bytes, complex)):
        return x
    if isinstance(x, float):
        return ("f", np.float64(x).tobytes())
    if isinstance(x, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType, type)):
        return ("code", getattr(x, "__name__", ""))
    seen = seen or set()
    if id(x) in seen:
        return "cycle"
    seen = seen | {id(x)}
    if isinstance(x, (list, tuple)) or type(x).__name__ == "deque":
        return (type(x).__name__, tuple(digest(v, seen, budget) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple((digest(k, seen, budget), digest(v, seen, budget)) for k, v in x.items()))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, tuple((k, digest(v, seen, budget)) for k, v in sorted(vars(x).items()) if not k.startswith("_")))
    return ("other", repr(x))


def near(a, b, rtol=1e-9):
    """Two results are the same up to rounding."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.names:
            return a.dtype == b.dtype and all(near(a[n], b[n], rtol) for n in a.dtype.names)
        if a.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-12 + rtol * np.maximum(np.abs(a), np.abs(b)))))
        return bool(np.all(a == b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return near(np.float64(a)[None], np.float64(b)[None], rtol)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(p, q, rtol) for p, q in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(near(a[k], b[k], rtol) for k in a)
    if hasattr(a, "__dict__") and type(a) is type(b) and not isinstance(a, type):
        return near(vars(a), vars(b), rtol)
    return digest(a) == digest(b)


def alter(x, rng):
    """Change a value inside an object, in place. False if there is nothing to change."""
    name = type(x).__name__
    if name == "Calibration":
        x.set_pos(np.asarray(x.get_pos(), dtype=float) + rng.uniform(-0.5, 0.5, 3))
        return True
    if name == "MultimediaPar":
        x.n3 = x.n3 * 1.002
        return True
    if name == "VolumePar" and len(x.z_min_lay):
        x.z_min_lay = [v - 0.5 for v in x.z_min_lay]
        return True
    if name == "ControlPar":
        x.pix_x = x.pix_x * 1.01
        return True
    if name == "Target":
        x.x, x.y = x.x + 0.25, x.y + 0.5
        return True
    if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.size and x.flags.writeable:
        x *= 1.001
        return True
    if isinstance(x, list) and x and not isinstance(x[0], (int, float, str)):
        return alter(x[int(rng.integers(len(x)))], rng)
    return False


class Watch:
    """The monitor. ``problems`` are (key, message)."""

    def __init__(self):
        self.depth = 0
        self.problems = []
        self.counts = {}
        self.held = []  # results that must stay: (name, result, digest)
        self.later = []  # calls to be made again: (name, fn, args, kwargs, result)
        self.rng = np.random.default_rng(0)
        self.spent = 0.0
        self.names = set()
        self.wrapped = {}

    def start(self, rng):
        """A new case."""
        self.problems, self.held, self.later, self.rng, self.spent, self.depth = [], [], [], rng, 0.0, 0

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def wrap(self, fn):
        """A watching version of a function."""
        mod = getattr(fn, "__module__", "") or ""
        name = getattr(fn, "__name__", str(fn))
        key = (mod.split(".")[-1], name)
        if key in self.wrapped:
            return self.wrapped[key]
        try:
            sig = inspect.signature(getattr(fn, "py_func", fn))
        except (TypeError, ValueError):
            return fn
        allowed = OUTPUTS.get(key, ())

        def watching(*args, **kwargs):
            if self.depth or self.spent > 20:
                return fn(*args, **kwargs)
            self.depth += 1
            try:
                return self.call(fn, key, sig, allowed, args, kwargs)
            finally:
                self.depth -= 1

        watching.__name__ = name
        watching.__wrapped_by_watch__ = True
        if hasattr(fn, "py_func"):
            watching.py_func = fn.py_func
        self.wrapped[key] = watching
        return watching

    def call(self, fn, key, sig, allowed, args, kwargs):
        t0 = time.process_time()
        label = ".".join(key)
        try:
            bound = sig.bind(*args, **kwargs).arguments
            before = {k: digest(v) for k, v in bound.items()}
            again = not allowed and self.rng.random() < 0.25
            kept = copy.deepcopy((args, kwargs)) if again else None
        except TooBig:
            self.count("too big")
            return fn(*args, **kwargs)
        except Exception:
            self.count("not copied")
            kept = None
            again = False
            before = {}
            bound = {}
        self.spent += time.process_time() - t0
        raised = None
        t1 = time.process_time()
        try:
            out = fn(*args, **kwargs)
        except Exception as e:
            raised = e
        took = time.process_time() - t1
        t0 = time.process_time()
        try:
            for k, v in bound.items():
                if k in allowed:
                    continue
                if (*key, k) in OUTPUTS_IF and bound.get(OUTPUTS_IF[(*key, k)]):
                    continue
                if any(v is bound[o] or (isinstance(v, np.ndarray) and isinstance(bound[o], np.ndarray) and np.may_share_memory(v, bound[o]))
                       for o in allowed if o in bound):
                    continue  # the caller has the result put into it
                if digest(v) != before[k]:
                    self.problems.append((f"changed:{label}:{k}", f"{label} changes its argument '{k}'"))
            self.count("calls")
            self.names.add(label)
            if raised is None:
                d = digest(out)
                # a result that the code keeps for itself changes with a later call
                if self.plain(out) and not self.aliases(out, bound) and len(self.held) < 60 and self.rng.random() < 0.5:
                    self.held.append((label, out, d))
                if again and took < 0.5:
                    self.count("repeated at once")
                    two = fn(*kept[0], **kept[1])
                    if not near(out, two):
                        self.problems.append((f"repeat:{label}", f"{label} gives something else when called again with the same arguments"))
                    if not name_of_io(key[1]) and self.rng.random() < 0.5:
                        self.altered(fn, label, kept, copy.deepcopy(kept) if len(self.later) < 12 else None)
                        kept = self.kept
                    if len(self.later) < 12 and not name_of_io(key[1]) and kept is not None:
                        a2 = copy.deepcopy(kept)
                        self.later.append((label, fn, a2, copy.deepcopy(out)))
        except TooBig:
            self.count("too big")
        except Exception as e:
            self.problems.append((f"repeat:{label}", f"{label} raises {type(e).__name__} ({e}) when called again with the same arguments"))
        self.spent += time.process_time() - t0
        if raised is not None:
            raise raised
        return out

    def altered(self, fn, label, kept, spare):
        """The same objects with other values in them: the answer must follow the values, not the objects."""
        self.kept = spare
        places = [*kept[0], *kept[1].values()]
        self.rng.shuffle(places)
        if not any(alter(v, self.rng) for v in places):
            return
        other = copy.deepcopy(kept)
        got = []
        for a in (kept, other):
            try:
                got.append(fn(*a[0], **a[1]))
            except Exception as e:
                got.append(("raised", type(e).__name__))
        self.count("altered")
        if not near(*got):
            self.problems.append((f"stale:{label}", f"{label} does not follow a change of the object it is given"))

    @staticmethod
    def plain(out):
        """Numbers in arrays, and nothing that is there to be changed."""
        if isinstance(out, (list, tuple)):
            return len(out) < 50 and all(Watch.plain(v) for v in out)
        return isinstance(out, (float, int, np.generic)) or (isinstance(out, np.ndarray) and not out.dtype.names)

    @staticmethod
    def aliases(out, bound):
        """Does the result contain (part of) an argument?"""
        arrays, ids = [], set()

        def walk(x, depth=0):
            if depth > 6:
                return
            if isinstance(x, np.ndarray):
                arrays.append(x)
            elif isinstance(x, (list, tuple, dict)) or hasattr(x, "__dict__"):
                ids.add(id(x))
                vals = x.values() if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else vars(x).values()
                for v in list(vals)[:200]:
                    walk(v, depth + 1)

        walk(list(bound.values()))
        mine = list(arrays), set(ids)
        arrays.clear()
        ids.clear()
        walk(out)
        if not arrays and not isinstance(out, (list, dict)) and not hasattr(out, "__dict__"):
            return True  # nothing that could change
        return any(np.may_share_memory(a, b) for a in arrays for b in mine[0]) or bool(ids & mine[1])

    def finish(self):
        """End of a case: results still as they were, calls give the same again."""
        for label, out, d in self.held:
            try:
                self.count("results held")
                if digest(out) != d:
                    self.problems.append((f"result:{label}", f"what {label} returned was changed later"))
            except TooBig:
                pass
        for label, fn, (args, kwargs), out in self.later:
            self.count("repeated later")
            try:
                two = fn(*args, **kwargs)
                if not near(out, two):
                    self.problems.append((f"later:{label}", f"{label} gives something else when called again after other calls"))
            except Exception as e:
                self.problems.append((f"later:{label}", f"{label} raises {type(e).__name__} ({e}) when called again after other calls"))
        self.held, self.later = [], []
        return self.problems

    def instrument(self, mod):
        """Replace the names a module of oracles imported from the code under test."""
        for k, v in list(vars(mod).items()):
            if self.is_target(v):
                setattr(mod, k, self.wrap(v))
            elif isinstance(v, types.ModuleType) and v.__name__.startswith("openptv_python"):
                setattr(mod, k, Proxy(self, v))

    @staticmethod
    def is_target(v):
        return (getattr(v, "__module__", "") or "").startswith("openptv_python") and callable(v) and not isinstance(v, type) and hasattr(v, "__name__")


class Proxy:
    """A module seen through the monitor."""

    def __init__(self, watch, mod):
        self.__dict__["_w"], self.__dict__["_m"] = watch, mod

    def __getattr__(self, k):
        v = getattr(self._m, k)
        return self._w.wrap(v) if self._w.is_target(v) else v

    def __setattr__(self, k, v):
        setattr(self._m, k, v)
