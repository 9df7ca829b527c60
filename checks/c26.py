"""Records compare, sort, copy and reset whole; vector helpers are exact."""

import numpy as np

from openptv_python import constants as k
from openptv_python import vec_utils as vu
from openptv_python.epi import Coord2d_dtype, sort_coord2d_x, sort_coord2d_y
from openptv_python.track import Foundpix_dtype, copy_foundpix_array, reset_foundpix_array
from openptv_python.tracking_frame_buf import (
    Corres_dtype,
    Pathinfo,
    Target,
    compare_corres,
    compare_path_info,
    compare_targets,
    n_tupel_dtype,
    quicksort_n_tupel,
    sort_target_y,
)

from vlib.core import Family

PROPERTY = "C26"
RULE = (
    "vectors of any magnitude (with zeros, equal, parallel and nearly equal ones, in views and slices) against extended precision; records equal or differing in one "
    "field, by as little as the field can; arrays of 0 to 200 records with ties, negative and huge keys. Distinct by input"
)
ASSUMPTIONS = ["finite numbers between 1e-100 and 1e100", "the order of records with equal keys is free"]


def number(rng):
    how = int(rng.integers(6))
    if how == 0:
        return float(rng.integers(-3, 4))
    if how == 1:
        return 0.0
    if how == 2:
        return float(rng.normal() * 10.0 ** rng.integers(-60, 60))
    if how == 3:
        return float(np.round(rng.normal() * 100, 1))
    return float(rng.normal() * 10.0 ** rng.integers(-6, 7))


def vector(rng):
    """Three numbers, where they lie in memory varies."""
    v = np.array([number(rng) for _ in range(3)])
    how = int(rng.integers(4))
    if how == 1:
        return np.stack([v, v + 1], axis=1)[:, 0]
    if how == 2:
        return np.concatenate([v + 1, v])[3:]
    if how == 3:
        return v[::-1].copy()[::-1]
    return v


def vectors(ctx, rng, i):
    a, b = vector(rng), vector(rng)
    how = int(rng.integers(5))
    if how == 0:
        b = a.copy()
    elif how == 1:
        b = a * number(rng)
    elif how == 2:
        b = a + rng.normal(size=3) * 1e-8 * np.abs(a)
    with np.errstate(all="ignore"):
        if not all(np.all((x == 0) | ((np.abs(x) > 1e-100) & (np.abs(x) < 1e100))) for x in (a, b)):
            ctx.seen("out of range")
            return
    s = number(rng)
    a0, b0 = a.copy(), b.copy()
    A, B = a.astype(np.longdouble), b.astype(np.longdouble)
    eps = 4e-16

    def same(got, want, scale, name):
        got, want = np.asarray(got, dtype=np.longdouble), np.asarray(want, dtype=np.longdouble)
        ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= 4 * eps * np.asarray(scale, dtype=np.longdouble) + 1e-290)), name,
                  lambda: f"{name} of {a0.tolist()}, {b0.tolist()}, {s}: {got}, should be {want}")
        ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), name, lambda: f"{name} changes its argument")
        ctx.seen(name)

    def fresh(v, *args):
        ctx.check(not any(np.shares_memory(v, x) for x in args), "fresh", "a result shares memory with an argument")
        ctx.seen("fresh")

    n = np.sqrt((A * A).sum())
    same(vu.vec_norm(a), n, n, "vec_norm")
    same(vu.norm(*map(float, a)), n, n, "norm")
    v = vu.vec_set(*map(float, a))
    same(v, A, 0 * A, "vec_set")
    v = vu.vec_copy(a)
    fresh(v, a)
    same(v, A, 0 * A, "vec_copy")
    v = vu.vec_subt(a, b)
    fresh(v, a, b)
    same(v, A - B, np.abs(A - B), "vec_subt")
    v = vu.vec_add(a, b)
    fresh(v, a, b)
    same(v, A + B, np.abs(A + B), "vec_add")
    v = vu.vec_scalar_mul(a, s)
    fresh(v, a)
    same(v, A * np.longdouble(s), np.abs(A * np.longdouble(s)), "vec_scalar_mul")
    d = np.sqrt(((A - B) ** 2).sum())
    same(vu.vec_diff_norm(a, b), d, d, "vec_diff_norm")
    same(vu.vec_dot(a, b), (A * B).sum(), np.abs(A * B).sum(), "vec_dot")
    cross = np.array([A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]])
    mags = np.abs([A[1] * B[2], A[2] * B[0], A[0] * B[1]]) + np.abs([A[2] * B[1], A[0] * B[2], A[1] * B[0]])
    v = vu.vec_cross(a, b)
    fresh(v, a, b)
    same(v, cross, mags, "vec_cross")
    c = np.ascontiguousarray(a)
    v = vu.unit_vector(c)
    same(v, A / n if n else A, np.ones(3), "unit_vector")
    tol = float(10.0 ** rng.integers(-9, 3))
    D = np.abs(A - B)
    got = vu.vec_cmp(a, b, tol)
    if np.all(D <= tol * (1 - 1e-12)):
        ctx.check(bool(got), "vec_cmp", lambda: f"{a0}, {b0} are equal to {tol}")
        ctx.seen("compared equal")
    elif np.any(D > (tol + 2e-5 * np.maximum(np.abs(A), np.abs(B)))):
        ctx.check(not bool(got), "vec_cmp", lambda: f"{a0}, {b0} are not equal to {tol}")
        ctx.seen("compared different")
    m = int(rng.integers(0, 6))
    same(vu.vec_init(m), np.zeros(m), np.zeros(m), "vec_init")
    v = vu.vec_init(3)
    v += 1
    same(vu.vec_init(3), np.zeros(3), np.zeros(3), "vec_init")
    ctx.sig(a0, b0, s)


def near_of(rng, x):
    """Another value of the same kind, often the next one."""
    if isinstance(x, float):
        return float(rng.choice([np.nextafter(x, np.inf), np.nextafter(x, -np.inf), x + 1, -x if x else 1.0]))
    return int(x) + int(rng.choice([-1, 1, 1000]))


def a_target(rng):
    return dict(pnr=int(rng.integers(-999, 5000)), x=float(rng.uniform(-5, 4000)), y=float(rng.uniform(-5, 4000)), n=int(rng.integers(0, 3000)),
                nx=int(rng.integers(0, 100)), ny=int(rng.integers(0, 100)), sumg=int(rng.integers(0, 2**31)), tnr=int(rng.integers(-1, 5000)))


def values(t):
    return {f: getattr(t, f) for f in ("pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr")}


def targets(ctx, rng, i):
    """A target compares by all its fields; setters and getters touch theirs."""
    d = Target()
    ctx.check(d.pnr == k.PT_UNUSED and d.tnr == -1 and (d.x, d.y, d.n, d.nx, d.ny, d.sumg) == (0, 0, 0, 0, 0, 0), "target", lambda: f"a new target is {d}")
    w = a_target(rng)
    t, u = Target(**w), Target(**w)
    ctx.check(t == u and compare_targets(t, u) and not t != u, "target", lambda: f"{t} and the same are different")
    for f in w:
        v = dict(w)
        v[f] = near_of(rng, w[f])
        o = Target(**v)
        ctx.check(not (t == o) and not compare_targets(t, o) and not compare_targets(o, t) and t != o, "target", lambda: f"{t} equals {o}")
        ctx.seen("target fields")
    # setters
    n = a_target(rng)
    for _ in range(6):
        how = int(rng.integers(4))
        if how == 0:
            pos = (n["x"], n["y"])
            t.set_pos(pos if rng.random() < 0.5 else list(pos))
            w["x"], w["y"] = pos
        elif how == 1:
            t.set_pnr(n["pnr"])
            w["pnr"] = n["pnr"]
        elif how == 2:
            t.set_pixel_counts(n["n"], n["nx"], n["ny"])
            w.update(n=n["n"], nx=n["nx"], ny=n["ny"])
        else:
            t.set_sum_grey_value(n["sumg"])
            w["sumg"] = n["sumg"]
        ctx.check(values(t) == w, "setters", lambda: f"{t}, should be {w}")
        ctx.check(tuple(t.pos()) == (w["x"], w["y"]) and tuple(t.count_pixels()) == (w["n"], w["nx"], w["ny"]) and t.sum_grey_value() == w["sumg"], "getters",
                  lambda: f"getters of {t}: {t.pos()}, {t.count_pixels()}, {t.sum_grey_value()}")
        ctx.seen("target accesses")
        n = a_target(rng)
    ctx.check(values(Target()) == values(d), "target", "a new target is not as the ones before")
    ctx.sig(sorted(w.items()))


def a_path(rng):
    p = Pathinfo(x=rng.normal(size=3), prev_frame=int(rng.integers(-1, 50)), next_frame=int(rng.integers(-2, 50)), prio=int(rng.integers(0, 5)), finaldecis=float(rng.normal()))
    for _ in range(int(rng.choice([0, 1, 5, k.POSI]))):
        p.register_link_candidate(float(rng.normal()), int(rng.integers(0, 1000)))
    return p


def clone(p):
    return Pathinfo(x=np.array(p.x), prev_frame=p.prev_frame, next_frame=p.next_frame, prio=p.prio, decis=list(p.decis), finaldecis=p.finaldecis, linkdecis=list(p.linkdecis), inlist=p.inlist)


def state(p):
    return (tuple(map(float, p.x)), p.prev_frame, p.next_frame, p.prio, tuple(p.decis), p.finaldecis, tuple(p.linkdecis), p.inlist)


def paths(ctx, rng, i):
    """Path records: comparison, candidates in order, reset."""
    d = Pathinfo()
    new = ((0.0, 0.0, 0.0), k.PREV_NONE, k.NEXT_NONE, k.PRIO_DEFAULT, (0.0,) * k.POSI, 0.0, (0,) * k.POSI, 0)
    ctx.check(state(d) == new, "path", lambda: f"a new path record is {d}")
    p = a_path(rng)
    q = clone(p)
    ctx.check(p == q and compare_path_info(p, q), "path", lambda: f"{p} and the same are different")
    for f in ("x", "prev_frame", "next_frame", "prio", "decis", "finaldecis", "linkdecis", "inlist"):
        q = clone(p)
        if f == "x":
            j = int(rng.integers(3))
            q.x[j] = near_of(rng, float(q.x[j]))
        elif f in ("decis", "linkdecis"):
            j = int(rng.integers(k.POSI))
            getattr(q, f)[j] = near_of(rng, getattr(q, f)[j])
        else:
            setattr(q, f, near_of(rng, getattr(q, f)))
        ctx.check(not (p == q) and p != q and not compare_path_info(p, q) and not compare_path_info(q, p), "path", lambda: f"records that differ in {f} are equal")
        ctx.seen("path fields")
    ctx.check(p != 3 and p != Target() and p is not None and p != None, "path", "a path record equals something else")  # noqa: E711
    # candidates
    p = Pathinfo()
    want = []
    for _ in range(int(rng.integers(1, k.POSI + 1))):
        c = (float(rng.normal()), int(rng.integers(0, 10**6)))
        p.register_link_candidate(*c)
        want.append(c)
        ctx.check(p.inlist == len(want) and list(zip(p.decis, p.linkdecis))[: len(want)] == want, "candidates", lambda: f"{p.inlist} candidates {list(zip(p.decis, p.linkdecis))[: p.inlist]}, should be {want}")
        ctx.check(all(v == 0 for v in p.decis[len(want):]) and all(v == 0 for v in p.linkdecis[len(want):]), "candidates", "places that are not used are not empty")
        ctx.seen("candidates")
    p.prev_frame, p.next_frame, p.prio, p.x = 4, 5, 0, np.array([1.0, 2.0, 3.0])
    before = state(p)
    p.reset_links()
    ctx.check((p.prev_frame, p.next_frame, p.prio) == (k.PREV_NONE, k.NEXT_NONE, k.PRIO_DEFAULT), "reset", lambda: f"links after a reset: {p.prev_frame, p.next_frame, p.prio}")
    after = state(p)
    ctx.check((after[0], *after[4:]) == (before[0], *before[4:]), "reset", "resetting the links changes something else")
    q = Pathinfo()
    q.x += 1.5
    q.x[0] = -3.0
    q.decis[3] = 9.0
    q.linkdecis[4] = 9
    q.decis.append(1.0)
    ctx.check(state(p) == after, "path", "changing one path record changes another")
    ctx.check(state(Pathinfo()) == new, "path", "a new path record is not as the ones before")
    ctx.seen("resets")
    ctx.sig(before)


def corres(ctx, rng, i):
    """Correspondence records."""
    m = int(rng.choice([1, 2, 7, 100]))
    a = np.recarray((m,), dtype=Corres_dtype)
    a.nr = rng.integers(0, 1000, m)
    a.p = rng.integers(-1, 100, (m, 4))
    b = a.copy()
    ctx.check(bool(compare_corres(a, b)), "corres", "equal correspondences are different")
    ctx.check(bool(compare_corres(a[0], b[0])), "corres", "equal correspondences are different")
    r = int(rng.integers(m))
    for j in range(-1, 4):
        c = a.copy()
        if j < 0:
            c.nr[r] += int(rng.choice([-1, 1]))
        else:
            c.p[r, j] += int(rng.choice([-1, 1]))
        ctx.check(not compare_corres(a, c) and not compare_corres(c, a), "corres", lambda: f"correspondences that differ in field {j} of record {r} of {m} are equal")
        ctx.check(not compare_corres(a[r], c[r]), "corres", lambda: f"correspondences that differ in field {j} are equal")
        ctx.seen("correspondence fields")
    ctx.sig(np.array(a.p))


def keys(rng, m):
    how = int(rng.integers(6))
    if how == 5:  # differing in the last digits only
        b = rng.normal() * 100
        v = b + rng.permutation(m) * np.spacing(b) * int(rng.integers(1, 50))
    elif how == 0:
        v = rng.normal(size=m) * 100
    elif how == 1:
        v = rng.integers(-2, 3, m).astype(float)
    elif how == 2:
        v = np.zeros(m)
    elif how == 3:
        v = np.sort(rng.normal(size=m))[:: int(rng.choice([-1, 1]))]
    else:
        v = rng.normal(size=m) * 10.0 ** rng.integers(-12, 13, m)
        v[rng.random(m) < 0.2] = k.COORD_UNUSED
    return v


def sorts(ctx, rng, i):
    """Sorted: in order of the key, the same records, whole."""
    m = int(rng.choice([0, 1, 2, 3, 16, 17, 50, 200]))
    a = np.recarray((m,), dtype=n_tupel_dtype) if rng.random() < 0.5 else np.zeros(m, dtype=n_tupel_dtype)
    a["p"] = rng.integers(-1, 10000, (m, 4))
    a["corr"] = keys(rng, m)
    before = sorted((*r["p"].tolist(), float(r["corr"])) for r in a)
    ids = id(a)
    out = quicksort_n_tupel(a)
    for s in (out, a):
        ctx.check(len(s) == m and bool(np.all(np.diff(s["corr"]) >= 0)), "sort", lambda: f"not in order: {s['corr']}")
        ctx.check(sorted((*r["p"].tolist(), float(r["corr"])) for r in s) == before, "sort", "sorting changes the records")
    ctx.check(id(a) == ids, "sort", "")
    ctx.seen("sorted matches")
    for key, fn in (("x", sort_coord2d_x), ("y", sort_coord2d_y)):
        c = np.recarray((m,), dtype=Coord2d_dtype) if rng.random() < 0.5 else np.zeros(m, dtype=Coord2d_dtype)
        c["pnr"] = rng.permutation(m) if m else 0
        c["x"], c["y"] = keys(rng, m), keys(rng, m)
        before = c.copy()
        rows = sorted((int(r["pnr"]), float(r["x"]), float(r["y"])) for r in c)
        out = fn(c)
        ctx.check(len(out) == m and bool(np.all(np.diff(out[key]) >= 0)), "sort", lambda: f"not in order of {key}: {out[key]}")
        ctx.check(sorted((int(r["pnr"]), float(r["x"]), float(r["y"])) for r in out) == rows, "sort", "sorting changes the records")
        ctx.check(c.tobytes() == before.tobytes(), "sort", "sorting changes its argument")
        ctx.seen("sorted coordinates")
    ts = [Target(**a_target(rng)) for _ in range(m)]
    for t, y in zip(ts, keys(rng, m)):
        t.y = float(y)
    before = [(id(t), tuple(values(t).values())) for t in ts]
    out = sort_target_y(ts)
    ctx.check(all(p.y <= q.y for p, q in zip(out, out[1:])), "sort", lambda: f"targets not in order: {[t.y for t in out]}")
    ctx.check(sorted(tuple(values(t).values()) for t in out) == sorted(v for _, v in before), "sort", "sorting changes the targets")
    ctx.check([(id(t), tuple(values(t).values())) for t in ts] == before, "sort", "sorting changes the list it is given")
    ctx.seen("sorted targets")
    ctx.sig(m, before)


def found(ctx, rng, i):
    """Candidate records: the part asked for is copied or reset, the rest stays."""
    size = int(rng.integers(1, 18))
    cams = int(rng.integers(1, 5))

    def table():
        t = np.recarray((size,), dtype=Foundpix_dtype)
        t.ftnr = rng.integers(-1, 50, size)
        t.freq = rng.integers(0, 5, size)
        t.whichcam = rng.integers(0, 2, (size, k.TR_MAX_CAMS))
        return t

    src, dest = table(), table()
    s0, d0 = src.copy(), dest.copy()
    m = int(rng.integers(0, size + 1))
    copy_foundpix_array(dest, src, m, cams)
    ctx.check(src.tobytes() == s0.tobytes(), "copy", "copying changes the source")
    for f in ("ftnr", "freq"):
        ctx.check(np.array_equal(dest[f][:m], s0[f][:m]) and np.array_equal(dest[f][m:], d0[f][m:]), "copy", lambda: f"{f} after copying {m} of {size}: {dest[f]} from {s0[f]}, was {d0[f]}")
    ctx.check(np.array_equal(dest.whichcam[:m, :cams], s0.whichcam[:m, :cams]) and np.array_equal(dest.whichcam[m:], d0.whichcam[m:]) and np.array_equal(dest.whichcam[:, cams:], d0.whichcam[:, cams:]),
              "copy", lambda: f"cameras after copying {m} of {size} records of {cams} cameras")
    src.ftnr += 1
    ctx.check(np.array_equal(dest.ftnr[:m], s0.ftnr[:m]), "copy", "the copy changes with the source")
    ctx.seen("copies")
    a = table() if rng.random() < 0.5 else np.array(table(), dtype=Foundpix_dtype)
    a0 = a.copy()
    reset_foundpix_array(a, m, cams)
    ctx.check(bool(np.all(a["ftnr"][:m] == k.TR_UNUSED) and np.all(a["freq"][:m] == 0) and np.all(a["whichcam"][:m, :cams] == 0)), "reset", lambda: f"{m} of {size} records reset: {a}")
    ctx.check(a[m:].tobytes() == a0[m:].tobytes() and np.array_equal(a["whichcam"][:, cams:], a0["whichcam"][:, cams:]), "reset", "records beyond those to be reset change")
    ctx.seen("resets of tables")
    ctx.sig(s0.tobytes(), d0.tobytes())


FAMILIES = [Family("vectors", vectors, 4000, 200000), Family("targets", targets, 1500, 60000), Family("paths", paths, 800, 20000), Family("corres", corres, 800, 30000), Family("sorts", sorts, 1200, 40000), Family("found", found, 1500, 60000)]
MONITORS = {"vec_norm": 2000, "compared equal": 300, "compared different": 1000, "target fields": 8000, "target accesses": 5000, "path fields": 4000, "candidates": 10000, "resets": 500,
            "correspondence fields": 3000, "sorted matches": 1000, "sorted coordinates": 2000, "sorted targets": 1000, "copies": 1000, "resets of tables": 1000, "fresh": 10000}
