"""Stereo positions: the mean midpoint of the refracted rays, the true point when they meet."""

import numpy as np

from vlib import gen, ref
from vlib.core import Family, Skip
from openptv_python.constants import COORD_UNUSED
from openptv_python.epi import epi_mm_2D
from openptv_python.imgcoord import flat_image_coord
from openptv_python.orientation import (
    dumbbell_target_func,
    point_position,
    point_positions,
    skew_midpoint,
    weighted_dumbbell_precision,
)
from openptv_python.parameters import ControlPar, VolumePar

PROPERTY = "C06"
RULE = (
    "two to six cameras around one tank (same wall or one each, one-layer media), points in the fluid, image points exact or off by up to "
    "a few percent of the field, random subsets of cameras unused. Non-trivial: a position whose best ray pair crosses at "
    "more than 0.08 rad; distinct by the image coordinates"
)
ASSUMPTIONS = ["every camera sees through a flat wall (positions are compared where the rays of some pair cross at more than 0.08 rad)"]


def rig(rng, n, mm):
    """n cameras behind one wall, or a wall each, all looking at about the same spot (within 30 of the axis is below all walls)."""
    g = np.array([0, 0, 1.0]) if rng.random() < 0.5 else gen.unit(rng)
    gd = gen.uni(rng, 10, 80)
    d = mm.d[0]
    target = -g * rng.uniform(0, 20)
    cals = []
    own = rng.random() < 0.3
    for _ in range(n):
        t = np.cross(g, gen.unit(rng))
        t /= max(np.linalg.norm(t), 1e-9)
        a = rng.uniform(0.05, 0.75)
        r = gen.logu(rng, 120, 700)
        b = rng.uniform(0, a) if own else 0.0
        gk, gdk = np.cos(b) * g + np.sin(b) * t, gd * np.cos(b) + 30 * np.sin(b)
        pos = target + (np.cos(a) * g + np.sin(a) * t) * ((gdk + d + 20) / np.cos(a - b) + r)
        R = gen.look_at(rng, pos, target)
        cc = gen.logu(rng, 8, 120)
        ip = [gen.uni(rng, -0.3, 0.3), gen.uni(rng, -0.3, 0.3), cc] if rng.random() < 0.5 else [0, 0, cc]
        cals.append(gen.set_cal(pos, R, ip, gk * gdk, [0, 0, 0, 0, 0, 1, 0]))
    return cals, g, gd, target


def ref_ray(x, y, cal, mm):
    d = cal.get_rotation_matrix() @ np.array([x, y, -cal.int_par.cc])
    d /= np.linalg.norm(d)
    t = ref.trace(cal.get_pos(), d, cal.get_glass_vec(), mm.d[0], mm.n1, mm.n2[0], mm.n3)
    if t is None:
        raise Skip()
    return t[0], t[1]


def world(rng, nmax=6):
    mm = gen.random_mm(rng)
    n = int(rng.integers(2, nmax + 1))
    cals, g, gd, target = rig(rng, n, mm)
    return mm, n, cals, g, gd, target


def a_point(rng, g, gd, target):
    p = target + gen.unit(rng) * rng.uniform(0, 25)
    h = p @ g - gd
    if h > -0.5:
        p = p - g * (h + 0.5)
    return p


def reference(used, flats, cals, mm):
    rays = {c: ref_ray(*flats[c], cals[c], mm) for c in used}
    dists, mids, best = [], [], 0.0
    worst = 1.0
    for a in range(len(used)):
        for b in range(a + 1, len(used)):
            o1, d1 = rays[used[a]]
            o2, d2 = rays[used[b]]
            s = np.linalg.norm(np.cross(d1, d2))
            best, worst = max(best, s), min(worst, s)
            if s < 0.02:
                raise Skip()
            q, m = ref.skew(o1, d1, o2, d2)
            dists.append(q)
            mids.append(m)
    return np.mean(dists), np.mean(mids, axis=0), best, worst


def position(ctx, rng, i):
    mm, n, cals, g, gd, target = world(rng)
    states = [gen.cal_state(c) for c in cals]
    npts = int(rng.integers(1, 7))
    targets = np.full((npts, n, 2), COORD_UNUSED, dtype=float)
    want = []
    exact = rng.random() < 0.5
    for k in range(npts):
        p = a_point(rng, g, gd, target)
        used = sorted(rng.choice(n, size=int(rng.integers(2, n + 1)), replace=False).tolist())
        flats = {}
        for c in used:
            x, y = flat_image_coord(p, cals[c], mm)
            if not exact:
                cc = cals[c].int_par.cc
                x, y = x + cc * 0.01 * rng.standard_normal(), y + cc * 0.01 * rng.standard_normal()
            flats[c] = (x, y)
            targets[k, c] = x, y
            if rng.random() < 0.1:  # a marker in y alone does not make a camera unused
                pass
        want.append((p, used, reference(used, flats, cals, mm), flats))
    targets = gen.form(rng, targets)
    given = targets.copy()
    vpar = VolumePar([-50, 50], [-50, -50], [50, 50], 0, 0, 0, 0, 0, 0)
    res, rcm = point_positions(targets, mm, cals, vpar)
    ctx.check(np.array_equal(targets, given), "position:mutated", "point_positions modified its targets")
    ctx.check([gen.cal_state(c) for c in cals] == states, "position:calibration", "point_positions modified a calibration")
    ctx.check(np.shape(res) == (npts, 3) and np.shape(rcm) == (npts,), "position:shape",
              lambda: f"{npts} points gave positions of shape {np.shape(res)} and measures of shape {np.shape(rcm)}")
    for k, (p, used, (d0, m0, best, worst), flats) in enumerate(want):
        tol = 1e-6 * (1 + np.abs(m0).max()) / worst**2
        data = dict(used=used, n=n, point=p)
        ctx.close(res[k], m0, tol, "position:mean", "position is the mean midpoint of all ray pairs", **data)
        ctx.close(rcm[k], d0, tol, "position:measure", "ray convergence is the mean distance of all ray pairs", **data)
        if exact:
            t2 = 2e-3 / worst
            ctx.close(res[k], p, t2, "position:truth", "position of exactly imaged point", **data)
            ctx.close(rcm[k], 0, t2, "position:meet", "rays of an exactly imaged point meet", **data)
            ctx.stat("truth_error", np.abs(res[k] - p).max())
            ctx.seen("true_points")
        # alone, the point gives the same; so do the used cameras alone, in any order
        dd, rr = point_position(targets[k], n, mm, cals)
        ctx.close(rr, res[k], 1e-9, "position:single", "point_position of the same targets")
        ctx.close(dd, rcm[k], 1e-9, "position:single", "convergence from point_position")
        order = rng.permutation(used)
        dd, rr = point_position(targets[k][order], len(order), mm, [cals[c] for c in order])
        ctx.close(rr, m0, tol, "position:order", "position with the used cameras in another order", order=order, **data)
        ctx.close(dd, d0, tol, "position:order", "convergence with the used cameras in another order", order=order, **data)
        # what an unused camera is does not matter
        idle = [c for c in range(n) if c not in used]
        if idle:
            other = list(cals)
            for c in idle:
                other[c] = gen.set_cal(rng.uniform(-500, 500, 3) + 0.0, gen.look_at(rng, np.array([0, 0, 300.0]), np.zeros(3)), [0, 0, 10.0], g * gd, [0, 0, 0, 0, 0, 1, 0])
            t2 = targets[k].copy()
            t2[idle, 1] = rng.uniform(-5, 5)
            dd, rr = point_position(t2, n, mm, other)
            ctx.close(rr, res[k], 1e-9, "position:unused", "position with other unused cameras", idle=idle)
            ctx.close(dd, rcm[k], 1e-9, "position:unused", "convergence with other unused cameras", idle=idle)
            ctx.seen("unused_cameras", len(idle))
        ctx.seen("positions")
        if best > 0.08:
            ctx.sig(targets[k])
        ctx.sample(cameras=n, used=used, point=p, position=res[k], convergence=rcm[k])


def units(ctx, rng, i):
    """Lengths in metres, inches or micrometres."""
    mm, n, cals, g, gd, target = world(rng, 4)
    p = a_point(rng, g, gd, target)
    flats = {}
    for c in range(n):
        x, y = flat_image_coord(p, cals[c], mm)
        flats[c] = x + cals[c].int_par.cc * 0.01 * rng.standard_normal(), y + cals[c].int_par.cc * 0.01 * rng.standard_normal()
    s = float(rng.choice([1e-3, 1e-2, 0.1, 1 / 25.4, 10.0, 1e3]))
    mm.d[0] *= s
    for c in cals:
        c.set_pos(c.get_pos() * s)
        c.set_glass_vec(c.get_glass_vec() * s)
    d0, m0, best, worst = reference(list(range(n)), flats, cals, mm)
    dd, rr = point_position(np.array([flats[c] for c in range(n)]), n, mm, cals)
    tol = 1e-6 * (s + np.abs(m0).max()) / worst**2
    ctx.close(rr, m0, tol, "units:mean", "position is the mean midpoint of all ray pairs", scale=s)
    ctx.close(dd, d0, tol, "units:measure", "ray convergence is the mean distance of all ray pairs", scale=s)
    ctx.seen("other_units")
    ctx.sig(m0, s)


def single(ctx, rng, i):
    mm, n, cals, g, gd, target = world(rng, 2)
    cal = gen.set_cal(cals[0].get_pos(), cals[0].get_rotation_matrix(), [0, 0, cals[0].int_par.cc], cals[0].get_glass_vec(), [0, 0, 0, 0, 0, 1, 0])
    if abs(g[2]) < 0.9:
        raise Skip()
    npts = int(rng.integers(1, 6))
    targets = np.zeros((npts, 1, 2))
    z0 = -rng.uniform(5, 20)
    vpar = VolumePar([-100, 100], [z0 - 5, z0 - 9], [z0 + 5, z0 - 1], 0, 0, 0, 0, 0, 0)
    for k in range(npts):
        targets[k, 0] = flat_image_coord(a_point(rng, g, gd, target), cal, mm)
    targets = gen.form(rng, targets)
    res, rcm = point_positions(targets, mm, [cal], vpar)
    ctx.check(np.shape(res) == (npts, 3), "single:shape", "a row for every point")
    ctx.close(rcm, np.zeros(npts), 0, "single:measure", "no convergence measure with one camera")
    for k in range(npts):
        ctx.close(res[k], epi_mm_2D(*targets[k, 0], cal, mm, vpar), 1e-9, "single:epi", "single camera position is that of epi_mm_2D")
        b, d = ref_ray(*targets[k, 0], cal, mm)
        s = np.linalg.norm(np.cross(res[k] - b, d))
        ctx.check(s < 1e-5 * (1 + np.linalg.norm(res[k] - b)), "single:ray", lambda: f"position is {s} off the ray")
        ctx.seen("single_positions")


def skew(ctx, rng, i):
    for _ in range(20):
        o1, o2 = rng.standard_normal(3) * gen.logu(rng, 0.1, 500), rng.standard_normal(3) * gen.logu(rng, 0.1, 500)
        d1, d2 = gen.unit(rng), gen.unit(rng)
        if rng.random() < 0.2:
            d1 = np.array([0, 0, -1.0])
        s = np.linalg.norm(np.cross(d1, d2))
        if s < 0.02:
            continue
        if rng.random() < 0.3:  # lines that meet
            m = rng.standard_normal(3) * 10
            o1, o2 = m - d1 * rng.uniform(-100, 100), m - d2 * rng.uniform(-100, 100)
        # the measure and the midpoint do not depend on the lengths of the directions
        l1, l2 = (gen.logu(rng, 0.1, 10), gen.logu(rng, 0.1, 10)) if rng.random() < 0.5 else (1.0, 1.0)
        q, m = ref.skew(o1, d1, o2, d2)
        keep = [o1.copy(), d1 * l1, o2.copy(), d2 * l2]
        args = [a.copy() for a in keep]
        dd, mm_ = skew_midpoint(*args)
        tol = 1e-9 * (1 + np.linalg.norm(o1) + np.linalg.norm(o2)) / s**2
        ctx.close(dd, q, tol, "skew:distance", "distance of two lines", o1=o1, d1=d1, o2=o2, d2=d2)
        ctx.close(mm_, m, tol, "skew:midpoint", "midpoint of two lines", o1=o1, d1=d1, o2=o2, d2=d2)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), "skew:mutated", "skew_midpoint modified its input")
        ctx.seen("line_pairs")


def dumbbell(ctx, rng, i):
    mm, n, cals, g, gd, target = world(rng, 4)
    pairs = int(rng.integers(1, 8))
    targets = np.zeros((2 * pairs, n, 2))
    L = gen.uni(rng, 2, 30)
    pos, dist = [], []
    for k in range(2 * pairs):
        flats = {}
        p = a_point(rng, g, gd, target)
        noise = rng.choice([0, 0.005])
        for c in range(n):
            x, y = flat_image_coord(p, cals[c], mm)
            x, y = x + cals[c].int_par.cc * noise * rng.standard_normal(), y + cals[c].int_par.cc * noise * rng.standard_normal()
            flats[c] = x, y
            targets[k, c] = x, y
        d, m, best, worst = reference(list(range(n)), flats, cals, mm)
        if worst < 0.05:
            raise Skip()
        pos.append(m)
        dist.append(d)
    err = []
    for k in range(pairs):
        q = np.linalg.norm(pos[2 * k] - pos[2 * k + 1])
        err.append(1 - min(q, L) / max(q, L))
    w = gen.uni(rng, 0, 5)
    want = np.mean(dist) + w * np.mean(err)
    targets = gen.form(rng, targets)
    got = weighted_dumbbell_precision(targets, mm, cals, L, w)
    ctx.close(got, want, 1e-4 * (1 + want), "dumbbell:value", "dumbbell precision: mean convergence plus weighted mean relative length error", pairs=pairs, weight=w)
    cpar = gen.random_cpar(rng, mm, n)
    ctx.close(dumbbell_target_func(targets, cpar, cals, L, w), got, 1e-12, "dumbbell:target", "dumbbell_target_func")
    ctx.seen("dumbbells", pairs)
    ctx.sig(targets)


def warm(ctx):
    rng = np.random.default_rng(5)
    for fn in (position, dumbbell, skew):
        try:
            fn(ctx, rng, 0)
        except Exception:
            pass


FAMILIES = [
    Family("position", position, 2500, 50000),
    Family("units", units, 400, 10000),
    Family("single", single, 400, 8000),
    Family("skew", skew, 400, 10000),
    Family("dumbbell", dumbbell, 400, 8000),
]
MONITORS = {"positions": 3000, "true_points": 1000, "unused_cameras": 1000, "single_positions": 100, "line_pairs": 3000, "dumbbells": 500, "other_units": 200}
