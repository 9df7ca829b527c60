"""Epipolar geometry and the candidate search along epipolar lines."""

import numpy as np

from vlib import gen, scene
from vlib.core import Family, Skip
from openptv_python.constants import MAXCAND
from openptv_python.epi import Coord2d_dtype, epi_mm, epi_mm_2D, epipolar_curve
from openptv_python.find_candidate import find_candidate, find_start_point, find_start_point_binary, quality_ratio
from openptv_python.imgcoord import flat_image_coord
from openptv_python.parameters import VolumePar
from openptv_python.tracking_frame_buf import Target
from openptv_python.trafo import dist_to_flat, flat_to_dist, metric_to_pixel, pixel_to_metric

PROPERTY = "C08"
RULE = (
    "two cameras behind a wall, level and sloping volumes, image points all over the sensor; x-sorted target lists of 0 to 20000 "
    "with repeated x, sizes and brightnesses from 0 up, lines of every slope including vertical, horizontal and points. Non-trivial: "
    "a line that was judged, or a search with candidates; distinct by the line and the candidates"
)
ASSUMPTIONS = ["targets within 1e-9 of a threshold are left out of the comparison lists"]


def lines(ctx, rng, i):
    mm = gen.random_mm(rng)
    cals, g, gd, target = scene.rig(rng, 2, mm, tilted_wall=rng.random() < 0.3)
    cpar = scene.sensor(rng, cals, mm, target)
    x0 = target[0] - rng.uniform(10, 60)
    x1 = target[0] + rng.uniform(10, 60)
    za, zb = target[2] - rng.uniform(5, 25, 2)
    zc, zd = target[2] + rng.uniform(1, 9, 2)
    if rng.random() < 0.5:
        zb, zd = za, zc
    vpar = VolumePar([x0, x1], [za, zb], [zc, zd], 0, 0, 0, 0, 0, 0)
    if rng.random() < 0.3:  # layers from right to left are the same volume
        vpar = VolumePar([x1, x0], [zb, za], [zd, zc], 0, 0, 0, 0, 0, 0)
    c1, c2 = cals
    states = [gen.cal_state(c) for c in cals]
    for _ in range(4):
        x, y = rng.uniform(-0.5, 0.5) * cpar.imx * cpar.pix_x, rng.uniform(-0.5, 0.5) * cpar.imy * cpar.pix_y
        if rng.random() < 0.1:
            x = y = 0.0
        t = scene.ref_flat_ray(x, y, c1, mm)
        if t is None or abs(t[1][2]) < 0.1:
            continue
        o, d = t
        zlo = za + (o[0] - x0) * (zb - za) / (x1 - x0)
        zhi = zc + (o[0] - x0) * (zd - zc) / (x1 - x0)
        pa = o + d * (zlo - o[2]) / d[2]
        pb = o + d * (zhi - o[2]) / d[2]
        if max(pa @ g, pb @ g) > gd - 0.5:
            continue
        wa, wb = scene.ref_flat(pa, c2, mm), scene.ref_flat(pb, c2, mm)
        if wa is None or wb is None:
            continue
        tol = 4e-3 * c2.int_par.cc / min(np.linalg.norm(c2.get_pos() - pa), np.linalg.norm(c2.get_pos() - pb))
        got = epi_mm(x, y, c1, c2, mm, vpar)
        ctx.close(got, [*wa, *wb], tol, "line:ends", "ends of the epipolar line: images of the ray at the depths of the volume", point=(x, y), z=(zlo, zhi))
        mid = epi_mm_2D(x, y, c1, mm, vpar)
        z = 0.5 * (zlo + zhi)
        ctx.close(mid, o + d * (z - o[2]) / d[2], 1e-5 * (1 + np.abs(mid).max()), "line:middle", "position at mid depth")
        # every point of the curve, in pixels
        px, py = metric_to_pixel(*flat_to_dist(x, y, c1), cpar)
        n = int(rng.integers(2, 9))
        vp2 = VolumePar([x0, x1], [za, za], [zc, zc], 0, 0, 0, 0, 0, 0)
        back = dist_to_flat(*pixel_to_metric(px, py, cpar), c1, 1e-10)
        t2 = scene.ref_flat_ray(*back, c1, mm)
        pts = epipolar_curve([px, py], c1, c2, n, cpar, vp2)
        ctx.check(np.shape(pts) == (n, 2), "curve:shape", lambda: f"{n} points asked for, {np.shape(pts)} returned")
        for k, zk in enumerate(np.linspace(za, zc, n)):
            p = t2[0] + t2[1] * (zk - t2[0][2]) / t2[1][2]
            if p @ g > gd - 0.5:
                continue
            w = scene.ref_flat(p, c2, mm)
            if w is None:
                continue
            w = metric_to_pixel(*flat_to_dist(*w, c2), cpar)
            # correct_brown_affine stops at 1e-5 of the radius
            slack = (2 * tol + 1e-4 * c2.int_par.cc * 0.3) / cpar.pix_x
            ctx.close(pts[k], w, slack, "curve:points", "point of the epipolar curve", k=k, z=zk)
        ctx.seen("curves")
        ctx.seen("lines")
        ctx.sig(np.array(got))
        # a particle seen in both images lies on its line (straight when there is one medium)
        p = o + d * (rng.uniform(min(zlo, zhi), max(zlo, zhi)) - o[2]) / d[2]
        if mm.n1 == mm.n2[0] == mm.n3:
            q = np.array(flat_image_coord(p, c2, mm))
            a, b = np.array(got[:2]), np.array(got[2:])
            L = np.linalg.norm(b - a)
            off = abs((b - a)[0] * (q - a)[1] - (b - a)[1] * (q - a)[0]) / max(L, 1e-12) if L > 10 * tol else 0.0
            ctx.check(off <= 3 * tol, "line:contains", lambda: f"image of a particle is {off} off its epipolar line", point=(x, y))
            along = (q - a) @ (b - a) / max(L, 1e-12)
            ctx.check(-3 * tol <= along <= L + 3 * tol, "line:between", lambda: f"image of a particle lies {along} along a line of {L}")
            ctx.seen("particles_on_lines")
    ctx.check([gen.cal_state(c) for c in cals] == states, "line:mutated", "a calibration was modified")


def ratio(a, b):
    return 0.0 if a == 0 and b == 0 else min(a, b) / max(a, b)


def search(ctx, rng, i):
    big = i % 40 == 7
    n = int(rng.choice([0, 1, 2, 3, 5, 13, 24, 50, 100, 300])) if not big else int(rng.choice([1500, 6000, 8191, 9000, 12000]))
    mm = gen.random_mm(rng)
    from openptv_python.calibration import Calibration

    cal = Calibration()
    xh = yh = k1 = 0.0
    if rng.random() < 0.6:
        xh, yh = rng.uniform(-1.5, 1.5, 2)
    if rng.random() < 0.2:
        k1 = float(rng.uniform(-3e-4, 3e-4))
    cal.set_primary_point(np.array([xh, yh, 50.0]))
    cal.set_added_par(np.array([k1, 0, 0, 0, 0, 1, 0.0]))
    # a sensor of 10 x 8 mm, with square pixels or others
    imx, imy = (int(v) for v in rng.choice([400, 800, 1000, 1600], 2))
    cpar = gen.random_cpar(rng, mm, 2, imx=imx, imy=imy, pix=0.01)
    cpar.pix_x, cpar.pix_y = 10.0 / imx, 8.0 / imy
    eps = gen.logu(rng, 0.005, 0.5)
    cn, cnx, cny, cs = (float(rng.choice([0.0, 0.02, 0.3, 0.7, 1.0])) for _ in range(4))
    if cs == 1.0:
        cs = 0.99
    vpar = VolumePar([-1, 1], [-1, -1], [1, 1], cn, cnx, cny, cs, eps, 0)
    W, H = 5.0, 4.0
    x = rng.uniform(-W, W, n) - xh
    y = rng.uniform(-H, H, n) - yh
    if rng.random() < 0.3 and n:
        x = np.round(x, 1)
    # the line
    k = int(rng.integers(8))
    xa, ya, xb, yb = rng.uniform(-W, W), rng.uniform(-H, H), rng.uniform(-W, W), rng.uniform(-H, H)
    if k == 0:
        xb = xa
    elif k == 1:
        yb = ya
    elif k == 2:
        xb, yb = xa, ya
    elif k == 3:
        xb = xa + 1e-7 * rng.standard_normal()
    elif k == 4:
        xa, xb = -W * 3, W * 3
    elif k == 6:  # beyond or along an edge of the sensor
        if rng.random() < 0.5:
            e = float(rng.choice([-1, 1])) * W - xh
            xa, xb = e + rng.uniform(-1, 1) * eps * 3, e + rng.uniform(-1, 1) * eps * 3
        else:
            e = float(rng.choice([-1, 1])) * H - yh
            ya, yb = e + rng.uniform(-1, 1) * eps * 3, e + rng.uniform(-1, 1) * eps * 3
    elif k == 5 and n:
        xa = x.min() + rng.choice([-0.5, 0.5]) * eps
    # targets along the line
    for j in range(n):
        if rng.random() < 0.4:
            t = rng.uniform(-0.2, 1.2)
            s = rng.choice([-1, 1]) * rng.choice([0.2, 0.6, 0.95, 1.05, 1.5]) * eps
            L = max(np.hypot(xb - xa, yb - ya), 1e-9)
            x[j] = xa + t * (xb - xa) - s * (yb - ya) / L
            y[j] = ya + t * (yb - ya) + s * (xb - xa) / L
    o = np.argsort(x, kind="stable")
    x, y = x[o], y[o]
    pnr = rng.permutation(n)
    crd = np.recarray(n, dtype=Coord2d_dtype)
    crd.x, crd.y, crd.pnr = x, y, pnr
    pix = [Target(pnr=q, x=0.0, y=0.0, n=int(rng.integers(0, 60)), nx=int(rng.integers(1, 9)), ny=int(rng.integers(0, 9)), sumg=int(rng.integers(0, 6000)), tnr=-1) for q in range(n)]
    num = n if rng.random() < 0.7 else int(rng.integers(0, n + 1))
    f = (int(rng.integers(0, 60)), int(rng.integers(1, 9)), int(rng.integers(0, 9)), int(rng.integers(1, 6000)))
    # the reference
    x0, x1, y0, y1 = min(xa, xb), max(xa, xb), min(ya, yb), max(ya, yb)
    dx, dy = xb - xa, yb - ya
    steep = dx == 0
    if steep:
        dx = 1e-10
    L = np.hypot(dx, dy)
    want, unsure = [], False
    m9 = 1e-7 * (1 + eps) if abs(dx) < 1e-5 else 1e-9
    for j in range(num):
        gaps = [x[j] - (x0 - eps), (x1 + eps) - x[j], y[j] - (y0 - eps), (y1 + eps) - y[j]]
        d = abs((y[j] - ya) * dx - (x[j] - xa) * dy) / L
        gaps.append(eps - d)
        if any(abs(q) < m9 for q in gaps) and all(q > -m9 for q in gaps):
            unsure = True
            break
        if any(q < 0 for q in gaps):
            continue
        p = pix[pnr[j]]
        r = [ratio(f[0], p.n), ratio(f[1], p.nx), ratio(f[2], p.ny), ratio(f[3], p.sumg)]
        th = [cn, cnx, cny, cs]
        if r[0] < th[0] or r[1] < th[1] or r[2] < th[2] or r[3] <= th[3]:
            continue
        want.append((j, d, (4 * r[3] + 2 * r[0] + r[1] + r[2]) * (f[3] + p.sumg)))
    if unsure:
        raise Skip()
    clipped = len(want) > MAXCAND
    want = want[:MAXCAND]
    before = (crd.tobytes(), [(p.pnr, p.n, p.nx, p.ny, p.sumg, p.tnr) for p in pix])
    got = find_candidate(crd, pix, num, xa, ya, xb, yb, f[0], f[1], f[2], f[3], vpar, cpar, cal)
    ctx.check((crd.tobytes(), [(p.pnr, p.n, p.nx, p.ny, p.sumg, p.tnr) for p in pix]) == before, "search:mutated", "the search changed the targets")
    data = dict(n=n, num=num, line=(xa, ya, xb, yb), eps0=eps, thresholds=(cn, cnx, cny, cs))
    margin = 0.02 + 600 * abs(k1)
    if x1 <= -W - xh + margin or x0 >= W - xh - margin or y1 <= -H - yh + margin or y0 >= H - yh - margin:
        if x1 <= -W - xh - margin or x0 >= W - xh + margin or y1 <= -H - yh - margin or y0 >= H - yh + margin:
            ctx.check(len(got) == 0, "search:off", lambda: f"a line off the sensor has {len(got)} candidates", principal=(xh, yh), k1=k1, **data)
            ctx.seen("off_sensor")
            return
        if len(got) == 0:  # at the edge of the sensor, to the tolerance of its distortion
            return
    gi = [int(c.pnr) for c in got] if len(got) else []
    ctx.check(gi == [w[0] for w in want], "search:candidates", lambda: f"candidates {gi[:20]}, brute force finds {[w[0] for w in want][:20]}", **data)
    if want:
        ctx.close([c.tol for c in got], [w[1] for w in want], 1e-6 * (1 + eps), "search:distance", "distances from the line", **data)
        c = np.array([w[2] for w in want])
        ctx.close([c_.corr for c_ in got], c, 1e-9 * (1 + np.abs(c).max()), "search:score", "scores", **data)
        ctx.sig(np.array([xa, ya, xb, yb]), gi)
    ctx.seen("searches")
    ctx.seen("candidates", len(want))
    ctx.seen("clipped", clipped)
    ctx.seen("long_lists", n > 8000)
    ctx.sample(n=n, candidates=gi[:10], line=(xa, ya, xb, yb))


def start(ctx, rng, i):
    n = int(rng.choice([0, 1, 2, 3, 4, 5, 7, 12, 25, 26, 51, 100, 1000, 5000, 8190, 8191, 8192, 10000, 16383, 20479])) if rng.random() < 0.6 else int(rng.integers(0, 20480))
    x = np.sort(rng.uniform(-5, 5, n))
    if rng.random() < 0.3:
        x = np.round(x, 1)
    crd = np.recarray(n, dtype=Coord2d_dtype)
    crd.x = x
    for _ in range(30):
        eps = gen.logu(rng, 1e-3, 0.5)
        xa = rng.uniform(-6, 6)
        if n and rng.random() < 0.5:
            xa = x[rng.choice([0, 1, n // 3, n // 2, n - 1]) % n] + rng.choice([0, 0.5, -0.5]) * eps
        vpar = VolumePar([-1, 1], [-1, -1], [1, 1], 0, 0, 0, 0, eps, 0)
        num = n if rng.random() < 0.8 else int(rng.integers(0, n + 1))
        s = int(find_start_point(crd, num, xa, vpar))
        first = int(np.searchsorted(x[:num], xa - eps + 1e-12, side="left"))
        ctx.check(0 <= s <= max(first, 0), "start:skips", lambda: f"search starts at {s}, but target {first} of {num} is in the window", n=n, xa=xa, eps=eps)
        ctx.check(s <= num, "start:beyond", lambda: f"search starts at {s} of {num}")
        ctx.check(int(find_start_point_binary(np.ascontiguousarray(x), num, xa, eps)) <= max(first, 0), "start:skips", "search starts late")
        ctx.seen("starts")
    for _ in range(20):
        a, b = float(rng.integers(0, 5000)), float(rng.integers(0, 5000))
        if rng.random() < 0.2:
            a = 0.0
        ctx.close(quality_ratio(a, b), ratio(a, b), 1e-15, "start:ratio", "ratio of the smaller to the larger", a=a, b=b)
        ctx.seen("ratios")


def warm(ctx):
    rng = np.random.default_rng(5)
    for fn in (lines, search, start):
        try:
            fn(ctx, rng, 0)
        except Exception:
            pass


FAMILIES = [Family("lines", lines, 900, 20000), Family("search", search, 2500, 50000), Family("start", start, 500, 10000)]
MONITORS = {"lines": 800, "curves": 800, "particles_on_lines": 50, "searches": 1000, "candidates": 1500, "clipped": 10, "off_sensor": 20, "long_lists": 5, "starts": 5000}
