"""Sensor coordinate conversions and lens distortion are exact, mutually inverse maps."""

import numpy as np

from vlib import gen, ref
from vlib.core import Family, Skip
from openptv_python.calibration import Calibration
from openptv_python.parameters import ControlPar
from openptv_python.trafo import (
    arr_metric_to_pixel,
    arr_pixel_to_metric,
    correct_brown_affine,
    dist_to_flat,
    distort_brown_affine,
    fast_arr_metric_to_pixel,
    flat_to_dist,
    metric_to_pixel,
    pixel_to_metric,
)

PROPERTY = "C03"
RULE = (
    "random sensors (odd, even and non-square sizes, unequal pixel pitch), pixels inside, on the border of and outside "
    "the sensor; distortions moving a point by up to 5 percent within the field, with scaling and shear. Non-trivial: "
    "distorted points off the principal point; distinct by parameter and point bytes"
)
ASSUMPTIONS = ["distortion moves points of the field by at most about 5 percent, x-scale within 0.9..1.1, |shear| <= 0.05"]


def cpar_for(rng):
    return ControlPar(imx=int(gen.CONSTS.near_int(rng, 1, 5000) if rng.random() < 0.1 else rng.integers(1, 5000)),
                      imy=int(rng.integers(1, 5000)), pix_x=gen.logu(rng, 1e-3, 0.2), pix_y=gen.logu(rng, 1e-3, 0.2))


def pixels(ctx, rng, i):
    cp = cpar_for(rng)
    n = int(rng.choice([0, 1, 2, 5, 30]))
    pts = np.column_stack([rng.uniform(-0.5, 1.5, n) * cp.imx, rng.uniform(-0.5, 1.5, n) * cp.imy]).reshape(n, 2)
    for k in range(n):
        if rng.random() < 0.3:
            pts[k] = [rng.choice([0, cp.imx / 2, cp.imx, cp.imx - 1]), rng.choice([0, cp.imy / 2, cp.imy, cp.imy - 1])]
    met = np.zeros_like(pts)
    for k in range(n):
        x, y = float(pts[k, 0]), float(pts[k, 1])
        m = pixel_to_metric(x, y, cp)
        want = ((x - cp.imx / 2) * cp.pix_x, (cp.imy / 2 - y) * cp.pix_y)
        ctx.close(m, want, 1e-9 * (1 + np.abs(want).max()), "pixel:metric", "metric coordinates of a pixel", cpar=repr(cp), pixel=[x, y])
        b = metric_to_pixel(m[0], m[1], cp)
        ctx.close(b, (x, y), 1e-8 * (1 + abs(x) + abs(y)), "pixel:inverse", "pixel -> metric -> pixel", cpar=repr(cp))
        met[k] = want
    met = gen.form(rng, met)
    keep = met.copy()
    a = arr_metric_to_pixel(met, cp)
    ctx.close(a, pts, 1e-8 * (1 + cp.imx + cp.imy), "pixel:array", "metric array -> pixels")
    ctx.close(fast_arr_metric_to_pixel(met, cp.imx, cp.imy, cp.pix_x, cp.pix_y), pts, 1e-8 * (1 + cp.imx + cp.imy),
              "pixel:array", "metric array -> pixels")
    ip = gen.form(rng, np.round(pts).astype(np.int32))
    ikeep = ip.copy()
    b = arr_pixel_to_metric(ip, cp.imx, cp.imy, cp.pix_x, cp.pix_y)
    for k in range(n):
        ctx.close(b[k], pixel_to_metric(int(ip[k, 0]), int(ip[k, 1]), cp), 1e-9 * (1 + np.abs(b[k]).max()), "pixel:array2", "pixel array -> metric")
    ctx.check(np.array_equal(met, keep) and np.array_equal(ip, ikeep), "pixel:mutated", "an input array was modified")
    if n == 1:
        c = arr_metric_to_pixel(met[0], cp)
        ctx.close(c, pts, 1e-8 * (1 + cp.imx + cp.imy), "pixel:one", "a single metric point as a flat array")
    ctx.seen("pixels", n)
    if n:
        ctx.sig(pts, cp.imx, cp.imy, cp.pix_x)


def distortion(rng, reach):
    a = gen.random_added(rng, True, reach)
    if rng.random() < 0.3:
        a[:5] *= 1.6
    if rng.random() < 0.2:
        a[5] = rng.uniform(0.9, 1.1)
    if rng.random() < 0.2:
        a[6] = rng.uniform(-0.05, 0.05)
    return a


def lens(ctx, rng, i):
    reach = gen.logu(rng, 0.5, 60)
    ap = distortion(rng, reach)
    for k in range(40):
        r = reach * (gen.uni(rng, 0, 1) if rng.random() < 0.9 else rng.choice([0.0, 1e-9, 1e-6, 1.0]))
        t = rng.choice([0, np.pi / 2, np.pi, -np.pi / 2]) if rng.random() < 0.2 else rng.uniform(0, 2 * np.pi)
        x, y = float(r * np.cos(t)), float(r * np.sin(t))
        keep = ap.copy()
        d = distort_brown_affine(x, y, ap)
        w = ref.brown(x, y, ap)
        ctx.close(d, w, 1e-11 * (abs(x) + abs(y)) + 1e-300, "lens:forward", "distorted point against the Brown-affine formula", ap=ap, xy=[x, y])
        u = correct_brown_affine(w[0], w[1], ap)
        ctx.close(u, (x, y), 6e-5 * r + 1e-300, "lens:inverse", "correcting a distorted point gives back the point", ap=ap, xy=[x, y])
        if r > 0:
            ctx.stat("inverse_error_relative", np.hypot(u[0] - x, u[1] - y) / r)
        ctx.check(np.array_equal(keep, ap), "lens:mutated", "the distortion parameters were modified")
        ctx.seen("lens_points")
        # the other order: an image point, corrected, is distorted to the image point
        if r > 0.75 * reach:
            continue
        u2 = correct_brown_affine(x, y, ap)
        b2 = ref.brown(u2[0], u2[1], ap)
        ctx.close(b2, (x, y), 8e-5 * r + 1e-300, "lens:inverse2", "distorting a corrected point gives back the point", ap=ap, xy=[x, y])
        ctx.seen("lens_round_trips")
    ctx.sig(ap, reach)
    ctx.sample(added_par=ap, reach=reach, last=[x, y], distorted=d, corrected=u)


def flat(ctx, rng, i):
    """Flat <-> distorted coordinates, with the principal point, through a calibration."""
    reach = gen.logu(rng, 0.5, 60)
    ap = distortion(rng, reach)
    cal = Calibration()
    xh, yh = rng.uniform(-0.1, 0.1, 2) * reach * (rng.random(2) < 0.7)
    cal.set_primary_point(np.array([xh, yh, 4 * reach]))
    cal.set_added_par(ap)
    before = gen.cal_state(cal)
    for k in range(20):
        r = reach * gen.uni(rng, 0, 0.9)
        t = rng.uniform(0, 2 * np.pi)
        x, y = float(r * np.cos(t)), float(r * np.sin(t))
        d = flat_to_dist(x, y, cal)
        w = ref.brown(x + xh, y + yh, ap)
        ctx.close(d, w, 1e-11 * reach, "flat:forward", "flat_to_dist against principal point shift + Brown", cal=[xh, yh, ap], xy=[x, y])
        f = dist_to_flat(w[0], w[1], cal)
        ctx.close(f, (x, y), 6e-5 * (abs(x) + abs(y) + abs(xh) + abs(yh)) + 1e-12, "flat:inverse", "dist_to_flat(flat_to_dist(p)) = p",
                  cal=[xh, yh, ap], xy=[x, y])
        f2 = dist_to_flat(w[0], w[1], cal, 1e-9)
        ctx.close(f2, (x, y), 6e-8 * (abs(x) + abs(y) + abs(xh) + abs(yh)) + 1e-12, "flat:tolerance", "dist_to_flat honours a tighter tolerance",
                  cal=[xh, yh, ap], xy=[x, y])
        ctx.seen("flat_points")
    ctx.check(gen.cal_state(cal) == before, "flat:mutated", "the calibration was modified")
    ctx.sig(ap, xh, yh)


FAMILIES = [
    Family("pixels", pixels, 2000, 60000),
    Family("lens", lens, 1500, 60000),
    Family("flat", flat, 1500, 60000),
]
MONITORS = {"pixels": 3000, "lens_points": 20000, "lens_round_trips": 10000, "flat_points": 10000}


def warm(ctx):
    rng = np.random.default_rng(0)
    for k in range(6):
        pixels(ctx, rng, k)
    lens(ctx, rng, 0)
    flat(ctx, rng, 0)
