"""Projection of a 3D point obeys refraction, and inverts ray tracing."""

import numpy as np

from vlib import gen, ref
from vlib.core import Family, Skip
from openptv_python.imgcoord import (
    flat_image_coord,
    flat_image_coordinates,
    image_coordinates,
    img_coord,
)
from openptv_python.parameters import MultimediaPar
from openptv_python.ray_tracing import ray_tracing

PROPERTY = "C01"
RULE = (
    "random cameras (any wall orientation, pose, roll, focal length), one-layer walls and index triples, points in the "
    "fluid seen at less than 60 degrees incidence; some values snapped to literals of the package. Non-trivial: the "
    "point is refracted (indices differ) or off the camera's axis; distinct by camera and point bytes"
)
ASSUMPTIONS = [
    "the camera is outside the wall in the thinnest of the media, the point in the fluid, the ray less than 60 degrees off the wall normal, one wall layer",
    "the solver's 1e-3 stopping rule is part of its contract: image coordinates are judged to 1e-3 length units at the point",
]


def refpos(cal, mm, p):
    return ref.project(cal.get_pos(), gen.angles_to_rot(*cal.get_angles()), 0, 0, cal.int_par.cc, cal.glass_par,
                       mm.d[0], mm.n1, mm.n2[0], mm.n3, p)


def judge(ctx, cam, mm, p, label):
    cal = cam.cal
    before = gen.cal_state(cal)
    p0 = p.copy()
    X, Y, s = refpos(cal, mm, p)
    if s > np.sin(np.radians(60)):
        raise Skip
    cc = cal.int_par.cc
    dist = np.linalg.norm(cal.get_pos() - p)
    # scale of one length unit at the point, in the image, with the obliqueness of the view
    off = np.hypot(X, Y) / cc
    tol = 1.0e-3 * cc / dist * (1 + off * off) + 1e-9 * cc
    x, y = flat_image_coord(p, cal, mm)
    data = dict(cal=[cal.get_pos(), cal.get_angles(), cal.get_primary_point(), cal.glass_par], mm=str(mm), p=p)
    ctx.close([x, y], [X, Y], tol, f"{label}:flat", "flat image coordinates against the refracted path", **data)
    ctx.stat("flat_error_over_tolerance", np.max(np.abs([x - X, y - Y])) / tol)
    ctx.seen("projections")
    # distorted coordinates: principal point shift, then the distortion of that very point
    bx, by = ref.brown(x + cal.int_par.xh, y + cal.int_par.yh, cal.added_par)
    dx, dy = img_coord(p, cal, mm)
    ctx.close([dx, dy], [bx, by], 1e-9 * (cc + abs(bx) + abs(by)), f"{label}:dist", "distorted image coordinates", **data)
    # back along the ray
    v, d = ray_tracing(x, y, cal, mm)
    w = p - v
    miss = np.linalg.norm(w - d * (w @ d))
    ctx.check(miss <= 1.5e-3 + 1e-9 * dist, f"{label}:roundtrip",
              lambda: f"the ray traced back from the projection misses the point by {miss}", **data)
    ctx.check(w @ d >= -1e-6, f"{label}:behind", "the point is behind the wall exit of its own ray", **data)
    ctx.seen("round_trips")
    ctx.check(gen.cal_state(cal) == before and np.array_equal(p, p0), f"{label}:mutated", "an input was modified", **data)
    if mm.n1 != mm.n3 or off > 1e-6:
        ctx.sig(cal.get_pos(), cal.get_angles(), p)
    ctx.sample(camera=data["cal"], mm=str(mm), point=p, flat=[x, y], oracle=[X, Y], ray_miss=miss)
    return x, y


def general(ctx, rng, i):
    mm = gen.random_mm(rng)
    cam = gen.random_camera(rng, mm)
    for _ in range(6):
        judge(ctx, cam, mm, gen.point_in_view(rng, cam, mm), "general")


def wide(ctx, rng, i):
    mm = gen.random_mm(rng)
    cam = gen.random_camera(rng, mm, max_tilt=1.0, dist=gen.logu(rng, 20, 3000))
    for _ in range(6):
        judge(ctx, cam, mm, gen.point_in_view(rng, cam, mm, spread=0.6), "wide")


def degenerate(ctx, rng, i):
    """Points below the camera, on the wall's inner face, on the axis, at the origin; deep points."""
    mm = gen.random_mm(rng)
    cam = gen.random_camera(rng, mm, max_tilt=0.4)
    cal = cam.cal
    gd = np.linalg.norm(cal.glass_par)
    g = cal.glass_par / gd
    pos = cal.get_pos()
    foot = pos - g * (pos @ g)
    for p in (
        foot, foot + g * (gd * 0.5), foot + gen.unit(rng) * 1e-7 - g * 1e-6, np.zeros(3), cam.target * 1.0,
        cam.target - g * (cam.target @ g) + g * gd, foot - g * gen.logu(rng, 10, 2000),
        np.round(cam.target), np.array([0.0, 0.0, 0.0]) - g * 3.0,
    ):
        p = np.asarray(p, float)
        if p @ g > gd:
            continue
        try:
            judge(ctx, cam, mm, p, "degenerate")
        except Skip:
            continue
    ctx.seen("degenerate_cameras")


def arrays(ctx, rng, i):
    """Array versions give what the scalar versions give, in order."""
    mm = gen.random_mm(rng)
    cam = gen.random_camera(rng, mm)
    n = int(rng.choice([0, 1, 2, 3, 7, 17]))
    pts = np.array([gen.point_in_view(rng, cam, mm) for _ in range(n)]).reshape(n, 3)
    w = cam.cal.get_glass_vec()
    kind = rng.random()  # however the user's array holds the numbers
    if kind < 0.2:
        given = pts.astype(np.float32)
    elif kind < 0.4 and all(np.round(p) @ w < w @ w for p in pts):
        given = np.round(pts).astype(int)
    else:
        given = gen.form(rng, pts)
    pts, kept = given.astype(float), given.copy()
    a = flat_image_coordinates(given, cam.cal, mm)
    b = image_coordinates(given, cam.cal, mm)
    ctx.check(a.shape == (n, 2) and b.shape == (n, 2), "arrays:shape", f"shapes {a.shape} {b.shape} for {n} points")
    for k in range(n):
        ctx.close(a[k], flat_image_coord(pts[k], cam.cal, mm), 1e-9, "arrays:flat", f"row {k} of {n}")
        ctx.close(b[k], img_coord(pts[k], cam.cal, mm), 1e-9, "arrays:dist", f"row {k} of {n}")
    ctx.check(np.array_equal(given, kept), "arrays:mutated", "the points were modified")
    ctx.seen("array_calls")
    if n:
        ctx.sig(pts)


def layers(ctx, rng, i):
    """A wall of several layers; entries of the lists beyond the number of layers do not count."""
    n = int(rng.integers(1, 6))
    m = n + (int(rng.integers(1, 3)) if rng.random() < 0.3 else 0)
    n2, d = [gen.uni(rng, 1.1, 1.7) for _ in range(m)], [gen.uni(rng, 0.0, 12.0) for _ in range(m)]
    if rng.random() < 0.3:
        n2[n:], d[n:] = [0.0] * (m - n), [0.0] * (m - n)
    mm = MultimediaPar(nlay=n, n1=1.0, n2=n2, d=d, n3=gen.uni(rng, 1.0, 1.6))
    cam = gen.random_camera(rng, mm, interior=False, distortion=False)
    cal = cam.cal
    gd = np.linalg.norm(cal.glass_par)
    g = cal.glass_par / gd
    for _ in range(4):
        p = gen.point_in_view(rng, cam, mm)
        p = p - g * max(0.0, p @ g - (gd - sum(d[1:n])) + 0.1)
        X, Y, s = ref.project_layers(cal.get_pos(), gen.angles_to_rot(*cal.get_angles()), cal.int_par.cc, cal.glass_par, d[:n], 1.0, n2[:n], mm.n3, p)
        if s > np.sin(np.radians(60)):
            continue
        dist = np.linalg.norm(cal.get_pos() - p)
        off = np.hypot(X, Y) / cal.int_par.cc
        tol = 1.0e-3 * cal.int_par.cc / dist * (1 + off * off) + 1e-9 * cal.int_par.cc
        ctx.close(flat_image_coord(p, cal, mm), [X, Y], tol, "layers:flat", "flat image coordinates against the path through all layers", layers=str(mm), p=p)
        ctx.seen("projections through layers")
        ctx.sig(cal.get_pos(), p)


FAMILIES = [
    Family("layers", layers, 500, 15000),
    Family("general", general, 1600, 40000),
    Family("wide", wide, 500, 15000),
    Family("degenerate", degenerate, 300, 8000),
    Family("arrays", arrays, 150, 3000),
]
MONITORS = {"projections": 5000, "round_trips": 5000, "array_calls": 50, "degenerate_cameras": 50, "projections through layers": 500}


def warm(ctx):
    rng = np.random.default_rng(0)
    general(ctx, rng, 0)
    degenerate(ctx, rng, 0)
