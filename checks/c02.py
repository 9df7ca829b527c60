"""A traced ray obeys the law of refraction at both faces of the wall."""

from types import SimpleNamespace

import numpy as np

from vlib import gen, ref
from vlib.core import Family, Skip
from openptv_python.epi import epi_mm_2D
from openptv_python.multimed import move_along_ray
from openptv_python.parameters import MultimediaPar, VolumePar
from openptv_python.ray_tracing import ray_tracing

PROPERTY = "C02"
RULE = (
    "random cameras, walls and index triples without total reflection; random image points incl. the axis and points "
    "whose ray is normal to the wall. Non-trivial: at least one interface bends the ray; distinct by camera and pixel"
)
ASSUMPTIONS = ["the ray from the camera meets the wall (it does not point away from it) and is not totally reflected"]


def judge(ctx, cam, mm, x, y, label):
    cal = cam.cal
    R = gen.angles_to_rot(*cal.get_angles())
    pos = cal.get_pos()
    g = cal.glass_par / np.linalg.norm(cal.glass_par)
    di = R @ np.array([x, y, -cal.int_par.cc])
    di /= np.linalg.norm(di)
    if di @ g > -0.1:
        raise Skip
    want = ref.trace(pos, di, cal.glass_par, mm.d[0], mm.n1, mm.n2[0], mm.n3)
    if want is None:
        raise Skip
    b, d3, a, d2 = want
    if d3 @ g > -0.1 or d2 @ g > -0.1:
        raise Skip
    before = gen.cal_state(cal)
    v, d = ray_tracing(x, y, cal, mm)
    data = dict(cal=[pos, cal.get_angles(), cal.get_primary_point(), cal.glass_par], mm=str(mm), xy=[x, y])
    scale = np.linalg.norm(pos) + np.linalg.norm(cal.glass_par) + mm.d[0] + np.linalg.norm(b)
    ctx.check(abs(np.linalg.norm(d) - 1) < 1e-9, f"{label}:unit", lambda: f"direction has length {np.linalg.norm(d)}", **data)
    ctx.check(abs(g @ v - np.linalg.norm(cal.glass_par)) < 1e-8 * scale, f"{label}:plane",
              lambda: f"exit point is {g @ v - np.linalg.norm(cal.glass_par)} off the inner face of the wall", **data)
    ctx.close(v, b, 2e-7 * scale, f"{label}:point", "exit point against the refracted path", **data)
    ctx.close(d, d3, 2e-7, f"{label}:direction", "direction in the fluid against Snell's law", **data)
    s1 = np.linalg.norm(np.cross(di, g)) * mm.n1
    s3 = np.linalg.norm(np.cross(d, g)) * mm.n3
    ctx.close(s3, s1, 1e-6, f"{label}:snell", "n sin(angle) before and after the wall", **data)
    ctx.check(abs(np.dot(np.cross(di, g), d)) < 1e-6, f"{label}:coplanar", "the refracted ray leaves the plane of incidence", **data)
    ctx.check(gen.cal_state(cal) == before, f"{label}:mutated", "the calibration was modified", **data)
    ctx.seen("rays")
    if abs(mm.n1 - mm.n2[0]) + abs(mm.n2[0] - mm.n3) > 0:
        ctx.seen("bent_rays")
        ctx.sig(pos, cal.get_angles(), x, y)
    ctx.sample(xy=[x, y], mm=str(mm), exit=v, direction=d, oracle=[b, d3])
    # a point further along the ray, found by its Z
    if abs(d[2]) > 0.05:
        z = gen.uni(np.random.default_rng(int(abs(x) * 1e6) % 2**32), -100, 100)
        dd = np.array(d)
        m = move_along_ray(z, v, dd)
        ctx.close(m, v + d * (z - v[2]) / d[2], 1e-8 * (scale + 100) / abs(d[2]), f"{label}:move", "point of the ray at a given Z", **data)
        ctx.check(m[2] == z and np.array_equal(dd, d), f"{label}:movez", "Z differs, or the direction was modified", **data)
        ctx.seen("moves")
    return v, d


def general(ctx, rng, i):
    mm = gen.random_mm(rng, "any" if rng.random() < 0.25 else None)
    cam = gen.random_camera(rng, mm, max_tilt=1.0)
    for _ in range(8):
        f = cam.cal.int_par.cc * gen.uni(rng, 0, 0.8)
        a = rng.uniform(0, 2 * np.pi)
        try:
            judge(ctx, cam, mm, float(f * np.cos(a)), float(f * np.sin(a)), "general")
        except Skip:
            continue


def special(ctx, rng, i):
    mm = gen.random_mm(rng, "any" if rng.random() < 0.25 else None)
    cam = gen.random_camera(rng, mm, max_tilt=0.6)
    cal = cam.cal
    R = gen.angles_to_rot(*cal.get_angles())
    g = cal.glass_par / np.linalg.norm(cal.glass_par)
    c = R.T @ (-g)
    cc = cal.int_par.cc
    pts = [(0.0, 0.0), (cc * 0.1, 0.0), (0.0, -cc * 0.1)]
    if c[2] < -0.3:
        nx, ny = -cc * c[0] / c[2], -cc * c[1] / c[2]
        pts += [(nx, ny), (nx + 1e-9, ny), (nx + 1e-5 * cc, ny - 1e-5 * cc)]
    for x, y in pts:
        try:
            judge(ctx, cam, mm, float(x), float(y), "special")
        except Skip:
            continue


def straight(ctx, rng, i):
    """With one index throughout, the ray is a straight line through the camera."""
    n = gen.uni(rng, 1.0, 2.0)
    mm = MultimediaPar(nlay=1, n1=n, n2=[n], d=[gen.uni(rng, 0, 50)], n3=n)
    cam = gen.random_camera(rng, mm)
    cal = cam.cal
    x, y = rng.uniform(-0.4, 0.4, 2) * cal.int_par.cc
    try:
        v, d = judge(ctx, cam, mm, float(x), float(y), "straight")
    except Skip:
        return
    w = v - cal.get_pos()
    ctx.check(np.linalg.norm(np.cross(w, d)) < 1e-5 * np.linalg.norm(w), "straight:line", "the ray does not pass the camera")
    ctx.seen("straight_rays")


def units(ctx, rng, i):
    """Lengths in metres, inches or micrometres."""
    mm = gen.random_mm(rng)
    c = gen.random_camera(rng, mm).cal
    s = float(rng.choice([1e-3, 1e-2, 0.1, 1 / 25.4, 10.0, 1e3]))
    mm.d[0] *= s
    image = s if rng.random() < 0.5 else 1.0
    c.set_pos(c.get_pos() * s)
    c.set_glass_vec(c.get_glass_vec() * s)
    c.set_primary_point(c.get_primary_point() * image)
    for _ in range(3):
        x, y = rng.uniform(-0.4, 0.4, 2) * c.int_par.cc
        try:
            judge(ctx, SimpleNamespace(cal=c), mm, float(x), float(y), "units")
        except Skip:
            continue
        ctx.seen("rays_in_other_units")


def sheet(ctx, rng, i):
    """Single-camera 2D positioning returns the point of the ray at mid depth."""
    mm = gen.random_mm(rng)
    cam = gen.random_camera(rng, mm, axis_glass=True)
    x, y = rng.uniform(-0.3, 0.3, 2) * cam.cal.int_par.cc
    try:
        v, d = judge(ctx, cam, mm, float(x), float(y), "sheet")
    except Skip:
        return
    if abs(d[2]) < 0.2:
        raise Skip
    xl = sorted(rng.uniform(-80, 80, 2))
    if xl[1] - xl[0] < 1:
        raise Skip
    zmin = rng.uniform(-60, 0, 2)
    zmax = zmin + rng.uniform(0, 60, 2)
    if rng.random() < 0.3:  # layers from right to left are the same volume
        xl, zmin, zmax = xl[::-1], zmin[::-1], zmax[::-1]
    vp = VolumePar(x_lay=[float(a) for a in xl], z_min_lay=[float(a) for a in zmin], z_max_lay=[float(a) for a in zmax])
    out = epi_mm_2D(float(x), float(y), cam.cal, mm, vp)
    f = (v[0] - xl[0]) / (xl[1] - xl[0])
    z = 0.5 * ((zmin[0] + f * (zmin[1] - zmin[0])) + (zmax[0] + f * (zmax[1] - zmax[0])))
    ctx.close(out, v + d * (z - v[2]) / d[2], 1e-6 * (1 + np.abs(z) + np.linalg.norm(v)), "sheet:mid", "mid-depth point of a ray")
    ctx.seen("sheet_points")


FAMILIES = [
    Family("general", general, 3000, 120000),
    Family("special", special, 1000, 30000),
    Family("straight", straight, 600, 20000),
    Family("units", units, 800, 20000),
    Family("sheet", sheet, 600, 20000),
]
MONITORS = {"rays": 5000, "bent_rays": 2000, "straight_rays": 200, "rays_in_other_units": 1000, "sheet_points": 200, "moves": 2000}


def warm(ctx):
    rng = np.random.default_rng(0)
    general(ctx, rng, 0)
    sheet(ctx, rng, 0)
