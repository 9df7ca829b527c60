"""Multimedia lookup table and volume dimensions."""

import numpy as np

from vlib import gen, ref
from vlib.core import Family, Skip
from openptv_python.calibration import Calibration
from openptv_python.imgcoord import flat_image_coord, flat_image_coordinates, image_coordinates
from openptv_python.multimed import (
    get_mmf_from_mmlut,
    init_mmlut,
    multimed_nlay,
    multimed_r_nlay,
    trans_cam_point,
    volumedimension,
)
from openptv_python.parameters import VolumePar
from openptv_python.trafo import dist_to_flat, pixel_to_metric

PROPERTY = "C07"
RULE = (
    "cameras over one-layer media with random volumes; tables built once or again for another volume; positions inside, on the edges "
    "and beyond the table. Non-trivial: a table with more than one row and column, or a volume judged; distinct by table size, origin and values"
)
ASSUMPTIONS = ["within two units of the axis the factor is only bounded by its neighbours and one, as the tests pin a factor of one on the axis"]


def camera(rng, mm):
    cam = gen.random_camera(rng, mm, axis_glass=rng.random() < 0.7, dist=gen.logu(rng, 100, 500), max_tilt=0.45)
    if cam.cal.glass_par[2] < 0.8 * np.linalg.norm(cam.cal.glass_par):
        raise Skip()
    return cam


def setup(rng, tilt=True):
    mm = gen.random_mm(rng, kind=str(rng.choice(["water", "water", "random", "equal", "air"])))
    cam = camera(rng, mm)
    cal = cam.cal
    # a sensor that sees some tens of units
    dist = np.linalg.norm(cal.get_pos() - cam.target)
    field = rng.uniform(15, 60) * cal.int_par.cc / dist
    cpar = gen.random_cpar(rng, mm, 1, imx=1000, imy=800, pix=2 * field / 1000)
    return mm, cam, cal, cpar


def volume(rng, cal):
    top = cal.glass_par[2]
    z1 = top - rng.uniform(1, 20)
    z0 = z1 - rng.uniform(1, 50)
    return VolumePar([-40, 40], [z0, z0 - rng.uniform(0, 5)], [z1, z1 - rng.uniform(0, 0.5)], 0, 0, 0, 0, 0, 0)


def exact_shift(cal, mm, R, Z):
    """Factor of the apparent radius, by bisection of the refracted path."""
    z0 = cal.ext_par.z0
    s, slope = ref.path_slope(z0 - mm.d[0], mm.d[0], -Z, R, mm.n1, mm.n2[0], mm.n3)
    return slope * (z0 - Z) / R


def table(ctx, rng, i):
    mm, cam, cal, cpar = setup(rng)
    pts = np.array([gen.point_in_view(rng, cam, mm) for _ in range(6)])
    before = image_coordinates(pts, cal, mm)
    flat = flat_image_coordinates(pts, cal, mm)
    ext, inn, glass, added = cal.get_pos(), cal.get_primary_point(), cal.get_glass_vec(), cal.added_par.copy()
    rounds = 1 if rng.random() < 0.6 else 2
    for _ in range(rounds):
        vpar = volume(rng, cal)
        out = init_mmlut(vpar, cpar, cal)
        if out is not None:
            ctx.check(out is cal or np.array_equal(out.mmlut_data, cal.mmlut_data), "table:return", "init_mmlut returned another table")
    dist = np.linalg.norm(cal.get_pos() - cam.target)
    tol = 2e-3 * cal.int_par.cc / dist
    after = image_coordinates(pts, cal, mm)
    ctx.close(after, before, tol, "table:projection", "image coordinates after making a table")
    ctx.close(flat_image_coordinates(pts, cal, mm), flat, tol, "table:projection", "flat image coordinates after making a table")
    ctx.check(
        np.array_equal(cal.get_pos(), ext) and np.array_equal(cal.get_primary_point(), inn)
        and np.array_equal(cal.get_glass_vec(), glass) and np.array_equal(cal.added_par, added),
        "table:modified", "making a table changed the calibration",
    )
    ctx.seen("projections", len(pts))
    # what the table says, in its own frame: the camera on the axis
    nr, nz, rw = int(cal.mmlut.nr), int(cal.mmlut.nz), float(cal.mmlut.rw)
    o = np.array(cal.mmlut.origin, float)
    ctx.check(nr >= 2 and nz >= 2 and rw > 0, "table:size", lambda: f"table of {nr} x {nz} steps of {rw}")
    ctx.check(cal.mmlut_data.size == nr * nz, "table:shape", lambda: f"{cal.mmlut_data.size} values in a table of {nr} x {nz}")
    reach(ctx, mm, cal, cpar, vpar, nr, nz, rw, o)
    t = Calibration()
    t.ext_par.z0 = trans_cam_point(cal.ext_par, mm, cal.glass_par, cam.target)[3]
    full = Calibration(mmlut=cal.mmlut.copy(), mmlut_data=cal.mmlut_data.copy())
    full.ext_par.z0 = t.ext_par.z0
    rmax, ztop = (nr - 1) * rw, o[2] + (nz - 1) * rw
    for k in range(60):
        R = rng.uniform(0, 1.15 * rmax + rw)
        Z = rng.uniform(o[2] - 1.5 * rw, ztop + 1.5 * rw)
        m = rng.random()
        if m < 0.12:
            R = rmax + rng.choice([-0.5, -0.01, 0.01, 0.5, 0.99, 1.01]) * rw
        elif m < 0.24:
            Z = ztop + rng.choice([-0.5, -0.01, 0.01, 0.5, 0.99, 1.01]) * rw
        elif m < 0.36:
            Z = o[2] + rng.choice([-1.5, -0.5, -0.01, 0.01, 0.5]) * rw
        elif m < 0.45:
            R, Z = rmax + rng.choice([-0.5, 0.5]) * rw, o[2] + rng.choice([-0.5, 0.5]) * rw
        a = rng.uniform(0, 2 * np.pi)
        pos = np.array([o[0] + R * np.cos(a), o[1] + R * np.sin(a), Z])
        got = get_mmf_from_mmlut(cal, pos)
        inside = R <= rmax - 1e-6 and o[2] + 1e-6 <= Z <= ztop - 1e-6
        outside = R >= rmax + rw or Z < o[2] - rw or Z >= ztop + rw
        if Z > -1e-3:
            # beyond the wall there is no path; the table must only not fail
            continue
        data = dict(R=R, Z=Z, nr=nr, nz=nz, origin=o)
        want = exact_shift(t, mm, R, Z) if R > 1e-6 else 1.0
        slack = 2e-3 / max(R, rw) + curvature(t, mm, R, Z, rw, o[2])
        if inside and R >= rw and Z + rw < -0.05:
            ctx.check(got > 0, "table:missing", "no factor inside the table", **data)
            ctx.close(got, want, slack, "table:value", "factor of the table", **data)
            ctx.seen("factors")
        elif inside and Z + rw < -0.05:
            f = exact_shift(t, mm, rw, Z)
            ctx.check(min(1, f) - slack <= got <= max(1, f) + slack, "table:axis", lambda: f"factor {got} near the axis, where it is {want}", **data)
        elif outside:
            ctx.close(got, 0.0, 0.0, "table:outside", "no factor outside the table", **data)
            ctx.seen("outside")
        elif R >= rw and Z + rw < -0.05:
            ctx.check(got == 0 or abs(got - want) <= 3 * slack, "table:edge", lambda: f"factor {got} just outside the table, where it is {want}", **data)
            ctx.seen("edge")
        # the model with a table is the model without one
        if R >= rw and Z + rw < -0.05:
            p = np.array([R, 0.0, Z]) if o[0] == 0 and o[1] == 0 else pos
            with_, without = multimed_r_nlay(full, mm, p), multimed_r_nlay(t, mm, p)
            ctx.close(with_, without, slack + 1e-3 / R, "table:model", "radial shift with and without a table", **data)
            x, y = multimed_nlay(full, mm, p)
            ctx.close([x, y], p[:2] * with_, 1e-9 * (1 + R), "table:nlay", "shifted position", **data)
            ctx.seen("models")
    # a camera that is not on the axis of the frame
    off = Calibration()
    off.ext_par.x0, off.ext_par.y0, off.ext_par.z0 = rng.uniform(-300, 300), rng.uniform(-300, 300), t.ext_par.z0
    for _ in range(4):
        R, a, Z = rng.uniform(1, max(rmax, 2)), rng.uniform(0, 2 * np.pi), -rng.uniform(0.5, 60)
        p = np.array([off.ext_par.x0 + R * np.cos(a), off.ext_par.y0 + R * np.sin(a), Z])
        f = exact_shift(off, mm, R, Z)
        want = [off.ext_par.x0 + R * np.cos(a) * f, off.ext_par.y0 + R * np.sin(a) * f]
        ctx.close(multimed_nlay(off, mm, p), want, 4e-3, "table:offaxis", "shifted position for a camera off the axis", R=R, Z=Z)
        ctx.seen("off axis")
    ctx.sig(nr, nz, o, cal.mmlut_data)
    ctx.sample(nr=nr, nz=nz, rw=rw, origin=o, rounds=rounds)


def reach(ctx, mm, cal, cpar, vpar, nr, nz, rw, o):
    """The table goes as far as the corners of the image see, from the lower to the upper end of the volume."""
    g = cal.get_glass_vec()
    gd = np.linalg.norm(g)
    g = g / gd
    for px in (0.0, float(cpar.imx)):
        for py in (0.0, float(cpar.imy)):
            x, y = dist_to_flat(*pixel_to_metric(px, py, cpar), cal, 1e-9)
            d = cal.get_rotation_matrix() @ np.array([x, y, -cal.int_par.cc])
            d /= np.linalg.norm(d)
            ray = ref.trace(cal.get_pos(), d, cal.get_glass_vec(), mm.d[0], mm.n1, mm.n2[0], mm.n3)
            if ray is None or ray[1][2] > -0.2:
                continue
            for z in (min(vpar.z_min_lay), max(vpar.z_max_lay)):
                p = ray[0] + ray[1] * (z - ray[0][2]) / ray[1][2]
                v = p - cal.get_pos()
                R, Z = np.linalg.norm(v - g * (v @ g)), p @ g - gd
                ctx.check(R <= (nr - 1) * rw + 0.05, "table:radius", lambda: f"a corner of the image sees {R} from the axis, the table ends at {(nr - 1) * rw}", z=z)
                if np.hypot(g[0], g[1]) < 1e-9:
                    ctx.check(o[2] - 0.05 <= z - gd <= o[2] + nz * rw + 0.05, "table:depth",
                              lambda: f"depth {z - gd} is not in the table, from {o[2]} to {o[2] + (nz - 1) * rw}", z=z)
                ctx.check(o[2] - 0.05 <= Z <= o[2] + nz * rw + 0.05, "table:depth", lambda: f"a corner of the image sees depth {Z} from the wall, the table goes from {o[2]} to {o[2] + (nz - 1) * rw}", z=z)
                ctx.seen("corners")


def curvature(t, mm, R, Z, rw, z0):
    """Bound of the interpolation error, from second differences of the exact factor."""
    h = rw
    R = max(R, 2 * h)
    e = 0.0
    for dr in (-h, 0, h):
        q = [exact_shift(t, mm, max(R + dr + k * h, 0.2), min(Z, -2 * h - 0.05)) for k in (-1, 0, 1)]
        e = max(e, abs(q[0] - 2 * q[1] + q[2]))
    for dz in (-h, 0):
        q = [exact_shift(t, mm, R, min(Z + dz, -2 * h - 0.05) + k * h) for k in (-1, 0, 1)]
        e = max(e, abs(q[0] - 2 * q[1] + q[2]))
    return e


def vol(ctx, rng, i):
    n = int(rng.integers(1, 5))
    mm = gen.random_mm(rng)
    cals, cams = [], []
    for _ in range(n):
        for _ in range(10):
            try:
                cam = camera(rng, mm)
                break
            except Skip:
                continue
        else:
            raise Skip()
        cams.append(cam)
        cals.append(cam.cal)
    pix = 2 * rng.uniform(0.05, 0.12) * min(c.int_par.cc for c in cals) / 1000
    cpar = gen.random_cpar(rng, mm, n, imx=1000, imy=800, pix=pix)
    vpar = VolumePar([-40, 40], [rng.uniform(-60, -20), rng.uniform(-60, -20)], [rng.uniform(-18, 4), rng.uniform(-18, 4)], 0, 0, 0, 0, 0, 0)
    z0, z1 = min(vpar.z_min_lay), max(vpar.z_max_lay)
    xs, ys = [], []
    for cal in cals:
        for px in (0.0, float(cpar.imx)):
            for py in (0.0, float(cpar.imy)):
                x, y = dist_to_flat(*pixel_to_metric(px, py, cpar), cal, 1e-9)
                d = cal.get_rotation_matrix() @ np.array([x, y, -cal.int_par.cc])
                d /= np.linalg.norm(d)
                t = ref.trace(cal.get_pos(), d, cal.get_glass_vec(), mm.d[0], mm.n1, mm.n2[0], mm.n3)
                if t is None or t[1][2] > -0.2:
                    raise Skip()
                for z in (z0, z1):
                    p = t[0] + t[1] * (z - t[0][2]) / t[1][2]
                    xs.append(p[0])
                    ys.append(p[1])
    box = [rng.uniform(-20, 20), rng.uniform(-20, 20), rng.uniform(-20, 20), rng.uniform(-20, 20)] if rng.random() < 0.5 else [-1e20, 1e20, -1e20, 1e20]
    got = volumedimension(box[0], box[1], box[2], box[3], rng.uniform(-5, 5), rng.uniform(-5, 5), vpar, cpar, cals)
    want = [max(xs + [box[0]]), min(xs + [box[1]]), max(ys + [box[2]]), min(ys + [box[3]]), z1, z0]
    # correct_brown_affine stops at a relative tolerance of 1e-5
    tol = 1e-3 * max(1.0, np.abs(want).max() * 0.1)
    ctx.close(list(got), want, tol, "volume:box", "volume is the box around what the cameras see at both depths", z=(z0, z1), cameras=n)
    ctx.seen("volumes")
    ctx.sig(*want)


def warm(ctx):
    rng = np.random.default_rng(5)
    mm = gen.random_mm(rng, "water")
    cam = gen.random_camera(rng, mm, True)
    flat_image_coord(cam.target, cam.cal, mm)
    for k in range(4):
        try:
            vol(ctx, rng, 0)
        except Exception:
            pass


FAMILIES = [Family("table", table, 260, 4000), Family("volume", vol, 500, 10000)]
MONITORS = {"factors": 2000, "outside": 500, "edge": 100, "models": 2000, "projections": 800, "corners": 500, "off axis": 500, "volumes": 200}
