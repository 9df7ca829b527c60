"""A calibration object is a faithful, independent record of the camera."""

import copy

import numpy as np

from vlib import gen
from vlib.core import Family
from openptv_python import calibration as C
from openptv_python.calibration import (
    Calibration,
    compare_addpar,
    compare_calibration,
    compare_exterior,
    compare_glass,
    compare_interior,
    rotation_matrix,
)

PROPERTY = "C04"
RULE = (
    "random angles (all quadrants, multiples of pi/2, tiny, large) and random histories of setter, getter, copy and "
    "increment calls, valid and invalid, on several objects at once, mirrored in a plain model. Non-trivial: a history "
    "that changed at least one object; distinct by the values set"
)
ASSUMPTIONS = []


def default_state():
    c = Calibration()
    return gen.cal_state(c)


DEFAULT = default_state()
MODULE = [np.array(C.Exterior).tobytes(), np.array(C.Interior).tobytes(), np.array(C.ap_52).tobytes(), np.array(C.mm_lut).tobytes()]


def angles(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice([0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, 2 * np.pi, 1e-9, -1e-7], 3).astype(float)
    if k < 0.4:
        return rng.uniform(-50, 50, 3)
    return np.array([gen.uni(rng, -np.pi, np.pi) for _ in range(3)])


def rotation(ctx, rng, i):
    for _ in range(20):
        a = angles(rng)
        cal = Calibration()
        cal.set_angles(a)
        m = cal.get_rotation_matrix()
        want = gen.angles_to_rot(*a)
        ctx.close(m, want, 1e-12, "rotation:matrix", "rotation matrix of angles", angles=a)
        ctx.close(m @ m.T, np.eye(3), 1e-12, "rotation:orthonormal", "rotation matrix is orthonormal", angles=a)
        ctx.check(np.linalg.det(m) > 0.999999, "rotation:handed", "rotation matrix has determinant +1", angles=a)
        ctx.close(cal.get_angles(), a, 0, "rotation:angles", "angles read back", angles=a)
        ext = C.Exterior.copy()
        ext["omega"], ext["phi"], ext["kappa"] = a
        rotation_matrix(ext)
        ctx.close(ext["dm"], want, 1e-12, "rotation:function", "rotation_matrix() on an exterior record", angles=a)
        m[:] = 7
        ctx.close(cal.get_rotation_matrix(), want, 1e-12, "rotation:alias", "the returned matrix is a copy", angles=a)
        ctx.seen("rotations")
        ctx.sig(a)
    ctx.sample(angles=a, matrix=want)


class Shadow:
    """Plain model of a calibration."""

    def __init__(self):
        self.pos = np.zeros(3)
        self.ang = np.zeros(3)
        self.dm = np.eye(3)
        self.pp = np.zeros(3)
        self.added = np.array([0, 0, 0, 0, 0, 1.0, 0])
        self.glass = np.array([0, 0, 1.0])
        self.lut = (0, 0, 0)
        self.origin = np.zeros(3)
        self.data = np.zeros((0, 0))

    def clone(self):
        return copy.deepcopy(self)


def compare(ctx, cal, sh, hist):
    d = dict(history=hist[-12:])
    ctx.close(cal.get_pos(), sh.pos, 0, "object:pos", "position", **d)
    ctx.close(cal.get_angles(), sh.ang, 1e-15, "object:angles", "angles", **d)
    ctx.close(cal.get_rotation_matrix(), sh.dm, 1e-12, "object:dm", "rotation matrix", **d)
    ctx.close(cal.get_primary_point(), sh.pp, 0, "object:pp", "primary point", **d)
    ctx.close(cal.get_radial_distortion(), sh.added[:3], 0, "object:radial", "radial distortion", **d)
    ctx.close(cal.get_decentering(), sh.added[3:5], 0, "object:decentering", "decentering", **d)
    ctx.close(cal.get_affine(), sh.added[5:], 0, "object:affine", "affine", **d)
    ctx.close(cal.get_glass_vec(), sh.glass, 0, "object:glass", "glass vector", **d)
    m = cal.mmlut
    ctx.check((int(m.nr), int(m.nz), int(m.rw)) == sh.lut and np.array_equal(np.ravel(m.origin), sh.origin) and np.array_equal(cal.mmlut_data, sh.data),
              "object:table", "the multimedia table is not the one this calibration was given", **d)
    ctx.seen("object_states")


def history(ctx, rng, i):
    n = int(rng.integers(2, 5))
    cals = [Calibration() for _ in range(n)]
    shs = [Shadow() for _ in range(n)]
    hist = []
    given = []  # arrays handed in: changing them later must not change the object
    for step in range(int(rng.integers(5, 40))):
        k = int(rng.integers(n))
        cal, sh = cals[k], shs[k]
        op = int(rng.integers(20))
        v = np.array([gen.uni(rng, -100, 100) for _ in range(7)])
        if op == 0:
            a = v[:3].copy()
            cal.set_pos(a if rng.random() < 0.7 else a.tolist())
            sh.pos = v[:3].copy()
            given.append(a)
        elif op == 1:
            a = angles(rng)
            cal.set_angles(a if rng.random() < 0.7 else a.tolist())
            sh.ang = a.copy()
            sh.dm = gen.angles_to_rot(*a)
            given.append(a)
        elif op == 2:
            a = v[:3].copy()
            cal.set_primary_point(a)
            sh.pp = v[:3].copy()
            given.append(a)
        elif op == 3:
            a = v[:3].copy()
            cal.set_radial_distortion(a)
            sh.added[:3] = v[:3]
            given.append(a)
        elif op == 4:
            a = v[:2].copy()
            cal.set_decentering(a)
            sh.added[3:5] = v[:2]
            given.append(a)
        elif op == 5:
            a = v[:2].copy()
            cal.set_affine_distortion(a)
            sh.added[5:] = v[:2]
            given.append(a)
        elif op == 6:
            a = v[:3].copy()
            cal.set_glass_vec(a if rng.random() < 0.7 else a.tolist())
            sh.glass = v[:3].copy()
            given.append(a)
        elif op == 7:
            a = v.copy()
            cal.set_added_par(a)
            sh.added = v.copy()
            given.append(a)
        elif op == 8:
            name = str(rng.choice(["x0", "y0", "z0", "xh", "yh", "cc", "omega", "phi", "kappa"]))
            inc = float(v[0])
            cal.increment_attribute(name, inc)
            if name in ("x0", "y0", "z0"):
                sh.pos["xyz".index(name[0])] += inc
            elif name in ("xh", "yh", "cc"):
                sh.pp[["xh", "yh", "cc"].index(name)] += inc
            else:
                sh.ang[["omega", "phi", "kappa"].index(name)] += inc
                cal.update_rotation_matrix()
                sh.dm = gen.angles_to_rot(*sh.ang)
        elif op == 9:
            # invalid shapes are refused and change nothing
            bad = [np.zeros(2), np.zeros(4), np.zeros((3, 1)), np.zeros(1)][int(rng.integers(4))]
            fn = str(rng.choice(["set_pos", "set_angles", "set_primary_point", "set_radial_distortion", "set_glass_vec",
                                 "set_decentering", "set_affine_distortion"]))
            if fn in ("set_decentering", "set_affine_distortion"):
                bad = np.zeros(3) if bad.shape == (2,) else bad
            try:
                getattr(cal, fn)(bad)
            except ValueError:
                ctx.seen("refused")
            else:
                ctx.check(False, "object:accepted", f"{fn} accepted an array of shape {bad.shape}")
        elif op == 10:
            j = int(rng.integers(n))
            if j != k:
                cals[k].copy(cals[j])
                shs[j] = sh.clone()
                ctx.seen("copies")
        elif op == 11:
            j = int(rng.integers(n))
            if j != k:
                cals[j] = copy.deepcopy(cal)
                shs[j] = sh.clone()
        elif op == 12:
            m = gen.angles_to_rot(*angles(rng))
            cal.set_rotation_matrix(m)
            sh.dm = m.copy()
            given.append(m)
            try:
                cal.set_rotation_matrix(np.zeros((2, 3)))
            except ValueError:
                ctx.seen("refused")
            else:
                ctx.check(False, "object:accepted", "set_rotation_matrix accepted a 2x3 matrix")
        elif op in (13, 14):
            # a multimedia table, as init_mmlut leaves it; or another value in the one there is
            if op == 14 and sh.data.size:
                cal.mmlut_data[0, 0] = sh.data[0, 0] = v[0]
                cal.mmlut.origin[0] = sh.origin[0] = v[1]
            else:
                nr, nz = (int(x) for x in rng.integers(1, 4, 2))
                cal.mmlut.origin, cal.mmlut.nr, cal.mmlut.nz, cal.mmlut.rw = v[:3].copy(), nr, nz, 2
                cal.mmlut_data = np.resize(v, (nr, nz)).copy()
                sh.lut, sh.origin, sh.data = (nr, nz, 2), v[:3].copy(), np.resize(v, (nr, nz)).copy()
            ctx.seen("tables")
        elif op == 15:
            # a single value in place
            j = int(rng.integers(3))
            cal.glass_par[j] = sh.glass[j] = v[0]
            cal.added_par[j] = sh.added[j] = v[1]
            setattr(cal.ext_par, "xyz"[j] + "0", v[2])
            sh.pos[j] = v[2]
            setattr(cal.int_par, ["xh", "yh", "cc"][j], v[3])
            sh.pp[j] = v[3]
            ctx.seen("in place")
        elif op == 16:
            # made from parts, which are the caller's
            parts = [np.array(x).view(np.recarray) for x in (cal.ext_par, cal.int_par)] + [np.array(cal.glass_par), np.array(cal.added_par)]
            sh = shs[k].clone()
            if rng.random() < 0.5:
                parts += [np.array(cal.mmlut).view(np.recarray), np.array(cal.mmlut_data)]
            else:
                sh.lut, sh.origin, sh.data = (0, 0, 0), np.zeros(3), np.zeros((0, 0))
            j = int(rng.integers(n))
            cals[j], cals[k] = Calibration(*parts), Calibration(*parts)
            shs[j], shs[k] = sh.clone(), sh.clone()
            given += parts[2:4]
            if rng.random() < 0.5:
                parts[0].x0 = parts[1].cc = 77.0
            ctx.seen("made_from_parts")
        elif op == 17:
            # what a getter gave out is the caller's
            got = [cal.get_pos(), cal.get_angles(), cal.get_rotation_matrix(), cal.get_primary_point(), cal.get_radial_distortion(),
                   cal.get_decentering(), cal.get_affine(), cal.get_glass_vec()]
            given += got
            for a in got:
                if rng.random() < 0.3:
                    a[...] = 4321.0
            ctx.seen("values_given_out")
        elif op == 18:
            # made from whole numbers, in an array, a list or a tuple; what is set later is not rounded to them
            g, a = [int(x) for x in rng.integers(-9, 10, 3)], [int(x) for x in rng.integers(-3, 4, 7)]
            form = [np.array, list, tuple][int(rng.integers(3))]
            cals[k] = Calibration(glass_par=form(g), added_par=form(a))
            shs[k] = Shadow()
            shs[k].glass, shs[k].added = np.array(g, dtype=float), np.array(a, dtype=float)
            ctx.seen("made_from_whole_numbers")
        else:
            cals[k] = Calibration()
            shs[k] = Shadow()
        hist.append([k, op, [float(x) for x in v[:3]]])
        if given and rng.random() < 0.5:
            given[int(rng.integers(len(given)))][...] = 1234.5
        for c, s in zip(cals, shs):
            compare(ctx, c, s, hist)
        ctx.sig(v, op)
    ctx.check(gen.cal_state(Calibration()) == DEFAULT, "object:defaults", "a new calibration no longer has the default values", history=hist[-12:])
    now = [np.array(C.Exterior).tobytes(), np.array(C.Interior).tobytes(), np.array(C.ap_52).tobytes(), np.array(C.mm_lut).tobytes()]
    ctx.check(now == MODULE, "object:module", "a module-level default was modified", history=hist[-12:])
    ctx.seen("histories")
    ctx.sample(history=hist[:6])


def comparing(ctx, rng, i):
    """Comparison functions say equal exactly when the compared parts are."""
    def make():
        c = Calibration()
        c.set_pos(v[:3])
        c.set_angles(v[3:6])
        c.set_primary_point(v[6:9])
        c.set_added_par(v[9:16])
        c.set_glass_vec(v[16:19])
        return c

    v = np.array([gen.uni(rng, -5, 5) for _ in range(19)])
    a, b = make(), make()
    ctx.check(compare_calibration(a, b) and compare_exterior(a.ext_par, b.ext_par) and compare_interior(a.int_par, b.int_par)
              and compare_glass(a.glass_par, b.glass_par) and compare_addpar(a.added_par, b.added_par), "compare:equal", "equal calibrations compare different")
    k = int(rng.integers(19))
    w = v.copy()
    v = v.copy()
    step = float(rng.choice([1e-3, -1e-3, 1.0, 10.0, 1e-6, 1e-9, 0.0]))
    v[k] = v[k] + step if step else np.nextafter(v[k], 99)
    if v[k] == w[k]:
        return
    b = make()
    part = 0 if k < 6 else 1 if k < 9 else 2 if k < 16 else 3
    got = [bool(compare_exterior(a.ext_par, b.ext_par)), bool(compare_interior(a.int_par, b.int_par)),
           bool(compare_addpar(a.added_par, b.added_par)), bool(compare_glass(a.glass_par, b.glass_par))]
    want = [part != 0, part != 1, part != 2, part != 3]
    ctx.check(got == want, "compare:part", f"value {k} differs; exterior, interior, added, glass compared equal: {got}")
    ctx.check(not compare_calibration(a, b) and not compare_calibration(b, a), "compare:calibration", f"calibrations differing in value {k} compare equal")
    ctx.seen("comparisons")


FAMILIES = [
    Family("rotation", rotation, 400, 20000),
    Family("history", history, 1200, 40000),
    Family("comparing", comparing, 800, 20000),
]
MONITORS = {"rotations": 3000, "object_states": 10000, "histories": 500, "refused": 300, "copies": 300, "made_from_parts": 300, "made_from_whole_numbers": 300, "values_given_out": 300, "tables": 500, "comparisons": 300}


def warm(ctx):
    rng = np.random.default_rng(0)
    rotation(ctx, rng, 0)
