"""Generators: optical set-ups, cameras, points, parameters - and constants harvested from the code.

``Consts`` walks the AST of the package and collects its numeric literals. Some cases snap their
values to (or just around) one of them: rare branches are usually guarded by a literal.
"""

import ast
import glob
import math
import os

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class Consts:
    """Numeric literals of the package, as a dictionary for generators."""

    def __init__(self):
        fl, it = set(), set()
        for path in sorted(glob.glob(os.path.join(REPO, "openptv_python", "*.py"))):
            try:
                with open(path, encoding="utf-8") as f:
                    tree = ast.parse(f.read())
            except SyntaxError:
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
                    if isinstance(node.value, bool):
                        continue
                    if isinstance(node.value, int):
                        if abs(node.value) < 1 << 31:
                            it.add(int(node.value))
                    elif math.isfinite(node.value):
                        fl.add(float(node.value))
        self.floats = sorted(fl | {float(i) for i in it})
        self.ints = sorted(it)

    def near(self, rng, lo, hi, default):
        """A harvested constant in [lo, hi] (or just beside it)."""
        c = [v for v in self.floats if lo <= v <= hi]
        if not c:
            return default
        v = c[rng.integers(len(c))]
        k = rng.integers(4)
        if k == 1:
            v += (hi - lo) * 1e-6 * rng.standard_normal()
        elif k == 2:
            v += (hi - lo) * 1e-3 * rng.standard_normal()
        return float(min(max(v, lo), hi))

    def near_int(self, rng, lo, hi):
        """A harvested integer in [lo, hi], or one beside it."""
        c = [v for v in self.ints if lo <= v <= hi]
        if not c:
            return int(rng.integers(lo, hi + 1))
        return int(min(max(c[rng.integers(len(c))] + rng.integers(-1, 2), lo), hi))


CONSTS = Consts()


def uni(rng, lo, hi, snap=0.08):
    """Uniform, sometimes an end point, zero or a harvested constant."""
    k = rng.random()
    if k < snap:
        return CONSTS.near(rng, lo, hi, float(rng.uniform(lo, hi)))
    if k < snap + 0.02:
        return float(lo)
    if k < snap + 0.04:
        return float(hi)
    if k < snap + 0.06 and lo <= 0 <= hi:
        return 0.0
    return float(rng.uniform(lo, hi))


def logu(rng, lo, hi):
    """Log-uniform."""
    return float(math.exp(rng.uniform(math.log(lo), math.log(hi))))


def unit(rng, n=3):
    """Random direction."""
    while True:
        v = rng.standard_normal(n)
        m = np.linalg.norm(v)
        if m > 1e-3:
            return v / m


def rot_to_angles(R):
    """(omega, phi, kappa) of a rotation matrix Rx(omega) Ry(phi) Rz(kappa)."""
    phi = math.asin(max(-1.0, min(1.0, R[0, 2])))
    omega = math.atan2(-R[1, 2], R[2, 2])
    kappa = math.atan2(-R[0, 1], R[0, 0])
    return omega, phi, kappa


def angles_to_rot(omega, phi, kappa):
    """Rx(omega) @ Ry(phi) @ Rz(kappa)."""
    co, so, cp, sp, ck, sk = (
        math.cos(omega), math.sin(omega), math.cos(phi), math.sin(phi), math.cos(kappa), math.sin(kappa),
    )
    rx = np.array([[1, 0, 0], [0, co, -so], [0, so, co]])
    ry = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
    rz = np.array([[ck, -sk, 0], [sk, ck, 0], [0, 0, 1]])
    return rx @ ry @ rz


def look_at(rng, cam, target, roll=None):
    """Rotation matrix whose third column points from the target to the camera."""
    z = cam - target
    z = z / np.linalg.norm(z)
    t = np.array([0.0, 1.0, 0.0]) if abs(z[1]) < 0.9 else np.array([1.0, 0.0, 0.0])
    x = np.cross(t, z)
    x /= np.linalg.norm(x)
    y = np.cross(z, x)
    a = rng.uniform(-math.pi, math.pi) if roll is None else roll
    ca, sa = math.cos(a), math.sin(a)
    return np.column_stack([ca * x + sa * y, -sa * x + ca * y, z])


def random_mm(rng, kind=None):
    """Multimedia parameters: one wall layer between camera and fluid; the lists have room for more at times."""
    mm = one_layer(rng, kind)
    if rng.random() < 0.15:
        k = int(rng.integers(1, 3))
        mm.n2 = [*mm.n2, *[0.0] * k]
        mm.d = [*mm.d, *[0.0] * k]
    return mm


def one_layer(rng, kind):
    from openptv_python.parameters import MultimediaPar

    kind = kind if kind is not None else rng.choice(["water", "water", "random", "air", "equal", "nowall"])
    if kind == "air":
        return MultimediaPar(nlay=1, n1=1.0, n2=[1.0], d=[float(rng.choice([0.0, 1.0, 6.0]))], n3=1.0)
    if kind == "equal":
        n = uni(rng, 1.0, 1.6)
        return MultimediaPar(nlay=1, n1=n, n2=[n], d=[uni(rng, 0.0, 20.0)], n3=n)
    if kind == "nowall":
        return MultimediaPar(nlay=1, n1=1.0, n2=[uni(rng, 1.3, 1.6)], d=[0.0], n3=uni(rng, 1.2, 1.5))
    if kind == "water":
        return MultimediaPar(nlay=1, n1=1.0, n2=[float(rng.choice([1.46, 1.49, 1.51, 1.52]))],
                             d=[float(rng.choice([1.0, 5.0, 6.0, 10.0, 15.0]))],
                             n3=float(rng.choice([1.33, 1.333, 1.335, 1.35])))
    if kind == "any":  # the camera may be in the densest medium
        return MultimediaPar(nlay=1, n1=uni(rng, 1.0, 1.5), n2=[uni(rng, 1.0, 1.7)], d=[uni(rng, 0.0, 30.0)],
                             n3=uni(rng, 1.0, 1.6))
    n1 = uni(rng, 1.0, 1.1)
    return MultimediaPar(nlay=1, n1=n1, n2=[uni(rng, 1.15, 1.7)], d=[uni(rng, 0.0, 30.0)], n3=uni(rng, n1, 1.6))


class Cam:
    """A camera with what the oracle needs to know about it."""

    def __init__(self, cal, target):
        self.cal = cal
        self.target = target


def set_cal(pos, R, int_par, glass, added):
    """Build a Calibration through its public setters."""
    from openptv_python.calibration import Calibration

    cal = Calibration()
    cal.set_pos(np.asarray(pos, float))
    cal.set_angles(np.array(rot_to_angles(R)))
    cal.set_primary_point(np.asarray(int_par, float))
    cal.set_glass_vec(np.asarray(glass, float))
    cal.set_added_par(np.asarray(added, float))
    return cal


def random_camera(rng, mm, axis_glass=None, max_tilt=0.7, interior=True, distortion=True, dist=None):
    """A camera outside a flat wall looking through it at a point near the origin.

    The glass vector is the normal of the wall's inner face, from the origin to that face.
    """
    d = mm.d[0]
    k = rng.random() if axis_glass is None else (0.0 if axis_glass else 1.0)
    if k < 0.4:
        g = np.array([0.0, 0.0, 1.0])
    elif k < 0.55:
        g = np.array([1e-6, 1e-5, 1.0]) * rng.uniform(-1, 1, 3)
        g[2] = 1.0
        g /= np.linalg.norm(g)
    else:
        g = unit(rng)
    gdist = float(rng.choice([uni(rng, 5.0, 100.0), uni(rng, 20.0, 60.0), 1.0]))
    glass = g * gdist
    # camera position: mostly along the normal, tilted by at most max_tilt
    t = np.cross(g, unit(rng))
    t /= max(np.linalg.norm(t), 1e-9)
    tilt = uni(rng, 0.0, max_tilt)
    r = dist if dist is not None else logu(rng, 80.0, 900.0)
    direction = math.cos(tilt) * g + math.sin(tilt) * t
    # distance of the camera beyond the outer face of the wall
    clear = gdist + d
    L = clear / max(direction @ g, 0.2) + r
    target = rng.uniform(-5, 5, 3)
    target = target - g * max(target @ g - gdist + 1.0, 0.0)
    cam = direction * L
    R = look_at(rng, cam, target)
    cc = logu(rng, 5.0, 150.0)
    xh, yh = (uni(rng, -0.5, 0.5), uni(rng, -0.5, 0.5)) if interior and rng.random() < 0.6 else (0.0, 0.0)
    added = random_added(rng, strength=distortion, reach=cc * 0.4) if distortion else np.array([0, 0, 0, 0, 0, 1.0, 0])
    cal = set_cal(cam, R, [xh, yh, cc], glass, added)
    return Cam(cal, target)


def random_added(rng, strength=True, reach=5.0, shear=True):
    """Distortion parameters that move a point at radius ``reach`` by a few percent at most."""
    a = np.array([0, 0, 0, 0, 0, 1.0, 0])
    if not strength or rng.random() < 0.25:
        return a
    s = rng.uniform(0, 0.03)
    for k in range(3):
        if rng.random() < 0.5:
            a[k] = rng.uniform(-1, 1) * s / reach ** (2 * (k + 1))
    for k in (3, 4):
        if rng.random() < 0.5:
            a[k] = rng.uniform(-1, 1) * s / reach * 0.3
    if rng.random() < 0.4:
        a[5] = rng.uniform(0.95, 1.05)
    if shear and rng.random() < 0.4:
        a[6] = rng.uniform(-0.02, 0.02)
    return a


def point_in_view(rng, cam, mm, spread=0.25, depth=None):
    """A point in the fluid, near the line of sight of the camera."""
    cal = cam.cal
    g = cal.glass_par / np.linalg.norm(cal.glass_par)
    gd = np.linalg.norm(cal.glass_par)
    pos = cal.get_pos()
    dist = np.linalg.norm(pos - cam.target)
    for _ in range(30):
        p = cam.target + unit(rng) * dist * spread * rng.random() ** 2
        if depth is not None:
            p = p - g * (p @ g - gd + depth)
        if p @ g < gd - 1e-3:
            return p
    p = cam.target
    return p - g * max(0.0, p @ g - gd + 0.5)


def random_cpar(rng, mm, num_cams=1, imx=None, imy=None, pix=None):
    """Control parameters; the pixels of a given size are higher or wider at times."""
    from openptv_python.parameters import ControlPar

    px = py = pix
    if pix and rng.random() < 0.4:
        f = rng.uniform(1.05, 1.5)
        px, py = (pix * f, pix) if rng.random() < 0.5 else (pix, pix * f)
    return ControlPar(
        num_cams=num_cams, img_base_name=[""] * num_cams, cal_img_base_name=[""] * num_cams, hp_flag=1, all_cam_flag=0,
        tiff_flag=1, imx=int(imx or rng.choice([128, 256, 640, 1000, 1280, 1281, 1024, 2048, 4096])),
        imy=int(imy or rng.choice([128, 240, 512, 1024, 1025, 1000, 2160])),
        pix_x=float(px or uni(rng, 0.003, 0.03)), pix_y=float(py or uni(rng, 0.003, 0.03)), chfield=0, mm=mm,
    )


def cal_state(cal):
    """Everything a calibration holds, as plain bytes (to see whether it was modified)."""
    return (
        np.array(cal.ext_par).tobytes(), np.array(cal.int_par).tobytes(), np.array(cal.glass_par, float).tobytes(),
        np.array(cal.added_par, float).tobytes(), np.array(cal.mmlut).tobytes(), np.array(cal.mmlut_data).tobytes(),
    )


def form(rng, a, p=0.5):
    """The same numbers in an array that lies otherwise in memory, as a user's array may."""
    a = np.asarray(a)
    if rng.random() > p:
        return a
    k = int(rng.integers(4))
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return np.repeat(a, 2, axis=0)[::2]
    if k == 2:
        return np.concatenate([np.full_like(a, 7), a, np.full_like(a, -7)], axis=-1)[..., a.shape[-1] : 2 * a.shape[-1]]
    return a[..., ::-1].copy()[..., ::-1]
