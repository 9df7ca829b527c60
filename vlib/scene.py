"""Several cameras behind one wall that faces z, particles in the fluid, and what the cameras see."""

import numpy as np

from vlib import gen, ref


def rig(rng, n, mm, tilt=(0.05, 0.6), air_like=False, tilted_wall=False, dist=None, cc=None, distortion=True, interior=True):
    """n calibrations looking at a spot below the wall. Returns (cals, wall normal, wall distance, target).

    At times every camera has a wall of its own; what is below the wall that is returned and within 60 of the axis is below them all.
    """
    g = np.array([0, 0, 1.0 if rng.random() < 0.8 else -1.0])
    if tilted_wall:
        g = g + 0.15 * rng.standard_normal(3)
        g /= np.linalg.norm(g)
    gd = gen.uni(rng, 20, 60)
    d = mm.d[0]
    target = np.array([rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(-8, 3)])
    cals = []
    a0 = rng.uniform(0, 2 * np.pi)
    base = gen.logu(rng, 15, 100)
    mean = rng.uniform(220, 450)
    own = n > 1 and rng.random() < 0.3
    for k in range(n):
        az = a0 + 2 * np.pi * k / n + rng.uniform(-0.3, 0.3)
        t = np.array([np.cos(az), np.sin(az), 0.0])
        t -= g * (t @ g)
        t /= np.linalg.norm(t)
        a = rng.uniform(*tilt)
        r = dist if dist is not None else mean * rng.uniform(0.85, 1.15)
        gk, gdk, b = g, gd, 0.0
        if own:  # turned towards its camera
            b = rng.uniform(0, a)
            gk = np.cos(b) * g + np.sin(b) * t
            gdk = gd * np.cos(b) + 60 * np.sin(b)
        pos = target + (np.cos(a) * g + np.sin(a) * t) * ((gdk + d + 12) / np.cos(a - b) + r)
        R = gen.look_at(rng, pos, target)
        c = cc if cc is not None else base * rng.uniform(0.85, 1.15)
        ip = [gen.uni(rng, -0.2, 0.2), gen.uni(rng, -0.2, 0.2), c] if interior and rng.random() < 0.5 else [0, 0, c]
        added = gen.random_added(rng, True, reach=c * 0.4) if distortion and rng.random() < 0.6 else [0, 0, 0, 0, 0, 1, 0]
        cals.append(gen.set_cal(pos, R, ip, gk * gdk, added))
    return cals, g, gd, target


def sensor(rng, cals, mm, target, half=30.0, imx=1280, imy=1024):
    """Control parameters so that a cube of that half width around the target fits on every image."""
    from openptv_python.imgcoord import image_coordinates

    c = np.array([[i, j, k] for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)]) * half + target
    for cal in cals:
        gv = cal.get_glass_vec()
        gd = np.linalg.norm(gv)
        g = gv / gd
        c = c - np.maximum(c @ g - gd + 1.0, 0.0)[:, None] * g  # stay in the fluid
    w = max(np.abs(image_coordinates(c, cal, mm)).max() for cal in cals)
    return gen.random_cpar(rng, mm, len(cals), imx, imy, pix=2.1 * w / min(imx, imy))


def volume(target, half=30.0, eps0=0.1, **kw):
    """Volume parameters around the target."""
    from openptv_python.parameters import VolumePar

    z0, z1 = target[2] - half, target[2] + half
    p = dict(cn=0.0, cnx=0.0, cny=0.0, csumg=0.0, eps0=eps0, corrmin=0.0)
    p.update(kw)
    return VolumePar(x_lay=[target[0] - 2 * half, target[0] + 2 * half], z_min_lay=[z0, z0], z_max_lay=[z1, z1], **p)


def below(vpar, g, gd, margin=1.0):
    """Keep the volume that far below the wall."""
    if g[2] > 0:
        z = min(vpar.z_max_lay[0], gd - margin)
        vpar.z_max_lay = [z, z]
    else:
        z = max(vpar.z_min_lay[0], margin - gd)
        vpar.z_min_lay = [z, z]
    return vpar.z_min_lay[0], vpar.z_max_lay[0]


def ref_flat_ray(x, y, cal, mm):
    """Reference ray through flat image point (x, y): point on the inner face, unit direction."""
    d = cal.get_rotation_matrix() @ np.array([x, y, -cal.int_par.cc])
    d /= np.linalg.norm(d)
    t = ref.trace(cal.get_pos(), d, cal.get_glass_vec(), mm.d[0], mm.n1, mm.n2[0], mm.n3)
    return None if t is None else (t[0], t[1])


def ref_flat(p, cal, mm):
    """Reference flat image coordinates of a point in the fluid (None beyond 60 degrees incidence or 45 degrees off the camera's axis)."""
    pp = cal.get_primary_point()
    x, y, s = ref.project(cal.get_pos(), cal.get_rotation_matrix(), pp[0], pp[1], pp[2], cal.get_glass_vec(),
                          mm.d[0], mm.n1, mm.n2[0], mm.n3, p)
    return (x, y) if s < 0.86 and np.hypot(x, y) < pp[2] else None


def targets_of(rng, pts, cal, cpar, features, noise=0.0, order=None):
    """Target list of one camera (pnr = index), and which particle each one is."""
    from openptv_python.imgcoord import img_coord
    from openptv_python.tracking_frame_buf import Target
    from openptv_python.trafo import metric_to_pixel

    order = rng.permutation(len(pts)) if order is None else order
    out = []
    for k, who in enumerate(order):
        x, y = metric_to_pixel(*img_coord(pts[who], cal, cpar.mm), cpar)
        n, nx, ny, sg = features[who]
        out.append(Target(pnr=k, x=float(x + noise * rng.standard_normal()), y=float(y + noise * rng.standard_normal()), n=int(n), nx=int(nx), ny=int(ny), sumg=int(sg), tnr=-1))
    return out, np.array(order)
