"""From images of particles to matches and positions: everything that is unambiguous is found."""

import copy

import numpy as np

from vlib import gen, scene
from vlib.core import Family, Skip
from openptv_python.constants import COORD_UNUSED
from openptv_python.correspondences import correspondences, py_correspondences
from openptv_python.orientation import point_positions
from openptv_python.tracking_frame_buf import Frame, get_by_pnrs, match_coords, matched_coords_as_arrays
from openptv_python.trafo import dist_to_flat, pixel_to_metric

PROPERTY = "C10"
RULE = (
    "two to four cameras, 1 to 30 particles of which each camera sees a random subset, image positions exact or noisy by a "
    "fraction of the search width; scenes where some target has a second candidate are left out. Non-trivial: a scene with "
    "a particle seen by at least two cameras; distinct by the targets"
)
ASSUMPTIONS = ["a scene is unambiguous when, by reference geometry, each target is within 0.7 eps0 of the lines of its own particle and beyond 1.4 eps0 of the windows of all others"]


def segment(o, cal1, cal2, mm, vpar):
    t = scene.ref_flat_ray(o[0], o[1], cal1, mm)
    if t is None or abs(t[1][2]) < 0.1:
        raise Skip()
    p, d = t
    ends = []
    for z in (vpar.z_min_lay[0], vpar.z_max_lay[0]):
        e = scene.ref_flat(p + d * (z - p[2]) / d[2], cal2, mm)
        if e is None:
            raise Skip()
        ends.append(np.array(e))
    return ends


def far(q, a, b):
    """Distance beyond the search window around the segment, in the sense of the search."""
    L = np.hypot(*(b - a))
    d = abs((b - a)[0] * (q - a)[1] - (b - a)[1] * (q - a)[0]) / max(L, 1e-12)
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    return max(d, *(lo - q), *(q - hi))


def build(rng, n, m):
    mm = gen.random_mm(rng)
    cals, g, gd, target = scene.rig(rng, n, mm, tilt=(0.25, 0.6))
    half = rng.uniform(10, 18)
    cpar = scene.sensor(rng, cals, mm, target, half=half + 5)
    noise = float(rng.choice([0.0, 0.0, 0.1]))
    eps = cpar.pix_x * (1.0 + 5 * noise)
    depth = half + 3
    vpar = scene.volume(target, half=depth, eps0=eps, cn=0.02, cnx=0.02, cny=0.02, csumg=0.02, corrmin=0.0)
    z0, z1 = scene.below(vpar, g, gd)
    pts = []
    flats = []
    curved = 0.0

    def ok(fl):
        nonlocal curved
        # against itself and all others, both ways
        for a in range(n):
            for b in range(n):
                if a >= b:
                    continue
                s = segment(fl[a], cals[a], cals[b], mm, vpar)
                d = far(fl[b], *s)
                if d > 0.7 * eps - 3 * noise * cpar.pix_x:
                    return False
                for other in flats:
                    if far(other[b], *s) < 1.4 * eps + 3 * noise * cpar.pix_x:
                        return False
                    s2 = segment(other[a], cals[a], cals[b], mm, vpar)
                    if far(fl[b], *s2) < 1.4 * eps + 3 * noise * cpar.pix_x:
                        return False
        return True

    for _ in range(6 * m):
        p = target + rng.uniform(-half, half, 3)
        h = p @ g - gd + 1.5
        if h > 0 or not vpar.z_min_lay[0] < p[2] < z1:
            continue
        fl = [scene.ref_flat(p, c, mm) for c in cals]
        if any(f is None for f in fl):
            continue
        fl = [np.array(f) for f in fl]
        if ok(fl):
            pts.append(p)
            flats.append(fl)
        if len(pts) >= m:
            break
    if not pts:
        raise Skip()
    return mm, cals, cpar, vpar, np.array(pts), noise


def scene_case(ctx, rng, i):
    n = 2 + i % 3
    m = int(rng.choice([1, 2, 5, 12, 30]))
    mm, cals, cpar, vpar, pts, noise = build(rng, n, m)
    m = len(pts)
    hide = rng.choice([0.0, 0.15, 0.5])
    sees = rng.random((n, m)) >= hide
    # the target features: alike in all cameras
    feats = [(int(rng.integers(9, 60)), int(rng.integers(3, 9)), int(rng.integers(3, 9)), int(rng.integers(300, 6000))) for _ in range(m)]
    targs, who = [], []
    for c in range(n):
        keep = np.flatnonzero(sees[c])
        t, w = scene.targets_of(rng, pts[keep], cals[c], cpar, [feats[k] for k in keep], noise=0.0)
        for q in t:
            q.x += noise * rng.uniform(-1, 1)
            q.y += noise * rng.uniform(-1, 1)
            if not (0 <= q.x < cpar.imx and 0 <= q.y < cpar.imy):
                raise Skip()
        targs.append(t)
        who.append([int(keep[k]) for k in w])
    if max(len(t) for t in targs) == 0:
        raise Skip()
    corrected = [match_coords(t, cpar, cals[c], 1e-6) for c, t in enumerate(targs)]
    for c in range(n):
        xs = corrected[c].x
        ctx.check(bool(np.all(np.diff(xs) >= 0)), "coords:sorted", "matched coordinates are not in x order")
        ctx.check(sorted(corrected[c].pnr.tolist()) == list(range(len(targs[c]))), "coords:pnr", "matched coordinates name each target once")
        pos, pnr = matched_coords_as_arrays(corrected[c])
        for k in range(len(targs[c])):
            t = targs[c][pnr[k]]
            ctx.close(pos[k], dist_to_flat(*pixel_to_metric(t.x, t.y, cpar), cals[c], 1e-6), 1e-9, "coords:value", "flat coordinates of a target")
        pick = rng.permutation(len(targs[c]))[: int(rng.integers(0, 5))]
        got = get_by_pnrs(corrected[c], pick)
        for k, q in enumerate(pick):
            ctx.close(got[k], pos[list(pnr).index(q)], 0, "coords:bypnr", "position asked for by target number")
        # numbers that are not the places in the list
        perm = rng.permutation(len(targs[c]))
        mixed = match_coords([targs[c][k] for k in perm], cpar, cals[c], 1e-6)
        ctx.check(all(np.array_equal(mixed[f], corrected[c][f]) for f in ("x", "y", "pnr")), "coords:order", "coordinates depend on the order of the targets")
        if rng.random() < 0.3:
            other = [copy.copy(t) for t in targs[c]]
            for t in other:
                t.pnr = 3 * t.pnr + 7
            named = match_coords(other, cpar, cals[c], 1e-6)
            ctx.check(np.array_equal(named.pnr, 3 * corrected[c].pnr + 7) and np.array_equal(named.x, corrected[c].x), "coords:names", "matched coordinates carry the number of their target")
            again = match_coords([other[k] for k in perm], cpar, cals[c], 1e-6, True)
            ctx.check([other[k].pnr for k in perm] == list(range(len(perm))) and sorted(again.pnr.tolist()) == list(range(len(perm)))
                      and np.array_equal(again.x, corrected[c].x), "coords:renumber", "renumbering names targets by their place")
        ctx.seen("coords", len(targs[c]))
    cpar.all_cam_flag = 0
    frm = Frame(n, 20480)
    for c in range(n):
        frm.num_targets[c] = len(targs[c])
        frm.targets[c] = targs[c]
    mc = [0] * 4
    con = correspondences(frm, corrected, vpar, cpar, cals, mc)
    rows = [tuple(int(v) for v in con[k].p[:n]) for k in range(int(mc[3]))]
    found = {}
    for r in rows:
        ids = {who[c][corrected[c][p].pnr] for c, p in enumerate(r) if p >= 0}
        ctx.check(len(ids) == 1, "scene:mixed", lambda: f"a match joins particles {ids}", cameras=n)
        found[ids.pop()] = sum(p >= 0 for p in r)
    for k in range(m):
        cnt = int(sees[:, k].sum())
        want = cnt if cnt >= 2 else 0
        ctx.check(found.get(k, 0) == want, "scene:missed", lambda: f"particle {k}, seen by {cnt} of {n} cameras, is in a match of {found.get(k, 0)}",
                  cameras=n, particle=pts[k], counts=mc, eps0=vpar.eps0, pixel=cpar.pix_x)
        ctx.seen("particles_found", want > 0)
        ctx.seen("particles_left", want == 0)
    ctx.check(len(rows) == int((sees.sum(0) >= 2).sum()), "scene:count", "number of matches")
    # on to positions, as the documentation does it
    spos, sids, num = py_correspondences(targs, corrected, cals, vpar, cpar)
    placed = 0
    for pix, ids in zip(spos, sids):
        cnt = ids.shape[1]
        if cnt == 0:
            continue
        t2 = np.full((cnt, n, 2), COORD_UNUSED)
        for r in range(cnt):
            for c in range(n):
                if ids[c, r] >= 0:
                    t2[r, c] = dist_to_flat(*pixel_to_metric(pix[c, r, 0], pix[c, r, 1], cpar), cals[c], 1e-6)
        t2 = gen.form(rng, t2)
        res, rcm = point_positions(t2, mm, cals, vpar)
        for r in range(cnt):
            k = {who[c][ids[c, r]] for c in range(n) if ids[c, r] >= 0}.pop()
            used = [c for c in range(n) if ids[c, r] >= 0]
            scale = max(np.linalg.norm(cals[c].get_pos() - pts[k]) / cals[c].int_par.cc for c in used) * cpar.pix_x
            tol = 0.02 + 8 * (noise + 0.01) * scale
            ctx.close(res[r], pts[k], tol, "scene:position", "position of a particle", particle=pts[k], cameras=used, noise=noise)
            placed += 1
    ctx.check(placed == len(rows), "scene:placed", "every match has a position")
    ctx.seen("positions", placed)
    ctx.seen(f"scenes{n}")
    if len(rows):
        ctx.sig(n, rows, pts)
    ctx.sample(cameras=n, particles=m, counts=[int(v) for v in mc], seen_by=sees.sum(0))


def warm(ctx):
    rng = np.random.default_rng(5)
    for n in range(4):
        try:
            scene_case(ctx, rng, 2)
        except Exception:
            pass


FAMILIES = [Family("scene", scene_case, 210, 8000)]
MONITORS = {"particles_found": 350, "particles_left": 20, "positions": 350, "coords": 900, "scenes2": 20, "scenes3": 20, "scenes4": 20}
