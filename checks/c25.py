"""The whole chain, from images to trajectories: what is in the scene is what is in the files at the end.

Images are rendered by own optics and sensor model; everything from there on is the code under test, the way a user strings it
together: recognition, sorting, matched coordinates, correspondence, positions, files, tracking forward and back.
"""

import copy
import os
import shutil

import numpy as np

from checks.c10 import far, segment
from vlib import gen, ref, scene
from vlib import tracks as tk
from vlib.core import Family, Skip
from openptv_python import track as tr
from openptv_python.constants import COORD_UNUSED
from openptv_python.correspondences import py_correspondences
from openptv_python.orientation import full_calibration, point_positions
from openptv_python.parameters import OrientPar, SequencePar, TargetPar, TrackPar
from openptv_python.segmentation import target_recognition
from openptv_python.sortgrid import sortgrid
from openptv_python.tracking_frame_buf import Corres_dtype, Pathinfo, match_coords, read_targets, sort_target_y, write_path_frame, write_targets
from openptv_python.trafo import dist_to_flat, pixel_to_metric

PROPERTY = "C25"
RULE = (
    "two to four cameras, 1 to 12 particles on smooth paths well apart, 4 to 6 frames; 8-bit images rendered by own optics; recognition, matching, positions, files, tracking "
    "forward and back by the code under test; some scenes with cameras calibrated from images of a body of known points. Non-trivial: a scene with a path over all "
    "frames; distinct by the paths"
)
ASSUMPTIONS = [
    "scenes that leave no doubt: spots at least 16 pixels apart, no second candidate on an epipolar line, particles further apart than nine steps",
    "a link may be missing where a search window holds more than four targets or a camera does not see the particle",
]
TP = dict(discont=200, nnmin=3, nnmax=400, nxmin=2, nxmax=40, nymin=2, nymax=40, sumg_min=30, cr_sz=2)


def pixel(p, cal, cpar, mm):
    """Where a point is on the image, by own formulas (None where it is seen too obliquely)."""
    f = scene.ref_flat(p, cal, mm)
    if f is None:
        return None
    a, ip = cal.added_par, cal.int_par
    x, y = ref.brown(f[0] + ip.xh, f[1] + ip.yh, list(a))
    return np.array([cpar.imx / 2 + x / cpar.pix_x, cpar.imy / 2 - y / cpar.pix_y])


def render(rng, cpar, spots, grain):
    """8-bit image with gaussian spots (x, y, sigma, amplitude) or even ones (x, y, (width, height), amplitude) over some grain."""
    img = np.zeros((cpar.imy, cpar.imx))
    for x, y, s, a in spots:
        if isinstance(s, tuple):
            x0, y0 = round(x - s[0] / 2), round(y - s[1] / 2)
            img[y0 : y0 + s[1], x0 : x0 + s[0]] += a - grain / 2
            continue
        x0, y0, r = int(x), int(y), 10
        ys, xs = slice(max(y0 - r, 0), max(y0 + r + 1, 0)), slice(max(x0 - r, 0), max(x0 + r + 1, 0))
        yy, xx = np.mgrid[ys, xs][:, : img.shape[0], : img.shape[1]] + 0.5
        part = a * np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / (2 * s * s))
        img[ys, xs] += part[: img[ys, xs].shape[0], : img[ys, xs].shape[1]]
    if grain:
        img += rng.integers(0, grain, img.shape)
    return np.clip(np.round(img), 0, 255).astype(np.uint8)


def detect(rng, img, cpar, cam, cal, th, small=False):
    """Targets of an image, in y order, numbered by place; with the matched coordinates."""
    tp = TargetPar(gvthresh=[th if c == cam else 255 for c in range(4)], **(dict(TP, nnmin=1, nxmin=1, nymin=1) if small else TP))
    t = sort_target_y(target_recognition(img, tp, cam, cpar))
    mc = match_coords(t, cpar, cal, 1e-6, True)
    return t, mc


class Show:
    """Particles on smooth paths that leave no doubt."""


def build(rng, dots=False):
    s = Show()
    s.kind = "images"
    s.dots = dots
    s.cams = int(rng.choice([2, 3, 3, 4, 4]))
    s.mm = gen.random_mm(rng, str(rng.choice(["water", "random", "air"])))
    s.cals, g, gd, target = scene.rig(rng, s.cams, s.mm, tilted_wall=rng.random() < 0.2, tilt=(0.25, 0.6) if s.cams == 2 else (0.15, 0.6))
    half = rng.uniform(8, 18)
    imx, imy = (int(v) for v in [(640, 512), (512, 640), (500, 500), (641, 479)][int(rng.integers(4))])
    s.cpar = scene.sensor(rng, s.cals, s.mm, target, half * 1.5, imx, imy)
    s.cpar.all_cam_flag = 0
    s.T = int(rng.integers(4, 7))
    s.first = int(rng.choice([1, 10, 998, 99997]))
    s.last = s.first + s.T - 1
    s.spar = SequencePar([], s.first, s.last)
    eps = (2.4 if dots else 1.2) * max(s.cpar.pix_x, s.cpar.pix_y)
    s.vpar = scene.volume(target, half * 1.4, eps0=eps)
    z0, z1 = scene.below(s.vpar, g, gd)
    s.step = step = half * rng.uniform(0.02, 0.05)
    flow = gen.unit(rng) * step * 0.5
    m = int(rng.choice([1, 2, 4, 8, 12]))
    tracks, flats, pix, sizes = [], [], [], []
    for _ in range(8 * m):
        p = np.zeros((s.T, 3))
        p[0] = target + rng.uniform(-1, 1, 3) * half
        v = flow + gen.unit(rng) * step * rng.uniform(0.2, 0.5)
        for t in range(1, s.T):
            p[t] = p[t - 1] + v
            v = v + 0.05 * step * rng.standard_normal(3)
        if (p @ g - gd + 1.5).max() > 0 or p[:, 2].min() < z0 + 0.5 or p[:, 2].max() > z1 - 0.5:
            continue
        if any(np.linalg.norm(p[:, None] - q[None], axis=2).min() < 9 * step for q in tracks):
            continue
        fl = [[scene.ref_flat(x, c, s.mm) for c in s.cals] for x in p]
        if any(f is None for row in fl for f in row):
            continue
        px = np.array([[pixel(x, c, s.cpar, s.mm) for c in s.cals] for x in p])
        if px.min() < 12 or (px[..., 0] > imx - 12).any() or (px[..., 1] > imy - 12).any():
            continue
        size = tuple(int(v) for v in rng.choice([1, 1, 2, 3, 4, 5], 2))
        if dots:  # a dot fills whole pixels
            px = np.round(px - np.array(size) / 2) + np.array(size) / 2
        if any(np.linalg.norm(px - q, axis=2).min() < 16 for q in pix):
            continue
        if unclear(s, fl, flats, eps):
            continue
        tracks.append(p)
        flats.append(fl)
        pix.append(px)
        sizes.append(size)
        if len(tracks) >= m:
            break
    if not tracks:
        raise Skip()
    s.true, s.pix, s.sizes = np.array(tracks), np.array(pix), sizes  # [particle, frame, ...]
    r = 1.6 * step
    s.reach = r
    s.tpar = TrackPar(-r, r, -r, r, -r, r, dangle=120.0, dacc=r, add=int(rng.random() < 0.5))
    return s


def unclear(s, fl, flats, eps):
    for t in range(s.T):
        for a in range(s.cams):
            for b in range(a + 1, s.cams):
                own = segment(np.array(fl[t][a]), s.cals[a], s.cals[b], s.mm, s.vpar)
                if far(np.array(fl[t][b]), *own) > 0.6 * eps:
                    return True
                for other in flats:
                    if far(np.array(other[t][b]), *own) < (1.9 if s.dots else 1.5) * eps:
                        return True
                    if far(np.array(fl[t][b]), *segment(np.array(other[t][a]), s.cals[a], s.cals[b], s.mm, s.vpar)) < (1.9 if s.dots else 1.5) * eps:
                        return True
    return False


def calibrated(ctx, rng, s):
    """Cameras as found from images of a body of known points, instead of the true ones."""
    out = []
    c0 = s.true.reshape(-1, 3).mean(axis=0)
    for c, cal in enumerate(s.cals):
        pts, px = [], []
        for _ in range(600):
            p = c0 + rng.uniform(-1, 1, 3) * max(np.ptp(s.true.reshape(-1, 3), axis=0).max(), 12.0) * 0.8
            g = cal.get_glass_vec()
            if p @ g / np.linalg.norm(g) > np.linalg.norm(g) - 1:
                continue
            q = pixel(p, cal, s.cpar, s.mm)
            if q is None or q.min() < 12 or q[0] > s.cpar.imx - 12 or q[1] > s.cpar.imy - 12:
                continue
            if all(np.linalg.norm(q - o) > 26 for o in px):
                pts.append(p)
                px.append(q)
            if len(pts) >= 60:
                break
        if len(pts) < 20:
            raise Skip()
        img = render(rng, s.cpar, [(*q, 1.3, 200) for q in px], 8)
        targets, _ = detect(rng, img, s.cpar, c, cal, 20)
        ref_pts = np.array(pts)
        for size in (1.0, 0.5, 0.2, 0.05):
            start = copy.deepcopy(cal)
            start.set_pos(cal.get_pos() + 0.3 * size * rng.standard_normal(3))
            start.set_angles(cal.get_angles() + 0.002 * size * rng.standard_normal(3))
            # the start must put each point nearest to its own detection
            seen = [pixel(p, start, s.cpar, s.mm) for p in pts]
            if all(w is not None and np.linalg.norm(w - q) < 9 for w, q in zip(seen, px)):
                break
        else:
            raise Skip()
        srt = sortgrid(start, s.cpar, len(pts), ref_pts, 12, targets)
        for k, t in enumerate(srt):
            ctx.check(t.pnr == k and np.hypot(t.x - px[k][0], t.y - px[k][1]) < 0.3, "body:sorted", lambda: f"known point {k} at {px[k]} got the detection {t}")
        try:
            full_calibration(start, ref_pts, srt, s.cpar, OrientPar())
        except ValueError:
            ctx.seen("not converged")
            raise Skip() from None
        # what the camera found sees is what the camera sees
        for p, q in zip(pts, px):
            w = pixel(p, start, s.cpar, s.mm)
            ctx.check(w is not None and np.linalg.norm(w - q) < 0.5, "body:fit", lambda: f"known point at {q} is at {w} for the calibrated camera")
        out.append(start)
        ctx.seen("cameras calibrated")
    return out


def frame(ctx, rng, s, t, cals, th, grain, feats):
    """Images of one frame, up to the files. Returns which particle each row of the file is, targets per camera."""
    f = s.first + t
    m = len(s.true)
    targs, mcs = [], []
    for c in range(s.cams):
        img = render(rng, s.cpar, [(*s.pix[k, t, c], *feats[k]) for k in rng.permutation(m)], grain)
        keep = img.copy()
        ts, mc = detect(rng, img, s.cpar, c, cals[c], th, s.dots)
        ctx.check(np.array_equal(img, keep), "image", "the image was modified")
        ctx.check(len(ts) == m, "spots", lambda: f"{len(ts)} targets for {m} spots")
        targs.append(ts)
        mcs.append(mc)
    who = []
    for c in range(s.cams):
        row = []
        for q in targs[c]:
            d = np.hypot(s.pix[:, t, c, 0] - q.x, s.pix[:, t, c, 1] - q.y)
            k = int(d.argmin())
            ctx.stat("spot_offset", d[k])
            if s.dots:  # nothing else in its pixels but some even grain: the centre is the centre of the dot
                ctx.stat("dot_offset", d[k])
                ctx.check(d[k] < (0.02 if not grain else 0.25), "place", lambda: f"target at {(q.x, q.y)} is {d[k]:.3f} pixels from the centre of the nearest dot")
                ctx.seen("dots")
                row.append(k)
                continue
            ctx.stat("spot_offset", d[k])
            ctx.check(d[k] < 0.25, "place", lambda: f"target at {(q.x, q.y)} is {d[k]:.3f} pixels from the nearest spot")
            row.append(k)
        ctx.check(sorted(row) == list(range(m)), "once", lambda: f"targets of camera {c} are of the particles {row}")
        who.append(row)
        ctx.seen("spots", m)
    pos, ids, total = py_correspondences(targs, mcs, cals, s.vpar, s.cpar)
    p = np.concatenate([q.transpose(1, 0, 2) for q in pos])
    n = np.concatenate([q.T for q in ids])
    ctx.check(len(p) == m, "matches", lambda: f"{len(p)} matches of {m} particles, numbers {[q.shape[1] for q in ids]}")
    flat = np.full((m, s.cams, 2), COORD_UNUSED)
    rows = []
    for r in range(m):
        mine = {who[c][n[r, c]] for c in range(s.cams) if n[r, c] >= 0}
        ctx.check(len(mine) == 1 and (n[r] >= 0).all(), "mixed", lambda: f"match {n[r]} is of particles {mine}")
        rows.append(mine.pop())
        for c in range(s.cams):
            flat[r, c] = dist_to_flat(*pixel_to_metric(p[r, c, 0], p[r, c, 1], s.cpar), cals[c], 1e-6)
            ctx.check(targs[c][n[r, c]].tnr == r, "tnr", lambda: f"target {n[r, c]} of camera {c} says it belongs to {targs[c][n[r, c]].tnr}, its match is number {r}")
    ctx.check(sorted(rows) == list(range(m)), "all", "not every particle is in a match")
    xyz, conv = point_positions(flat, s.mm, cals, s.vpar)
    off = np.linalg.norm(xyz - s.true[rows, t], axis=1)
    ctx.check(bool((off < s.tol).all()), "position", lambda: f"particles placed {off.max()} away from where they are", allowed=s.tol, calibrated=cals is not s.cals)
    ctx.stat("position_offset", off.max())
    ctx.stat("position_offset_calibrated" if cals is not s.cals else "position_offset_pixels", off.max() / s.scale)
    ctx.seen("positions", m)
    # the files
    cor = np.recarray(m, dtype=Corres_dtype)
    cor.nr = np.arange(1, m + 1)
    cor.p = -1
    paths = []
    for r in range(m):
        for c in range(s.cams):
            cor[r].p[c] = n[r, c]
        paths.append(Pathinfo(x=xyz[r].copy()))
    ctx.check(bool(write_path_frame(cor, paths, m, os.path.join(s.dir, "rt_is"), os.path.join(s.dir, "ptv_is"), "", f)), "write", "the positions could not be written")
    for c in range(s.cams):
        ctx.check(bool(write_targets(targs[c], m, s.bases[c], f)), "write", "the targets could not be written")
        back = read_targets(s.bases[c], f)
        ctx.check(len(back) == m and all(a.pnr == b.pnr and a.tnr == b.tnr and max(abs(a.x - b.x), abs(a.y - b.y)) < 5.1e-5 for a, b in zip(targs[c], back)), "target file",
                  lambda: f"targets of camera {c} in the files {back[:3]}, should be {targs[c][:3]}")
    return rows


def crowded(s, t, x):
    """More than four particles in the search window of a camera around x."""
    if not 0 <= t < s.T:
        return False
    for c in range(s.cams):
        q = [pixel(x + 1.2 * s.reach * np.array([a, b, d]), s.cals[c], s.cpar, s.mm) for a in (-1, 1) for b in (-1, 1) for d in (-1, 1)]
        if any(v is None for v in q):
            return True
        lo, hi = np.min(q, axis=0) - 5, np.max(q, axis=0) + 5
        if lo.min() < 1 or hi[0] > s.cpar.imx - 1 or hi[1] > s.cpar.imy - 1 or ((s.pix[:, t, c] > lo) & (s.pix[:, t, c] < hi)).all(axis=1).sum() > 4:
            return True
    return False


def chain(ctx, rng, i, calibrate=False, dots=False):
    s = build(rng, dots)
    m = len(s.true)
    s.dir = os.path.join(ctx.scratch, "chain")
    shutil.rmtree(s.dir, ignore_errors=True)
    os.makedirs(s.dir)
    s.bases = [os.path.join(s.dir, f"cam{c + 1}." + str(rng.choice(["%05d", "%d", "#"]))) for c in range(s.cams)]
    s.spar.img_base_name = list(s.bases)
    # some tenths of a pixel at the scene
    scale = max(np.linalg.norm(c.get_pos() - s.true[0, 0]) / c.int_par.cc for c in s.cals) * max(s.cpar.pix_x, s.cpar.pix_y)
    cals, s.scale = s.cals, scale
    s.tol = (3.0 if dots else 0.3) * scale + 0.005
    if calibrate:
        cals = calibrated(ctx, rng, s)
        s.tol = 0.6 * scale + 0.01
        s.vpar.eps0 *= 1.4  # scenes are clear up to 1.5 of it
    if s.tol > 0.4 * s.step and m > 1:
        ctx.seen("coarse")
    th, grain = int(rng.integers(12, 30)), int(rng.choice([0, 4, 10]))
    feats = [(rng.uniform(1.0, 1.8), rng.uniform(120, 230)) for _ in range(m)]
    if dots:
        feats = [(z, rng.uniform(150, 230)) for z in s.sizes]
    who = [frame(ctx, rng, s, t, cals, th, grain, feats) for t in range(s.T)]
    s.cals, true_cals = cals, s.cals
    run = tk.new_run(s, by_files=rng.random() < 0.3)
    tr.track_forward_start(run)
    for f in range(s.first, s.last):
        tr.trackcorr_c_loop(run, f)
    tr.trackcorr_c_finish(run, s.last)
    s.cals = true_cals
    out = tk.read_result(s)
    full = judge(ctx, s, out, who, m, "forward")
    s.cals = cals
    back = tk.new_run(s)
    tr.trackback_c(back)
    s.cals = true_cals
    after = tk.read_result(s)
    for t in range(s.T):
        for h in range(m):
            a, b = out[t]["ptv"][h], after[t]["ptv"][h]
            ctx.check(a[1] == b[1] or a[1] < 0, "back:next", lambda: f"frame {s.first + t}: tracking back changed the next of particle {h} from {a[1]} to {b[1]}")
            ctx.check(a[0] == b[0] or a[0] < 0, "back:previous", lambda: f"frame {s.first + t}: tracking back changed the previous of particle {h} from {a[0]} to {b[0]}")
    judge(ctx, s, after, who, m, "back")
    if full:
        ctx.sig(s.true)
    ctx.seen("scenes")
    ctx.seen(f"scenes{s.cams}")
    if calibrate:
        ctx.seen("calibrated scenes")
    ctx.sample(cameras=s.cams, particles=m, frames=s.T, paths=full)


def judge(ctx, s, out, who, m, how):
    """The files against the truth. Returns how many particles were followed all the way."""
    broken = set()
    for t in range(s.T):
        o = out[t]
        ctx.check(len(o["ptv"]) == m and len(o["rt"]) == m, "rows", lambda: f"frame {s.first + t} has {len(o['ptv'])} rows after tracking {how}, there are {m} particles")
        for h in range(m):
            k = who[t][h]
            ctx.check(np.linalg.norm(np.array(o["ptv"][h][2:5]) - s.true[k, t]) < s.tol + 0.002, "file position", lambda: f"row {h} of frame {s.first + t} is not where its particle is")
            prev, nxt = int(o["ptv"][h][0]), int(o["ptv"][h][1])
            if t == 0:
                ctx.check(prev == -1, "start", "a particle of the first frame has a predecessor")
            if nxt >= 0:
                ctx.check(t + 1 < s.T and nxt < m and who[t + 1][nxt] == k, "false link", lambda: f"frame {s.first + t}: particle {k} is linked to another one")
                ctx.check(int(out[t + 1]["ptv"][nxt][0]) == h, "one sided", "a link is not mutual")
                ctx.seen("links")
            elif t + 1 < s.T:
                broken.add(k)
                x0, x1 = s.true[k, t], s.true[k, t + 1]
                if crowded(s, t + 1, x0) or crowded(s, t + 1, x1) or crowded(s, t + 2, 2 * x1 - x0) or s.tol > 0.2 * s.step:
                    ctx.seen("crowded or coarse")
                    continue
                ctx.check(False, "missing link", lambda: f"frame {s.first + t}: particle {k} is not linked to itself in the next frame after tracking {how}")
            if how == "back" and t > 0:
                ctx.check(prev < 0 or who[t - 1][prev] == k, "false link", "a path was joined to another particle")
    ctx.seen("whole paths", m - len(broken))
    return m - len(broken)


def with_calibration(ctx, rng, i):
    chain(ctx, rng, i, calibrate=True)


def with_dots(ctx, rng, i):
    chain(ctx, rng, i, dots=True)


def warm(ctx):
    rng = np.random.default_rng(7)
    for _ in range(3):
        try:
            chain(ctx, rng, 0)
        except Exception:
            pass
    try:
        with_calibration(ctx, rng, 0)
    except Exception:
        pass


FAMILIES = [Family("chain", chain, 64, 2500), Family("dots", with_dots, 24, 900), Family("calibrated", with_calibration, 20, 700)]
MONITORS = {"scenes": 35, "calibrated scenes": 8, "cameras calibrated": 24, "spots": 3000, "positions": 900, "links": 1400, "whole paths": 350, "scenes2": 4, "scenes3": 10, "scenes4": 10}
