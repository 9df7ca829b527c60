"""Known points get their nearest detection; the files that hold known points."""

import copy
import os

import numpy as np

from vlib import gen, scene
from vlib.core import Family, Skip
from openptv_python.constants import PT_UNUSED, SORTGRID_EPS
from openptv_python.imgcoord import img_coord
from openptv_python.orientation import match_detection_to_ref, read_man_ori_fix
from openptv_python.orientation import read_calblock as read_calblock_array
from openptv_python.sortgrid import nearest_neighbour_pix, read_calblock, read_sortgrid_par, sortgrid
from openptv_python.tracking_frame_buf import Target
from openptv_python.trafo import metric_to_pixel

PROPERTY = "C13"
RULE = (
    "a camera, 1 to 60 known points of which some project beside the image, detections near none, one or several of them, in any "
    "order, with clutter; radii from 0 to 200 pixels. Non-trivial: at least one point gets a detection; distinct by the pairs"
)
ASSUMPTIONS = ["the radius is a box of that half width in pixels, excluding its border; the nearest is by distance, the first of equals"]


def fields(t):
    return (t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr)


def nearest(pix, x, y, eps):
    best, who = np.inf, PT_UNUSED
    for k, t in enumerate(pix):
        if abs(t.x - x) < eps and abs(t.y - y) < eps:
            d = np.hypot(t.x - x, t.y - y)
            if d < best:
                best, who = d, k
    return who, best


def clear(pix, x, y, eps):
    """Neither the border of the box nor a tie decides."""
    d = sorted(np.hypot(t.x - x, t.y - y) for t in pix if abs(t.x - x) < eps + 1e-6 and abs(t.y - y) < eps + 1e-6)
    near = any(abs(abs(v) - eps) < 1e-7 for t in pix for v in (t.x - x, t.y - y))
    tie = len(d) > 1 and d[1] - d[0] < 1e-9 * (1 + d[0])
    return not near and not tie


def sort(ctx, rng, i):
    mm = gen.random_mm(rng)
    cals, g, gd, target = scene.rig(rng, 1, mm, tilted_wall=rng.random() < 0.5)
    cal = cals[0]
    cpar = scene.sensor(rng, cals, mm, target, half=20)
    m = int(rng.choice([1, 2, 10, 30, 60]))
    half = rng.choice([10, 20, 40])
    pts = target + rng.uniform(-half, half, (m, 3))
    if m > 3 and rng.random() < 0.3:
        pts[1] = pts[0] + 1e-3  # two points, one detection
    h = np.maximum(pts @ g - gd + 1.0, 0)
    pts = pts - h[:, None] * g
    px = np.array([metric_to_pixel(*img_coord(p, cal, mm), cpar) for p in pts])
    eps = int(rng.choice([0, 1, 3, 10, 25, 120, 200]))
    if rng.random() < 0.2:
        eps += float(rng.choice([0.25, 0.5, 0.9]))
    pix = []
    for k in range(m):
        for _ in range(int(rng.choice([0, 1, 1, 1, 2]))):
            s = float(rng.choice([0.1, 1.0, 10.0, 60.0]))
            pix.append(px[k] + s * rng.standard_normal(2))
    for _ in range(int(rng.integers(0, 12))):
        pix.append(np.array([rng.uniform(-5, cpar.imx + 5), rng.uniform(-5, cpar.imy + 5)]))
    rng.shuffle(pix)
    dets = [Target(pnr=int(rng.choice([k, 0, -999, 7])), x=float(p[0]), y=float(p[1]), n=int(rng.integers(1, 99)), nx=int(rng.integers(1, 9)),
                   ny=int(rng.integers(1, 9)), sumg=int(rng.integers(9, 9999)), tnr=int(rng.choice([-1, 3]))) for k, p in enumerate(pix)]
    before, pts0, state = [fields(t) for t in dets], pts.copy(), gen.cal_state(cal)
    if rng.random() < 0.5:
        out = sortgrid(cal, cpar, m, pts, eps, dets)
    else:
        out = match_detection_to_ref(cal, pts, dets, cpar, eps)
    data = dict(points=m, detections=len(dets), eps=eps)
    ctx.check([fields(t) for t in dets] == before and np.array_equal(pts, pts0) and gen.cal_state(cal) == state, "sort:inputs", "detections, points or calibration were modified", **data)
    ctx.check(len(out) == m, "sort:length", lambda: f"{len(out)} entries for {m} points", **data)
    got = []
    for k in range(m):
        x, y = px[k]
        edges = [x + eps, y + eps, x - cpar.imx - eps, y - cpar.imy - eps]
        if min(abs(e) for e in edges) < 1e-6 or not clear(dets, x, y, eps):
            ctx.seen("undecided")
            continue
        inside = x > -eps and y > -eps and x < cpar.imx + eps and y < cpar.imy + eps
        who, dist = nearest(dets, x, y, eps) if inside else (PT_UNUSED, 0)
        t = out[k]
        if who == PT_UNUSED:
            ctx.check(t.pnr == PT_UNUSED, "sort:none", lambda: f"point {k} at {(x, y)} has no detection within {eps}, got {t}", **data)
            ctx.seen("points_without")
            ctx.seen("points_outside", not inside)
        else:
            ctx.check(t.pnr == k and fields(t)[1:] == before[who][1:], "sort:nearest",
                      lambda: f"point {k} at {(x, y)}: got {t}, nearest detection is {dets[who]} at {dist}", **data)
            got.append((k, who))
            ctx.seen("points_with")
    shared = len(got) - len({w for _, w in got})
    ctx.seen("shared_detections", shared)
    ctx.check(len({id(t) for t in out}) == m, "sort:aliased", "two entries are one object", **data)
    if got:
        ctx.sig(got, px)
    ctx.sample(pairs=got[:5], **data)


def neighbour(ctx, rng, i):
    m = int(rng.choice([0, 1, 2, 5, 50]))
    dets = [Target(pnr=k, x=float(rng.uniform(0, 60)), y=float(rng.uniform(0, 60))) for k in range(m)]
    if m > 2 and rng.random() < 0.3:
        dets[2].x, dets[2].y = dets[1].x, dets[1].y  # the first of equals
    for _ in range(10):
        x, y, eps = float(rng.uniform(-5, 65)), float(rng.uniform(-5, 65)), float(rng.choice([-1, 0, 0.5, 3, 10, 100]))
        if m and rng.random() < 0.2:
            x, y = dets[int(rng.integers(m))].x, dets[int(rng.integers(m))].y
        want, _ = nearest(dets, x, y, eps)
        ctx.check(nearest_neighbour_pix(dets, x, y, eps) == want, "neighbour", lambda: f"nearest of {m} detections to {(x, y)} within {eps}: should be {want}")
        ctx.seen("neighbours")


def files(ctx, rng, i):
    d = ctx.scratch
    m = int(rng.choice([1, 4, 5, 30, 100]))
    pts = np.round(rng.uniform(-200, 200, (m, 3)), int(rng.integers(0, 7)))
    ids = np.arange(1, m + 1) if rng.random() < 0.5 else rng.permutation(500)[:m]
    name = os.path.join(d, "calblock.txt")
    with open(name, "w") as f:
        for k in range(m):
            sep = str(rng.choice([" ", "\t", "   "]))
            num = rng.choice(["r", "e", "f"])
            row = [(repr(float(v)) if num == "r" else f"{v:.12e}" if num == "e" else f"{v:.9f}") for v in pts[k]]
            f.write(str(rng.choice(["", "   ", "\t"])) + sep.join([str(ids[k]), *row]) + str(rng.choice(["", " "])) + "\n")
            if rng.random() < 0.05:
                f.write("\n")
        if rng.random() < 0.3:
            f.write("\n" if rng.random() < 0.5 else "  \n")
    got = read_calblock(name)
    ctx.check(got.shape == (m,), "files:block", lambda: f"{got.shape} points read of {m}")
    ctx.check(got.pnr.tolist() == ids.tolist(), "files:block", "numbers of the points")
    ctx.close(np.c_[got.x, got.y, got.z], pts, 1e-9, "files:block", "points of the block")
    arr, num = read_calblock_array(name)
    ctx.check(num == m, "files:block", "number of points")
    ctx.close(arr, pts, 1e-9, "files:block", "points of the block as an array")
    ctx.seen("blocks")
    # manual orientation: four point numbers (rows of the block) per camera
    cams = int(rng.integers(1, 5))
    if m >= 4:
        nr = [(rng.permutation(m)[:4] + 1).tolist() for _ in range(cams)]
        man = os.path.join(d, "man_ori.par")
        flat = [str(v) for row in nr for v in row]
        with open(man, "w") as f:
            if rng.random() < 0.5:
                f.write("\n".join(flat) + str(rng.choice(["", "\n", "\n\n"])))
            else:
                f.write("\n".join(" ".join(map(str, row)) for row in nr) + "\n")
        for c in range(cams):
            fix = read_man_ori_fix(name, man, c)
            ctx.check(fix is not None, "files:manual", lambda: f"points {nr[c]} of {m} not found")
            ctx.close(fix, pts[np.array(nr[c]) - 1], 1e-9, "files:manual", "points of the manual orientation")
            ctx.seen("manual_orientations")
        bad = os.path.join(d, "bad.par")
        with open(bad, "w") as f:
            f.write("\n".join(["1", "2", "3", str(m + 5)]))
        ctx.check(read_man_ori_fix(name, bad, 0) is None, "files:manual", "a point that is not in the block is not noticed")
    # nothing usable
    empty = os.path.join(d, "nothing.txt")
    if os.path.exists(empty):
        os.remove(empty)
    ctx.check(len(read_calblock(empty)) == 0, "files:missing", "a missing block has no points")
    ctx.check(read_sortgrid_par(empty) == SORTGRID_EPS, "files:missing", "default radius")
    with open(empty, "w") as f:
        f.write("1 2.0 x 4.0\n")
    ctx.check(len(read_calblock(empty)) == 0, "files:bad", "a bad block has no points")
    r = int(rng.integers(0, 300))
    with open(empty, "w") as f:
        f.write(f"{r}\n")
    ctx.check(read_sortgrid_par(empty) == r, "files:radius", "radius")
    ctx.sig("files", pts)


FAMILIES = [Family("sort", sort, 300, 6000), Family("neighbour", neighbour, 60, 1000), Family("files", files, 120, 2000)]
MONITORS = {"points_with": 600, "points_without": 600, "points_outside": 20, "shared_detections": 20, "neighbours": 300, "blocks": 60, "manual_orientations": 60}
