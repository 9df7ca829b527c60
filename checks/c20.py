"""Candidate search against plain searches over the whole list."""

import numpy as np

from vlib import gen, scene
from vlib import tracks as tk
from vlib.core import Family
from openptv_python import track as tr
from openptv_python.parameters import TrackPar, convert_track_par_to_tuple
from openptv_python.tracking_frame_buf import Frame, Target
from openptv_python.tracking_run import TrackingRun

PROPERTY = "C20"
RULE = (
    "target lists of 0 to 40000 targets sorted by y (scattered, in rows, in one spot, on a lattice with many equal distances), windows of all sizes inside, across and "
    "beyond the image border, centres inside and outside; tables of candidates of 1 to 4 cameras; frames and rigs for the search volume. Distinct by list and window; "
    "non-trivial: a window with a target"
)
ASSUMPTIONS = ["target lists are sorted by y", "projection, lens model are those of the code (their own properties)"]


def target_list(rng, imx, imy, n):
    """Rows (x, y, tnr), sorted by y."""
    how = str(rng.choice(["scatter", "scatter", "rows", "spot", "lattice", "top", "bottom"]))
    x, y = rng.uniform(0, imx, n), rng.uniform(0, imy, n)
    if how == "rows":
        y = rng.choice(np.round(rng.uniform(0, imy, 5), 2), n)
    if how == "spot":
        c = rng.uniform(0.1, 0.9, 2) * [imx, imy]
        x, y = c[0] + 12 * rng.standard_normal(n), c[1] + 12 * rng.standard_normal(n)
    if how == "lattice":
        x, y = np.round(x / 4) * 4, np.round(y / 4) * 4
    if how == "top":
        y = y * 0.02
    if how == "bottom":
        y = imy - y * 0.02
    o = np.argsort(y, kind="stable")
    x, y = x[o], y[o]
    share = float(rng.choice([0.0, 0.1, 0.5, 0.9, 1.0]))
    tnr = np.where(rng.random(n) < share, np.arange(n), -1)
    if rng.random() < 0.3:  # all of one kind at one end of the list
        k = int(rng.integers(0, n + 1))
        tnr[:k] = -1
    if rng.random() < 0.3:
        k = int(rng.integers(0, n + 1))
        tnr[k:] = -1
    return how, x, y, tnr


def window(rng, imx, imy, x, y):
    """Centre and distances to the borders of the window (left, right, up, down)."""
    n = len(x)
    cx, cy = rng.uniform(0, imx), rng.uniform(0, imy)
    if n and rng.random() < 0.6:  # near a target, often at an end of the list
        k = int(rng.choice([0, n - 1, min(1, n - 1), int(rng.integers(n)), int(rng.integers(n)), int(rng.integers(n)), min(n - 1, 12), n // 2]))
        cx, cy = x[k] + rng.choice([0, 1.5, -2.5, rng.normal() * 4]), y[k] + rng.choice([0, 1.5, -2.5, rng.normal() * 4])
    if rng.random() < 0.1:
        cx, cy = rng.choice([0, imx, -0.5, imx + 0.5, cx]), rng.choice([0, imy, -0.5, imy + 0.5, cy])
    size = float(rng.choice([1.0, 3.0, 10.0, 40.0, 300.0, 5000.0]))
    d = size * rng.uniform(0.3, 1.5, 4)
    if rng.random() < 0.15:
        d[int(rng.integers(4))] *= float(rng.choice([0.0, -0.3, 20.0]))  # lopsided; a centre outside of its window
    return float(cx), float(cy), [float(v) for v in d]


def inside(x, y, cx, cy, d, imx, imy):
    """Targets strictly inside the window and the image; and whether one sits on the border."""
    lo = np.maximum([cx - d[0], cy - d[2]], 0)
    hi = np.minimum([cx + d[1], cy + d[3]], [imx, imy])
    if not (0 <= cx <= imx and 0 <= cy <= imy):
        return np.zeros(len(x), bool), False
    ok = (x > lo[0]) & (x < hi[0]) & (y > lo[1]) & (y < hi[1])
    return ok, False


def pix(ctx, rng, i):
    from vlib.gen import random_cpar, random_mm

    imx, imy = int(rng.choice([64, 640, 1280, 4000])), int(rng.choice([48, 512, 1024, 3000]))
    cpar = random_cpar(rng, random_mm(rng, "water"), 1, imx, imy)
    n = int(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 16, 25, 50, 100, 200, 400, 800]))
    if i % 16 == 7:
        n = int(rng.choice([3000, 8190, 8191, 8192, 12000, 20000, 40000]))
    how, x, y, tnr = target_list(rng, imx, imy, n)
    spare = int(rng.choice([0, 0, 3]))  # the buffer may be longer than the list
    targets = [Target(k, float(x[k]), float(y[k]), 10, 3, 3, 100, int(tnr[k])) for k in range(n)] + [Target(0, imx / 2, imy / 2, 1, 1, 1, 1, q - 1) for q in range(spare)]
    for _ in range(12 if n < 3000 else 40):
        cx, cy, d = window(rng, imx, imy, x, y)
        ok, _ = inside(x, y, cx, cy, d, imx, imy)
        dist = np.hypot(x - cx, y - cy)
        what = f"list of {n} ({how}), window {cx:.3f} {cy:.3f} {d}, image {imx} x {imy}"
        # used targets: the four nearest
        got = [int(k) for k in tr.candsearch_in_pix(targets, n, cx, cy, *d, cpar)]
        idx = np.nonzero(ok & (tnr != -1))[0]
        found = [k for k in got if k != -1]
        ctx.check(len(got) == 4 and got[: len(found)] == found, "pix:form", lambda: f"{what}: {got}")
        ctx.check(len(found) == min(4, len(idx)) and len(set(found)) == len(found), "pix:count", lambda: f"{what}: {got}, there are {idx.tolist()[:20]}")
        ctx.check(set(found) <= set(idx.tolist()), "pix:foreign", lambda: f"{what}: {got} of {idx.tolist()[:20]}")
        ctx.close(dist[found], np.sort(dist[idx])[:4], 1e-9, "pix:nearest", what)
        ctx.seen("searches")
        ctx.seen("found", len(found))
        ctx.seen("more than four", len(idx) > 4)
        if len(idx):
            ctx.sig(how, n, cx, cy, d)
        if n >= 8190 and len(idx):
            ctx.seen("long lists")
        # free targets: the nearest
        p = [-1] * 4 if rng.random() < 0.5 else np.full(4, -1)
        m = tr.candsearch_in_pix_rest(targets, n, cx, cy, *d, p, cpar)
        idx = np.nonzero(ok & (tnr == -1))[0]
        ctx.check(int(m) == (len(idx) > 0), "rest:count", lambda: f"{what}: number {m}, there are {idx.tolist()[:20]}")
        ctx.check(list(p[1:]) == [-1] * 3, "rest:form", lambda: f"{what}: {p}")
        if len(idx):
            ctx.check(int(p[0]) in set(idx.tolist()), "rest:foreign", lambda: f"{what}: {p[0]} of {idx.tolist()[:20]}")
            ctx.close(dist[int(p[0])], dist[idx].min(), 1e-9, "rest:nearest", what)
            ctx.seen("rest found")
        else:
            ctx.check(int(p[0]) == -1, "rest:form", lambda: f"{what}: {p} of none")
        # as the tracking registers them
        reg = np.zeros(8, dtype=tr.Foundpix_dtype).view(np.recarray)
        reg.ftnr = -1
        cam = int(rng.integers(4))
        tr.register_closest_neighbs(targets, n, cam, cx, cy, *d, reg[2:], cpar)
        idx = np.nonzero(ok & (tnr != -1))[0]
        k = min(4, len(idx))
        names = [int(v) for v in reg.ftnr]
        ctx.check(names[:2] == [-1, -1] and names[6:] == [-1, -1] and names[2 + k : 6] == [-1] * (4 - k), "register", lambda: f"{what}: {names}")
        ctx.check(names[2 : 2 + k] == [int(tnr[j]) for j in found], "register", lambda: f"{what}: {names}, should be the particles of {found}")
        ctx.check([list(v) for v in reg.whichcam] == [[int(2 <= r < 2 + k and c == cam) for c in range(4)] for r in range(8)], "register", lambda: f"{what}: cameras {reg.whichcam.tolist()}")
    ctx.check(all((t.x, t.y, t.tnr) == (x[k], y[k], tnr[k]) for k, t in enumerate(targets[:n])), "input", "the targets were changed")


def freq(ctx, rng, i):
    """Candidates of several cameras: most cameras first."""
    cams = int(rng.integers(1, 5))
    pool = rng.permutation(int(rng.choice([3, 6, 12, 1000])))
    table = []
    for _ in range(cams):
        m = int(rng.choice([0, 1, 2, 3, 4, 4]))
        m = min(m, len(pool))
        row = [int(v) for v in rng.choice(pool, m, replace=False)]
        table.append(row + [-1] * (4 - m))
    pts = np.zeros(cams * 4, dtype=tr.Foundpix_dtype).view(np.recarray)
    for c, row in enumerate(table):
        for k, v in enumerate(row):
            pts[4 * c + k].ftnr = v
            if v != -1:
                pts[4 * c + k].whichcam[c] = 1
    n = int(tr.sort_candidates_by_freq(pts, cams))
    votes = {}
    for row in table:
        for v in row:
            if v != -1:
                votes[v] = votes.get(v, 0) + 1
    want = {k: v for k, v in votes.items() if v >= 2}
    got = [(int(q.ftnr), int(q.freq)) for q in pts[:n]]
    if not want and votes:
        ctx.check(n == 1 and got[0][1] == 1 and got[0][0] in votes, "freq:single", lambda: f"{got} of {table}")
        ctx.seen("single")
    else:
        ctx.check(dict(got) == want and len(got) == len(want), "freq:votes", lambda: f"{got}, expected {want} of {table}")
        ctx.seen("ranked", len(got))
    ctx.check([v for _, v in got] == sorted((v for _, v in got), reverse=True), "freq:order", lambda: f"{got} of {table}")
    ctx.check(all(int(q.ftnr) == -1 and int(q.freq) == 0 for q in pts[n:]), "freq:rest", lambda: f"{pts.tolist()}")
    if sum(v == w for v, w in zip([v for _, v in got], [v for _, v in got][1:])):
        ctx.seen("equal votes")
    ctx.sig(table)


def volume(ctx, rng, i):
    """Search volume in the images, candidates in it, and positions from free targets."""
    cams = int(rng.choice([1, 2, 3, 4]))
    mm = gen.random_mm(rng, str(rng.choice(["water", "random", "air"])))
    cals, g, gd, target = scene.rig(rng, cams, mm, tilted_wall=rng.random() < 0.2)
    half = gen.uni(rng, 8, 20)
    cpar = scene.sensor(rng, cals, mm, target, half * 1.2, int(rng.choice([640, 1280])), int(rng.choice([512, 1024])))
    reach = half * float(rng.choice([0.02, 0.1, 0.3]))
    lo, hi = -reach * rng.uniform(0.3, 1, 3), reach * rng.uniform(0.3, 1, 3)
    if rng.random() < 0.2:
        lo, hi = reach * rng.uniform(0.1, 0.5, 3), reach * rng.uniform(0.6, 1, 3)
    tpar = TrackPar(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], 100.0, 1.0, 1)
    run = TrackingRun.__new__(TrackingRun)
    run.tpar, run.cpar, run.cal, run.flatten_tol = convert_track_par_to_tuple(tpar), cpar, cals, float(rng.choice([1e-4, 1e-6]))
    s = tk.Seq()
    s.cals, s.cpar, s.cams, s.tpar = cals, cpar, cams, tpar
    model = tk.Model.__new__(tk.Model)
    model.s, model.cals, model.cpar, model.n, model.lo, model.hi, model.amb, model.loose = s, cals, cpar, cams, lo, hi, 0, False
    n = int(rng.choice([0, 3, 10, 30]))
    pts = target + rng.uniform(-1, 1, (n, 3)) * (half if rng.random() < 0.4 else reach * 2)
    pts -= np.maximum(pts @ g - gd + 1.0, 0)[:, None] * g
    frm = Frame(cams, 0)
    rows = []
    for c in range(cams):
        r = []
        for k in range(n):
            q = model.px(pts[k], c) + rng.choice([0, 0.3, 2.0]) * rng.standard_normal(2)
            if rng.random() < 0.9:
                r.append((float(q[0]), float(q[1]), k if rng.random() < 0.6 else -1))
        for _ in range(int(rng.choice([0, 5, 40]))):
            r.append((float(rng.uniform(0, cpar.imx)), float(rng.uniform(0, cpar.imy)), -1 if rng.random() < 0.5 else 1000 + len(r)))
        r.sort(key=lambda v: v[1])
        rows.append([(j, x, y, 9, 3, 3, 99, t) for j, (x, y, t) in enumerate(r)])
        frm.targets[c] = [Target(*v) for v in rows[c]]
        frm.num_targets[c] = len(r)
    mf = tk.MFrame([], rows)
    for _ in range(4):
        k = int(rng.integers(n)) if n and rng.random() < 0.8 else None
        x = (pts[k] if k is not None else target) + reach * rng.choice([0, 0.1, 1.0]) * rng.standard_normal(3)
        if rng.random() < 0.15:
            x = target + rng.uniform(-2, 2, 3) * half
        x = x - max(x @ g - gd + reach * 1.8 + 0.5, 0.0) * g
        x0 = x.copy()
        right, left, down, up = tr.searchquader(x, run.tpar, cpar, cals)
        ctx.check((x == x0).all(), "input", "searchquader changes the point")
        for c in range(cams):
            a, b = model.window(x, c)
            ctx.close([left[c], up[c], right[c], down[c]], [*a, *b], 1e-7, "quader", f"window of camera {c} around {x} (left, up, right, down)")
            m = model.px(x, c)
            ctx.close(tr.point_to_pixel(x, cals[c], cpar), m, 1e-9, "pixel", "pixel of a point")
            # all of the search volume that is on the image is in the window
            for _ in range(3):
                q = model.px(x + lo + (hi - lo) * rng.random(3), c)
                if (q >= 0).all() and (q <= [cpar.imx, cpar.imy]).all():
                    slack = 1e-6 + 0.03 * (a + b)
                    ctx.check(bool((q >= m - a - slack).all() and (q <= m + b + slack).all()), "quader:holds", lambda: f"{q} is outside the window {m - a}..{m + b}")
                    ctx.seen("volume points")
            ctx.seen("windows")
        cens = np.array([model.px(x, c) for c in range(cams)])
        if rng.random() < 0.2:
            cens = cens + rng.normal(0, 3, cens.shape)
        model.amb, model.loose = 0, False
        want = model.candidates(mf, x, cens)
        if not model.amb:
            w = tr.sorted_candidates_in_volume(x, cens, frm, run)
            got = [(int(q.ftnr), int(q.freq)) for q in w]
            ctx.check(got[-1][0] == -1, "candidates:end", lambda: f"{got} does not end with an unused entry")
            got = got[:-1]
            same = sorted(got) == sorted((int(a), b) for a, b in want) if not model.loose else len(got) == len(want)
            ctx.check(same, "candidates", lambda: f"{got}, expected {want}")
            ctx.check([v for _, v in got] == sorted((v for _, v in got), reverse=True), "candidates:order", lambda: f"{got}")
            ctx.seen("candidates", len(got))
        model.amb = 0
        which = []
        for c in range(cams):
            near = model.near(mf, c, model.px(x, c), 3.0, 3.0, False)
            if len(near) > 1 and near[1][0] - near[0][0] < 1e-9:
                model.amb += 1
            which.append(near[0][1] if near else -1)
        if not model.amb:
            from openptv_python.trafo import dist_to_flat, pixel_to_metric

            m, pos, inds = tr.assess_new_position(x, frm, run)
            ctx.check([int(v[0]) for v in inds] == which and int(m) == sum(v >= 0 for v in which), "assess", lambda: f"{m} cameras, targets {inds.tolist()}, expected {which}")
            for c in range(cams):
                if which[c] < 0:
                    ctx.check((np.asarray(pos[c]) == -1e10).all(), "assess:unused", lambda: f"camera {c}: {pos[c]}")
                else:
                    t = rows[c][which[c]]
                    ctx.close(pos[c], dist_to_flat(*pixel_to_metric(t[1], t[2], cpar), cals[c], run.flatten_tol), 1e-9, "assess:position", f"camera {c}")
                    ctx.seen("assessed")
    ctx.sig(pts, lo, hi)


FAMILIES = [Family("pix", pix, 1000, 15000), Family("freq", freq, 2000, 40000), Family("volume", volume, 200, 5000)]
MONITORS = {"searches": 4000, "found": 4000, "more than four": 600, "long lists": 150, "rest found": 1200, "single": 100, "ranked": 1000, "equal votes": 150,
            "windows": 500, "volume points": 700, "candidates": 130, "assessed": 110}
