"""Sequences of particles seen by several cameras, and a model of the tracking decisions.

The model follows the documented algorithm with plain searches over whole lists. It takes projection, lens model and stereo
positioning from the code under test (these have their own properties); everything else is its own. Where a decision hangs on
rounding it says so (``amb``), and the caller does not compare that step.
"""

import math
import os

import numpy as np

from vlib import frames as fr
from vlib import gen, scene
from vlib.core import Skip

TINY = 1e-9


# ---------------------------------------------------------------- scenes
class Seq:
    """A sequence on paper: what is where in each frame, what the files say."""


def make_scene(rng, cams=None, n=None, T=None, kind=None, add=None):
    """A random scene. kind: easy (well apart, smooth), dense, resting, gaps, wild."""
    from openptv_python.imgcoord import image_coordinates
    from openptv_python.parameters import SequencePar, TrackPar
    from openptv_python.trafo import arr_metric_to_pixel

    s = Seq()
    s.kind = kind or str(rng.choice(["easy", "dense", "dense", "resting", "gaps", "wild", "lost", "lost"]))
    s.cams = cams or int(rng.choice([2, 3, 3, 4, 4]))
    s.mm = gen.random_mm(rng, str(rng.choice(["water", "random", "air"])))
    s.cals, g, gd, target = scene.rig(rng, s.cams, s.mm, tilted_wall=rng.random() < 0.2, tilt=(0.25, 0.6) if s.cams == 2 else (0.1, 0.6))
    half = gen.uni(rng, 8, 20)
    s.half, s.target = half, target
    s.cpar = scene.sensor(rng, s.cals, s.mm, target, half * 1.3, int(rng.choice([640, 1280, 1000])), int(rng.choice([512, 1024, 1000])))
    s.vpar = scene.volume(target, half * 1.5)
    if rng.random() < 0.3:  # a volume that cuts through the particles
        cut = rng.uniform(0.15, 1.0, 4) * half
        which = rng.random(4) < 0.5
        v = s.vpar
        v.x_lay = [target[0] - cut[0] if which[0] else v.x_lay[0], target[0] + cut[1] if which[1] else v.x_lay[1]]
        v.z_min_lay = [target[2] - cut[2]] * 2 if which[2] else v.z_min_lay
        v.z_max_lay = [target[2] + cut[3]] * 2 if which[3] else v.z_max_lay
    n = n if n is not None else int(rng.choice([1, 2, 5, 12, 20]) if s.kind != "dense" else rng.choice([4, 10, 18]))
    s.T = T or int(rng.choice([2, 3, 4, 4, 5, 5, 6, 6, 7, 7]))
    s.first = int(rng.choice([1, 10, 998, 10095, 99997]))
    s.last = s.first + s.T - 1
    # the step between frames, relative to the distances between particles
    spacing = 2 * half / max(n, 1) ** (1 / 3)
    size = half * (0.6 if s.kind == "dense" else 1.0)
    step = spacing * {"easy": 0.08, "dense": 0.45, "resting": 0.02, "gaps": 0.08, "wild": 0.3, "lost": 0.2, "twins": 0.2}[s.kind] * rng.uniform(0.5, 1.5)
    step = min(step, half / 5)
    mean = gen.unit(rng) * step * rng.choice([0.0, 0.0, 0.8])
    jerk = {"easy": 0.03, "dense": 0.3, "resting": 0.0, "gaps": 0.03, "wild": 0.8, "lost": 0.02, "twins": float(rng.choice([0.1, 0.3, 0.6]))}[s.kind]
    pos = np.zeros((s.T, n, 3))
    p0 = target + rng.uniform(-1, 1, (n, 3)) * size
    v = mean + 0.6 * step * rng.standard_normal((n, 3))
    if s.kind in ("easy", "gaps"):
        vn = np.linalg.norm(v, axis=1, keepdims=True)
        v = v / vn * np.clip(vn, 0.3 * step, 1.2 * step)
        keep, tt = [], np.arange(s.T)[:, None, None]
        for k in range(n):  # keep them apart, all the way
            for _ in range(40):
                dp = p0[keep] - p0[k] + tt * (v[keep] - v[k])
                if not keep or np.linalg.norm(dp, axis=2).min() > 10 * step:
                    keep.append(k)
                    break
                p0[k] = target + rng.uniform(-1, 1, 3) * size
        p0, v, n = p0[keep], v[keep], len(keep)
        pos = np.zeros((s.T, n, 3))
    if s.kind == "resting":
        v[rng.random(n) < 0.5] = 0.0
    if s.kind == "twins":  # pairs that stay within a pixel or two of each other, a few pixels a step
        e = 1e-3 * half * gen.unit(rng)
        q = arr_metric_to_pixel(image_coordinates(np.array([target, target + e]), s.cals[0], s.mm), s.cpar)
        pixel = 1e-3 * half / max(float(np.linalg.norm(q[1] - q[0])), 0.02)
        sharp = n == 3 or rng.random() < 0.4
        turn = int(rng.integers(1, max(s.T - 2, 2)))
        step = pixel * (rng.uniform(5, 15) if sharp else rng.uniform(1.5, 6))
        p0 = target + (0.4 if sharp else 1.0) * (p0 - target)
        v = step * rng.uniform(0.3, 1) * np.array([gen.unit(rng) for _ in range(n)])
        for k in range(1, n, 2):
            p0[k] = p0[k - 1] + pixel * rng.uniform(0.3, 2.5) * gen.unit(rng)
            v[k] = v[k - 1] + pixel * rng.uniform(0, 0.8) * gen.unit(rng)
        if sharp and n % 2:  # a bystander, too far off to be taken for one of them
            p0[-1], v[-1] = p0[0] + pixel * rng.uniform(34, 48) * gen.unit(rng), v[0]
    for t in range(s.T):
        pos[t] = p0
        p0 = p0 + v
        v0 = v
        v = v + jerk * step * rng.standard_normal((n, 3)) * (rng.random((n, 1)) < 0.7)
        if s.kind == "twins":  # they turn together
            if sharp:
                v[0::2] = v0[0::2] + (t + 1 == turn) * pixel * rng.uniform(10, 20) * gen.unit(rng)
                if n % 2:
                    v[-1] = v[0]
            v[1::2] = v[: n - n % 2 : 2] + pixel * rng.uniform(0, 0.5) * rng.standard_normal((n // 2, 3))
    if s.kind == "resting":
        pos = np.round(pos, 3)
    # stay in the fluid
    over = (pos @ g) - gd + 0.5
    if over.size and over.max() > 0:
        pos = pos - over.max() * g
    s.true = pos
    s.step = step
    reach = step * float(rng.choice([1.5, 2.5, 4.0]))
    if s.kind in ("easy", "gaps"):
        reach = step * 2.0
    if s.kind == "twins" and sharp:
        reach = step + 50 * pixel
    lo, hi = np.array([-reach] * 3), np.array([reach] * 3)
    if rng.random() < 0.25 and s.kind in ("dense", "wild"):  # bounds around a mean flow
        lo, hi = mean - reach * rng.uniform(0.5, 1.2, 3), mean + reach * rng.uniform(0.5, 1.2, 3)
    s.tpar = TrackPar(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], dangle=float(rng.choice([20.0, 60.0, 120.0, 200.0])),
                      dacc=reach * float(rng.choice([0.15, 0.5, 1.5])), add=int(rng.random() < (0.8 if s.kind == "lost" else 0.5)) if add is None else add)
    if s.kind == "lost":
        s.tpar.dangle = max(s.tpar.dangle, 60.0)
    if s.kind in ("easy", "gaps"):
        s.tpar.dangle, s.tpar.dacc = 100.0, reach
    if s.kind == "twins":
        s.tpar.dangle, s.tpar.dacc = 200.0, 32 * pixel if sharp else reach * float(rng.choice([0.5, 1.0, 2.0]))
    # what the cameras see; what was matched
    noise3 = 0.0 if s.kind == "resting" else step * float(rng.choice([0.0, 0.01, 0.05]))
    noise2 = float(rng.choice([0.0, 0.05, 0.2]))
    if s.kind == "lost":
        noise3, noise2 = noise3 * 0.2, noise2 * 0.5
    if s.kind == "twins":
        noise3, noise2 = pixel * float(rng.choice([0.1, 0.3])), float(rng.choice([0.02, 0.2] if sharp else [0.05, 0.3, 0.8]))
    s.parts, s.targets, s.who = [], [], []
    for t in range(s.T):
        seen = rng.random((n, s.cams)) < {"easy": 1.0, "twins": 0.8}.get(s.kind, 0.93)
        matched = rng.random(n) < {"easy": 1.0, "gaps": 0.85, "dense": 0.9, "resting": 0.95, "wild": 0.85, "lost": 0.75, "twins": 0.6}[s.kind]
        if s.kind == "twins":
            seen[rng.random(n) < 0.1] = False
            if t < 2 or (sharp and t < turn + 2):
                matched[:] = seen[:] = True
            elif rng.random() < 0.5 or (sharp and t == turn + 2):  # one of each two is there, but not matched
                matched[: n - n % 2] = False
                gone = int(rng.integers(2))
                if sharp:
                    seen[1 - gone :: 2] = True
                    seen[1 - gone :: 2, int(rng.integers(s.cams))] = s.cams == 2 or rng.random() < 0.3
                seen[gone::2] = False
            if sharp and n % 2:
                matched[-1] = seen[-1] = True
        if s.kind == "gaps":
            seen[:] = True
            matched[rng.random(n) < 0.03] = False
            if t < 2:
                matched[:] = True
        matched &= seen.sum(axis=1) >= 2
        order = rng.permutation(n)
        idx = [k for k in order if matched[k]]
        num = {k: j for j, k in enumerate(idx)}
        tg, own = [], []
        for c in range(s.cams):
            px = arr_metric_to_pixel(image_coordinates(pos[t], s.cals[c], s.mm), s.cpar) if n else np.zeros((0, 2))
            rows = []
            for k in range(n):
                x, y = px[k] + noise2 * rng.standard_normal(2)
                if seen[k, c] and 0 <= x <= s.cpar.imx and 0 <= y <= s.cpar.imy:
                    rows.append([round(float(x), 4), round(float(y), 4), k])
            for _ in range(int(rng.choice([0, 0, 2, 10])) if s.kind not in ("easy", "twins") else 0):  # clutter
                rows.append([round(float(rng.uniform(0, s.cpar.imx)), 4), round(float(rng.uniform(0, s.cpar.imy)), 4), -1])
            if rows and rng.random() < 0.1 and s.kind == "wild":
                rows.append([rows[0][0], rows[0][1], -1])  # two in one place
            rows.sort(key=lambda r: (r[1], r[0]))
            tg.append(rows)
        # a particle must keep two targets to be in the list
        lost = [k for k in idx if sum(any(r[2] == k for r in rows) for rows in tg) < 2]
        idx = [k for k in idx if k not in lost]
        num = {k: j for j, k in enumerate(idx)}
        parts = []
        for k in idx:
            x = np.round(pos[t, k] + noise3 * rng.standard_normal(3), 3)
            parts.append([*map(float, x), -1, -1, -1, -1])
        out = []
        for c in range(s.cams):
            rows = []
            for j, (x, y, k) in enumerate(tg[c]):
                tnr = num.get(k, -1)
                if tnr >= 0:
                    parts[tnr][3 + c] = j
                rows.append((j, x, y, int(rng.integers(5, 60)), 5, 5, int(rng.integers(100, 9999)), tnr))
            out.append(rows)
        s.parts.append([tuple(p) for p in parts])
        s.targets.append(out)
        s.who.append(idx)
    s.spar = SequencePar([], s.first, s.last)
    return s


def write_scene(rng, s, d):
    """Put the scene into files below a directory."""
    os.makedirs(d, exist_ok=True)
    s.dir = d
    s.bases = [os.path.join(d, f"cam{c + 1}." + str(rng.choice(["%05d", "%d", "#"]))) for c in range(s.cams)]
    s.spar.img_base_name = list(s.bases)
    for t in range(s.T):
        f = s.first + t
        fr.write_rows(rng, os.path.join(d, f"rt_is.{f}"), len(s.parts[t]), [(k + 1, *p) for k, p in enumerate(s.parts[t])], ["%d", "%.3f", "%.3f", "%.3f"] + ["%d"] * 4)
        for c in range(s.cams):
            fr.write_rows(rng, fr.target_name(s.bases[c], f), len(s.targets[t][c]), s.targets[t][c], ["%d", "%.4f", "%.4f"] + ["%d"] * 5)
    # a sequence may be a part of a longer one
    s.around = {}
    if rng.random() < 0.4:
        for f in [s.first - 2, s.first - 1, s.last + 1, s.last + 2]:
            t = int(rng.integers(s.T))
            if f < 0:
                continue
            names = [os.path.join(d, f"{b}.{f}") for b in ("rt_is", "ptv_is", "added")]
            rows = [(-1, -2 if rng.random() < 0.5 else 0, *p[:3]) for p in s.parts[t]]
            fr.write_rows(rng, names[0], len(rows), [(k + 1, *p) for k, p in enumerate(s.parts[t])], ["%d", "%.3f", "%.3f", "%.3f"] + ["%d"] * 4)
            fr.write_rows(rng, names[1], len(rows), rows, ["%d", "%d", "%.3f", "%.3f", "%.3f"])
            fr.write_rows(rng, names[2], len(rows), [(*r, 4) for r in rows], ["%d", "%d", "%.3f", "%.3f", "%.3f", "%d"])
            for c in range(s.cams):
                names.append(fr.target_name(s.bases[c], f))
                fr.write_rows(rng, names[-1], len(s.targets[t][c]), s.targets[t][c], ["%d", "%.4f", "%.4f"] + ["%d"] * 5)
            for n in names:
                with open(n, "rb") as fh:
                    s.around[n] = fh.read()


def around_kept(ctx, s):
    """Frames before and after the sequence are as they were."""
    for n, was in s.around.items():
        with open(n, "rb") as fh:
            ctx.check(fh.read() == was, "around", lambda: f"{n}, of a frame outside {s.first}..{s.last}, was changed")
    ctx.seen("parts of longer sequences", bool(s.around))


def new_run(s, prio=True, by_files=False):
    """The tracking run of the code under test, over the files of the scene; parameters as objects or as files."""
    from openptv_python.parameters import convert_track_par_to_tuple
    from openptv_python.tracking_run import TrackingRun, tr_new

    names = (os.path.join(s.dir, "rt_is"), os.path.join(s.dir, "ptv_is"), os.path.join(s.dir, "added") if prio else "")
    if by_files:
        from pathlib import Path

        t, v, c, mm = s.tpar, s.vpar, s.cpar, s.cpar.mm
        rows = {
            "sequence.par": [*s.spar.img_base_name, s.spar.first, s.spar.last],
            "track.par": [t.dvxmin, t.dvxmax, t.dvymin, t.dvymax, t.dvzmin, t.dvzmax, t.dangle, t.dacc, int(t.add)],
            "criteria.par": [v.x_lay[0], v.z_min_lay[0], v.z_max_lay[0], v.x_lay[1], v.z_min_lay[1], v.z_max_lay[1], v.cnx, v.cny, v.cn, v.csumg, v.corrmin, v.eps0],
            "ptv.par": [s.cams, *[f"img{k}" for k in range(2 * s.cams)], 1, 0, 1, c.imx, c.imy, c.pix_x, c.pix_y, c.chfield, mm.n1, mm.n2[0], mm.n3, mm.d[0]],
        }
        for name, vals in rows.items():
            with open(os.path.join(s.dir, name), "w", encoding="utf-8") as f:
                f.write("\n".join(str(x) if isinstance(x, (str, int, np.integer)) else repr(float(x)) for x in vals) + "\n")
        return tr_new(*[Path(s.dir) / n for n in rows], 4, 200, *names, s.cals, 1e-4)
    return TrackingRun(s.spar, convert_track_par_to_tuple(s.tpar), s.vpar, s.cpar, 4, 200, *names, s.cals, 1e-4)


def read_result(s, prio=True):
    """Own reading of what is on the disk: list of frames."""
    out = []
    for t in range(s.T):
        f = s.first + t

        def table(name):
            with open(name, encoding="utf-8") as fh:
                lines = fh.read().split("\n")
            rows = [[float(v) for v in ln.split()] for ln in lines[1:] if ln.strip()]
            if int(lines[0]) != len(rows):
                raise ValueError(f"{name}: {len(rows)} rows under the number {lines[0]}")
            return rows

        rt = table(os.path.join(s.dir, f"rt_is.{f}"))
        ptv = table(os.path.join(s.dir, f"ptv_is.{f}"))
        tg = [table(fr.target_name(b, f)) for b in s.bases]
        added = table(os.path.join(s.dir, f"added.{f}")) if prio else None
        out.append(dict(rt=rt, ptv=ptv, targets=tg, added=added))
    return out


# ---------------------------------------------------------------- the model
class MFrame:
    """A frame of the model."""

    def __init__(self, parts, targets, links=None):
        self.x = [np.array(p[:3], float) for p in parts]
        self.p = [list(p[3:7]) for p in parts]
        self.prev = [-1] * len(parts) if links is None else [a for a, _ in links]
        self.cost = {}
        self.next = [-2] * len(parts) if links is None else [b for _, b in links]
        self.tx = [np.array([r[1] for r in rows], float) for rows in targets]
        self.ty = [np.array([r[2] for r in rows], float) for rows in targets]
        self.tnr = [[int(r[7]) for r in rows] for rows in targets]


class Model:
    """Tracking decisions, one step at a time."""

    def __init__(self, s, ymin, ymax, vpar):
        self.s = s
        self.cals, self.cpar, self.n = s.cals, s.cpar, s.cams
        t = s.tpar
        self.lo, self.hi = np.array([t.dvxmin, t.dvymin, t.dvzmin]), np.array([t.dvxmax, t.dvymax, t.dvzmax])
        self.dangle, self.dacc, self.add = t.dangle, t.dacc, t.add
        self.lmax = float(np.linalg.norm(self.hi - self.lo))
        self.box = np.array([[vpar.x_lay[0], ymin, vpar.z_min_lay[0]], [vpar.x_lay[1], ymax, vpar.z_max_lay[1]]])
        self.amb = 0
        self.n_links = self.n_added = self.n_fallback = self.n_rest = self.n_cont = self.n_conflict = self.n_newcomer = self.n_joined = self.n_refused = 0

    # -- small decisions
    def less(self, a, b):
        if abs(a - b) < TINY * max(1.0, abs(a), abs(b)):
            self.amb += 1
        return a < b

    def px(self, x, c):
        from openptv_python.imgcoord import img_coord
        from openptv_python.trafo import metric_to_pixel

        return np.array(metric_to_pixel(*img_coord(x, self.cals[c], self.cpar.mm), self.cpar))

    def inside(self, d, lo, hi):
        return all(self.less(lo[k], d[k]) and self.less(d[k], hi[k]) for k in range(3))

    def angle_acc(self, a, b, c):
        v0, v1 = b - a, c - a
        acc = float(np.linalg.norm(v0 - v1))
        n0, n1 = float(np.linalg.norm(v0)), float(np.linalg.norm(v1))
        if (0 < n0 < TINY) or (0 < n1 < TINY) or (0 < acc < 1e-12):
            self.amb += (n0 > TINY or n1 > TINY) and not (n0 > TINY and n1 > TINY)
        if acc < 1e-12 or n0 == 0 or n1 == 0:
            return 0.0, acc
        # by the half angle: accurate everywhere
        u0, u1 = v0 / n0, v1 / n1
        ang = 2 * math.atan2(float(np.linalg.norm(u0 - u1)), float(np.linalg.norm(u0 + u1)))
        return ang * 200 / math.pi, acc

    def good(self, angle, acc):
        a, b, c = self.less(acc, self.dacc), self.less(angle + 1e-6, self.dangle), self.less(acc, self.dacc / 10)
        if abs(angle - self.dangle) < 1e-5:
            self.amb += 1
        return (a and b) or c

    def cost(self, dl, acc, angle, quali):
        return (dl / self.lmax + acc / self.dacc + angle / self.dangle) / quali

    # -- searches
    def window(self, x, c):
        """Image rectangle that holds the search volume around x, clipped; relative to the projection of x."""
        q = np.array([self.px(x + np.where([i & 1, i & 2, i & 4], self.hi, self.lo), c) for i in range(8)])
        m = self.px(x, c)
        size = np.array([self.cpar.imx, self.cpar.imy], float)
        # seen against the empty interval, as all-outside projections collapse onto the border
        a, b = np.maximum(np.minimum(q.min(0), size), 0), np.minimum(np.maximum(q.max(0), 0), size)
        return m - a, b - m

    def near(self, f, c, cen, left, right, used):
        """Targets of camera c strictly inside the rectangle, by distance."""
        size = np.array([self.cpar.imx, self.cpar.imy], float)
        if not (0 <= cen[0] <= size[0] and 0 <= cen[1] <= size[1]):
            return []
        lo, hi = np.maximum(cen - left, 0), np.minimum(cen + right, size)
        out = []
        for j in range(len(f.tx[c])):
            if (f.tnr[c][j] != -1) != used:
                continue
            x, y = f.tx[c][j], f.ty[c][j]
            for v, w in ((x, lo[0]), (x, hi[0]), (y, lo[1]), (y, hi[1])):
                if abs(v - w) < 1e-8:
                    self.amb += 1
            if lo[0] < x < hi[0] and lo[1] < y < hi[1]:
                out.append((math.hypot(cen[0] - x, cen[1] - y), j))
        out.sort()
        return out

    def candidates(self, f, x, cens):
        """[(particle, number of cameras)]: most cameras first."""
        votes, order, tied = {}, [], None
        for c in range(self.n):
            left, right = self.window(x, c)
            near = self.near(f, c, cens[c], left, right, True)
            if len(near) > 4 and near[4][0] - near[3][0] < TINY:
                self.amb += 1
            if near and tied is None:
                tied = len(near) > 1 and near[1][0] - near[0][0] < TINY
            four = []
            for _, j in near[:4]:
                k = f.tnr[c][j]
                if k not in four:
                    four.append(k)
            for k in four:
                if k not in votes:
                    order.append(k)
                votes[k] = votes.get(k, 0) + 1
        order.sort(key=lambda k: -votes[k])
        out = [(k, votes[k]) for k in order if votes[k] >= 2]
        if not out and order:  # one that a single camera saw, when there is no better one
            out = [(order[0], 1)]
            self.loose = self.loose or tied
        return out

    def position(self, f, x):
        """Position from the nearest unused targets around x: (cameras, position, targets)."""
        from openptv_python.constants import COORD_UNUSED
        from openptv_python.orientation import point_position
        from openptv_python.trafo import dist_to_flat, pixel_to_metric

        flat = np.full((self.n, 2), COORD_UNUSED, float)
        which = [-1] * self.n
        for c in range(self.n):
            near = self.near(f, c, self.px(x, c), 3.0, 3.0, False)
            if len(near) > 1 and near[1][0] - near[0][0] < TINY:
                self.amb += 1
            if near:
                j = near[0][1]
                which[c] = j
                flat[c] = dist_to_flat(*pixel_to_metric(f.tx[c][j], f.ty[c][j], self.cpar), self.cals[c], 1e-4)
        m = sum(w >= 0 for w in which)
        if m < 2:
            return m, None, which
        return m, np.array(point_position(flat, self.n, self.cpar.mm, self.cals)[1], float), which

    def add_to(self, f, x, which):
        f.x.append(x.copy())
        f.p.append([w if c < self.n else -1 for c, w in enumerate(list(which) + [-1] * (4 - self.n))])
        f.prev.append(-1)
        f.next.append(-2)
        for c in range(self.n):
            if which[c] >= 0:
                f.tnr[c][which[c]] = len(f.x) - 1
        self.n_added += 1

    # -- a step forward
    def forward(self, f0, f1, f2, f3):
        """Link f1 to f2 (f3 may be None at the end of the sequence)."""
        self.order_matters = False
        n2 = len(f2.x)
        f3 = f3 or MFrame([], [[] for _ in range(self.n)])
        offers = []
        for h in range(len(f1.x)):
            mine = []
            x1 = f1.x[h]
            prev = f1.prev[h]
            if prev >= 0:
                x0 = f0.x[prev]
                x2 = 2 * x1 - x0
                cens = [self.px(x2, c) for c in range(self.n)]
            else:
                x0 = None
                x2 = x1
                cens = [self.px(x2, c) if f1.p[h][c] == -1 else np.array([f1.tx[c][f1.p[h][c]], f1.ty[c][f1.p[h][c]]]) for c in range(self.n)]
            self.loose = False
            w = self.candidates(f2, x2, cens)
            if not w:
                offers.append(mine)
                continue
            each = []  # (cameras, candidate, offers by continuation, offer by the past alone, did it add)
            for k, freq in w:
                if k >= len(f2.x):
                    break
                x3 = f2.x[k]
                x5 = 0.5 * (5 * x3 - 4 * x1 + x0) if prev >= 0 else 2 * x3 - x1
                cont, past, n_before = [], None, self.n_added
                for k4, freq4 in self.candidates(f3, x5, [self.px(x5, c) for c in range(self.n)]):
                    if k4 >= len(f3.x):
                        break
                    x4 = f3.x[k4]
                    if self.inside(x4 - x3, self.lo, self.hi):
                        an1, ac1 = self.angle_acc(x3, x4, x5)
                        an0, ac0 = self.angle_acc(x1, x2, x3) if prev >= 0 else (an1, ac1)
                        an, ac = (an0 + an1) / 2, (ac0 + ac1) / 2
                        if self.good(an, ac):
                            dl = (np.linalg.norm(x1 - x3) + np.linalg.norm(x4 - x3)) / 2
                            cont.append((self.cost(dl, ac, an, freq4 + freq), k))
                            self.n_cont += 1
                m, x4, which = self.position(f3, x5)
                if m >= 2 and self.inside(x4, *self.box) and self.inside(x4 - x3, self.lo, self.hi):
                    an, ac = self.angle_acc(x3, x4, x5)
                    if self.good(an, ac):
                        dl = (np.linalg.norm(x1 - x3) + np.linalg.norm(x4 - x3)) / 2
                        cont.append((self.cost(dl, ac, an, m + freq), k))
                        self.n_rest += 1
                        if self.add:
                            self.add_to(f3, x4, which)
                if prev >= 0 and self.inside(x3 - x1, self.lo, self.hi):
                    an, ac = self.angle_acc(x1, x2, x3)
                    if self.good(an, ac):
                        dl = (np.linalg.norm(x1 - x3) + np.linalg.norm(x0 - x1)) / 2
                        past = (self.cost(dl, ac, an, freq), k)
                each.append((freq, k, cont, past, self.n_added > n_before))
            for freq, k, cont, past, added in each:
                if not cont and not mine and past:
                    mine.append(past)
                    self.n_fallback += 1
                mine += cont
            # candidates that as many cameras saw come in no particular order
            if self.loose:
                self.order_matters = True
            for freq in {e[0] for e in each}:
                group = [e for e in each if e[0] == freq]
                if len(group) < 2:
                    continue
                if any(e[4] for e in group):
                    self.order_matters = True
                if any(e[0] > freq and (e[2] or e[3]) for e in each):
                    continue
                live = [e for e in group if e[2] or e[3]]
                sure = [o for e in each for o in e[2]]
                ends = {min(sure + ([] if e[2] else [e[3]])) for e in live}
                if len(ends) > 1:
                    self.order_matters = True
            if self.add and not mine and prev >= 0:
                m, x3, which = self.position(f2, x2)
                if m >= 2 and self.inside(x3, *self.box) and self.inside(x2 - x3, self.lo, self.hi):
                    an, ac = self.angle_acc(x1, x2, x3)
                    if self.good(an, ac):
                        dl = (np.linalg.norm(x1 - x3) + np.linalg.norm(x0 - x1)) / 2
                        mine.append((self.cost(dl, ac, an, m), len(f2.x)))
                        self.add_to(f2, x3, which)
            offers.append(mine)
        best = [min(m) if m else None for m in offers]
        for m, b in zip(offers, best):
            if b and any(k != b[1] and abs(c - b[0]) < 1e-9 * max(1, abs(c)) for c, k in m):
                self.amb += 1
        for h, b in enumerate(best):
            if not b:
                continue
            k = b[1]
            f1.cost[h] = b[0]
            old = f2.prev[k]
            if old < 0:
                f2.prev[k], f1.next[h] = h, k
            else:
                self.n_conflict += 1
                self.n_newcomer += k >= n2
                if abs(best[old][0] - b[0]) < 1e-9:
                    self.amb += 1
                if best[old][0] > b[0]:
                    f1.next[old] = -2
                    f2.prev[k], f1.next[h] = h, k
        links = sum(k != -2 for k in f1.next)
        self.n_links += links
        return links

    # -- a step backward
    def backward(self, f0, f1, f2, f3):
        """Give particles of f1 that start there a predecessor in f2 (earlier); f0 is later, f3 before f2."""
        offers = [None] * len(f1.x)
        for h in range(len(f1.x)):
            if f1.next[h] < 0 or f1.prev[h] != -1:
                continue
            mine = []
            x1, x0 = f1.x[h], f0.x[f1.next[h]]
            x2 = 2 * x1 - x0
            self.loose = False
            w = self.candidates(f2, x2, [self.px(x2, c) for c in range(self.n)])
            if self.loose:
                self.order_matters = True
            for k, freq in w:
                x3 = f2.x[k]
                if self.inside(x1 - x3, self.lo, self.hi):
                    an, ac = self.angle_acc(x1, x2, x3)
                    if self.good(an, ac):
                        dl = (np.linalg.norm(x1 - x3) + np.linalg.norm(x0 - x1)) / 2
                        mine.append((self.cost(dl, ac, an, freq), k))
            if self.add and not mine:
                m, x3, which = self.position(f2, x2)
                if m >= 2 and self.inside(x3, *self.box) and self.inside(x1 - x3, self.lo, self.hi):
                    an, ac = self.angle_acc(x1, x2, x3)
                    if self.good(an, ac):
                        dl = (np.linalg.norm(x1 - x3) + np.linalg.norm(x0 - x1)) / 2
                        mine.append((self.cost(dl, ac, an, m), len(f2.x)))
                        self.add_to(f2, x3, which)
            if mine:
                offers[h] = min(mine)
                if any(k != offers[h][1] and abs(c - offers[h][0]) < 1e-9 * max(1, abs(c)) for c, k in mine):
                    self.amb += 1
        for h, b in enumerate(offers):
            if b is None or f2.next[b[1]] != -2:
                continue
            k = b[1]
            if f2.prev[k] != -1:  # joins two paths: they must fit
                x0, x1, x3, x4 = f0.x[f1.next[h]], f1.x[h], f2.x[k], f3.x[f2.prev[k]]
                if not self.good(*self.angle_acc(x3, x4, 0.5 * (5 * x3 - 4 * x1 + x0))):
                    self.n_refused += 1
                    continue
                self.n_joined += 1
            f1.prev[h], f2.next[k] = k, h
            self.n_links += 1
        return sum(k != -1 for k in f1.prev)
