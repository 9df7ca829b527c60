"""Correspondences: disjoint consistent cliques, largest first, then best score first."""

import numpy as np

from vlib import gen, scene
from vlib.core import Family, Skip
from openptv_python.constants import MAXCAND, PT_UNUSED
from openptv_python.correspondences import (
    correspondences,
    match_pairs,
    py_correspondences,
    safely_allocate_adjacency_lists,
)
from openptv_python.epi import epi_mm
from openptv_python.find_candidate import find_candidate
from openptv_python.tracking_frame_buf import Frame, match_coords

PROPERTY = "C09"
RULE = (
    "one to four cameras, 0 to 30 particles (a few cases of 120), targets missing, spurious, noisy and of any similarity; all "
    "thresholds and the all-cameras flag varied. Non-trivial: at least one clique; distinct by the matches found"
)
ASSUMPTIONS = ["target numbers run from 0 in each camera, no two cliques that compete for a target have scores equal to 1e-9"]


def make(rng, n, m, clutter=True):
    mm = gen.random_mm(rng)
    cals, g, gd, target = scene.rig(rng, n, mm, tilt=(0.15, 0.6))
    half = rng.uniform(8, 15)
    cpar = scene.sensor(rng, cals, mm, target, half=half + 5)
    cpar.all_cam_flag = int(rng.random() < 0.25)
    pts = target + rng.uniform(-half, half, (m, 3))
    if m and rng.random() < 0.3:  # a planar arrangement gives many near coincidences
        pts[:, 1] = target[1] + 0.2 * rng.standard_normal(m)
    h = pts @ g - gd + 1.0
    pts = pts - np.maximum(h, 0)[:, None] * g
    same = rng.random() < 0.4
    feats = [(25, 5, 5, 2500)] * m if same else [(int(rng.integers(9, 60)), int(rng.integers(3, 9)), int(rng.integers(3, 9)), int(rng.integers(300, 6000))) for _ in range(m)]
    noise = float(rng.choice([0.02, 0.2, 1.0]))
    targs, who = [], []
    for c in range(n):
        keep = [k for k in range(m) if rng.random() > (0.12 if clutter else 0)]
        t, w = scene.targets_of(rng, pts[keep], cals[c], cpar, [feats[k] for k in keep], noise=noise)
        w = [keep[k] for k in w]
        if clutter:
            for _ in range(int(rng.integers(0, 4))):
                from openptv_python.tracking_frame_buf import Target

                t.append(Target(pnr=len(t), x=float(rng.uniform(0, cpar.imx)), y=float(rng.uniform(0, cpar.imy)), n=25, nx=5, ny=5, sumg=2500, tnr=-1))
                w.append(-1)
        for q in t:  # features differ a little from camera to camera
            if rng.random() < 0.5:
                q.n = max(1, int(q.n * rng.uniform(0.8, 1.2)))
                q.sumg = max(1, int(q.sumg * rng.uniform(0.8, 1.2)))
        targs.append(t)
        who.append(w)
    eps = cpar.pix_x * float(rng.choice([1.0, 3.0, 10.0]))
    th = lambda: float(rng.choice([0.0, 0.02, 0.3]))  # noqa: E731
    vpar = scene.volume(target, half=half + 5, eps0=eps, cn=th(), cnx=th(), cny=th(), csumg=th(), corrmin=float(rng.choice([0.0, 0.0, 33.0, 1e5, 1e7])))
    scene.below(vpar, g, gd, 0.5)
    corrected = [match_coords(t, cpar, cals[c], 1e-5) for c, t in enumerate(targs)]
    return cals, cpar, vpar, targs, corrected, pts, who


def frame_of(targs, n):
    frm = Frame(n, 20480)
    for c in range(n):
        frm.num_targets[c] = len(targs[c])
        frm.targets[c] = targs[c]
    return frm


def adjacency(lists, n, counts):
    """{(i1, i2): [[(p2, corr, dist), ...] per target]}"""
    out = {}
    for a in range(n - 1):
        for b in range(a + 1, n):
            rows = []
            for i in range(counts[a]):
                e = lists[a][b][i]
                rows.append([(int(e.p2[k]), float(e.corr[k]), float(e.dist[k])) for k in range(int(e.n))])
            out[a, b] = rows
    return out


def reference(adj, n, counts, corrmin, all_cam):
    """(matches by size, was there a tie between competing cliques)"""
    used = [set() for _ in range(n)]
    table = {k: [{p: (c, d) for p, c, d in row} for row in v] for k, v in adj.items()}
    result, tie = {}, False

    def take(cands):
        nonlocal tie
        cands.sort(key=lambda q: -q[0])
        for (s, a), (s2, b) in zip(cands, cands[1:]):
            if abs(s - s2) <= 1e-9 * abs(s) and any(x == y and x >= 0 for x, y in zip(a, b)):
                tie = True
        out = []
        for s, ids in cands:
            if any(p >= 0 and p in used[c] for c, p in enumerate(ids)):
                continue
            for c, p in enumerate(ids):
                if p >= 0:
                    used[c].add(p)
            out.append((ids, s))
        return out

    def score(edges):
        c, d = sum(e[0] for e in edges), sum(e[1] for e in edges)
        if d <= 1e-12:
            raise Skip()
        return c / d

    result[4], result[3], result[2] = [], [], []
    if n == 4:
        cands = []
        for i in range(counts[0]):
            for p2, e12 in table[0, 1][i].items():
                for p3, e13 in table[0, 2][i].items():
                    e23 = table[1, 2][p2].get(p3)
                    if e23 is None:
                        continue
                    for p4, e14 in table[0, 3][i].items():
                        e24, e34 = table[1, 3][p2].get(p4), table[2, 3][p3].get(p4)
                        if e24 is None or e34 is None:
                            continue
                        s = score([e12, e13, e14, e23, e24, e34])
                        if s > corrmin:
                            cands.append((s, (i, p2, p3, p4)))
        result[4] = take(cands)
    if n == 3 or (n == 4 and not all_cam):
        cands = []
        for a in range(n - 2):
            for b in range(a + 1, n - 1):
                for c in range(b + 1, n):
                    for i in range(counts[a]):
                        if i in used[a]:
                            continue
                        for p2, e1 in table[a, b][i].items():
                            for p3, e2 in table[a, c][i].items():
                                e3 = table[b, c][p2].get(p3)
                                if e3 is None or p2 in used[b] or p3 in used[c]:
                                    continue
                                s = score([e1, e2, e3])
                                if s > corrmin:
                                    ids = [-2] * n
                                    ids[a], ids[b], ids[c] = i, p2, p3
                                    cands.append((s, tuple(ids)))
        result[3] = take(cands)
    if n > 1 and not all_cam:
        cands = []
        for a in range(n - 1):
            for b in range(a + 1, n):
                for i in range(counts[a]):
                    if i in used[a] or len(adj[a, b][i]) != 1:
                        continue
                    p2, c, d = adj[a, b][i][0]
                    if p2 in used[b]:
                        continue
                    s = score([(c, d)])
                    if s > corrmin:
                        ids = [-2] * n
                        ids[a], ids[b] = i, p2
                        cands.append((s, tuple(ids)))
        result[2] = take(cands)
    return result, tie


def case(ctx, rng, n, m, label):
    cals, cpar, vpar, targs, corrected, pts, who = make(rng, n, m)
    counts = [len(t) for t in targs]
    if max(counts) == 0:
        raise Skip()
    states = [gen.cal_state(c) for c in cals]
    feats = [[(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg) for t in ts] for ts in targs]
    flat = [c.tobytes() for c in corrected]
    frm = frame_of(targs, n)
    lists = safely_allocate_adjacency_lists(n, frm.num_targets)
    match_pairs(lists, corrected, frm, vpar, cpar, cals)
    adj = adjacency(lists, n, counts)
    # a sample of the lists against the candidate search itself
    for _ in range(4):
        a, b = sorted(rng.choice(n, 2, replace=False).tolist())
        if counts[a] == 0:
            continue
        i = int(rng.integers(counts[a]))
        line = epi_mm(corrected[a][i].x, corrected[a][i].y, cals[a], cals[b], cpar.mm, vpar)
        t = targs[a][corrected[a][i].pnr]
        cand = find_candidate(corrected[b], targs[b], counts[b], *line, t.n, t.nx, t.ny, t.sumg, vpar, cpar, cals[b])
        want = [(int(q.pnr), float(q.corr), float(q.tol)) for q in cand][:MAXCAND] if len(cand) else []
        ctx.check(adj[a, b][i] == want, f"{label}:lists", lambda: f"list of target {i} of camera {a} in camera {b}: {adj[a, b][i]}, candidates are {want}")
        ctx.check(int(lists[a][b][i].p1) == i, f"{label}:lists", "list does not name its own target")
        ctx.seen("lists")
    want, tie = reference(adj, n, counts, vpar.corrmin, cpar.all_cam_flag)
    mc = [0] * 4
    if rng.random() < 0.4:  # matched before, perhaps with other parameters: nothing of that is left
        for ts in targs:
            for t in ts:
                t.tnr = int(rng.integers(-1, 40))
        mc = [int(v) for v in rng.integers(0, 9, 4)]
        ctx.seen("matched_again")
    con = correspondences(frm, corrected, vpar, cpar, cals, mc)
    got = [int(v) for v in mc]
    total = got[3]
    rows = [(tuple(int(v) for v in con[k].p[:n]), float(con[k].corr)) for k in range(total)]
    data = dict(cameras=n, targets=counts, counts=got, corrmin=vpar.corrmin, all_cam=cpar.all_cam_flag, matches=rows[:10])
    ctx.check(sum(got[:3]) == total, f"{label}:total", "counts of quadruplets, triplets and pairs do not add up to the total", **data)
    # what must hold whatever the scores are
    seen = [set() for _ in range(n)]
    k = 0
    for size, cnt in ((4, got[0]), (3, got[1]), (2, got[2])):
        last = np.inf
        for ids, s in rows[k:k + cnt]:
            mem = [(c, p) for c, p in enumerate(ids) if p >= 0]
            ctx.check(len(mem) == size, f"{label}:size", lambda: f"{ids} is listed as a clique of {size}", **data)
            for c, p in mem:
                ctx.check(p < counts[c], f"{label}:index", lambda: f"{ids} names a target that is not there", **data)
                ctx.check(p not in seen[c], f"{label}:shared", lambda: f"target {p} of camera {c} is in two matches", **data)
                seen[c].add(p)
            for x in range(len(mem)):
                for y in range(x + 1, len(mem)):
                    (a, pa), (b, pb) = mem[x], mem[y]
                    ctx.check(any(q[0] == pb for q in adj[a, b][pa]), f"{label}:unsupported",
                              lambda: f"match {ids}: target {pb} of camera {b} is no candidate for {pa} of camera {a}", **data)
            ctx.check(s <= last * (1 + 1e-12), f"{label}:order", "matches of one size are not in order of their score", **data)
            ctx.check(s > vpar.corrmin, f"{label}:corrmin", lambda: f"score {s} below the threshold", **data)
            last = s
        k += cnt
    if cpar.all_cam_flag:
        ctx.check(got[2] == 0 and (n == 3 or got[1] == 0), f"{label}:allcam", "smaller cliques although all cameras are required", **data)
    if tie:
        ctx.seen("ties")
    else:
        w = want[4] + want[3] + want[2]
        ctx.check([q[0] for q in rows] == [q[0] for q in w], f"{label}:greedy",
                  lambda: f"matches {[q[0] for q in rows][:12]}, best-first selection gives {[q[0] for q in w][:12]}", **data)
        ctx.close([q[1] for q in rows], [q[1] for q in w], 1e-9 * (1 + max([abs(q[1]) for q in w], default=0)), f"{label}:score", "scores")
        ctx.seen("selections")
    # back references
    for c in range(n):
        num = {p: k for k, (ids, _) in enumerate(rows) for cc, p in enumerate(ids) if cc == c and p >= 0}
        for p in range(counts[c]):
            t = targs[c][corrected[c][p].pnr]
            ctx.check(t.tnr == num.get(p, -1), f"{label}:tnr", lambda: f"target {t.pnr} of camera {c} says match {t.tnr}, is in {num.get(p, -1)}", **data)
    ctx.check([[(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg) for t in ts] for ts in targs] == feats and [c.tobytes() for c in corrected] == flat
              and [gen.cal_state(c) for c in cals] == states, f"{label}:mutated", "matching changed targets or calibrations")
    # the interface that returns arrays
    tnrs = [[t.tnr for t in ts] for ts in targs]
    for ts in targs:
        for t in ts:
            t.tnr = int(rng.integers(-1, 40))
    pos, ids, num = py_correspondences(targs, corrected, cals, vpar, cpar)
    ctx.check([[t.tnr for t in ts] for ts in targs] == tnrs, f"{label}:tnr", "matched again, the targets name other matches", **data)
    ctx.check(int(num) == total, f"{label}:py", lambda: f"{num} matches reported, {total} found")
    ctx.check(len(pos) == len(ids) == n - 1, f"{label}:py", "one array per clique size")
    k = 0
    for q in range(n - 1):
        cnt = got[4 - n + q]
        ctx.check(np.shape(pos[q]) == (n, cnt, 2) and np.shape(ids[q]) == (n, cnt), f"{label}:py", lambda: f"arrays of shape {np.shape(pos[q])}, {np.shape(ids[q])} for {cnt} cliques")
        for r in range(cnt):
            for c in range(n):
                p = rows[k][0][c]
                if p < 0:
                    ctx.check(ids[q][c, r] == -1 and np.all(pos[q][c, r] == PT_UNUSED), f"{label}:py", "a camera without a target is not marked")
                else:
                    t = targs[c][corrected[c][p].pnr]
                    ctx.check(ids[q][c, r] == t.pnr and tuple(pos[q][c, r]) == (t.x, t.y), f"{label}:py", lambda: f"row {r}: target {ids[q][c, r]} at {pos[q][c, r]}, should be {t}")
            k += 1
    ctx.seen("matches", total)
    ctx.seen(f"cliques{n}", total)
    ctx.seen("quadruplets", got[0])
    ctx.seen("triplets", got[1])
    ctx.seen("pairs", got[2])
    if total:
        ctx.sig(n, rows)
    ctx.sample(cameras=n, targets=counts, counts=got, matches=rows[:5])


def small(ctx, rng, i):
    n = 2 + i % 3
    case(ctx, rng, n, int(rng.choice([0, 1, 2, 3, 6, 10, 16])), "small")


def dense(ctx, rng, i):
    n = 2 + i % 3
    case(ctx, rng, n, int(rng.choice([25, 30, 45])), "dense")


def large(ctx, rng, i):
    case(ctx, rng, 2 + (i + 2) % 3, int(rng.integers(90, 130)), "large")


def single(ctx, rng, i):
    """With one camera every target is its own match."""
    m = int(rng.choice([0, 1, 5, 30]))
    cals, cpar, vpar, targs, corrected, pts, who = make(rng, 1, m)
    cpar.num_cams = 1
    pos, ids, num = py_correspondences(targs, corrected, cals, vpar, cpar)
    k = len(targs[0])
    ctx.check(num == k and len(pos) == 1 and pos[0].shape == (1, k, 2), "single:shape", lambda: f"{num} of {k} targets")
    ctx.check(sorted(ids[0][0].tolist()) == list(range(k)), "single:ids", "not every target once")
    for r in range(k):
        t = targs[0][ids[0][0, r]]
        ctx.check(tuple(pos[0][0, r]) == (t.x, t.y) and t.tnr == r and ids[0][0, r] == corrected[0][r].pnr, "single:rows", "wrong target in a row")
    ctx.seen("single_cameras")


def warm(ctx):
    rng = np.random.default_rng(5)
    for n in (2, 4):
        try:
            case(ctx, rng, n, 6, "warm")
        except Exception:
            pass


FAMILIES = [Family("small", small, 240, 6000), Family("dense", dense, 48, 1500), Family("large", large, 6, 90), Family("single", single, 24, 500)]
MONITORS = {"matches": 1200, "quadruplets": 100, "triplets": 60, "pairs": 150, "selections": 120, "lists": 500, "cliques2": 60, "cliques3": 60, "single_cameras": 10}
