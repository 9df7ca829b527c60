"""Integrity of the linked frames during and after forward tracking, whatever the links are."""

import os
import shutil

import numpy as np

from vlib import frames as fr
from vlib import tracks as tk
from vlib.core import Family
from openptv_python import track as tr
from openptv_python.track import add_particle
from openptv_python.tracking_frame_buf import Frame

PROPERTY = "C18"
RULE = (
    "sequences of 4 to 12 frames with up to 60 particles, 2 to 4 cameras, all kinds of motion, with and without adding, with clutter and missed targets; the ring is "
    "judged after every step and the files at the end. Histories of added particles on frames of their own. Distinct by scene; non-trivial: a run with links"
)
ASSUMPTIONS = ["frame numbers are positive", "files keep positions to 3 decimals, targets to 4", "the driver calls start, one step per frame, finish"]


def state(frame, cams):
    """What is in a frame of the code."""
    m = frame.num_parts
    return dict(
        x=np.array([frame.path_info[k].x for k in range(m)]).reshape(-1, 3).copy(), p=[tuple(int(v) for v in frame.correspond[k].p) for k in range(m)],
        prev=[int(frame.path_info[k].prev_frame) for k in range(m)], next=[int(frame.path_info[k].next_frame) for k in range(m)],
        targets=[[(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in frame.targets[c][: frame.num_targets[c]]] for c in range(cams)],
    )


def grown(ctx, st, parts, targets, cams, box, add, where):
    """The frame holds what was read, unchanged, and added particles after it."""
    n0, n = len(parts), len(st["x"])
    ctx.check(n >= n0, "lost", lambda: f"{where}: {n} particles, {n0} were read")
    if n0:
        ctx.close(st["x"][:n0], np.array([p[:3] for p in parts]), 1e-9, "moved", f"{where}: positions read")
    for k in range(n0):
        ctx.check(st["p"][k] == tuple(parts[k][3:7]), "changed", lambda: f"{where}: particle {k} has targets {st['p'][k]}, {parts[k][3:7]} were read")
    ctx.check(n == n0 or add, "added", lambda: f"{where}: {n - n0} particles added though adding is off")
    owner = [[r[7] for r in rows] for rows in targets]
    for k in range(n0, n):
        x, p = st["x"][k], st["p"][k]
        used = [(c, p[c]) for c in range(cams) if p[c] != -1]
        ctx.check(len(used) >= 2, "added:targets", lambda: f"{where}: added particle {k} has targets {p}")
        ctx.check(all(p[c] == -1 for c in range(cams, 4)), "added:targets", lambda: f"{where}: added particle {k} has targets {p} with {cams} cameras")
        for c, j in used:
            ctx.check(0 <= j < len(owner[c]), "added:targets", lambda: f"{where}: added particle {k} has target {j} of camera {c}, there are {len(owner[c])}")
            ctx.check(owner[c][j] == -1, "added:taken", lambda: f"{where}: added particle {k} takes target {j} of camera {c} from particle {owner[c][j]}")
            owner[c][j] = k
        ctx.check(bool((box[0] < x).all() and (x < box[1]).all()), "added:volume", lambda: f"{where}: added particle {k} at {x}, outside {box.tolist()}")
        ctx.seen("added")
    for c in range(cams):
        ctx.check(len(st["targets"][c]) == len(targets[c]), "targets", lambda: f"{where}: {len(st['targets'][c])} targets in camera {c}, {len(targets[c])} were read")
        for j, (g, w) in enumerate(zip(st["targets"][c], targets[c])):
            ctx.check(g[:1] + g[3:7] == w[:1] + w[3:7] and abs(g[1] - w[1]) < 1e-9 and abs(g[2] - w[2]) < 1e-9, "targets", lambda: f"{where}: target {j} of camera {c} is {g}, {w} was read")
            ctx.check(g[7] == owner[c][j], "targets:owner", lambda: f"{where}: target {j} of camera {c} belongs to {g[7]}, should belong to {owner[c][j]}")
    ctx.seen("frames")


def linked(ctx, a, b, where):
    """Links from frame a to the next frame b: one to one, and known to both sides."""
    na, nb = len(a["x"]), len(b["x"])
    for h, k in enumerate(a["next"]):
        ctx.check(k == -2 or 0 <= k < nb, "link:range", lambda: f"{where}: particle {h} is linked to {k} of {nb}")
        ctx.check(k == -2 or b["prev"][k] == h, "link:mutual", lambda: f"{where}: particle {h} is linked to {k}, which comes from {b['prev'][k]}")
        ctx.seen("links", k != -2)
    for k, h in enumerate(b["prev"]):
        ctx.check(h == -1 or 0 <= h < na, "link:range", lambda: f"{where}: particle {k} comes from {h} of {na}")
        ctx.check(h == -1 or a["next"][h] == k, "link:mutual", lambda: f"{where}: particle {k} comes from {h}, which is linked to {a['next'][h]}")


def box_of(run):
    v = run.vpar
    return np.array([[v.x_lay[0], run.ymin, v.z_min_lay[0]], [v.x_lay[1], run.ymax, v.z_max_lay[1]]])


def of_disk(rec):
    """A frame read from the files."""
    return dict(
        x=np.array([r[1:4] for r in rec["rt"]]).reshape(-1, 3), p=[tuple(int(v) for v in r[4:8]) for r in rec["rt"]],
        prev=[int(r[0]) for r in rec["ptv"]], next=[int(r[1]) for r in rec["ptv"]],
        targets=[[(int(r[0]), r[1], r[2], *map(int, r[3:8])) for r in rows] for rows in rec["targets"]],
    )


def same_on_disk(ctx, rec, st, cams, where):
    """The files of a frame hold the state it had."""
    d = of_disk(rec)
    n = len(st["x"])
    for name in ("rt", "ptv") + (("added",) if rec["added"] is not None else ()):
        ctx.check(len(rec[name]) == n, "file:rows", lambda: f"{where}: {len(rec[name])} rows in {name}, there are {n} particles")
    if n:
        ctx.close(d["x"], st["x"], 5.1e-4, "file:position", f"{where}: positions in rt_is")
        ctx.close(np.array([r[2:5] for r in rec["ptv"]]), st["x"], 5.1e-4, "file:position", f"{where}: positions in ptv_is")
        if rec["added"] is not None:
            ctx.close(np.array([r[2:5] for r in rec["added"]]), st["x"], 5.1e-4, "file:position", f"{where}: positions in the prio file")
            ctx.check([[int(r[0]), int(r[1])] for r in rec["added"]] == [list(v) for v in zip(st["prev"], st["next"])], "file:links", lambda: f"{where}: links in the prio file")
    ctx.check((d["prev"], d["next"]) == (st["prev"], st["next"]), "file:links", lambda: f"{where}: links (previous, next) in the file {(d['prev'], d['next'])}, were {(st['prev'], st['next'])}")
    ctx.check(d["p"] == st["p"], "file:targets", lambda: f"{where}: targets of particles in the file {d['p']}, were {st['p']}")
    for c in range(cams):
        ctx.check([(t[0], *t[3:]) for t in d["targets"][c]] == [(t[0], *t[3:]) for t in st["targets"][c]], "file:target list", lambda: f"{where}: target file of camera {c}")
        if st["targets"][c]:
            ctx.close(np.array([t[1:3] for t in d["targets"][c]]), np.array([t[1:3] for t in st["targets"][c]]), 5.1e-5, "file:target list", f"{where}: target file of camera {c}")
    ctx.seen("files")


def forward(ctx, rng, i):
    d = os.path.join(ctx.scratch, "fw")
    shutil.rmtree(d, ignore_errors=True)
    big = rng.random() < 0.12
    s = tk.make_scene(rng, n=int(rng.choice([0, 30, 60])) if big else None, T=int(rng.integers(8, 13)) if rng.random() < 0.15 and not big else None,
                      kind=str(rng.choice(["lost", "dense", "wild"])) if rng.random() < 0.5 else None)
    if rng.random() < 0.3 and s.parts[0]:  # particles that were found twice
        for k in rng.integers(0, len(s.parts[0]), int(rng.integers(1, 4))):
            s.parts[0].append(s.parts[0][int(k)])
            ctx.seen("twins")
    tk.write_scene(rng, s, d)
    prio = rng.random() < 0.8
    run = tk.new_run(s, prio, by_files=rng.random() < 0.3)
    names0 = set(fr.listing(d))
    tr.track_forward_start(run)
    fb = run.fb
    box = box_of(run)
    par0 = (repr(run.tpar), repr(run.vpar), repr(run.seq_par), repr(run.cpar), run.lmax, run.ymin, run.ymax)
    history, npart, nlinks = {}, 0, 0
    for t in range(s.T - 1):
        where = f"step {t + 1} of {s.T - 1} ({s.kind}, {s.cams} cameras, add {s.tpar.add})"
        before = len(fb.buf[1].path_info[: fb.buf[1].num_parts])
        tr.trackcorr_c_loop(run, s.first + t)
        ring = [state(fb.buf[k], s.cams) for k in range(3)]
        for k in range(3):
            if t + k < s.T:
                grown(ctx, ring[k], s.parts[t + k], s.targets[t + k], s.cams, box, s.tpar.add, f"{where}, frame {s.first + t + k}")
        linked(ctx, ring[0], ring[1], where)
        ctx.check(len(ring[0]["x"]) == before, "count", lambda: f"{where}: {len(ring[0]['x'])} particles in the frame of the step, {before} before it")
        if t + 2 < s.T:
            ctx.check(set(ring[1]["next"]) <= {-2} and set(ring[2]["prev"]) <= {-1} and set(ring[2]["next"]) <= {-2}, "early", lambda: f"{where}: links of frames that are still to come")
        if t == 0:
            ctx.check(set(ring[0]["prev"]) <= {-1}, "early", lambda: f"{where}: the first frame has predecessors {ring[0]['prev']}")
        else:
            ctx.check(history[t]["prev"] == ring[0]["prev"] and len(history[t]["x"]) <= len(ring[0]["x"]), "rewritten", lambda: f"{where}: predecessors changed from {history[t]['prev']} to {ring[0]['prev']}")
        history[t], history[t + 1] = ring[0], ring[1]
        npart += len(ring[0]["x"])
        nlinks += sum(k != -2 for k in ring[0]["next"])
        ctx.check((run.npart, run.nlinks) == (npart, nlinks), "sums", lambda: f"{where}: run counts {run.npart} particles and {run.nlinks} links, there were {npart} and {nlinks}")
        ctx.seen("steps")
    tr.trackcorr_c_finish(run, s.last)
    ctx.check(set(history[s.T - 1]["next"]) <= {-2}, "last", lambda: f"the last frame is linked on: {history[s.T - 1]['next']}")
    ctx.check(par0 == (repr(run.tpar), repr(run.vpar), repr(run.seq_par), repr(run.cpar), run.lmax, run.ymin, run.ymax), "parameters", "the parameters of the run changed")
    out = tk.read_result(s, prio)
    for t in range(s.T):
        same_on_disk(ctx, out[t], history[t], s.cams, f"frame {s.first + t} ({s.kind}, {s.cams} cameras)")
    want = {f"ptv_is.{s.first + t}" for t in range(s.T)} | ({f"added.{s.first + t}" for t in range(s.T)} if prio else set())
    ctx.check(set(fr.listing(d)) - names0 == want, "file:names", lambda: f"files made: {sorted(set(fr.listing(d)) - names0)}, expected {sorted(want)}")
    tk.around_kept(ctx, s)
    # paths can be followed through the files
    for t in range(s.T - 1):
        linked(ctx, of_disk(out[t]), of_disk(out[t + 1]), f"files of frames {s.first + t} and {s.first + t + 1}")
    ctx.seen("runs")
    ctx.seen("runs with adding", s.tpar.add)
    if nlinks:
        ctx.sig(s.true, s.tpar)


def adding(ctx, rng, i):
    """Particles added to a frame one by one."""
    cams = int(rng.integers(1, 5))
    size = int(rng.choice([0, 1, 3, 10]))
    frame = Frame(cams, size)
    n0 = int(rng.integers(0, 6))
    rows = [r for r in fr.random_paths(rng, n0)]
    spare = int(rng.choice([0, 0, 1, 5]))
    cor, path = fr.to_paths(rows, spare)
    frame.correspond, frame.path_info, frame.num_parts = cor, path, n0
    tg = []
    for c in range(cams):
        m = int(rng.integers(0, 12))
        tg.append([(*r[:7], -1 if rng.random() < 0.6 else int(rng.integers(0, 9))) for r in fr.random_targets(rng, m)])
        frame.targets[c] = fr.to_targets(tg[c])
        frame.num_targets[c] = m
    want = [(r[0], r[1], tuple(r[2:5]), r[5], tuple(r[6:])) for r in rows]
    for _ in range(int(rng.integers(1, 6))):
        inds = np.full((int(rng.choice([cams, 4]) if cams < 4 else 4), 4), -1)
        for c in range(cams):
            free = [j for j, r in enumerate(tg[c]) if r[7] == -1]
            if free and rng.random() < 0.8:
                inds[c][0] = free[int(rng.integers(len(free)))]
                if rng.random() < 0.3:
                    inds[c][1] = free[int(rng.integers(len(free)))]
        pos = rng.uniform(-100, 100, 3)
        k = len(want)
        kept = inds.copy()
        add_particle(frame, pos, inds)
        ctx.check((inds == kept).all(), "add:input", "add_particle changes the candidates")
        p = [-1] * 4
        for c in range(cams):
            j = int(inds[c][0])
            if j != -1:
                p[c] = j
                tg[c][j] = (*tg[c][j][:7], k)
        want.append((-1, -2, tuple(pos), 2, tuple(p)))
        pos += 1.0  # the frame has its own copy
        ctx.check(frame.num_parts == len(want), "add:count", lambda: f"{frame.num_parts} particles, expected {len(want)}")
        ctx.check(len(frame.path_info) >= len(want) and len(frame.correspond) >= len(want), "add:count", lambda: f"{len(frame.path_info)} paths and {len(frame.correspond)} correspondences for {len(want)} particles")
        for j, w in enumerate(want):
            q = frame.path_info[j]
            g = (q.prev_frame, q.next_frame, tuple(float(v) for v in q.x), q.prio, tuple(int(v) for v in frame.correspond[j].p))
            ctx.check(g == w, "add:particle", lambda: f"after adding particle {k}: particle {j} is {g}, expected {w}")
        for c in range(cams):
            got = fr.of_targets(frame.targets[c][: frame.num_targets[c]])
            ctx.check(got == tg[c], "add:targets", lambda: f"after adding particle {k}: targets of camera {c} {got}, expected {tg[c]}")
        pos = frame.positions()
        ctx.check(pos.shape == (len(want), 3) and (pos == np.array([w[2] for w in want])).all(), "add:positions", "positions of the frame")
        ctx.seen("adds")
    ctx.sig(want)


FAMILIES = [Family("forward", forward, 100, 3500), Family("adding", adding, 400, 8000)]
MONITORS = {"runs": 40, "steps": 200, "links": 2000, "added": 120, "files": 200, "frames": 700, "adds": 400, "runs with adding": 20, "twins": 20, "parts of longer sequences": 15}
