"""Links made by the tracking against a model of the documented decisions, and against the truth in scenes that leave no doubt."""

import os
import shutil

import numpy as np

from vlib import gen
from vlib import tracks as tk
from vlib.core import Family, Skip
from openptv_python import track as tr
from openptv_python.parameters import TrackPar, convert_track_par_to_tuple

PROPERTY = "C19"
RULE = (
    "sequences of 4 to 7 frames with 1 to 20 particles, 2 to 4 cameras: easy, dense, resting, gappy and wild scenes, with and without adding, with clutter, missed "
    "and doubled targets; every step compared with a model that searches whole lists, unless the decision hangs on rounding; easy and gappy scenes also against the "
    "truth. Distinct by scene; non-trivial: a step with links"
)
ASSUMPTIONS = [
    "projection, lens model and stereo positions are those of the code (their own properties)",
    "steps in which two choices are equal within rounding are counted and not compared",
    "target lists are sorted by y, as the detection leaves them",
]


def snapshot(frame, cams):
    """A frame of the code, as the model has it."""
    m = frame.num_parts
    rows = [[(j, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for j, t in enumerate(frame.targets[c][: frame.num_targets[c]])] for c in range(cams)]
    parts = [(*map(float, frame.path_info[k].x), *map(int, frame.correspond[k].p)) for k in range(m)]
    return tk.MFrame(parts, rows, [(frame.path_info[k].prev_frame, frame.path_info[k].next_frame) for k in range(m)])


def compare(ctx, code, model, cams, where, links=True):
    """Judge a frame of the code by the model's."""
    ctx.check(code.num_parts == len(model.x), "added", lambda: f"{where}: {code.num_parts} particles, expected {len(model.x)}")
    for k in range(code.num_parts):
        ctx.close(code.path_info[k].x, model.x[k], 1e-6, "position", f"{where}: position of particle {k}")
        ctx.check([int(v) for v in code.correspond[k].p[:cams]] == list(model.p[k][:cams]), "targets",
                  lambda: f"{where}: particle {k} has targets {code.correspond[k].p}, expected {model.p[k]}")
        got = (int(code.path_info[k].prev_frame), int(code.path_info[k].next_frame))
        if links:
            ctx.check(got == (model.prev[k], model.next[k]), "link", lambda: f"{where}: particle {k} has links (previous, next) {got}, expected {(model.prev[k], model.next[k])}")
            if code.path_info[k].next_frame >= 0 and k in model.cost:
                ctx.close(code.path_info[k].finaldecis, model.cost[k], 1e-5 * max(1, model.cost[k]), "cost", f"{where}: cost of the link of particle {k}")
                ctx.seen("costs")
        ctx.seen("particles")
    for c in range(cams):
        got = [int(t.tnr) for t in code.targets[c][: code.num_targets[c]]]
        ctx.check(got == model.tnr[c], "tnr", lambda: f"{where}: targets of camera {c} belong to {got}, expected {model.tnr[c]}")


def follow(ctx, rng, s, judge=True):
    """Run the code over a scene, the model beside it. Returns (run, how many steps could not be compared)."""
    run = tk.new_run(s, by_files=rng.random() < 0.3)
    tr.track_forward_start(run)
    # the volume: from the code
    model = tk.Model(s, run.ymin, run.ymax, run.vpar)
    frames = {t: tk.MFrame(s.parts[t], s.targets[t]) for t in range(s.T)}
    skipped = 0
    for t in range(s.T - 1):
        f0, f1, f2 = frames.get(t - 1), frames[t], frames[t + 1]
        f3 = frames.get(t + 2)
        model.amb, model.order_matters = 0, False
        n0, a0 = model.n_links, model.n_added
        model.forward(f0, f1, f2, f3)
        links = model.n_links - n0
        tr.trackcorr_c_loop(run, s.first + t)
        # after the step the frames have moved: 0 is f1, 1 is f2, 2 is f3
        fb = run.fb
        doubt = model.amb > 0 or model.order_matters
        if doubt:
            skipped += 1
            ctx.seen("steps in doubt")
            for dt in range(0, 3):
                if t + dt < s.T:
                    frames[t + dt] = snapshot(fb.buf[dt], s.cams)
            continue
        ctx.seen("steps")
        ctx.seen("links", links)
        where = f"step {t + 1} of {s.T - 1} ({s.kind}, {s.cams} cameras)"
        compare(ctx, fb.buf[0], f1, s.cams, where + ", frame of the step")
        compare(ctx, fb.buf[1], f2, s.cams, where + ", next frame")
        if t + 2 < s.T:
            compare(ctx, fb.buf[2], f3, s.cams, where + ", frame after")
    tr.trackcorr_c_finish(run, s.last)
    for k in ("cont", "rest", "fallback", "conflict", "newcomer", "added"):
        ctx.seen("model:" + k, getattr(model, "n_" + k))
    return run, skipped


def dir_of(ctx, name):
    d = os.path.join(ctx.scratch, name)
    shutil.rmtree(d, ignore_errors=True)
    return d


def links(ctx, rng, i):
    s = tk.make_scene(rng)
    tk.write_scene(rng, s, dir_of(ctx, "links"))
    follow(ctx, rng, s)
    ctx.sig(s.true, s.tpar)


def twins(ctx, rng, i):
    """Two particles (or two pairs) close together, seen and matched now and then: who gets what hangs on the costs."""
    s = tk.make_scene(rng, kind="twins", n=int(rng.choice([2, 3, 3, 4])), T=int(rng.integers(4, 8)))
    tk.write_scene(rng, s, dir_of(ctx, "twins"))
    follow(ctx, rng, s)
    ctx.sig(s.true, s.tpar)
    ctx.seen("twins")


def truth(ctx, rng, i):
    """Particles well apart on smooth paths: every link is right, and none is missing."""
    s = tk.make_scene(rng, kind=str(rng.choice(["easy", "easy", "gaps"])), n=int(rng.choice([1, 2, 5, 8, 12, 25])), add=0)
    n = s.true.shape[1]
    if n > 1:
        for t in range(s.T):
            d = np.linalg.norm(s.true[t][:, None] - s.true[t][None], axis=2) + 1e9 * np.eye(n)
            if d.min() < 9 * s.step:
                raise Skip
    tk.write_scene(rng, s, dir_of(ctx, "truth"))
    run = tk.new_run(s)
    model = tk.Model(s, run.ymin, run.ymax, run.vpar)
    tr.track_forward_start(run)
    for t in range(s.first, s.last):
        tr.trackcorr_c_loop(run, t)
    tr.trackcorr_c_finish(run, s.last)
    out = tk.read_result(s)
    frames = [tk.MFrame(s.parts[t], s.targets[t]) for t in range(s.T)]
    at = [{k: j for j, k in enumerate(s.who[t])} for t in range(s.T)]

    def few(f, x):
        """No window has more targets than the search keeps."""
        for c in range(s.cams):
            left, right = model.window(x, c)
            if len(model.near(f, c, model.px(x, c), left * 1.1 + 5, right * 1.1 + 5, True)) > 4:
                return False
        return True

    for t in range(s.T - 1):
        for h, k in enumerate(s.who[t]):
            got = int(out[t]["ptv"][h][1])
            if got >= 0:
                ctx.check(s.who[t + 1][got] == k, "false link", lambda: f"frame {s.first + t}: particle {k} linked to particle {s.who[t + 1][got]}, more than {9 * s.step:.3f} away")
                ctx.seen("true links")
                continue
            # may it be missing? it needs the particle in the next frame, and in the one before or after
            if k not in at[t + 1] or sum(r[7] == at[t + 1][k] for c in range(s.cams) for r in s.targets[t + 1][c]) < s.cams:
                continue
            had = t > 0 and k in at[t - 1] and int(out[t]["ptv"][h][0]) >= 0
            sees = t + 2 < s.T and k in at[t + 2] and sum(r[7] == at[t + 2][k] for c in range(s.cams) for r in s.targets[t + 2][c]) == s.cams
            if not (had or sees):
                continue
            x1 = frames[t].x[h]
            x3 = frames[t + 1].x[at[t + 1][k]]
            x2 = 2 * x1 - frames[t - 1].x[at[t - 1][k]] if had else x1
            if not few(frames[t + 1], x2) or (t + 2 < s.T and not few(frames[t + 2], 2 * x3 - x1)):
                ctx.seen("crowded")
                continue
            ctx.check(False, "missing link", f"frame {s.first + t}: particle {k} (number {h}) is not linked to itself in the next frame; previous {had}, after {sees}, kind {s.kind}")
    ctx.sig(s.true, s.tpar)
    ctx.seen("truth:" + s.kind)


def rules(ctx, rng, i):
    """The small decisions, on their own."""
    scale = 10.0 ** rng.uniform(-3, 3)
    off = gen.unit(rng) * scale * 10.0 ** rng.uniform(-1, 3) if rng.random() < 0.7 else np.zeros(3)
    v0 = gen.unit(rng) * scale
    how = str(rng.choice(["any", "same", "opposite", "right", "near", "rest0", "rest1", "rest"]))
    v1 = gen.unit(rng) * scale * 10.0 ** rng.uniform(-2, 2)
    if how in ("same", "opposite"):
        v1 = v0 * rng.uniform(0.1, 5) * (1 if how == "same" else -1)
    if how == "right":
        v1 = np.cross(v0, gen.unit(rng))
    if how == "near":
        v1 = v0 + scale * 10.0 ** rng.uniform(-6, -2) * gen.unit(rng)
    if how in ("rest0", "rest"):
        v0 = np.zeros(3)
    if how in ("rest1", "rest"):
        v1 = np.zeros(3)
    a, b, c = off, off + v0, off + v1
    kept = [a.copy(), b.copy(), c.copy()]
    got = np.asarray(tr.angle_acc(a, b, c), float)
    ctx.check(all((p == q).all() for p, q in zip(kept, (a, b, c))), "angle_acc:input", "angle_acc changes its arguments")
    w0, w1 = b - a, c - a
    acc = np.linalg.norm(b - c)
    n0, n1 = np.linalg.norm(w0), np.linalg.norm(w1)
    ang = 0.0
    if n0 > 0 and n1 > 0:
        u0, u1 = w0 / n0, w1 / n1
        ang = 2 * np.arctan2(np.linalg.norm(u0 - u1), np.linalg.norm(u0 + u1)) * 200 / np.pi
    size = max(np.abs(kept).max(), 1e-30)
    ctx.close(got[1], acc, 1e-12 * size + 1e-12 * acc, "acc", f"deviation from prediction ({how})")
    ctx.close(got[0], ang, 2e-5, "angle", f"angle ({how})")
    ctx.seen("angle_" + how)
    ctx.close(tr.search_volume_center_moving(a, b), 2 * b - a, 1e-12 * size, "center", "centre of the search volume")
    p2, c2, out = rng.uniform(-1e3, 1e3, 2), rng.uniform(-1e3, 1e3, 2), np.zeros(2)
    tr.predict(p2, c2, out)
    ctx.close(out, 2 * c2 - p2, 1e-9, "predict", "predicted image position")
    # bounds are strict
    lo, hi = np.sort(np.round(rng.uniform(-3, 3, (2, 3)), 1), axis=0)
    par = TrackPar(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], 1.0, 1.0, 0)
    tup = convert_track_par_to_tuple(par)
    ctx.check([float(v) for v in tup[:6]] == [lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]] and (tup.dangle, tup.dacc, int(tup.add)) == (1.0, 1.0, 0), "tuple", lambda: f"{tup} from {par}")
    for _ in range(6):
        x = np.where(rng.random(3) < 0.75, lo + (hi - lo) * rng.uniform(0.01, 0.99, 3), np.array([rng.choice([lo[k], hi[k], lo[k] - 0.1, hi[k] + 0.1, np.nextafter(lo[k], 9), np.nextafter(hi[k], -9)]) for k in range(3)]))
        want = bool((lo < x).all() and (x < hi).all())
        ctx.check(bool(tr.pos3d_in_bounds(x, tup)) == want, "bounds", lambda: f"{x} in {lo}..{hi}: not {want}")
        ctx.seen(f"bounds_{want}")
    # candidates sorted by cost, the numbers along with them
    m = int(rng.integers(1, 20))
    cost, num = [float(v) for v in np.round(rng.random(24), 2)], [int(v) for v in rng.integers(0, 50, 24)]
    ca, nb = tr.sort(m, list(cost), list(num))
    ctx.check(list(ca[:m]) == sorted(cost[:m]) and sorted(zip(ca[:m], nb[:m])) == sorted(zip(cost[:m], num[:m])) and list(ca[m:]) == cost[m:] and list(nb[m:]) == num[m:], "sort", "sorted candidates")
    ctx.sig(how, v0, v1)


FAMILIES = [Family("links", links, 90, 3000), Family("twins", twins, 220, 6000), Family("truth", truth, 40, 1200), Family("rules", rules, 3000, 60000)]
MONITORS = {"steps": 120, "links": 600, "costs": 600, "twins": 50,  "model:cont": 800, "model:fallback": 150, "model:rest": 40, "model:conflict": 15, "model:added": 25, "true links": 450,
            "truth:easy": 8, "truth:gaps": 3, "bounds_True": 500, "bounds_False": 500,
            **{"angle_" + k: 80 for k in ("any", "same", "opposite", "right", "near", "rest0", "rest1", "rest")}}


def finish(results):
    """Most steps must have been compared."""
    ev = {}
    for r in results:
        for k, v in r["events"].items():
            ev[k] = ev.get(k, 0) + v
    return {"events": {"share of steps in doubt, percent": round(100 * ev.get("steps in doubt", 0) / max(1, ev.get("steps in doubt", 0) + ev.get("steps", 0)))}}
