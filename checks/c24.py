"""Tracking back: paths are extended at their start, and nothing else happens."""

import os
import shutil

import numpy as np

from checks import c18
from vlib import frames as fr
from vlib import gen
from vlib import tracks as tk
from vlib.core import Family
from openptv_python import track as tr

PROPERTY = "C24"
RULE = (
    "sequences of 4 to 9 frames of linked particles: the true links with some of them cut, or the results of forward tracking; all kinds of motion, with and without adding. "
    "The files after tracking back are judged by what they were before, by a model of the decisions, and by the truth where links were cut in scenes that leave no doubt. "
    "Distinct by scene; non-trivial: new links"
)
ASSUMPTIONS = ["sequences of at least 4 frames with results of forward tracking on the disk", "frame numbers are positive", "links in the files are mutual",
               "projection, lens model and stereo positions are those of the code (their own properties)"]


def dump_links(rng, s, cut, wrong=False):
    """Linkage and priority files with the true links, some cut. Returns what was cut: {(frame, particle of it): particle in the next}."""
    at = [{k: j for j, k in enumerate(s.who[t])} for t in range(s.T)]
    prev = [[-1] * len(s.parts[t]) for t in range(s.T)]
    nxt = [[-2] * len(s.parts[t]) for t in range(s.T)]
    gone = {}
    for t in range(s.T - 1):
        for h, k in enumerate(s.who[t]):
            if k in at[t + 1]:
                if rng.random() < cut:
                    gone[(t, h)] = at[t + 1][k]
                else:
                    nxt[t][h] = at[t + 1][k]
                    prev[t + 1][at[t + 1][k]] = h
    for t in range(s.T - 1):  # links to the wrong particle, as real results have; the right one is left alone
        while wrong and rng.random() < 0.6:
            live = [k for k in range(len(s.parts[t + 1])) if prev[t + 1][k] >= 0 and nxt[t + 1][k] >= 0]
            if not live or not s.parts[t]:
                break
            k = live[int(rng.integers(len(live)))]
            h, w = prev[t + 1][k], int(rng.choice([0, 0, rng.integers(len(s.parts[t]))]))
            if h == w:
                break
            if nxt[t][w] >= 0:
                prev[t + 1][nxt[t][w]] = -1
            prev[t + 1][k], nxt[t][w], nxt[t][h] = w, k, -2
            gone.clear()
    s.prio = []
    for t in range(s.T):
        f = s.first + t
        rows = [(prev[t][k], nxt[t][k], *p[:3]) for k, p in enumerate(s.parts[t])]
        pr = [int(rng.integers(0, 5)) for _ in rows]
        fr.write_rows(rng, os.path.join(s.dir, f"ptv_is.{f}"), len(rows), rows, ["%d", "%d", "%.3f", "%.3f", "%.3f"])
        fr.write_rows(rng, os.path.join(s.dir, f"added.{f}"), len(rows), [(*r, p) for r, p in zip(rows, pr)], ["%d", "%d", "%.3f", "%.3f", "%.3f", "%d"])
    return gone


def back(ctx, rng, s, by_files=False):
    """Track back over the files; judge what came out. Returns (before, after)."""
    prio = True
    before = tk.read_result(s, prio)
    names = set(fr.listing(s.dir))
    run = tk.new_run(s, prio)
    box = c18.box_of(run)
    got = tr.trackback_c(run)
    after = tk.read_result(s, prio)
    ctx.check(set(fr.listing(s.dir)) == names, "file:names", lambda: f"files made or lost: {set(fr.listing(s.dir)) ^ names}")
    b, a = [c18.of_disk(r) for r in before], [c18.of_disk(r) for r in after]
    new = []
    for t in range(s.T):
        where = f"frame {s.first + t} of {s.first}..{s.last} ({s.kind}, {s.cams} cameras, add {s.tpar.add})"
        n0 = len(b[t]["x"])
        c18.grown(ctx, a[t], [(*x, *p) for x, p in zip(b[t]["x"], b[t]["p"])], b[t]["targets"], s.cams, np.array([box[0] - 6e-4, box[1] + 6e-4]), s.tpar.add, where)
        n = len(a[t]["x"])
        for name in ("ptv", "added"):
            ctx.check(len(after[t][name]) == n, "file:rows", lambda: f"{where}: {len(after[t][name])} rows in {name} for {n} particles")
            if n:
                ctx.close(np.array([r[2:5] for r in after[t][name]]), a[t]["x"], 1e-9, "file:position", f"{where}: positions in {name}")
        ctx.check([(int(r[0]), int(r[1])) for r in after[t]["added"]] == list(zip(a[t]["prev"], a[t]["next"])), "file:links", lambda: f"{where}: links in the prio file")
        ctx.check([int(r[5]) for r in after[t]["added"][:n0]] == [int(r[5]) for r in before[t]["added"]], "prio", lambda: f"{where}: priorities changed")
        for k in range(n0):
            for side, none in (("prev", -1), ("next", -2)):
                was, now = b[t][side][k], a[t][side][k]
                ctx.check(was == none or now == was, "kept", lambda: f"{where}: particle {k} had the {side} {was}, has {now}")
            if b[t]["prev"][k] != a[t]["prev"][k]:
                ctx.check(a[t]["next"][k] >= 0, "start", lambda: f"{where}: particle {k} got a predecessor, but is on no path")
                new.append((t, k, a[t]["prev"][k]))
            ctx.seen("kept")
        if t:
            c18.linked(ctx, a[t - 1], a[t], where)
        for k in range(n0, n):
            ctx.check(t < s.T - 2 and (a[t]["next"][k] == -2 or (b[t + 1]["prev"] + [-1] * 999)[a[t]["next"][k]] == -1), "added:link", lambda: f"{where}: added particle {k}")
    ctx.check(set(a[0]["prev"]) <= {-1}, "start", "the first frame has predecessors")
    inner = range(1, s.T - 1)
    want = sum(sum(p != -1 for p in a[t]["prev"]) for t in inner) / max(s.T - 2, 1)
    ctx.close(got, want, 1e-9, "average", "average number of links")
    tk.around_kept(ctx, s)
    ctx.seen("runs")
    ctx.seen("new links", len(new))
    # the model, from the last frame to the first
    model = tk.Model(s, box[0][1], box[1][1], run.vpar)

    def mframe(t):
        return tk.MFrame([(*x, *p) for x, p in zip(b[t]["x"], b[t]["p"])], b[t]["targets"], list(zip(b[t]["prev"], b[t]["next"])))

    m = [mframe(t) for t in range(s.T)]
    model.order_matters, doubt, late = False, 0, s.T
    # rounding of the files: a particle added in one step is used in the next with all its digits
    for t in range(s.T - 2, 0, -1):
        model.backward(m[t + 1], m[t], m[t - 1], m[t - 2] if t > 1 else tk.MFrame([], [[] for _ in range(s.cams)]))
        if model.amb or model.order_matters:
            ctx.seen("steps in doubt", t)
            break
        late = t
        ctx.seen("steps")
    for t in range(late, s.T):
        where = f"frame {s.first + t} of {s.first}..{s.last} ({s.kind}, {s.cams} cameras, add {s.tpar.add})"
        ctx.check(len(m[t].x) == len(a[t]["x"]), "model:added", lambda: f"{where}: {len(a[t]['x'])} particles, expected {len(m[t].x)}")
        if m[t].x:
            ctx.close(a[t]["x"], np.array(m[t].x), 5.2e-4, "model:position", f"{where}: positions")
        ctx.check([list(p[: s.cams]) for p in a[t]["p"]] == [list(p[: s.cams]) for p in m[t].p], "model:targets", lambda: f"{where}: targets")
        ctx.check(a[t]["prev"] == m[t].prev, "model:link", lambda: f"{where}: predecessors {a[t]['prev']}, expected {m[t].prev}, were {b[t]['prev']}")
        if t > late or late == 1:
            ctx.check(a[t]["next"] == m[t].next, "model:link", lambda: f"{where}: successors {a[t]['next']}, expected {m[t].next}")
    if late == 1:
        ctx.check(a[0]["next"] == m[0].next and len(m[0].x) == len(a[0]["x"]), "model:link", lambda: f"first frame: successors {a[0]['next']}, expected {m[0].next}")
    ctx.seen("model:added", model.n_added)
    ctx.seen("model:joined", model.n_joined)
    ctx.seen("model:refused", model.n_refused)
    return before, after


def restore(ctx, rng, i):
    d = os.path.join(ctx.scratch, "back")
    shutil.rmtree(d, ignore_errors=True)
    s = tk.make_scene(rng, T=int(rng.choice([2, 3, 4, 5, 6, 7, 8, 9])), kind=str(rng.choice(["easy", "gaps", "lost", "lost", "dense", "wild", "resting"])))
    tk.write_scene(rng, s, d)
    wrong = rng.random() < 0.4
    gone = dump_links(rng, s, float(rng.choice([0.1, 0.3, 0.6])), wrong)
    ctx.seen("scenes with wrong links", wrong)
    before, after = back(ctx, rng, s)
    if s.kind in ("easy", "gaps"):
        frames = [tk.MFrame(s.parts[t], s.targets[t]) for t in range(s.T)]
        run = tk.new_run(s)
        model = tk.Model(s, run.ymin, run.ymax, run.vpar)
        for (t, h), k in gone.items():
            # the path goes on after the cut, and both ends are well seen
            n2 = int(before[t + 1]["ptv"][k][1])
            back_link = int(after[t + 1]["ptv"][k][0])
            if t + 1 > s.T - 2 or n2 < 0:
                ctx.check(back_link == -1 or back_link == h, "restore:false", lambda: f"frame {s.first + t + 1}: particle {k} got predecessor {back_link}, it is {h}")
                continue
            if back_link not in (-1, h) and back_link < len(s.who[t]):
                ctx.check(False, "restore:false", f"frame {s.first + t + 1}: particle {k} got predecessor {back_link}, it is {h}")
            x1, x0 = frames[t + 1].x[k], frames[t + 2].x[n2]
            x2 = 2 * x1 - x0
            seen = all(any(r[7] == h for r in s.targets[t][c]) for c in range(s.cams))
            crowd = any(len(model.near(frames[t], c, model.px(x2, c), *(1.1 * v + 5 for v in model.window(x2, c)), True)) > 4 for c in range(s.cams))
            if not seen or crowd:
                continue
            ctx.check(back_link == h, "restore:missing", lambda: f"frame {s.first + t + 1}: the cut to particle {h} before particle {k} was not mended")
            ctx.seen("mended")
    ctx.sig(s.true, s.tpar, len(gone))


def after_forward(ctx, rng, i):
    d = os.path.join(ctx.scratch, "fwback")
    shutil.rmtree(d, ignore_errors=True)
    s = tk.make_scene(rng, kind=str(rng.choice(["lost", "lost", "dense", "wild"])))
    tk.write_scene(rng, s, d)
    run = tk.new_run(s)
    tr.track_forward_start(run)
    for t in range(s.first, s.last):
        tr.trackcorr_c_loop(run, t)
    tr.trackcorr_c_finish(run, s.last)
    add = s.tpar.add
    if rng.random() < 0.5:
        s.tpar.add = 1 - add
    if rng.random() < 0.5:  # wider bounds the second time
        for k in ("dvxmin", "dvymin", "dvzmin", "dvxmax", "dvymax", "dvzmax", "dacc"):
            setattr(s.tpar, k, getattr(s.tpar, k) * 1.5)
        s.tpar.dangle = 200.0
    back(ctx, rng, s)
    ctx.seen("after forward")
    ctx.sig(s.true, s.tpar, add)


FAMILIES = [Family("restore", restore, 90, 3000), Family("after", after_forward, 50, 1500)]
MONITORS = {"runs": 60, "steps": 200, "new links": 150, "mended": 20, "added": 35, "model:joined": 50, "model:refused": 3, "kept": 2000, "after forward": 20, "parts of longer sequences": 20}
