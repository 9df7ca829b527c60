"""The frame buffer against a ring of values and a disk of values, over histories of operations."""

import os
import shutil
from collections import deque

import numpy as np

from vlib import frames as fr
from vlib.core import Family
from openptv_python.tracking_frame_buf import Frame, FrameBuf, FrameBufBase

PROPERTY = "C17"
RULE = (
    "histories of 10 to 60 operations (advance, step back, read a frame with or without its links at the end, write the first one, change particles "
    "and targets in any position, read what is not there) on buffers of 2 to 6 frames and 1 to 4 cameras, against a list of frames and a table of files; "
    "histories of push and pop. Non-trivial: history with a read after a write; distinct by history"
)
ASSUMPTIONS = ["frame numbers are positive", "coordinates survive a file to 3 (particles) and 4 (targets) decimals"]


def random_frame(rng, cams, big=False):
    m = int(rng.choice([0, 1, 3, 12, 40]))
    nt = [int(rng.choice([0, 1, 5, 30])) for _ in range(cams)]
    targets = []
    for n in nt:
        rows = fr.random_targets(rng, n)
        targets.append([(r[0], round(r[1], 4), round(r[2], 4), *r[3:]) for r in rows])
    parts = []
    for r in fr.random_paths(rng, m):
        p = [int(rng.integers(0, nt[c])) if c < cams and nt[c] and rng.random() < 0.8 else -1 for c in range(4)]
        parts.append((r[0], r[1], *(round(v, 3) for v in r[2:5]), r[5], *p))
    return dict(parts=parts, targets=targets)


def empty(cams):
    return dict(parts=[], targets=[[] for _ in range(cams)])


def put(frame, content):
    """Give a frame of the buffer some content, the way the tracking does (arrays replaced, counts set)."""
    cor, path = fr.to_paths(content["parts"], 2)
    frame.correspond = cor
    frame.path_info = path
    frame.num_parts = len(content["parts"])
    for c, rows in enumerate(content["targets"]):
        frame.targets[c] = fr.to_targets(rows)
        frame.num_targets[c] = len(rows)


def judge(ctx, frame, content, cams, where):
    rows = content["parts"]
    ctx.check(frame.num_parts == len(rows), "content", lambda: f"{where}: {frame.num_parts} particles, should be {len(rows)}")
    pos = frame.positions()
    ctx.check(pos.shape == (len(rows), 3), "positions", lambda: f"{where}: positions of shape {pos.shape}")
    if rows:
        ctx.close(pos, np.array([r[2:5] for r in rows]), 5.1e-4, "positions", f"{where}: positions")
    for k, r in enumerate(rows):
        p = frame.path_info[k]
        ctx.check((p.prev_frame, p.next_frame, p.prio) == (r[0], r[1], r[5]), "content",
                  lambda: f"{where}: particle {k} has links {p.prev_frame, p.next_frame, p.prio}, should be {r[0], r[1], r[5]}")
        ctx.check(tuple(frame.correspond[k].p) == r[6:10], "content", lambda: f"{where}: targets of particle {k}: {frame.correspond[k].p}, should be {r[6:]}")
    for c in range(cams):
        want = content["targets"][c]
        ctx.check(frame.num_targets[c] == len(want), "content", lambda: f"{where}: {frame.num_targets[c]} targets in camera {c}, should be {len(want)}")
        got = fr.of_targets(frame.targets[c][: len(want)])
        for k, (g, w) in enumerate(zip(got, want)):
            ctx.check((g[0], *g[3:]) == (w[0], *w[3:]) and abs(g[1] - w[1]) < 5.1e-5 and abs(g[2] - w[2]) < 5.1e-5, "content", lambda: f"{where}: target {k} of camera {c} {g}, should be {w}")
        t2 = frame.target_positions_for_camera(c)
        ctx.check(t2.shape == (len(rows), 2), "target_positions", lambda: f"shape {t2.shape}")
        for k, r in enumerate(rows):
            ix = r[6 + c]
            if ix == -1:
                ctx.check(np.isnan(t2[k]).all(), "target_positions", lambda: f"{where}: particle {k} is not seen by camera {c}, got {t2[k]}")
                ctx.seen("unseen")
            else:
                ctx.close(t2[k], want[ix][1:3], 5.1e-5, "target_positions", f"{where}: target of particle {k} in camera {c}")
                ctx.seen("seen")
    ctx.seen("frames")


def unlinked(content):
    """What reading without links gives."""
    return dict(parts=[(-1, -2, *r[2:5], 4, *r[6:]) for r in content["parts"]], targets=content["targets"])


def prioless(content):
    return dict(parts=[(*r[:5], 4, *r[6:]) for r in content["parts"]], targets=content["targets"])


def history(ctx, rng, i):
    d = os.path.join(ctx.scratch, "hist")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cams = int(rng.integers(1, 5))
    length = int(rng.choice([2, 3, 4, 4, 4, 5, 6]))
    with_prio = rng.random() < 0.8
    bases = [os.path.join(d, f"cam{c}.%05d" if rng.random() < 0.6 else f"cam{c}_#") for c in range(cams)]
    fb = FrameBuf(length, cams, int(rng.choice([1, 5, 50])), os.path.join(d, "rt_is"), os.path.join(d, "ptv_is"), os.path.join(d, "added") if with_prio else "", bases)
    model = deque([empty(cams) for _ in range(length)])
    disk = {}
    log = []
    ctx.check(len(fb.buf) == length and len({id(f) for f in fb.buf}) == length, "ring", "frames of a new buffer")
    for k in range(length):
        put(fb.buf[k], model[k])
    reads = 0
    for _ in range(int(rng.integers(10, 60))):
        op = str(rng.choice(["next", "next", "prev", "read", "read", "disk_read", "write", "write", "put", "touch", "missing"]))
        n = int(rng.integers(1, 7)) if rng.random() < 0.8 else int(rng.choice([99999, 100000, 123456789]))
        links = bool(rng.random() < 0.5)
        frames = list(fb.buf)
        if op == "next":
            fb.fb_next()
            model.rotate(-1)
        elif op == "prev":
            fb.fb_prev()
            model.rotate(1)
        elif op in ("read", "disk_read"):
            if n not in disk:
                continue
            if op == "read":
                fb.read_frame_at_end(n, links) if links or rng.random() < 0.5 else fb.read_frame_at_end(n)
            else:
                ctx.check(fb.disk_read_frame_at_end(n, links) is True, "status", "reading what is there reports failure")
            model[-1] = (disk[n] if with_prio else prioless(disk[n])) if links else unlinked(disk[n])
            reads += 1
            ctx.seen("reads")
        elif op == "write":
            ctx.check(fb.write_frame_from_start(n) is True, "status", "writing reports failure")
            disk[n] = model[0]
            ctx.seen("writes")
        elif op == "put":
            k = int(rng.integers(length))
            model[k] = random_frame(rng, cams)
            put(fb.buf[k], model[k])
        elif op == "touch":
            k = int(rng.integers(length))
            if model[k]["parts"]:
                j = int(rng.integers(len(model[k]["parts"])))
                r = list(model[k]["parts"][j])
                r[0], r[1], r[2] = int(rng.integers(0, 50)), int(rng.integers(0, 50)), round(float(rng.uniform(-50, 50)), 3)
                model[k] = dict(parts=[*model[k]["parts"][:j], tuple(r), *model[k]["parts"][j + 1 :]], targets=model[k]["targets"])
                p = fb.buf[k].path_info[j]
                p.prev_frame, p.next_frame = r[0], r[1]
                p.x[0] = r[2]
        elif op == "missing":
            n = 777000 + int(rng.integers(5))
            if rng.random() < 0.5 and disk:  # targets are there, the particles or the links are not
                src = int(rng.choice(list(disk)))
                for b in bases:
                    shutil.copy(fr.target_name(b, src), fr.target_name(b, n))
                if links:
                    shutil.copy(os.path.join(d, f"rt_is.{src}"), os.path.join(d, f"rt_is.{n}"))
            keep = model[-1]
            try:
                ok = fb.disk_read_frame_at_end(n, links) if rng.random() < 0.5 else fb.read_frame_at_end(n, links)
            except OSError:
                ctx.seen("missing")
            else:
                ctx.check(ok is False, "status", "reading what is not there reports success")
                ctx.seen("missing")
            for f in os.listdir(d):
                if "7770" in f:
                    os.remove(os.path.join(d, f))
            model[-1] = keep
            put(fb.buf[-1], keep)  # its content after a failed read is not defined
        log.append((op, n, links))
        # the same frames, moved by the operation only
        ctx.check({id(f) for f in fb.buf} == {id(f) for f in frames} and len(fb.buf) == length, "ring", lambda: f"frames were lost by {op}")
        if op not in ("next", "prev"):
            ctx.check([id(f) for f in fb.buf] == [id(f) for f in frames], "ring", lambda: f"frames were moved by {op}")
        for k in range(length):
            judge(ctx, fb.buf[k], model[k], cams, f"frame {k} after {log[-6:]}")
        ctx.seen("operations")
    # everything on the disk is what was written last under that number, and nothing else is there
    names = {f"{b}.{n}" for n in disk for b in (["rt_is", "ptv_is"] + (["added"] if with_prio else []))} | {os.path.basename(fr.target_name(b, n)) for n in disk for b in bases}
    ctx.check(set(os.listdir(d)) == names, "disk", lambda: f"files {sorted(set(os.listdir(d)) ^ names)}")
    for n in disk:
        frame = Frame(cams, 3)
        ok = frame.read(fb.corres_file_base, fb.linkage_file_base, fb.prio_file_base, bases, n)
        ctx.check(ok is True, "status", "reading what is there reports failure")
        judge(ctx, frame, disk[n] if with_prio else prioless(disk[n]), cams, f"file {n}")
    if reads:
        ctx.sig(log)
    ctx.sample(log=log[:10])


def queue(ctx, rng, i):
    length = int(rng.integers(1, 7))
    fb = FrameBufBase(deque([None] * length, maxlen=length), length, 1)
    model = deque()
    for k in range(int(rng.integers(5, 60))):
        if rng.random() < 0.55:
            fb.push(("item", k))
            if len(model) < length:
                model.append(("item", k))
        else:
            want = model.popleft() if model else None
            got = fb.pop()
            ctx.check(got == want, "queue", lambda: f"pop gives {got}, should be {want}")
            ctx.seen("pops")
        ctx.check(fb.size == len(model), "queue", lambda: f"size {fb.size}, should be {len(model)}")


def fresh(ctx, rng, i):
    """A new frame is empty and shares nothing with another one."""
    cams, m = int(rng.integers(1, 5)), int(rng.integers(1, 30))
    a, b = Frame(cams, m), Frame(cams, m)
    k = int(rng.integers(m))
    c = int(rng.integers(cams))
    for f in (a, b):
        ctx.check(f.num_parts == 0 and list(f.num_targets) == [0] * cams and f.positions().shape == (0, 3), "new", "a new frame is not empty")
    a.path_info[k].x[:] = 5.0
    a.path_info[k].decis[3] = 5.0
    a.path_info[k].register_link_candidate(0.5, 3)
    a.correspond[k].p = 3
    a.targets[c][k].x = 3.0
    a.num_targets[c] = 4
    others = [a.path_info[j] for j in range(m) if j != k] + b.path_info
    ctx.check(all(p.x.tolist() == [0, 0, 0] and p.inlist == 0 and p.decis[3] == 0 and (p.prev_frame, p.next_frame) == (-1, -2) for p in others), "new", "particles share their data")
    ctx.check(all(t.x == 0 for f in (a, b) for q in range(cams) for j, t in enumerate(f.targets[q]) if not (f is a and q == c and j == k)), "new", "targets share their data")
    ctx.check((b.correspond.p == -1).all() and b.num_targets == [0] * cams and a.num_targets[c] == 4, "new", "frames share their data")
    p = a.path_info[k]
    p.prev_frame, p.next_frame, p.prio = 3, 4, 0
    p.reset_links()
    ctx.check((p.prev_frame, p.next_frame, p.prio, p.inlist) == (-1, -2, 2, 1) and p.decis[0] == 0.5 and p.linkdecis[0] == 3, "new", "links after a reset")
    ctx.seen("new_frames")


FAMILIES = [Family("history", history, 220, 5000), Family("queue", queue, 100, 2000), Family("fresh", fresh, 100, 1000)]
MONITORS = {"operations": 3000, "frames": 10000, "reads": 300, "writes": 500, "missing": 200, "pops": 500, "seen": 5000, "unseen": 5000, "new_frames": 50}
