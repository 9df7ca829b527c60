"""Target files and path files: what is written is what is read."""

import os
import shutil

import numpy as np

from vlib import frames as fr
from vlib.core import Family
from openptv_python.constants import POSI
from openptv_python.tracking_frame_buf import read_path_frame, read_targets, write_path_frame, write_targets

PROPERTY = "C16"
RULE = (
    "random target lists and linked particles (none to a few hundred, wild coordinates, unused markers, spare entries behind the last one), "
    "every way of naming a camera's files, frame numbers of 1 to 9 digits, written by the code and read back, or written by an own writer with "
    "varied spacing. Non-trivial: at least one row; distinct by content"
)
ASSUMPTIONS = ["target coordinates are kept to 4 decimals and particle positions to 3", "frame numbers are positive"]


def fresh(ctx):
    d = os.path.join(ctx.scratch, "files")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def same_targets(ctx, got, rows, key, tol=5.001e-5):
    ctx.check(len(got) == len(rows), key, lambda: f"{len(got)} targets, {len(rows)} were there")
    for k, (t, r) in enumerate(zip(got, rows)):
        g = (t.pnr, t.n, t.nx, t.ny, t.sumg, t.tnr)
        ctx.check(g == (r[0], *r[3:]), key, lambda: f"target {k}: {g}, should be {r}")
        ctx.check(all(isinstance(v, int) for v in g), key, lambda: f"types {[type(v) for v in g]}")
        ctx.check(abs(t.x - r[1]) <= tol + 1e-12 * abs(r[1]) and abs(t.y - r[2]) <= tol + 1e-12 * abs(r[2]), key, lambda: f"target {k} at {t.x, t.y}, should be {r[1:3]}")
    ctx.seen("targets", len(rows))


def number(rng):
    return int(rng.choice([1, 42, 333, 10095, 99999, 100000, 123456789, int(rng.integers(1, 20)), int(rng.integers(1, 10**6))]))


def targets(ctx, rng, i):
    d = fresh(ctx)
    m = int(rng.choice([0, 1, 2, 10, 150, 400], p=[0.15, 0.2, 0.2, 0.3, 0.1, 0.05]))
    rows = fr.random_targets(rng, m)
    spare = int(rng.choice([0, 0, 1, 30]))
    lst = fr.to_targets(rows + fr.random_targets(rng, spare))
    keep = fr.of_targets(lst)
    base = os.path.join(d, str(rng.choice(["cam1.%05d", "cam1.%04d", "cam2.#", "cam3.", "c", "img %d", "cam_%08d_x", "sample_%04d"])))
    frame = number(rng)
    # neighbours that must stay as they are
    for f in (frame + 1, frame - 1, frame * 10):
        with open(fr.target_name(base, f), "w") as fh:
            fh.write("other")
    before = fr.listing(d)
    if rng.random() < 0.3:  # over an older, longer file
        write_targets(fr.to_targets(fr.random_targets(rng, m + 5)), m + 5, base, frame)
    ok = write_targets(lst, m, base, frame)
    ctx.check(bool(ok) is True, "targets:status", "writing reports failure")
    after = fr.listing(d)
    name = os.path.relpath(fr.target_name(base, frame), d)
    ctx.check(set(after) == set(before) | {name} and all(after[k] == before[k] for k in before), "targets:files",
              lambda: f"files {sorted(set(after) ^ set(before))} appeared for {name}")
    ctx.check(fr.of_targets(lst) == keep, "targets:input", "writing changed the targets")
    same_targets(ctx, read_targets(base, frame), rows, "targets:trip")
    text = after[name].decode().split("\n")
    ctx.check(int(text[0]) == m and text[-1] == "" and len(text) == m + 2, "targets:format", lambda: f"{len(text) - 2} rows under the number {text[0]}")
    for t, r in zip(text[1:], rows):
        ctx.check(len(t.split()) == 8, "targets:format", lambda: f"row {t!r}")
    ctx.seen("target_files")
    if m:
        ctx.sig("t", rows)
    ctx.sample(base=os.path.basename(base), frame=frame, rows=rows[:2])
    # a file from elsewhere
    fr.write_rows(rng, fr.target_name(base, frame), m, rows, ["%d", str(rng.choice(["%.6f", "%r", "%.10e"])), "%.6f", "%d", "%d", "%d", "%d", "%d"])
    same_targets(ctx, read_targets(base, frame), rows, "targets:read", 1e-4)
    if m:  # broken off: not read as if it were whole
        cut = int(rng.integers(0, m))
        fr.write_rows(rng, fr.target_name(base, frame), m, rows[:cut], ["%d", "%.4f", "%.4f", "%d", "%d", "%d", "%d", "%d"])
        try:
            got = read_targets(base, frame)
        except Exception:
            ctx.seen("cut_refused")
        else:
            ctx.check(False, "targets:cut", lambda: f"{cut} of {m} rows are read as {len(got)} targets")
    os.remove(fr.target_name(base, frame))
    try:
        read_targets(base, frame)
        ctx.check(False, "targets:missing", "a missing file is read")
    except OSError:
        ctx.seen("missing_refused")
    ctx.check(not write_targets(lst, m, os.path.join(d, "nowhere", "cam1.%05d"), frame), "targets:status", "success without a file")


def paths(ctx, rng, i):
    d = fresh(ctx)
    m = int(rng.choice([0, 1, 2, 10, 150, 400], p=[0.15, 0.2, 0.2, 0.3, 0.1, 0.05]))
    rows = fr.random_paths(rng, m)
    cor, path = fr.to_paths(rows, int(rng.choice([0, 0, 1, 30])))
    keep = (cor.tobytes(), [(p.x.tobytes(), p.prev_frame, p.next_frame, p.prio, p.inlist) for p in path])
    frame = number(rng)
    rt, ptv, prio = (os.path.join(d, s) for s in ("rt_is", "ptv_is", "added"))
    with_prio = rng.random() < 0.7
    for b in (rt, ptv, prio):
        for f in (frame + 1, frame * 10):
            with open(f"{b}.{f}", "w") as fh:
                fh.write("other")
    before = fr.listing(d)
    if rng.random() < 0.3:
        c2, p2 = fr.to_paths(fr.random_paths(rng, m + 4))
        write_path_frame(c2, p2, m + 4, rt, ptv, prio if with_prio else "", frame)
    ok = write_path_frame(cor, path, m, rt, ptv, prio if with_prio else "", frame)
    ctx.check(bool(ok) is True, "paths:status", "writing reports failure")
    after = fr.listing(d)
    new = {f"rt_is.{frame}", f"ptv_is.{frame}"} | ({f"added.{frame}"} if with_prio else set())
    ctx.check(set(after) == set(before) | new and all(after[k] == before[k] for k in before), "paths:files", lambda: f"files {sorted(set(after) ^ set(before))}")
    ctx.check(keep == (cor.tobytes(), [(p.x.tobytes(), p.prev_frame, p.next_frame, p.prio, p.inlist) for p in path]), "paths:input", "writing changed the frame")
    for n in new:
        t = after[n].decode().split("\n")
        ctx.check(int(t[0]) == m and len(t) == m + 2 and t[-1] == "", "paths:format", lambda: f"{n}: {len(t) - 2} rows under the number {t[0]}")
        for k in range(m):
            ctx.check(len(t[k + 1].split()) == (8 if n.startswith("rt") else 5 if n.startswith("ptv") else 6), "paths:format", lambda: f"{n}: {t[k + 1]!r}")
        if m:  # positions agree in all the files
            cols = slice(1, 4) if n.startswith("rt") else slice(2, 5)
            got = np.array([[float(v) for v in s.split()[cols]] for s in t[1 : m + 1]])
            ctx.close(got, np.array([r[2:5] for r in rows]), 5.001e-4, "paths:format", f"positions in {n}")
        if n.startswith("rt"):
            num = [int(s.split()[0]) for s in t[1 : m + 1]]
            ctx.check(num == list(range(1, m + 1)), "paths:format", lambda: f"{n}: rows are numbered {num[:8]}")

    def judge(links, pr, key, tol):
        c, p = read_path_frame(rt, ptv if links else "", prio if pr else "", frame)
        ctx.check(len(c) == m and len(p) == m, key, lambda: f"{len(c)}, {len(p)} rows, {m} were there")
        for k, r in enumerate(rows):
            ctx.check(tuple(c[k].p) == r[6:] and c[k].nr == k + 1, key, lambda: f"targets of particle {k}: {c[k]}, should be {r[6:]}")
            ctx.check(np.shape(p[k].x) == (3,) and np.all(np.abs(p[k].x - r[2:5]) <= tol + 1e-12 * np.abs(r[2:5])), key, lambda: f"particle {k} at {p[k].x}, should be {r[2:5]}")
            want = (r[0], r[1]) if links else (-1, -2)
            ctx.check((p[k].prev_frame, p[k].next_frame) == want, key, lambda: f"links {p[k].prev_frame, p[k].next_frame} of particle {k}, should be {want}")
            ctx.check(p[k].prio == (r[5] if pr else 4), key, lambda: f"prio {p[k].prio} of particle {k}, should be {r[5] if pr else 4}")
            ctx.check(p[k].inlist == 0 and p[k].finaldecis == 1e6 and len(p[k].decis) == POSI and len(p[k].linkdecis) == POSI and set(p[k].linkdecis) == {-999}, key, "candidates of a particle just read")
        ctx.check(len({id(q) for q in p}) == m and len({id(q.decis) for q in p}) == m, key, "particles share their data")
        ctx.seen("particles", m)

    for links in (False, True):
        for pr in (False, True) if with_prio else (False,):
            judge(links, pr, "paths:trip", 5.001e-4)
    ctx.seen("path_files")
    if m:
        ctx.sig("p", rows)
    # files from elsewhere
    fm = str(rng.choice(["%.3f", "%.6f", "%.9e"]))
    fr.write_rows(rng, f"{rt}.{frame}", m, [(k + 1, *r[2:5], *r[6:]) for k, r in enumerate(rows)], ["%d", fm, fm, fm] + ["%d"] * 4)
    fr.write_rows(rng, f"{ptv}.{frame}", m, [r[:5] for r in rows], ["%d", "%d", fm, fm, fm])
    fr.write_rows(rng, f"{prio}.{frame}", m, [r[:6] for r in rows], ["%d", "%d", fm, fm, fm, "%d"])
    judge(True, True, "paths:read", 5.001e-4 if fm == "%.3f" else 1e-6 + 1e-9 * max([1.0] + [max(map(abs, r[2:5])) for r in rows]))
    if m:  # broken off: only the rows that are there
        cut = int(rng.integers(0, m))
        fr.write_rows(rng, f"{rt}.{frame}", m, [(k + 1, *r[2:5], *r[6:]) for k, r in enumerate(rows[:cut])], ["%d", fm, fm, fm] + ["%d"] * 4)
        try:
            c, p = read_path_frame(rt, "", "", frame)
        except Exception:
            ctx.seen("cut_refused")
        else:
            ctx.check(len(c) == cut and len(p) == cut, "paths:cut", lambda: f"{cut} of {m} rows are read as {len(c)} particles")
            ctx.seen("cut_short")
    k = int(rng.integers(3))
    os.remove(f"{(rt, ptv, prio)[k]}.{frame}")
    c, p = read_path_frame(rt, ptv, prio, frame)
    ctx.check(len(c) == 0 and len(p) == 0, "paths:missing", "particles of a missing file")
    names = [rt, ptv, prio]
    names[k] = os.path.join(d, "nowhere", "rt_is")
    ctx.check(not write_path_frame(cor, path, m, *names, frame), "paths:status", "success without a file")


FAMILIES = [Family("targets", targets, 600, 12000), Family("paths", paths, 400, 8000)]
MONITORS = {"targets": 6000, "target_files": 400, "cut_refused": 250, "missing_refused": 400, "particles": 10000, "path_files": 200}
