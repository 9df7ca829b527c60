"""Files of target lists and of linked particles, written and read by the oracle itself."""

import os

import numpy as np

from vlib import gen


def target_name(base, frame):
    """Where the targets of a frame are: '#' or '%..d' stands for the number, otherwise it is appended with 5 digits."""
    base = base.replace("#", "%05d")
    if "%" not in base:
        base += "%05d"
    return base % frame + "_targets"


def random_targets(rng, m, imx=1280, imy=1024):
    """Rows (pnr, x, y, n, nx, ny, sumg, tnr)."""
    rows = []
    for k in range(m):
        wild = rng.random() < 0.1
        x = float(rng.uniform(-1e5, 1e6)) if wild else float(rng.uniform(0, imx))
        y = float(rng.uniform(-1e5, 1e6)) if wild else float(rng.uniform(0, imy))
        if rng.random() < 0.2:
            x = round(x, 4)
        if rng.random() < 0.05:
            x = float(rng.choice([0.0, -0.0, -0.00001, 0.00005, 9999.99995, 0.99995]))
        n = int(rng.choice([1, int(rng.integers(1, 200)), int(rng.integers(1, 10**7))]))
        rows.append((int(rng.choice([k, -999, int(rng.integers(0, 10**6))])), x, y, n, int(rng.integers(1, 300)), int(rng.integers(1, 300)),
                     int(rng.choice([int(rng.integers(0, 5000)), int(rng.integers(0, 2**31))])), int(rng.choice([-1, -999, k, int(rng.integers(0, 10**6))]))))
    return rows


def to_targets(rows):
    from openptv_python.tracking_frame_buf import Target

    return [Target(*r) for r in rows]


def of_targets(targets):
    return [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]


def write_rows(rng, path, head, rows, fmt):
    """Own writer with varied spacing."""
    pad = ["", " ", "   ", "\t"]
    with open(path, "w", encoding="utf-8") as f:
        f.write(str(rng.choice(pad)) + f"{head}" + str(rng.choice(["", " "])) + "\n")
        for r in rows:
            s = str(rng.choice([" ", "  ", "\t"]))
            f.write(str(rng.choice(pad)) + s.join(fm % v for fm, v in zip(fmt, r)) + str(rng.choice(["", " ", "\t"])) + "\n")


def random_paths(rng, m, cams=4):
    """Rows (prev, next, x, y, z, prio, p0..p3)."""
    out = []
    for _ in range(m):
        xyz = [float(v) for v in (rng.uniform(-1, 1, 3) * 10.0 ** rng.integers(-4, 5))]
        if rng.random() < 0.2:
            xyz[int(rng.integers(3))] = float(rng.choice([0.0, -0.0004, 0.0005, -0.0005, 0.0015, 999.9995, -1e-9]))
        p = [int(rng.choice([-1, int(rng.integers(0, 50)), int(rng.integers(0, 10**5))])) for _ in range(4)]
        out.append((int(rng.choice([-1, int(rng.integers(0, 10**4))])), int(rng.choice([-2, int(rng.integers(0, 10**4))])), *xyz, int(rng.integers(-1, 9)), *p))
    return out


def to_paths(rows, spare=0):
    """(correspondences, path infos) as the code holds them, with unused entries after them."""
    from openptv_python.tracking_frame_buf import Corres_dtype, Pathinfo

    cor = np.recarray(len(rows) + spare, dtype=Corres_dtype)
    cor.nr = 777
    cor.p = 12345
    path = []
    for k, r in enumerate(rows):
        cor[k].nr = k + 1
        cor[k].p = r[6:]
        path.append(Pathinfo(x=np.array(r[2:5]), prev_frame=r[0], next_frame=r[1], prio=r[5]))
    path += [Pathinfo(x=np.array([5e5, 5e5, 5e5])) for _ in range(spare)]
    return cor, path


def listing(d):
    """Every file below a directory with its content."""
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out
