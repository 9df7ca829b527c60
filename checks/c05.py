"""Calibration files keep the calibration to their printed precision."""

import os
from pathlib import Path

import numpy as np

from vlib import gen
from vlib.core import Family
from openptv_python.calibration import (
    Calibration,
    compare_calibration,
    read_calibration,
    read_ori,
    write_calibration,
    write_ori,
)

PROPERTY = "C05"
RULE = (
    "random calibrations (magnitudes from 1e-9 to 1e6, signs, zeros, angles of several turns) written and read back, files "
    "overwritten by shorter ones, hand-laid-out ori files. Non-trivial: a file written and read; distinct by its bytes"
)
ASSUMPTIONS = ["the printed precision of the format: 8 decimals (position, angles, added), 7 (matrix), 4 (interior), 15 (glass)"]


def value(rng, top):
    k = rng.random()
    if k < 0.1:
        return 0.0
    if k < 0.2:
        return gen.CONSTS.near(rng, -top, top, 0.0)
    return float(rng.choice([-1, 1])) * gen.logu(rng, 1e-9 * top, top)


def random_cal(rng):
    c = Calibration()
    c.set_pos(np.array([value(rng, 1e5 if rng.random() < 0.2 else 1e3) for _ in range(3)]))
    c.set_angles(np.array([value(rng, 8.0) for _ in range(3)]))
    c.set_primary_point(np.array([value(rng, 10), value(rng, 10), abs(value(rng, 500))]))
    c.set_glass_vec(np.array([value(rng, 200) for _ in range(3)]))
    a = np.array([value(rng, 0.1) for _ in range(5)] + [value(rng, 2), value(rng, 1)])
    c.set_added_par(a)
    return c


def same(ctx, got, want, label):
    ctx.close(got.get_pos(), want.get_pos(), 5.1e-9 + 1e-15 * np.abs(want.get_pos()), f"{label}:pos", "position read back")
    ctx.close(got.get_angles(), want.get_angles(), 5.1e-9, f"{label}:angles", "angles read back")
    ctx.close(got.get_rotation_matrix(), gen.angles_to_rot(*got.get_angles()), 1e-12, f"{label}:dm", "rotation matrix belongs to the angles read")
    ctx.close(got.get_primary_point(), want.get_primary_point(), 5.1e-5, f"{label}:interior", "interior read back")
    ctx.close(got.get_glass_vec(), want.get_glass_vec(), 5.1e-16 + 4e-16 * np.abs(want.get_glass_vec()), f"{label}:glass", "glass vector read back")


def added_same(ctx, got, want, label):
    ctx.close(got.added_par, want.added_par, 5.1e-9, f"{label}:added", "added parameters read back")


def roundtrip(ctx, rng, i):
    d = Path(ctx.scratch)
    ori, add = d / "cam.ori", d / "cam.addpar"
    # what is there already may be longer
    if rng.random() < 0.3:
        ori.write_text("9.9 " * 100)
        add.write_text("9.9 " * 100)
    cal = random_cal(rng)
    before = gen.cal_state(cal)
    how = int(rng.integers(3))
    if how == 0:
        cal.write(str(ori), str(add))
    elif how == 1:
        ctx.check(bool(write_calibration(cal, str(ori), str(add))), "file:status", "write_calibration reports failure")
    else:
        ctx.check(bool(write_ori(cal.ext_par, cal.int_par, cal.glass_par, cal.added_par, str(ori), str(add))), "file:status", "write_ori reports failure")
    ctx.check(gen.cal_state(cal) == before, "file:mutated", "writing modified the calibration")
    how2 = int(rng.integers(3))
    read = [lambda: read_calibration(ori, add), lambda: Calibration.from_file(ori, add), lambda: read_ori(ori, add)][how2]
    got = read()
    same(ctx, got, cal, "file")
    added_same(ctx, got, cal, "file")
    # the ori part alone
    if rng.random() < 0.4:
        alone = d / "alone.ori"
        how = int(rng.integers(3))
        if how == 0:
            cal.write(str(alone), None)
        elif how == 1:
            ctx.check(bool(write_calibration(cal, str(alone), None)), "alone:status", "write_calibration without an addpar file reports failure")
        else:
            ctx.check(bool(write_ori(cal.ext_par, cal.int_par, cal.glass_par, cal.added_par, str(alone), None)), "alone:status", "write_ori without an addpar file reports failure")
        ctx.check(gen.cal_state(cal) == before and alone.read_bytes() == ori.read_bytes(), "alone:bytes", "the ori file is another when written without addpar")
        ctx.seen("written_alone")
        alone.unlink()
    part = read_calibration(ori, None)
    same(ctx, part, cal, "file_noadd")
    ctx.close(part.added_par, [0, 0, 0, 0, 0, 1, 0], 0, "file_noadd:default", "default distortion without an addpar file")
    # what was read, written again, reads back exactly
    ori2, add2 = d / "cam2.ori", d / "cam2.addpar"
    write_calibration(got, str(ori2), str(add2))
    again = read_calibration(ori2, add2)
    ctx.check(compare_calibration(got, again) and np.array_equal(got.added_par, again.added_par), "file:stable",
              "a calibration that was read does not survive being written and read again")
    write_calibration(again, str(ori), str(add))
    ctx.check(ori.read_bytes() == ori2.read_bytes() and add.read_bytes() == add2.read_bytes(), "file:bytes",
              "writing what was read back gives another file")
    # two objects read from one file do not share state
    other = read_calibration(ori2, add2)
    again.set_pos([1, 2, 3])
    again.set_glass_vec([4, 5, 6])
    again.glass_par[0] = 77
    again.set_radial_distortion(np.array([7.0, 8, 9]))
    ctx.check(compare_calibration(got, other) and np.array_equal(got.added_par, other.added_par), "file:shared", "calibrations read from one file share state")
    ctx.seen("round_trips")
    ctx.sig(ori2.read_bytes())
    ctx.sample(ori=ori2.read_text(), addpar=add2.read_text())


def layout(ctx, rng, i):
    """Files laid out as other tools write them (spacing, exponents, line breaks)."""
    d = Path(ctx.scratch)
    ori, add = d / "h.ori", d / "h.addpar"
    cal = random_cal(rng)
    dm = cal.get_rotation_matrix()

    def num(v):
        k = rng.integers(3)
        return repr(float(v)) if k == 0 else f"{v:.17e}" if k == 1 else f"{v:+.17g}"

    def sep():
        return str(rng.choice([" ", "  ", "   ", "\t"]))

    def row(vals):
        return str(rng.choice(["", "  "])) + sep().join(num(v) for v in vals) + str(rng.choice(["", " "])) + "\n"

    blank = str(rng.choice(["", "\n"]))
    pp = cal.get_primary_point()
    text = row(cal.get_pos()) + row(cal.get_angles()) + blank + "".join(row(r) for r in dm) + blank + row(pp[:2]) + row(pp[2:]) + blank + row(cal.get_glass_vec())
    ori.write_text(text)
    add.write_text(row(cal.added_par))
    got = Calibration.from_file(ori, add)
    same(ctx, got, cal, "layout")
    added_same(ctx, got, cal, "layout")
    ctx.seen("layouts")
    ctx.sig(text)


def missing(ctx, rng, i):
    d = Path(ctx.scratch)
    for f in (lambda: read_calibration(d / "nothing.ori", None), lambda: Calibration.from_file(d / "nothing.ori", d / "no.addpar")):
        try:
            f()
        except (IOError, OSError):
            ctx.seen("refused")
        else:
            ctx.check(False, "missing:accepted", "a calibration was made of a file that does not exist")
    ctx.check(not os.path.exists(d / "nothing.ori"), "missing:created", "reading created a file")


FAMILIES = [
    Family("roundtrip", roundtrip, 2500, 60000),
    Family("layout", layout, 1200, 30000),
    Family("missing", missing, 20, 50),
]
MONITORS = {"round_trips": 1000, "layouts": 500, "written_alone": 300, "refused": 20}
