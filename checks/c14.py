"""Camera calibration: recovers the camera, moves only what it is told to, reports what it did."""

import copy

import numpy as np

from vlib import gen, scene
from vlib.core import Family, Skip
from openptv_python.imgcoord import image_coordinates
from openptv_python.orientation import external_calibration, full_calibration, match_detection_to_ref
from openptv_python.parameters import OrientPar
from openptv_python.tracking_frame_buf import Target
from openptv_python.trafo import arr_metric_to_pixel

PROPERTY = "C14"
RULE = (
    "a camera behind a (tilted) wall, 20 to 60 points of a calibration body filling the view, exact or noisy detections, a "
    "start off by up to some 200 pixels, any set of flags. Non-trivial: the iteration converged; distinct by the calibration found"
)
ASSUMPTIONS = ["the calibration body is spread in depth, the start is within a few degrees and percent; a run may report that it did not converge when the sensor position or more than two parameters are adjusted, or the detections are noisy"]
NAMES = ["cc", "xh", "yh", "k1", "k2", "k3", "p1", "p2", "scx", "she"]
SETS = [[], [], ["k1"], ["k2"], ["k3"], ["p1"], ["p2"], ["scx"], ["she"], ["cc"], ["xh"], ["yh"], ["xh", "yh"], ["cc", "xh", "yh"],
        ["k1", "k2"], ["p1", "p2"], ["k1", "p1", "p2"], ["scx", "she"], ["k1", "scx", "she"], ["cc", "xh", "yh", "k1", "p1", "p2"], NAMES]


def values(cal):
    ip = cal.int_par
    return np.array([float(ip.cc), float(ip.xh), float(ip.yh), *[float(v) for v in cal.added_par]])


def body(rng, nx=None):
    """A camera and the points of a calibration body."""
    mm = gen.random_mm(rng)
    cals, g, gd, target = scene.rig(rng, 1, mm, tilted_wall=rng.random() < 0.5, distortion=rng.random() < 0.5)
    k = int(rng.integers(3, 5)) if nx is None else nx
    half = 20.0
    pts = np.array([target + np.array([x, y, z]) for x in np.linspace(-half, half, k) for y in np.linspace(-half, half, k) for z in (-14, -7, 0)])
    if rng.random() < 0.5:
        pts += rng.uniform(-2, 2, pts.shape)
    h = np.maximum(pts @ g - gd + 1.0, 0)
    pts = pts - h[:, None] * g
    cpar = scene.sensor(rng, cals, mm, target, half=half + 3)
    return cals[0], cpar, pts, mm, g, gd


def pixels(pts, cal, cpar):
    return arr_metric_to_pixel(image_coordinates(pts, cal, cpar.mm), cpar)


def perturb(rng, cal, how=1.0):
    c = copy.deepcopy(cal)
    c.set_pos(cal.get_pos() + how * 3 * rng.uniform(-1, 1, 3))
    c.set_angles(cal.get_angles() + how * 0.02 * rng.uniform(-1, 1, 3))
    return c


def truth(rng, cal, cpar, flags):
    """The calibration to be found: it differs from the start in the flagged parameters too."""
    field = cpar.pix_x * cpar.imx / 2
    s = 0.01
    size = dict(cc=s * float(cal.int_par.cc), xh=0.02 * field, yh=0.02 * field, k1=s / field**2, k2=s / field**4, k3=s / field**6,
                p1=0.3 * s / field, p2=0.3 * s / field, scx=s, she=s)
    c = copy.deepcopy(cal)
    for k in flags:
        v = size[k] * rng.uniform(-1, 1)
        if k in ("cc", "xh", "yh"):
            setattr(c.int_par, k, float(getattr(c.int_par, k)) + v)
        else:
            c.added_par[NAMES.index(k) - 3] += v
    return c


def targets_of(px):
    return [Target(pnr=k, x=float(p[0]), y=float(p[1]), n=9, nx=3, ny=3, sumg=900, tnr=-1) for k, p in enumerate(px)]


def full(ctx, rng, i):
    flags = SETS[i % len(SETS)]
    start, cpar, pts, mm, g, gd = body(rng)
    true = truth(rng, start, cpar, flags)
    noise = float(rng.choice([0.0, 0.0, 0.3]))
    px = pixels(pts, true, cpar)
    det = px + noise * rng.standard_normal(px.shape)
    mode = int(rng.choice([0, 0, 0, 1, 2, 3]))
    op = OrientPar(useflag=mode, **{f"{k}flag": 1 for k in flags})
    cal = start if rng.random() < 0.15 else perturb(rng, start)
    cal = copy.deepcopy(cal)
    before, glass = values(cal), cal.get_glass_vec().copy()
    state = gen.cal_state(cal)
    n = len(pts)
    missing = set(np.flatnonzero(rng.random(n) < rng.choice([0, 0, 0.15])).tolist())
    off = {1: lambda k: k % 2 == 0, 2: lambda k: k % 2 == 1, 3: lambda k: k % 3 == 0}.get(mode, lambda k: False)
    use = [k for k in range(n) if k not in missing and not off(k)]
    if len(use) < 16:
        raise Skip()
    arrays = not missing and rng.random() < 0.3
    if arrays:
        obs = det.copy()
        obs[[k for k in range(n) if k not in use]] += 500  # must not matter
    else:
        obs = targets_of(det)
        for k in range(n):
            if k in missing:
                obs[k] = Target() if rng.random() < 0.5 else Target(pnr=-999, x=float(rng.uniform(0, 900)), y=3.0)
            elif k not in use:
                obs[k].x += 500.0
    pts = gen.form(rng, pts)
    if arrays:
        obs = gen.form(rng, obs)
    pts0, obs0 = pts.copy(), copy.deepcopy(obs)
    label = "full"
    data = dict(flags=flags, useflag=mode, noise=noise, points=len(use))
    try:
        res, used, err = full_calibration(cal, pts, obs, cpar, op)
    except ValueError:
        ctx.check(gen.cal_state(cal) == state, f"{label}:untouched", "calibration changed although it was reported to have failed", **data)
        ctx.check(noise > 0 or len(flags) > 2 or set(flags) & {"cc", "xh", "yh"}, f"{label}:convergence", "no convergence on an easy case", **data)
        ctx.seen("failures")
        return
    ctx.check(np.array_equal(pts, pts0) and (np.array_equal(obs, obs0) if arrays else obs == obs0), f"{label}:inputs", "inputs were modified")
    after = values(cal)
    for k, name in enumerate(NAMES):
        if name not in flags:
            ctx.check(after[k] == before[k], f"{label}:fixed", lambda: f"{name} moved from {before[k]} to {after[k]} without its flag", **data)
            ctx.seen("parameters_held")
        else:
            ctx.seen("parameters_freed")
    ctx.check(np.array_equal(cal.get_glass_vec(), glass), f"{label}:glass", "glass vector moved without its flag", **data)
    ctx.close(cal.get_rotation_matrix(), gen.angles_to_rot(*cal.get_angles()), 1e-9, f"{label}:matrix", "rotation matrix of the result")
    # what was reported
    ctx.check(list(used) == use, f"{label}:used", lambda: f"targets used {list(used)}, should be {use}", **data)
    ctx.check(res.shape == (len(use), 2), f"{label}:residuals", lambda: f"residuals of shape {res.shape} for {len(use)} targets")
    px2 = pixels(pts, cal, cpar)
    pitch = np.array([cpar.pix_x, -cpar.pix_y])
    ctx.close(res / pitch, (px2 - det)[use], 2e-3, f"{label}:residuals", "residuals (pixels)", **data)
    moved = after[[NAMES.index(k) for k in flags]] - before[[NAMES.index(k) for k in flags]]
    omega = np.sum(res**2) + np.sum(moved**2)
    # it stops when no step is above 1e-4 (radians too); without noise what is left is of that size
    left = 1e-5 * cal.int_par.cc if noise == 0 else 0.0
    ctx.close(err[19], np.sqrt(omega / (2 * len(use) + 10 - 16)), 1e-3 * np.sqrt(omega) + 2e-3 * cpar.pix_x + left, f"{label}:sigma", "standard deviation of unit weight", **data)
    ctx.check(np.all(np.isfinite(err)) and np.all(err >= 0) and np.all(err[16:19] == 0), f"{label}:err", lambda: f"error estimates {err}", **data)
    # and whether it is a calibration
    rms = lambda p, q: float(np.sqrt(np.mean((p - q)[use] ** 2)))  # noqa: E731
    worst, start_err = rms(px2, det), rms(pixels(pts, true, cpar), det)
    ctx.stat("rms_exact" if noise == 0 else "rms_noisy_excess", worst - start_err)
    ctx.check(worst <= 1.02 * start_err + 0.6, f"{label}:fit", lambda: f"projections are off by {worst} pixels rms, the true camera by {start_err}", **data)
    # the result is no worse than the true camera in what is minimised
    idx = [NAMES.index(k) for k in flags]
    best = np.sum(((pixels(pts, true, cpar) - det)[use] * pitch) ** 2) + np.sum((values(true)[idx] - before[idx]) ** 2)
    ctx.stat("omega_ratio", omega / (best + len(use) * (0.02 * cpar.pix_x) ** 2))
    ctx.check(omega <= 1.5 * best + len(use) * (0.05 * cpar.pix_x) ** 2, f"{label}:optimum", lambda: f"minimised sum {omega}, the true camera has {best}", **data)
    if not flags and noise == 0:
        scale = np.linalg.norm(cal.get_pos() - pts.mean(0))
        ctx.close(cal.get_pos(), true.get_pos(), 1e-4 * scale, f"{label}:pose", "position of the camera", **data)
        ctx.close(cal.get_rotation_matrix(), true.get_rotation_matrix(), 1e-4, f"{label}:pose", "orientation of the camera", **data)
        ctx.seen("poses_recovered")
    # a converged calibration is a fixed point
    again = copy.deepcopy(cal)
    if not flags:
        full_calibration(again, pts, obs, cpar, op)
        ctx.close(pixels(pts, again, cpar), px2, 0.02, f"{label}:fixpoint", "calibrating the result again moves it", **data)
        ctx.seen("fixpoints")
    ctx.seen("calibrations")
    ctx.sig(after, cal.get_pos())
    ctx.sample(flags=flags, points=len(use), rms=worst)


def excluded(ctx, rng, i):
    """Points without detection, or left out by the flag, have no influence at all."""
    start, cpar, pts, mm, g, gd = body(rng)
    px = pixels(pts, start, cpar) + 0.2 * rng.standard_normal((len(pts), 2))
    mode = int(rng.integers(0, 4))
    op = OrientPar(useflag=mode, k1flag=int(i % 2))
    gone = rng.random(len(pts)) < 0.3
    out = [gone[k] or {1: k % 2 == 0, 2: k % 2 == 1, 3: k % 3 == 0}.get(mode, False) for k in range(len(pts))]
    if len(pts) - sum(out) < 12:
        raise Skip()
    c0 = perturb(rng, start, 0.5)
    runs = []
    for trial in range(2):
        obs = targets_of(px)
        p = pts.copy()
        for k in range(len(pts)):
            if gone[k]:
                obs[k] = Target(pnr=-999, x=float(rng.uniform(-900, 900)), y=float(rng.uniform(-900, 900)))
            if out[k] and trial:
                obs[k].x += float(rng.uniform(-300, 300))
                p[k] += rng.uniform(-3, 0, 3)
        c = copy.deepcopy(c0)
        r = full_calibration(c, p, obs, cpar, op)
        runs.append((gen.cal_state(c), r[0].tobytes(), list(r[1])))
    ctx.check(runs[0] == runs[1], "excluded:influence", "a point that is not used changes the result", useflag=mode)
    ctx.seen("exclusions")
    ctx.sig(mode, runs[0][2])


def glass(ctx, rng, i):
    """The wall can be adjusted too."""
    mm = gen.random_mm(rng, "water")
    cals, g, gd, target = scene.rig(rng, 1, mm, tilted_wall=True, distortion=False)
    true = cals[0]
    a = np.cross(g, gen.unit(rng))
    a /= np.linalg.norm(a)
    b = np.cross(g, a)
    top = g * (gd - 1.0) + (target - g * (target @ g))
    pts = np.array([top + x * a + y * b - z * g for x in np.linspace(-20, 20, 4) for y in np.linspace(-20, 20, 4) for z in (0, 20, 40)])
    field = np.abs(image_coordinates(pts, true, mm)).max()
    cpar = gen.random_cpar(rng, mm, 1, 1280, 1024, pix=2.1 * field / 1024)
    px = pixels(pts, true, cpar)
    cal = perturb(rng, true, 0.3)
    w = g * gd + gd * 0.02 * (a * rng.uniform(-1, 1) + b * rng.uniform(-1, 1))
    w *= gd / np.linalg.norm(w)
    cal.set_glass_vec(w)
    before = values(cal)
    try:
        res, used, err = full_calibration(cal, pts, px, cpar, OrientPar(interfflag=1))
    except ValueError:
        ctx.seen("glass_failures")
        return
    ctx.check(np.array_equal(values(cal), before), "glass:fixed", "interior or distortion moved without a flag")
    got = np.abs(pixels(pts, cal, cpar) - px).max()
    ctx.stat("glass_px", got)
    ctx.check(got < 0.15, "glass:fit", lambda: f"projections are off by {got} pixels")
    ctx.check(len(used) == len(pts), "glass:used", "all targets are used")
    ctx.check(not np.array_equal(cal.get_glass_vec(), w), "glass:moved", "glass vector was not adjusted")
    was, now = np.linalg.norm(w - g * gd), np.linalg.norm(cal.get_glass_vec() - g * gd)
    if was > 0.1:
        ctx.stat("glass_vec_ratio", now / was)
        ctx.check(now < 0.2 * was, "glass:vector", lambda: f"glass vector is off by {now}, was off by {was}")
    ctx.seen("walls_adjusted")
    ctx.sig(cal.get_glass_vec())


def external(ctx, rng, i):
    """The first guess of the pose from a few points."""
    cals, cpar, pts, mm, g, gd = body(rng, nx=3)
    true = copy.deepcopy(cals)
    true.set_added_par(np.array([0, 0, 0, 0, 0, 1.0, 0]))
    m = int(rng.choice([4, 5, 6, 10, len(pts)]))
    if m == 4:  # four well spread points not in one plane
        pick = np.array([0, 8, 18, 26]) if rng.random() < 0.5 else np.array([2, 6, 20, 24])
    elif m < 8:
        pick = np.array([0, 8, 18, 26, 13, 2])[:m]
    else:
        pick = rng.permutation(len(pts))[:m]
    ref = pts[pick]
    px = pixels(ref, true, cpar)
    cal = perturb(rng, cals, rng.choice([0.0, 1.0, 2.0]))
    ip, gl = values(cal)[:3].copy(), cal.get_glass_vec().copy()
    ref, px = gen.form(rng, ref), gen.form(rng, px)
    ref0, px0 = ref.copy(), px.copy()
    ok = external_calibration(cal, ref, px, cpar)
    ctx.check(np.array_equal(ref, ref0) and np.array_equal(px, px0), "external:inputs", "inputs were modified")
    ctx.check(np.array_equal(values(cal)[:3], ip) and np.array_equal(cal.get_glass_vec(), gl), "external:fixed", "interior or glass changed")
    ctx.check(np.array_equal(np.asarray(cal.added_par, float), [0, 0, 0, 0, 0, 1, 0]), "external:added", "the first guess is made without distortion")
    ctx.check(ok, "external:found", "no first guess although the start is close and the points are exact", points=m)
    ctx.close(cal.get_rotation_matrix(), gen.angles_to_rot(*cal.get_angles()), 1e-9, "external:matrix", "rotation matrix of the result")
    got = np.abs(pixels(ref, cal, cpar) - px).max()
    ctx.stat(f"external_px_{min(m, 7)}", got)
    ctx.check(got < 5.0, "external:fit", lambda: f"projections of the points are off by {got} pixels", points=m)
    ctx.seen("first_guesses")
    ctx.sig(cal.get_pos())


def guess(ctx, rng, i):
    """From a start tens of degrees off and with noisy detections: as good a pose as there is, using every point."""
    cals, cpar, pts, mm, g, gd = body(rng, nx=3)
    true = copy.deepcopy(cals)
    true.set_added_par(np.array([0, 0, 0, 0, 0, 1.0, 0]))
    m = int(rng.choice([8, 14, 20, 24, len(pts)]))
    noise = float(rng.choice([0.0, 0.3, 1.0]))
    ref = pts[rng.permutation(len(pts))[:m]]
    px = pixels(ref, true, cpar)
    px = px + noise * rng.standard_normal(px.shape)
    cal = perturb(rng, cals, rng.choice([1.0, 5.0, 10.0, 15.0]))
    best = copy.deepcopy(true)
    pitch = np.array([cpar.pix_x, cpar.pix_y])

    def cost(c):
        return float(np.sum(((pixels(ref, c, cpar) - px) * pitch) ** 2))

    def off(par):
        best.set_pos(par[:3])
        best.set_angles(par[3:])
        return ((pixels(ref, best, cpar) - px) * pitch).ravel()

    par = np.r_[true.get_pos(), true.get_angles()]
    for _ in range(6):  # least squares, from the true pose
        y = off(par)
        jac = np.column_stack([(off(par + 1e-5 * e) - y) / 1e-5 for e in np.eye(6)])
        par = par - np.linalg.lstsq(jac, y, rcond=None)[0]
    least = float(np.sum(off(par) ** 2))
    ok = external_calibration(cal, ref, px, cpar)
    ctx.check(ok, "guess:found", "no first guess although the points determine it", points=m, noise=noise)
    got = cost(cal)
    scale = m * float(np.mean(pitch)) ** 2
    ctx.stat("guess_excess", (got - least) / (least + scale))
    ctx.check(got <= 1.01 * least + 0.01 * scale, "guess:fit", lambda: f"sum of squares {got}, the least is {least}", points=m, noise=noise)
    ctx.seen("far_guesses")
    ctx.sig(cal.get_pos(), px)


def hopeless(ctx, rng, i):
    """Detections that fit nothing: either an error and no change, or a converged fit."""
    start, cpar, pts, mm, g, gd = body(rng, nx=3)
    px = np.column_stack([rng.uniform(0, cpar.imx, len(pts)), rng.uniform(0, cpar.imy, len(pts))])
    if i % 3 == 0:
        px = pixels(pts, start, cpar)[rng.permutation(len(pts))]
    cal = perturb(rng, start)
    state = gen.cal_state(cal)
    try:
        full_calibration(cal, pts, px, cpar, OrientPar(**{f"{k}flag": int(rng.random() < 0.5) for k in NAMES + ["interf"]}))
    except ValueError:
        ctx.check(gen.cal_state(cal) == state, "hopeless:untouched", "calibration changed although it was reported to have failed")
        ctx.seen("failures")
        return
    except Exception as e:
        ctx.check(gen.cal_state(cal) == state, "hopeless:untouched", f"calibration changed although {type(e).__name__} was raised")
        ctx.seen("failures")


def chain(ctx, rng, i):
    """Detections in any order, with clutter and missing ones: sorted by the guess, then calibrated."""
    true, cpar, pts, mm, g, gd = body(rng)
    px = pixels(pts, true, cpar)
    gap = np.sort(np.linalg.norm(px[:, None] - px[None], axis=2), axis=1)[:, 1].min()
    if gap < 6:
        raise Skip()
    eps = min(25, int(gap / 2.5))
    cal = copy.deepcopy(true)
    cal.set_pos(true.get_pos() + 0.05 * rng.standard_normal(3))
    if np.abs(pixels(pts, cal, cpar) - px).max() > 0.5 * eps:
        raise Skip()
    order = rng.permutation(len(pts))
    keep = [k for k in order if rng.random() > 0.1]
    if len(keep) < 16:
        raise Skip()
    dets = targets_of(px[keep])
    for _ in range(3):
        q = np.array([rng.uniform(0, cpar.imx), rng.uniform(0, cpar.imy)])
        if np.abs(px - q).max(axis=1).min() > 2 * eps:
            dets.append(Target(pnr=len(dets), x=float(q[0]), y=float(q[1]), n=9, nx=3, ny=3, sumg=900))
    srt = match_detection_to_ref(cal, pts, dets, cpar, eps)
    res, used, err = full_calibration(cal, pts, srt, cpar, OrientPar())
    ctx.check(sorted(used.tolist()) == sorted(int(k) for k in keep), "chain:used", "the detections used are not those of the points")
    ctx.close(pixels(pts, cal, cpar), px, 0.01, "chain:fit", "projections of the calibrated camera")
    ctx.seen("chains")


def warm(ctx):
    rng = np.random.default_rng(2)
    for f in (full, glass, external):
        try:
            f(ctx, rng, 0)
        except Exception:
            pass


FAMILIES = [Family("full", full, 231, 4000), Family("excluded", excluded, 24, 400), Family("glass", glass, 24, 500),
            Family("external", external, 90, 1500), Family("guess", guess, 60, 1200), Family("hopeless", hopeless, 60, 900), Family("chain", chain, 40, 800)]
MONITORS = {"calibrations": 90, "parameters_held": 400, "parameters_freed": 100, "poses_recovered": 3, "fixpoints": 5, "exclusions": 8,
            "walls_adjusted": 8, "first_guesses": 40, "far_guesses": 40, "failures": 2, "chains": 8}
