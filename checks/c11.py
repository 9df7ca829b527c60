"""Target recognition: regions grown from local maxima, each reported once, nothing else."""

from collections import deque

import numpy as np

from vlib import gen
from vlib.core import Family, Skip
from openptv_python.constants import CORRES_NONE
from openptv_python.parameters import ControlPar, TargetPar
from openptv_python.segmentation import target_recognition

PROPERTY = "C11"
RULE = (
    "8-bit images: textures of few grey levels, plateaus, noise, gaussian blobs at known places, blobs at borders, saturated "
    "areas, thousands of dots; every parameter varied. Non-trivial: at least one target; distinct by image and parameters"
)
ASSUMPTIONS = ["a region is what 4-connected steps that obey the documented discontinuity rule can reach from a local maximum; maxima are taken in reading order"]


def reference(img, thres, tp, xmin, xmax, ymin, ymax, imx, imy):
    """Targets as (x, y, n, nx, ny, sumg)."""
    xmin, ymin = max(xmin, 1), max(ymin, 1)
    xmax, ymax = min(xmax, imx - 1), min(ymax, imy - 1)
    im = img.astype(np.int64)
    left = im.copy()
    out = []
    if xmax <= xmin or ymax <= ymin:
        return out
    sub = left[ymin:ymax, xmin:xmax] > thres
    for i, j in zip(*np.nonzero(sub)):
        i, j = int(i) + ymin, int(j) + xmin
        v = left[i, j]
        if v <= thres or v < left[i - 1:i + 2, j - 1:j + 2].max():
            continue
        region = [(i, j)]
        left[i, j] = 0
        queue = deque(region)
        while queue:
            a, b = queue.popleft()
            top = im[a, b] + tp.discont
            for c, d in ((a, b - 1), (a, b + 1), (a - 1, b), (a + 1, b)):
                if not (xmin <= d < xmax and ymin <= c < ymax):
                    continue
                if left[c, d] <= thres or left[c, d] > top:
                    continue
                if max(im[c - 1, d], im[c + 1, d], im[c, d - 1], im[c, d + 1]) > top:
                    continue
                left[c, d] = 0
                region.append((c, d))
                queue.append((c, d))
        r = np.array(region)
        g = im[r[:, 0], r[:, 1]]
        n = len(r)
        ny, nx = (np.ptp(r, axis=0) + 1).tolist()
        s = int(g.sum())
        if tp.nnmin <= n <= tp.nnmax and tp.nxmin <= nx <= tp.nxmax and tp.nymin <= ny <= tp.nymax and s > tp.sumg_min:
            w = g - thres
            out.append((float((r[:, 1] * w).sum() / w.sum()) + 0.5, float((r[:, 0] * w).sum() / w.sum()) + 0.5, n, nx, ny, int(w.sum())))
    return out


def random_par(rng, wide):
    th = [int(rng.choice([0, 1, 5, 9, 20, 60, 128, 200, 254, 255, int(rng.integers(0, 256))])) for _ in range(4)]
    if wide:
        lim = dict(nnmin=1, nnmax=10**6, nxmin=1, nxmax=10**4, nymin=1, nymax=10**4, sumg_min=0)
    else:
        a, b, c = int(rng.integers(0, 8)), int(rng.integers(0, 4)), int(rng.integers(0, 4))
        lim = dict(nnmin=a, nnmax=a + int(rng.integers(0, 80)), nxmin=b, nxmax=b + int(rng.integers(0, 12)), nymin=c, nymax=c + int(rng.integers(0, 12)),
                   sumg_min=int(rng.choice([0, 1, 50, 300, 1000])))
    return TargetPar(discont=int(rng.choice([0, 1, 5, 20, 100, 255, 1000, int(rng.integers(0, 60))])), gvthresh=th, cr_sz=2, **lim)


def control(rng, imx, imy):
    return ControlPar(num_cams=4, imx=imx, imy=imy, pix_x=0.01, pix_y=0.01, mm=gen.random_mm(rng, "water"))


def judge(ctx, label, img, tp, cam, cpar, sx, sy):
    before = img.copy()
    got = target_recognition(img, tp, cam, cpar, sx, sy)
    ctx.check(np.array_equal(img, before), f"{label}:input", "the image was modified")
    x0, x1 = sx if sx is not None else (0, cpar.imx)
    y0, y1 = sy if sy is not None else (0, cpar.imy)
    want = reference(img, tp.gvthresh[cam], tp, x0, x1, y0, y1, cpar.imx, cpar.imy)
    data = dict(par=tp.__dict__, cam=cam, region=[x0, x1, y0, y1], size=[cpar.imx, cpar.imy])
    ctx.check(len(got) == len(want), f"{label}:count", lambda: f"{len(got)} targets, should be {len(want)}", **data)
    for k, (t, w) in enumerate(zip(got, want)):
        ctx.check((t.n, t.nx, t.ny, t.sumg) == w[2:], f"{label}:features", lambda: f"target {k} has n, nx, ny, sum {(t.n, t.nx, t.ny, t.sumg)}, should be {w[2:]}", **data)
        ctx.close([t.x, t.y], w[:2], 1e-6, f"{label}:centre", f"centre of target {k}", **data)
        ctx.check(t.pnr == k and t.tnr == CORRES_NONE, f"{label}:numbers", lambda: f"target {k} has pnr {t.pnr}, tnr {t.tnr}", **data)
    ctx.seen("targets", len(got))
    ctx.seen("images")
    ctx.seen("empty_images", not got)
    if got:
        ctx.sig(img, tp.__dict__, cam, data["region"])
    ctx.sample(size=img.shape, par=tp.__dict__, targets=want[:3])
    return got


def texture(ctx, rng, i):
    imx, imy = int(rng.integers(3, 60)), int(rng.integers(3, 60))
    kind = int(rng.integers(6))
    if kind == 0:
        img = rng.integers(0, 256, (imy, imx))
    elif kind == 1:  # few levels: plateaus and ties
        img = rng.choice([0, 10, 100, 200, 255], (imy, imx))
    elif kind == 2:  # sparse dots
        img = np.where(rng.random((imy, imx)) < 0.15, rng.integers(1, 256, (imy, imx)), 0)
    elif kind == 3:  # smooth
        from scipy.ndimage import gaussian_filter

        img = gaussian_filter(rng.random((imy, imx)), rng.uniform(0.6, 2.5))
        img = (img - img.min()) / max(np.ptp(img), 1e-9) * 255
    elif kind == 4:  # stripes and steps
        img = (np.add.outer(np.arange(imy) * int(rng.integers(0, 9)), np.arange(imx) * int(rng.integers(0, 9))) % 256) * (rng.random((imy, imx)) > 0.1)
    else:  # blocks
        img = np.kron(rng.choice([0, 50, 51, 90, 255], (imy // 4 + 1, imx // 4 + 1)), np.ones((4, 4)))[:imy, :imx]
    img = np.ascontiguousarray(img, dtype=np.uint8)
    tp = random_par(rng, rng.random() < 0.4)
    cam = int(rng.integers(4))
    sx = sy = None
    cpar = control(rng, imx, imy)
    if rng.random() < 0.4:
        a, b = sorted(rng.integers(0, imx + 1, 2).tolist())
        sx = (a, b)
    if rng.random() < 0.4:
        a, b = sorted(rng.integers(0, imy + 1, 2).tolist())
        sy = (a, b)
    judge(ctx, "texture", img, tp, cam, cpar, sx, sy)


def blobs(ctx, rng, i):
    """Gaussian spots at known places: one target each, at that place."""
    imx, imy = int(rng.integers(60, 200)), int(rng.integers(60, 200))
    th = int(rng.integers(5, 60))
    pts = []
    for _ in range(200):
        s = rng.uniform(0.9, 2.0)
        p = np.array([rng.uniform(9, imx - 9), rng.uniform(9, imy - 9), s, rng.uniform(110, 245)])
        if all(np.hypot(*(p[:2] - q[:2])) > 22 for q in pts):
            pts.append(p)
        if len(pts) >= 15:
            break
    yy, xx = np.mgrid[:imy, :imx] + 0.5  # the centre of a pixel is at half integers
    img = np.zeros((imy, imx))
    for x, y, s, a in pts:
        img += a * np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / (2 * s * s))
    img += rng.integers(0, max(th // 3, 1), img.shape)
    img = np.clip(np.round(img), 0, 255).astype(np.uint8)
    tp = TargetPar(discont=int(rng.choice([100, 200, 1000])), gvthresh=[th] * 4, nnmin=2, nnmax=500, nxmin=1, nxmax=40, nymin=1, nymax=40, sumg_min=10, cr_sz=2)
    cpar = control(rng, imx, imy)
    got = judge(ctx, "blobs", img, tp, int(rng.integers(4)), cpar, None, None)
    ctx.check(len(got) == len(pts), "blobs:count", lambda: f"{len(got)} targets for {len(pts)} spots")
    for x, y, s, a in pts:
        d = min(np.hypot(t.x - x, t.y - y) for t in got)
        ctx.stat("spot_offset", d)
        ctx.check(d < 0.25, "blobs:place", lambda: f"no target within a quarter pixel of the spot at {(x, y)}, nearest {d}")
        ctx.seen("spots")


def borders(ctx, rng, i):
    """Bright shapes that touch or cross the border of the image or of the region."""
    imx, imy = int(rng.integers(12, 50)), int(rng.integers(12, 50))
    img = rng.integers(0, 10, (imy, imx))
    for _ in range(int(rng.integers(1, 8))):
        w, h = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        x = int(rng.choice([0, 1, imx - w, imx - w - 1, int(rng.integers(0, imx - w + 1))]))
        y = int(rng.choice([0, 1, imy - h, imy - h - 1, int(rng.integers(0, imy - h + 1))]))
        img[y:y + h, x:x + w] = rng.integers(30, 256)
    img = img.astype(np.uint8)
    tp = random_par(rng, True)
    tp.gvthresh = [int(rng.choice([9, 10, 29, 30, 100]))] * 4
    cpar = control(rng, imx, imy)
    k = int(rng.integers(0, 4))
    sx = (k, imx - int(rng.integers(0, 4))) if rng.random() < 0.5 else None
    sy = (int(rng.integers(0, 4)), imy - k) if rng.random() < 0.5 else None
    judge(ctx, "borders", img, tp, int(rng.integers(4)), cpar, sx, sy)


def part(ctx, rng, i):
    """The image may be larger than the sensor says, a view, or too small."""
    imx, imy = int(rng.integers(10, 40)), int(rng.integers(10, 40))
    big = np.where(rng.random((imy + 9, imx + 7)) < 0.3, rng.integers(1, 256, (imy + 9, imx + 7)), 0).astype(np.uint8)
    tp = random_par(rng, True)
    cpar = control(rng, imx, imy)
    k = i % 4
    if k == 0:
        judge(ctx, "part", big, tp, 0, cpar, None, None)
    elif k == 1:
        judge(ctx, "part", big[3:, 2:], tp, 1, cpar, None, None)
    elif k == 2:
        judge(ctx, "part", np.asfortranarray(big), tp, 1, cpar, None, None)
    else:
        small = big[: imy - 1] if rng.random() < 0.5 else big[:, : imx - 1]
        try:
            target_recognition(small, tp, 0, cpar)
        except ValueError:
            ctx.seen("refusals")
        else:
            ctx.check(False, "part:refused", "an image smaller than the region is not refused")


def big(ctx, rng, i):
    if i % 3 == 0:  # one saturated area
        n = int(rng.integers(350, 480))
        img = np.full((n, n + 20), 255, np.uint8)
        img[rng.integers(0, n, 30), rng.integers(0, n, 30)] = 0
        tp = random_par(rng, True)
        tp.gvthresh, tp.discont = [int(rng.integers(0, 255))] * 4, 255
        got = judge(ctx, "big", img, tp, 0, control(rng, n + 20, n), None, None)
        ctx.stat("largest_target", max(t.n for t in got))
    else:  # thousands of dots
        n = int(rng.integers(100, 140)) * 2
        img = np.zeros((n, n), np.uint8)
        img[1::2, 1::2] = rng.integers(20, 256, (n // 2, n // 2))
        img[rng.random((n, n)) < 0.05] = 99
        tp = random_par(rng, True)
        tp.gvthresh = [int(rng.integers(0, 30))] * 4
        got = judge(ctx, "big", img, tp, 0, control(rng, n, n), None, None)
        ctx.stat("most_targets", len(got))


def warm(ctx):
    rng = np.random.default_rng(2)
    for f in (texture, borders):
        try:
            f(ctx, rng, 0)
        except Exception:
            pass


FAMILIES = [Family("texture", texture, 480, 12000), Family("blobs", blobs, 80, 1500), Family("borders", borders, 320, 6000),
            Family("part", part, 24, 400), Family("big", big, 6, 60)]
MONITORS = {"targets": 8000, "images": 700, "empty_images": 20, "spots": 300, "refusals": 2}
