"""Image preparation: box averages, 3x3 filters, masks and subtraction."""

import os

import numpy as np

from vlib import gen
from vlib.core import Family, Violation
from openptv_python.image_processing import (
    copy_images,
    fast_box_blur,
    filter_3,
    lowpass_3,
    prepare_image,
    preprocess_image,
    subtract_img,
    subtract_mask,
)
from openptv_python.parameters import ControlPar

PROPERTY = "C12"
RULE = (
    "8-bit images of 1x1 to 60x60 pixels, of noise, spots, constants and single pixels; filters of half width 0 to 8, second "
    "filters of every kind, filter files of any layout. Non-trivial: an image with at least two grey levels; distinct by image and settings"
)
ASSUMPTIONS = ["a filter file whose result stays within 0 to 255", "the average is taken along columns, then rows, each rounded down, with darkness beyond the border"]


def image(rng, lo=1):
    h, w = int(rng.integers(lo, 50)), int(rng.integers(lo, 60))
    k = int(rng.integers(6))
    if k == 0:
        im = rng.integers(0, 256, (h, w))
    elif k == 1:
        im = np.full((h, w), int(rng.choice([0, 1, 128, 255])))
    elif k == 2:
        im = np.zeros((h, w))
        im[rng.integers(h), rng.integers(w)] = 255
    elif k == 3:
        im = np.where(rng.random((h, w)) < 0.1, rng.integers(1, 256, (h, w)), rng.integers(0, 9, (h, w)))
    elif k == 4:
        im = rng.choice([0, 255], (h, w))
    else:
        im = np.add.outer(np.arange(h) * 3, np.arange(w) * 2) % 256
    return np.ascontiguousarray(im, dtype=np.uint8)


def box(im, n):
    """Average over n x n pixels, zero outside, rounded down after each direction."""
    out = im.astype(np.int64)
    r = n // 2
    for axis in (0, 1):
        pad = [(0, 0), (0, 0)]
        pad[axis] = (r + 1, r)
        c = np.cumsum(np.pad(out, pad), axis=axis)
        m = im.shape[axis]
        a = np.take(c, np.arange(n, n + m), axis=axis) - np.take(c, np.arange(m), axis=axis)
        out = a // n
    return out


def conv(im, kernel, mode):
    p = np.pad(im.astype(float), 1, mode="constant" if mode == "constant" else "symmetric")
    h, w = im.shape
    out = np.zeros((h, w))
    for a in range(3):
        for b in range(3):
            out += kernel[a, b] * p[2 - a:2 - a + h, 2 - b:2 - b + w]
    return out


def lowers(got, want):
    """Equal to the exact result rounded down, give or take rounding of the arithmetic."""
    g = got.astype(float)
    return bool(np.all((g >= np.floor(want - 1e-6)) & (g <= np.floor(want + 1e-6))))


def prepare(ctx, rng, i):
    im = image(rng)
    lp = int(rng.choice([0, 1, 1, 2, 3, 8, int(rng.integers(0, 12))]))
    hp = int(rng.integers(0, 3))
    name = ""
    kernel = None
    if hp == 2 and rng.random() < 0.8:
        kernel = np.round(rng.random((3, 3)), int(rng.integers(1, 7)))
        if rng.random() < 0.3:
            kernel = rng.permutation([1.0] + [0.0] * 8).reshape(3, 3)
        kernel /= max(kernel.sum(), 1.0)
        name = os.path.join(ctx.scratch, "filter.par")
        with open(name, "w") as f:
            sep = str(rng.choice([" ", "\t", "  ", "\n"]))
            for row in kernel:
                f.write(sep.join(repr(float(v)) for v in row) + "\n")
    before = im.copy()
    if hp < 2 and rng.random() < 0.3:
        out = preprocess_image(im, hp, ControlPar(imx=im.shape[1], imy=im.shape[0]), lp)
    else:
        if hp < 2 and rng.random() < 0.5:
            # a filter file is only for those who ask for it
            name = os.path.join(ctx.scratch, "unasked.par")
            with open(name, "w") as f:
                f.write("0 0 0\n0 0 1\n0 0 0\n")
        out = prepare_image(im, dim_lp=lp, filter_hp=hp, filter_file=name)
    data = dict(size=im.shape, lowpass=lp, highpass=hp, kernel=kernel)
    ctx.check(np.array_equal(im, before), "prepare:input", "the image was modified", **data)
    ctx.check(out.shape == im.shape and out.dtype == np.uint8, "prepare:shape", lambda: f"result is {out.dtype} {out.shape}", **data)
    low = box(im, 2 * lp + 1)
    # brightness is never lost where the image has it, and never invented beyond image and average
    combined = im | low.astype(np.uint8)
    if hp == 1:
        want = box(combined, 3)
        ctx.check(np.array_equal(out, want), "prepare:smooth", lambda: f"smoothed image off by {np.abs(out - want).max()}", **data)
    elif kernel is not None:
        ctx.check(lowers(out, conv(combined, kernel, "constant")), "prepare:filter", "the filter of the file was not applied", **data)
    else:
        ctx.check(np.array_equal(out, combined), "prepare:plain", lambda: f"image off by {np.abs(out.astype(int) - combined).max()}", **data)
    ctx.seen("prepared")
    ctx.seen(f"prepared_{hp}")
    if np.ptp(im):
        ctx.sig(im, lp, hp, kernel)
    ctx.sample(**data)


def background(ctx, rng, i):
    """Preparation takes the slowly varying background out."""
    im = image(rng, 12)
    lp = int(rng.choice([1, 2, 3, 5]))
    out = prepare_image(im, dim_lp=lp)
    low = box(im, 2 * lp + 1)
    want = np.maximum(im.astype(int) - low, 0)
    ctx.seen("backgrounds")
    if np.array_equal(out, want):
        return
    if np.array_equal(out, im | low.astype(np.uint8)):
        raise Violation("background:added", "the average is merged into the image (bitwise or) instead of subtracted from it", dict(size=im.shape, lowpass=lp))
    raise Violation("background:wrong", "the prepared image is neither the image without background nor with it merged in", dict(size=im.shape, lowpass=lp))


def refuse(ctx, rng, i):
    im = image(rng, 3)
    for dt in (np.uint16, np.int32, np.float64, np.int8):
        try:
            prepare_image(im.astype(dt))
        except TypeError:
            ctx.seen("refused_types")
        else:
            ctx.check(False, "refuse:type", f"an image of {dt.__name__} is not refused")
    bad = os.path.join(ctx.scratch, "bad.par")
    for text in (None, "", "1 2 3\n", "1 2 3\n4 5 6\n7 8\n", "a b c\nd e f\ng h i\n", "1 2 3\n4 5 6\n7 8 9\n10\n"):
        if os.path.exists(bad):
            os.remove(bad)
        if text is not None:
            with open(bad, "w") as f:
                f.write(text)
        try:
            prepare_image(im, filter_hp=2, filter_file=bad)
        except IOError:
            ctx.seen("refused_files")
        else:
            ctx.check(False, "refuse:file", f"filter file {text!r} is not refused")


def simple(ctx, rng, i):
    im = image(rng, 3)
    h, w = im.shape
    mask = np.where(rng.random(im.shape) < 0.5, 0, rng.choice([1, 7, 255], im.shape)).astype(np.uint8)
    a, b = im.copy(), mask.copy()
    out = subtract_mask(im, mask)
    ctx.check(np.array_equal(out, np.where(mask == 0, 0, im)), "mask", "masked image")
    other = image(rng, 3)[:h, :w]
    hh, ww = other.shape
    dst = np.full((hh, ww), 77, np.uint8)
    one = np.ascontiguousarray(im[:hh, :ww])
    other = np.ascontiguousarray(other)
    subtract_img(one, other, dst)
    want = np.maximum(one.astype(int) - other, 0)
    ctx.check(np.array_equal(dst, want), "subtract", "difference of two images")
    for first in (True, False):  # into one of the images themselves
        x, y = one.copy(), other.copy()
        subtract_img(x, y, x if first else y)
        ctx.check(np.array_equal(x if first else y, want), "subtract", "difference put into one of the images")
        ctx.check(np.array_equal(y if first else x, other if first else one), "subtract", "the other image was changed")
        ctx.seen("in_place")
    cp = copy_images(im)
    ctx.check(np.array_equal(cp, im) and not np.shares_memory(cp, im), "copy", "copy of an image")
    ctx.check(lowers(lowpass_3(im), conv(im, np.ones((3, 3)) / 9, "constant")), "lowpass", "3x3 low pass")
    k = rng.random((3, 3))
    k /= k.sum() * 1.01
    ctx.check(lowers(filter_3(im, k), conv(im, k, "reflect")), "filter_3", "3x3 filter")
    ctx.check(lowers(filter_3(im), conv(im, np.ones((3, 3)) / 9, "reflect")), "filter_3", "default 3x3 filter")
    span = int(rng.integers(0, 5))
    flat = fast_box_blur(span, im.ravel().copy(), ControlPar(imx=w, imy=h))
    ctx.check(np.array_equal(np.asarray(flat).reshape(h, w), box(im, 2 * span + 1)), "blur", "box blur")
    ctx.check(np.array_equal(im, a) and np.array_equal(mask, b), "simple:input", "an input was modified")
    ctx.seen("simple_filters")
    ctx.sig("simple", im)


FAMILIES = [Family("prepare", prepare, 600, 20000), Family("background", background, 6, 60), Family("refuse", refuse, 8, 100), Family("simple", simple, 160, 4000)]
MONITORS = {"prepared": 400, "prepared_0": 80, "prepared_1": 80, "prepared_2": 80, "refused_types": 16, "refused_files": 16, "simple_filters": 100, "in_place": 200, "backgrounds": 3}
