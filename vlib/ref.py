"""Independent reference models, written from the physics and the documented formats."""

import math

import numpy as np


def refract(di, g, n1, n2):
    """Vector form of Snell's law for a ray going against the normal g."""
    c = -(di @ g)
    r = n1 / n2
    s2 = 1.0 - r * r * (1.0 - c * c)
    if s2 < 0:
        return None
    out = r * di + (r * c - math.sqrt(s2)) * g
    return out / np.linalg.norm(out)


def trace(cam_pos, direction, glass, d, n1, n2, n3):
    """Exit point on the inner face of the wall and direction in the fluid."""
    gd = np.linalg.norm(glass)
    g = glass / gd
    t = ((gd + d) - g @ cam_pos) / (g @ direction)
    a = cam_pos + t * direction
    d2 = refract(direction, g, n1, n2)
    if d2 is None:
        return None
    b = a + d2 * (gd - g @ a) / (g @ d2)
    d3 = refract(d2, g, n2, n3)
    if d3 is None:
        return None
    return b, d3, a, d2


def path_slope(h1, d, h3, R, n1, n2, n3):
    """tan(theta1) of the refracted path that covers the radial distance R (bisection on sin)."""
    smax = min(1.0, n2 / n1, n3 / n1)

    def reach(s):
        def tn(n):
            q = s * n1 / n
            return q / math.sqrt(max(1e-300, 1 - q * q))

        return h1 * tn(n1) + d * tn(n2) + h3 * tn(n3)

    lo, hi = 0.0, smax * (1 - 1e-15)
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if reach(m) < R:
            lo = m
        else:
            hi = m
        if hi - lo < 1e-17:
            break
    s = 0.5 * (lo + hi)
    return s, s / math.sqrt(1 - s * s)


def project(cam_pos, R, xh, yh, cc, glass, d, n1, n2, n3, p):
    """Flat image coordinates of point p (before the principal point shift), incidence sine."""
    gd = np.linalg.norm(glass)
    g = glass / gd
    h1 = g @ cam_pos - gd - d
    h3 = gd - g @ p
    v = p - cam_pos
    lat = v - g * (v @ g)
    rad = np.linalg.norm(lat)
    s, slope = path_slope(h1, d, h3, rad, n1, n2, n3)
    e = lat / rad if rad > 0 else np.zeros(3)
    direction = slope * e - g  # from the camera into the scene
    c = R.T @ direction
    return -cc * c[0] / c[2], -cc * c[1] / c[2], s


def project_layers(cam_pos, R, cc, glass, d, n1, n2, n3, p):
    """Flat image coordinates of point p through several layers of a wall; glass ends at the inner face of the first of them. Also the incidence sine."""
    gd = np.linalg.norm(glass)
    g = glass / gd
    h = [g @ cam_pos - gd - d[0], *d, gd - sum(d[1:]) - g @ p]
    n = [n1, *n2, n3]
    v = p - cam_pos
    lat = v - g * (v @ g)
    rad = np.linalg.norm(lat)
    lo, hi = 0.0, min(1.0, *[k / n1 for k in n]) * (1 - 1e-15)
    for _ in range(200):
        s = 0.5 * (lo + hi)
        r = sum(a * (s * n1 / k) / math.sqrt(max(1e-300, 1 - (s * n1 / k) ** 2)) for a, k in zip(h, n))
        lo, hi = (s, hi) if r < rad else (lo, s)
    e = lat / rad if rad > 0 else np.zeros(3)
    c = R.T @ (s / math.sqrt(1 - s * s) * e - g)
    return -cc * c[0] / c[2], -cc * c[1] / c[2], s


def brown(x, y, ap):
    """Forward distortion as documented (x first, then y with the moved x, then affine)."""
    k1, k2, k3, p1, p2, scx, she = ap
    if x == 0 and y == 0:
        return 0.0, 0.0
    r2 = x * x + y * y
    q = k1 * r2 + k2 * r2**2 + k3 * r2**3
    x1 = x + x * q + p1 * (r2 + 2 * x * x) + 2 * p2 * x * y
    y1 = y + y * q + p2 * (r2 + 2 * y * y) + 2 * p1 * x1 * y
    return scx * x1 - math.sin(she) * y1, math.cos(she) * y1


def brown_inverse(x, y, ap, n=100):
    """Inverse of brown() by Newton's method with numeric derivatives."""
    k1, k2, k3, p1, p2, scx, she = ap
    u, v = x, y
    for _ in range(n):
        fx, fy = brown(u, v, ap)
        ex, ey = fx - x, fy - y
        if abs(ex) + abs(ey) < 1e-14:
            break
        h = 1e-6 * max(1.0, abs(u), abs(v))
        ax, ay = brown(u + h, v, ap)
        bx, by = brown(u - h, v, ap)
        cx, cy = brown(u, v + h, ap)
        dx, dy = brown(u, v - h, ap)
        J = np.array([[(ax - bx) / (2 * h), (cx - dx) / (2 * h)], [(ay - by) / (2 * h), (cy - dy) / (2 * h)]])
        try:
            s = np.linalg.solve(J, [ex, ey])
        except np.linalg.LinAlgError:
            return None
        u, v = u - s[0], v - s[1]
    return u, v


def skew(o1, d1, o2, d2):
    """Closest points of two lines: distance and midpoint."""
    w = o2 - o1
    a, b, c = d1 @ d1, d1 @ d2, d2 @ d2
    den = a * c - b * b
    t1 = ((w @ d1) * c - (w @ d2) * b) / den
    t2 = ((w @ d1) * b - (w @ d2) * a) / den
    q1, q2 = o1 + t1 * d1, o2 + t2 * d2
    return np.linalg.norm(q1 - q2), 0.5 * (q1 + q2)
