"""Reference models (written independently of the code) and case-split helpers."""
import math
import numpy as np
import z3
from .jaxsmt import toreal, is_z


def axis_cells(n, v):
    """Case split of a real coordinate on an axis with n samples: (name, hypothesis, i0, i1, weight of i1)."""
    cells = [("lo", v < 0, 0, 0, z3.RealVal(0))]
    for k in range(n - 1):           # grid points and open cells apart: floor and ceil are constant on each
        cells.append((f"{k}", v == k, k, k + 1, z3.RealVal(0)))
        cells.append((f"({k},{k+1})", z3.And(v > k, v < k + 1), k, k + 1, v - k))
    cells.append(("hi", v >= n - 1, n - 1, n - 1, z3.RealVal(0)))
    return cells


def complete(cells):
    return z3.Or(*[c[1] for c in cells])


def blend2(img, yc, xc):
    _, _, y0, y1, wy = yc
    _, _, x0, x1, wx = xc
    g = lambda a, b: toreal(img[a, b])
    return (1 - wx) * (1 - wy) * g(y0, x0) + wx * (1 - wy) * g(y0, x1) + (1 - wx) * wy * g(y1, x0) + wx * wy * g(y1, x1)


def blend3(vol, zc, yc, xc):
    r = 0
    for zi, wz in ((zc[2], 1 - zc[4]), (zc[3], zc[4])):
        for yi, wy in ((yc[2], 1 - yc[4]), (yc[3], yc[4])):
            for xi, wx in ((xc[2], 1 - xc[4]), (xc[3], xc[4])):
                r = r + wx * wy * wz * toreal(vol[zi, yi, xi])
    return r


def np_bilinear(img, x, y):
    H, W = img.shape
    x = min(max(float(x), 0.0), W - 1.0)
    y = min(max(float(y), 0.0), H - 1.0)
    x0, y0 = int(math.floor(x)), int(math.floor(y))
    x1, y1 = min(x0 + 1, W - 1), min(y0 + 1, H - 1)
    a, b = x - x0, y - y0
    return ((1 - a) * (1 - b) * img[y0, x0] + a * (1 - b) * img[y0, x1] + (1 - a) * b * img[y1, x0] + a * b * img[y1, x1])


def np_trilinear(v, x, y, z):
    D = v.shape[0]
    z = min(max(float(z), 0.0), D - 1.0)
    z0 = int(math.floor(z))
    z1 = min(z0 + 1, D - 1)
    c = z - z0
    return (1 - c) * np_bilinear(v[z0], x, y) + c * np_bilinear(v[z1], x, y)


def np_splat(img, flow, dt):
    H, W = img.shape
    out = np.zeros((H, W))
    for y in range(H):
        for x in range(W):
            xd, yd = x + flow[y, x, 0] * dt, y + flow[y, x, 1] * dt
            for r in range(H):
                for c in range(W):
                    out[r, c] += img[y, x] * max(0.0, 1 - abs(xd - c)) * max(0.0, 1 - abs(yd - r))
    return out


def far(got, exp, scale, tol=2e-3):
    got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    if got.shape != exp.shape:
        return True
    return bool(np.any(~np.isfinite(got)) or np.any(np.abs(got - exp) > tol * (1 + scale)))
