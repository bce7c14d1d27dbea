"""Simulated camera sensors: images of blobs, with the faults sensors have."""

import math
import random

import numpy as np

DARK = 22  # noise stays below this grey value


def render(blobs, imx, imy, noise=0, nseed=0, dtype=int, faults=(), lo=None):
    """An image of blobs [x, y, sigma, amplitude] over a dark background.

    Pixel j covers x from j to j + 1.  The noise never reaches DARK.
    """
    img = np.zeros((imy, imx), dtype=float)
    for x, y, s, a in blobs:
        r = int(math.ceil(6 * s)) + 1
        x0, x1 = max(0, int(x) - r), min(imx, int(x) + r + 1)
        y0, y1 = max(0, int(y) - r), min(imy, int(y) + r + 1)
        if x0 >= x1 or y0 >= y1:
            continue
        gx = np.exp(-((np.arange(x0, x1) + 0.5 - x) ** 2) / (2 * s * s))
        gy = np.exp(-((np.arange(y0, y1) + 0.5 - y) ** 2) / (2 * s * s))
        img[y0:y1, x0:x1] += a * np.outer(gy, gx)
    img = np.round(img)
    if noise:
        e = np.random.default_rng(nseed).integers(0, noise + 1, img.shape)
        img = np.where(img > DARK, img + e // 6, np.minimum(img + e, DARK))
    img = np.clip(img, 0, 255)
    for f in faults:
        k, x, y = f[0], int(f[1]), int(f[2])
        if not (0 <= x < imx and 0 <= y < imy):
            continue
        if k == "hot pixel":
            img[y, x] = 255
        elif k == "dead pixel":
            img[y, x] = 0
        elif k == "dead row":
            img[y, :] = 0
        elif k == "dead column":
            img[:, x] = 0
        elif k == "hot row":
            img[y, :] = 255
    return img.astype(dtype)
