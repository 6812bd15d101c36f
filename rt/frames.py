"""Oracles shared by the raw-frame properties, written from the statements."""
import numpy as np
from base import *


def maxima(img):
    """indices of strict local maxima over the existing (up to 8) neighbours"""
    img = np.asarray(img)
    h, w = img.shape
    out = []
    for r in range(h):
        for c in range(w):
            ok = True
            for dr in (-1, 0, 1):
                for dc in (-1, 0, 1):
                    if (dr or dc) and 0 <= r + dr < h and 0 <= c + dc < w:
                        if not img[r, c] > img[r + dr, c + dc]:
                            ok = False
            if ok:
                out.append(r * w + c)
    return out


def random_frame(rng, h, w, kind, hi=None):
    if kind == 'rand':
        a = rng.integers(0, 65536 if hi is None else hi, (h, w))
    elif kind == 'small':
        a = rng.integers(0, 4, (h, w))
    elif kind == 'plateau':
        a = np.repeat(np.repeat(rng.integers(0, 3, ((h + 1) // 2, (w + 1) // 2)), 2, 0), 2, 1)[:h, :w]
    elif kind == 'spike':
        a = np.zeros((h, w), int)
        for _ in range(rng.integers(1, 4)):
            a[rng.integers(0, h), rng.integers(0, w)] = rng.integers(1, 60000 if hi is None else hi)
    elif kind == 'ramp':
        a = np.add.outer(np.arange(h) * rng.integers(-3, 4), np.arange(w) * rng.integers(-3, 4))
        a = a - a.min()
    elif kind == 'const':
        a = np.full((h, w), int(rng.integers(0, 5)))
    else:
        raise ValueError(kind)
    return a.astype(np.uint16)


FRAME_KINDS = ['rand', 'small', 'plateau', 'spike', 'ramp', 'const']
SHAPES = [(1, 1), (1, 2), (2, 1), (1, 5), (6, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4),
          (5, 3), (4, 7), (7, 5), (8, 6), (9, 12)]


def pyreader(frames, image_numbers, scan, block):
    from stempy.io import PyReader
    return PyReader(frames, list(map(int, image_numbers)), tuple(map(int, scan)), int(block), len(frames))


def write_v1(path, blocks):
    """blocks: list of (image_numbers 0-based, frames array (n,h,w))"""
    with open(path, 'ab') as f:
        for nums, fr in blocks:
            hd = np.zeros(1024, '<u4')
            hd[0] = len(nums); hd[1] = fr.shape[1]; hd[2] = fr.shape[2]; hd[3] = 1
            hd[4] = 7
            hd[10:10 + len(nums)] = np.asarray(nums) + 1
            f.write(hd.tobytes()); f.write(np.ascontiguousarray(fr, '<u2').tobytes())


def perm_partition(rng, n):
    """random partition of range(n) into consecutive pieces"""
    cuts = sorted(set(int(x) for x in rng.integers(1, n + 1, rng.integers(0, 4))) | {n})
    prev, out = 0, []
    for c in cuts:
        if c > prev:
            out.append(range(prev, c)); prev = c
    return out
