"""Generation of cameras: small json cases decoded into matrices."""
import numpy as np
from hypothesis import strategies as st

from .scenes import rng_of

SPECIAL_ROT = [
    np.eye(3), np.diag([-1.0, -1, 1]), np.diag([1.0, -1, -1]), np.diag([-1.0, 1, -1]),
    np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]]), np.array([[0.0, 0, 1], [1, 0, 0], [0, 1, 0]]),
]


def rotation(rng, special=None):
    if special is not None:
        return SPECIAL_ROT[special % len(SPECIAL_ROT)].copy()
    q = rng.standard_normal(4)
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
    ])


def small_rotation(rng, angle):
    v = rng.standard_normal(3)
    v = v / np.linalg.norm(v)
    a = rng.uniform(-angle, angle)
    k = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + np.sin(a) * k + (1 - np.cos(a)) * k.dot(k)


DISTORTIONS = ["none", "zero", "radial", "tangential", "all", "all", "strong"]


def distortion(rng, kind):
    if kind == "none":
        return None
    d = np.zeros(5)
    if kind in ("radial", "all", "strong"):
        d[[0, 1, 4]] = rng.uniform(-1, 1, 3) * [0.3, 0.1, 0.05]
    if kind in ("tangential", "all", "strong"):
        d[[2, 3]] = rng.uniform(-0.05, 0.05, 2)
    if kind == "strong":
        d *= 5
    if kind == "single":
        k = int(rng.integers(0, 5))
        d[k] = rng.uniform(-1, 1) * [0.3, 0.1, 0.05, 0.05, 0.05][k]
    return d


def project(extrinsic, intrinsic, dist, points):
    """Independent model of the projection (numpy arrays or torch tensors of doubles)."""
    X = points @ extrinsic[:, :3].T + extrinsic[:, 3]
    x = X[:, 0] / X[:, 2]
    y = X[:, 1] / X[:, 2]
    if dist is not None:
        k1, k2, p1, p2, k3 = [float(v) for v in dist]
        r2 = x * x + y * y
        rad = 1 + r2 * (k1 + r2 * (k2 + r2 * k3))
        x, y = (
            x * rad + 2 * p1 * x * y + p2 * (3 * x * x + y * y),
            y * rad + p1 * (x * x + 3 * y * y) + 2 * p2 * x * y,
        )
    K = [[float(v) for v in r] for r in intrinsic]
    i = K[0][0] * x + K[0][1] * y + K[0][2]
    j = K[1][0] * x + K[1][1] * y + K[1][2]
    return i, j, X[:, 2]
