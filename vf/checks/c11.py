"""C11: projection of points against OpenCV, its gradient against automatic differentiation of an independent model."""
import cv2
import numpy as np
import torch
from hypothesis import strategies as st

from .. import cams
from ..core import Check, Sub, Violation
from ..scenes import rng_of


def build(case):
    from deodr.differentiable_renderer import Camera

    rng = rng_of(case)
    R = cams.rotation(rng, case["special"] if case["special"] < 6 else None)
    T = rng.uniform(-3, 3, 3) * 10.0 ** rng.integers(-2, 3)
    E = np.column_stack((R, T))
    f = 10.0 ** rng.uniform(-1, 4, 2)
    K = np.array([[f[0], 0, rng.uniform(-500, 2000)], [0, f[1], rng.uniform(-500, 2000)], [0, 0, 1.0]])
    if case["skew"]:
        K[0, 1] = rng.uniform(-1, 1) * f[0]
    if case["skew"] == 2:
        K[1, 0] = rng.uniform(-1, 1) * f[1]
    D = cams.distortion(rng, case["dist"])
    given = D
    if D is not None:
        given = [D, list(D), tuple(D), iter_free(D)][case["seed"] % 4]
    w, h = int(rng.integers(1, 2000)), int(rng.integers(1, 2000))
    cam = Camera(E, K, h, w, given)
    # points with a depth which is not too small, in front and behind
    n = case["n"]
    z = rng.uniform(0.05, 3, n) * 10.0 ** rng.uniform(-1, 2, n)
    if case["behind"]:
        z = np.where(rng.random(n) < 0.4, -z, z)
    spread = [0.0, 0.3, 1.5][case["spread"]]
    X = np.column_stack((rng.uniform(-1, 1, n) * spread * np.abs(z), rng.uniform(-1, 1, n) * spread * np.abs(z), z))
    points = (X - T).dot(R)
    return rng, cam, E, K, D, points


def iter_free(D):
    return np.array(D, dtype=np.float64)[::1]


def prop(case, ctx):
    rng, cam, E, K, D, points = build(case)
    n = len(points)
    E0, K0, P0 = E.copy(), K.copy(), points.copy()
    store, other = {}, {}
    ij, depths = cam.project_points(points, store_backward=store)
    # OpenCV has no skew: normalised coordinates, then the affine part of the intrinsics
    rvec, _ = cv2.Rodrigues(E[:, :3])
    norm, _ = cv2.projectPoints(points.reshape(-1, 1, 3), E[:, :3].copy(), E[:, 3].copy(), np.eye(3), D if D is not None else np.zeros(5))
    norm = norm.reshape(-1, 2)
    # conditioning of the division by the depth
    Xc = points.dot(E[:, :3].T) + E[:, 3]
    size = np.abs(points).max() + np.abs(E[:, 3]).max()
    cond = 1 + size / np.abs(Xc[:, 2])
    mi, mj, mz = cams.project(E, K, D, points)
    r = np.maximum(np.hypot(Xc[:, 0], Xc[:, 1]) / np.abs(Xc[:, 2]), 1)
    mag = (1 + (np.abs(D).max() * 7 * r**6 if D is not None else 0)) * r * np.abs(K[:2, :2]).max() + np.abs(K[:2, 2]).max()
    tol = 2e-14 * cond * mag * (8 if D is None else 60)
    cvij = norm.dot(K[:2, :2].T) + K[:2, 2]
    for k, (name, exp) in enumerate((("first", mi), ("second", mj))):
        d = np.abs(ij[:, k] - exp)
        if not np.all(d <= tol):
            i = int(np.argmax(d / tol))
            raise Violation("%s coordinate of point %d is %r, expected %r" % (name, i, ij[i, k], exp[i]))
        # cv2 evaluates rotations given as matrices exactly, in double precision
        d = np.abs(ij[:, k] - cvij[:, k])
        if not np.all(d <= 8 * tol + 1e-9 * mag):
            i = int(np.argmax(d / tol))
            raise Violation("%s coordinate of point %d is %r, OpenCV gives %r" % (name, i, ij[i, k], cvij[i, k]))
    ctx.check(np.all(np.abs(depths - Xc[:, 2]) <= 1e-14 * 8 * size), "depths differ from the third camera coordinate")
    only = cam.project_points(points, return_depths=False)
    ctx.exact(only, ij, "projection with return_depths=False")
    a, b = cam.project_points(points)
    ctx.exact(a, ij, "projection without store")
    ctx.exact(b, depths, "depths without store")
    # another projection in between, with its own store
    other_points = points[::-1].copy() + 0.01
    cam.project_points(other_points, store_backward=other)
    # gradient of any function: g = sum(ij * ij_b) + sum(depths * depths_b)
    ij_b = rng.standard_normal((n, 2)) * (rng.random((n, 1)) < 0.8)
    depths_b = rng.standard_normal(n) * 100 if case["depths_b"] else None
    t = torch.tensor(points, requires_grad=True)
    ti, tj, tz = cams.project(torch.tensor(E), K, D, t)
    loss = (ti * torch.tensor(ij_b[:, 0])).sum() + (tj * torch.tensor(ij_b[:, 1])).sum()
    if depths_b is not None:
        loss = loss + (tz * torch.tensor(depths_b)).sum()
    (exp,) = torch.autograd.grad(loss, t)
    exp = exp.numpy()
    ij_b0 = ij_b.copy()
    given = ij_b if case["seed"] % 2 else np.asfortranarray(ij_b)
    got = cam.project_points_backward(given, store_backward=store, depths_b=depths_b)
    ctx.check(got.shape == points.shape, "the gradient has shape %s", got.shape)
    scale = np.abs(ij_b).sum(axis=1) * mag / np.abs(Xc[:, 2]) * r + (0 if depths_b is None else np.abs(depths_b))
    bad = np.abs(got - exp) > (1e-12 * cond**2 * scale * 50)[:, None] + 1e-300
    if bad.any():
        i = np.unravel_index(np.argmax(bad), bad.shape)
        raise Violation("gradient of point %d coordinate %d is %r, expected %r" % (i[0], i[1], got[i], exp[i]))
    again = cam.project_points_backward(given, store_backward=store, depths_b=depths_b)
    ctx.exact(again, got, "a second backward pass of the same projection")
    ctx.exact(ij_b, ij_b0, "the incoming gradient after the backward pass")
    ctx.exact(points, P0, "the points after the backward pass")
    ctx.exact(cam.extrinsic, E0, "extrinsic")
    ctx.exact(cam.intrinsic, K0, "intrinsic")
    wc = cam.world_to_camera(points)
    ctx.close(wc, Xc, "world_to_camera", rtol=1e-13, atol=1e-13 * size)
    ctx.nontrivial(case["dist"] not in ("none", "zero") and case["spread"] > 0 or bool(case["skew"]))
    ctx.label("distortion " + case["dist"])
    ctx.label("behind", bool(np.any(Xc[:, 2] < 0)))


def cases():
    return st.fixed_dictionaries({
        "n": st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(1, 7), st.integers(8, 600)), "special": st.integers(0, 20), "skew": st.sampled_from([0, 0, 1, 2]),
        "dist": st.sampled_from(cams.DISTORTIONS + ["single"]), "behind": st.booleans(), "spread": st.integers(0, 2),
        "depths_b": st.booleans(), "seed": st.integers(0, 2**31 - 1),
    })


CHECK = Check(
    "C11",
    "generated extrinsics, intrinsics with skew, distortions and points, against OpenCV and an independent model, gradients against autograd; "
    "non trivial: distorted off-axis points, or skew",
    [Sub("project", cases, prop, 32000, 200000)],
    assumptions=["points with a depth larger than 0.005 in absolute value"],
)
