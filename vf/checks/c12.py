"""C12: conventions of the constructors of cameras."""
import numpy as np
from hypothesis import strategies as st

from .. import cams
from ..core import Check, Sub, Violation
from ..scenes import rng_of


def prop_perspective(case, ctx):
    from deodr.differentiable_renderer import PerspectiveCamera

    rng = rng_of(case)
    R = cams.rotation(rng, case["special"] if case["special"] < 6 else None)
    c = rng.uniform(-1, 1, 3) * 10.0 ** rng.integers(-2, 4)
    w, h, fov = case["w"], case["h"], case["fov"]
    D = cams.distortion(rng, case["dist"])
    identity = case["special"] == 0 and case["seed"] % 2
    c0, R0 = c.copy(), R.copy()
    cam = PerspectiveCamera(w, h, fov, c, None if identity else R, D)
    size = 1 + np.abs(c).max()
    ctx.close(cam.get_center(), c0, "centre of the camera", rtol=0, atol=1e-13 * size)
    ctx.close(cam.world_to_camera(c0[None]), np.zeros((1, 3)), "the centre in the camera frame", rtol=0, atol=1e-13 * size)
    ctx.check((cam.width, cam.height) == (w, h), "size is %s x %s", cam.width, cam.height)
    ctx.check(abs(cam.xfov - fov) <= 1e-11 * 180, "xfov is %r instead of %r", cam.xfov, fov)
    yfov = np.degrees(2 * np.arctan(np.tan(np.radians(fov) / 2) * h / w))
    ctx.check(abs(cam.yfov - yfov) <= 1e-11 * 180, "yfov is %r instead of %r", cam.yfov, yfov)
    M = cam.camera_to_world_mtx_4x4()
    ext = np.vstack((np.column_stack((R0, -R0.dot(c0))), [0, 0, 0, 1]))
    ctx.close(M, np.linalg.inv(ext), "camera_to_world_mtx_4x4", rtol=0, atol=1e-12 * size)
    q = rng.standard_normal((4, 3))
    back = np.column_stack((cam.world_to_camera(q), np.ones(4))).dot(M.T)
    ctx.close(back, np.column_stack((q, np.ones(4))), "camera_to_world of world_to_camera", rtol=0, atol=1e-12 * size)
    # the axis is the third row of the rotation, columns are along the first one and rows along the second
    z = 10.0 ** rng.uniform(-1, 2)
    t = np.tan(np.radians(fov) / 2)
    pts = c0 + z * np.array([R0[2], R0[2] + t * R0[0], R0[2] - t * R0[0], R0[2] + t * h / w * R0[1], R0[2] - t * h / w * R0[1]])
    if D is None:
        ij, depths = cam.project_points(pts)
        exp = np.array([[w / 2, h / 2], [w, h / 2], [0, h / 2], [w / 2, h], [w / 2, 0]])
        cond = (1 + size / z) * (1 + 1 / t + t)
        ctx.close(ij, exp, "projection of the axis and of the limits of the field of view", rtol=0, atol=1e-12 * cond * max(w, h))
        ctx.close(depths, np.full(5, z), "depths", rtol=0, atol=1e-12 * (size + z * (1 + t)))
    else:
        ctx.exact(np.array(cam.distortion), D, "distortion")
        ij, depths = cam.project_points(pts[:1])
        ctx.close(ij, [[w / 2, h / 2]], "projection of the axis", rtol=0, atol=1e-12 * (1 + size / z) * max(w, h) * (1 + 1 / t))
    ctx.exact(c, c0, "the centre given")
    ctx.exact(R, R0, "the rotation given")
    ctx.nontrivial(not identity and w != h)
    ctx.label("distorted", D is not None)


def perspective_cases():
    return st.fixed_dictionaries({
        "special": st.integers(0, 20), "w": st.integers(1, 3000), "h": st.integers(1, 3000),
        "fov": st.one_of(st.floats(1, 170), st.sampled_from([60.0, 90.0, 120.0, 45, 60])),
        "dist": st.sampled_from(["none", "none", "none", "all", "single"]), "seed": st.integers(0, 2**31 - 1),
    })


def prop_default(case, ctx):
    from deodr.differentiable_renderer import default_camera

    rng = rng_of(case)
    R = cams.rotation(rng, case["special"] if case["special"] < 6 else None)
    n = case["n"]
    v = rng.standard_normal((n, 3)) * 10.0 ** rng.uniform(-1.5, 1.5, 3) * 10.0 ** rng.integers(-2, 3)
    if case["flat"] == 1:
        v[:, 2] = 0.7
        R = np.eye(3)
    elif case["flat"] == 2:
        # a segment along one of the image axes
        v[:, [case["seed"] % 2, 2]] = -0.2
        R = np.eye(3)
    v = v + rng.uniform(-5, 5, 3)
    w, h, fov = case["w"], case["h"], case["fov"]
    v0 = v.copy()
    D = cams.distortion(rng, case["dist"])
    cam = default_camera(w, h, fov, v, R) if D is None else default_camera(w, h, fov, v, R, D)
    ctx.exact(v, v0, "the vertices given")
    if D is None:
        ctx.check(cam.distortion is None, "a distortion is made up")
    else:
        ctx.exact(np.array(cam.distortion), D, "distortion")
        # the frame is that of the camera without its distortion
        cam = default_camera(w, h, fov, v, R)
    ctx.check((cam.width, cam.height) == (w, h), "size is %s x %s", cam.width, cam.height)
    ctx.close(cam.extrinsic[:, :3], R, "rotation", rtol=0, atol=0)
    ctx.check(abs(cam.xfov - fov) <= 1e-9, "xfov is %r instead of %r", cam.xfov, fov)
    ctx.check(abs(cam.intrinsic[0, 0] - cam.intrinsic[1, 1]) < 1e-9 * cam.intrinsic[0, 0], "pixels are not square")
    ij, depths = cam.project_points(v)
    box = v.dot(R.T)
    lo, hi = box.min(axis=0), box.max(axis=0)
    ext = hi - lo
    dist = np.linalg.norm(cam.get_center()) + np.abs(v).max()
    near = float(depths.min())
    ctx.check(near > 0, "a vertex is not in front of the camera")
    eps = 1e-13 * dist / near
    ctx.check(np.all(ij >= -(1e-9 + eps) * w) and np.all(ij[:, 0] <= w * (1 + 1e-9 + eps)), "a vertex projects out of the image (columns)")
    ctx.check(np.all(ij[:, 1] >= -(1e-9 + eps) * h) and np.all(ij[:, 1] <= h * (1 + 1e-9 + eps)), "a vertex projects out of the image (rows)")
    # the front side of the box of the vertices touches the border of the image, and is centred
    c = cam.world_to_camera(v)
    t = np.tan(np.radians(fov) / 2)
    fill = max(0.5 * ext[0] / (near * t), 0.5 * ext[1] / (near * t * h / w))
    ctx.check(abs(fill - 1) <= 1e-9 + 10 * eps, "the box of the vertices fills %r of the image", fill)
    mid = 0.5 * (c.min(axis=0) + c.max(axis=0))
    ctx.check(np.all(np.abs(mid[:2]) <= 1e-12 * dist), "the box is not centred: %r", mid[:2])
    ctx.nontrivial(n > 1 and case["special"] > 5)
    ctx.label("binding direction: columns", ext[0] > ext[1] * w / h)


def default_cases():
    return st.fixed_dictionaries({
        "special": st.integers(0, 20), "w": st.integers(2, 3000), "h": st.integers(2, 3000), "n": st.one_of(st.integers(2, 8), st.integers(2, 8), st.sampled_from([20, 65, 130, 300])),
        "flat": st.sampled_from([0, 0, 0, 1, 2]), "dist": st.sampled_from(["none", "none", "none", "all", "single"]), "fov": st.one_of(st.floats(2, 160), st.sampled_from([60.0, 90.0, 60])),
        "seed": st.integers(0, 2**31 - 1),
    })


def raises(f):
    try:
        f()
    except BaseException:
        return True
    return False


def skewed(R, unit, i, amount):
    """A matrix which is not a rotation, although some invariants of rotations hold."""
    out = R.copy()
    if unit:
        out[:, i] += amount * out[:, (i + 1) % 3]
        out[:, i] /= np.linalg.norm(out[:, i])
    else:
        a = np.clip(amount, -0.9, 0.9)
        out[:, i] *= np.sqrt(1 + a)
        out[:, (i + 1) % 3] *= np.sqrt(1 - a)
    return out


def prop_reject(case, ctx):
    from deodr.differentiable_renderer import Camera, PerspectiveCamera

    rng = rng_of(case)
    R = cams.rotation(rng)
    E = np.column_stack((R, rng.standard_normal(3)))
    K = np.array([[100.0, 1, 50], [0, 110, 40], [0, 0, 1]])
    D = rng.standard_normal(5) * 0.1
    amount = case["amount"]
    k = case["fault"]
    E2, K2, D2, c2, R2 = E.copy(), K.copy(), D.copy(), E[:, 3].copy(), R.copy()
    what = ["perturbed rotation", "scaled rotation", "sheared rotation", "bottom row of the intrinsics", "4x4 extrinsic", "3x3 extrinsic",
            "3x4 intrinsic", "2x3 intrinsic", "distortion of another length", "reflection as rotation", "scaled rotation (fov)",
            "perturbed rotation (fov)", "centre of another shape", "rotation of another shape", "columns of norm 1 that are not orthogonal", "orthogonal columns of squared norms summing to 3",
            "columns of norm 1 that are not orthogonal (fov)", "orthogonal columns of squared norms summing to 3 (fov)"][k]
    i, j = rng.integers(0, 3, 2)
    f = lambda: Camera(E2, K2, 80, 100, D2)
    if k == 0:
        E2[i, j] += amount
        # moving one coefficient can keep a matrix orthogonal only by chance
        if np.abs(E2[:, :3].T.dot(E2[:, :3]) - np.eye(3)).max() < min(1e-4, 0.3 * abs(amount)):
            return
    elif k == 1:
        E2[:, :3] *= 1 + amount
    elif k == 2:
        s = np.eye(3)
        s[i, (i + 1) % 3] = amount
        E2[:, :3] = E2[:, :3].dot(s)
    elif k == 3:
        K2[2, j] += amount
    elif k == 4:
        E2 = np.vstack((E, [0, 0, 0, 1]))
    elif k == 5:
        E2 = E[:, :3].copy()
    elif k == 6:
        K2 = np.column_stack((K, np.zeros(3)))
    elif k == 7:
        K2 = K[:2].copy()
    elif k == 8:
        D2 = rng.standard_normal([4, 8, 1, 6, 0][case["seed"] % 5])
    elif k in (14, 15):
        E2[:, :3] = skewed(R, k == 14, i, amount)
    else:
        f = lambda: PerspectiveCamera(100, 80, 60, c2, R2)
        if k in (16, 17):
            R2 = skewed(R, k == 16, i, amount)
        elif k == 9:
            R2[i] *= -1
        elif k == 10:
            R2 *= 1 + abs(amount)
        elif k == 11:
            R2[i, j] += amount
            if np.abs(R2.T.dot(R2) - np.eye(3)).max() < min(1e-4, 0.3 * abs(amount)):
                return
        elif k == 12:
            c2 = [c2[:2], c2[None], np.append(c2, 1)][case["seed"] % 3]
        else:
            R2 = [R2[:2], np.eye(4), R2[:, :2]][case["seed"] % 3]
    ctx.check(raises(f), "a camera with a fault (%s) is accepted", what)
    ctx.nontrivial()
    ctx.label(what)
    # and the camera without fault is accepted, also when the fault is below the given tolerance
    Camera(E, K, 80, 100, D)
    PerspectiveCamera(100, 80, 60, E[:, 3].copy(), R)
    if k in (0, 1, 2, 14, 15):
        Camera(E2, K2, 80, 100, D2, tol=100.0)
        error = np.linalg.norm(E2[:, :3].T.dot(E2[:, :3]) - np.eye(3))
        Camera(E2, K2, 80, 100, D2, tol=4 * error)
        ctx.check(raises(lambda: Camera(E2, K2, 80, 100, D2, tol=error / 4)), "a camera with a fault four times the tolerance is accepted")
        Camera(E2, K2, 80, 100, D2, checks=False)


def reject_cases():
    return st.fixed_dictionaries({
        "fault": st.integers(0, 17), "amount": st.sampled_from([0.01, -0.02, 0.3, -0.4, 1.0, 1e-4, -1e-4, 1e-5, -1e-5, 4e-6, -4e-6]), "seed": st.integers(0, 2**31 - 1),
    })


def prop_general(case, ctx):
    from deodr.differentiable_renderer import Camera

    rng = rng_of(case)
    R = cams.rotation(rng, case["special"] if case["special"] < 6 else None)
    w, h = case["w"], case["h"]
    E = np.column_stack((R, rng.uniform(-10, 10, 3)))
    fx, fy = 10.0 ** rng.uniform(0, 4, 2)
    off = rng.uniform(-0.3, 0.3, 2) * (w, h) * [(0, 0), (0, 0), (1, 0), (0, 1)][case["off"]]
    K = np.array([[fx, 0, w / 2], [0, fy, h / 2], [0, 0, 1]])
    K[:2, 2] += off
    K[0, 1] = [0, 0, 0, 0.3 * fx][case["skew"]]
    D = cams.distortion(rng, case["dist"])
    given = [None if D is None else a for a in (D, None if D is None else list(D), None if D is None else tuple(D))][case["seed"] % 3]
    E0, K0, D0 = E.copy(), K.copy(), None if D is None else D.copy()
    cam = Camera(E, K, h, w, given)
    for name, focal, size, o in (("xfov", fx, w, off[0]), ("yfov", fy, h, off[1])):
        if o == 0:
            v = getattr(cam, name)
            ctx.check(abs(v - np.degrees(2 * np.arctan2(0.5 * size, focal))) < 1e-11 * 180, "%s is %r", name, v)
        else:
            # the formula is that of a centred principal point
            ctx.check(raises(lambda: getattr(cam, name)), "%s of a camera whose principal point is not centred", name)
    ctx.check((cam.width, cam.height) == (w, h), "size is %s x %s", cam.width, cam.height)
    c = cam.get_center()
    ctx.close(E0[:, :3].dot(c) + E0[:, 3], np.zeros(3), "the centre in the camera frame", rtol=0, atol=1e-12)
    M = cam.camera_to_world_mtx_4x4()
    ctx.close(np.vstack((E0, [0, 0, 0, 1])).dot(M), np.eye(4), "extrinsic times camera_to_world_mtx_4x4", rtol=0, atol=1e-12)
    for a, b, name in ((cam.extrinsic, E0, "extrinsic"), (cam.intrinsic, K0, "intrinsic"), (E, E0, "extrinsic given"), (K, K0, "intrinsic given")):
        ctx.exact(a, b, name)
    if D is None:
        ctx.check(cam.distortion is None, "a distortion is made up")
    else:
        ctx.exact(np.array(cam.distortion), D0, "distortion")
    text = repr(cam)
    ctx.check(str(w) in text and str(h) in text, "the size is not in the representation of the camera")
    ctx.nontrivial(w != h and case["special"] > 5)
    ctx.label("principal point not centred", bool(np.any(off)))
    ctx.label("skew", case["skew"] == 3)


def general_cases():
    return st.fixed_dictionaries({
        "special": st.integers(0, 20), "w": st.integers(1, 3000), "h": st.integers(1, 3000), "off": st.integers(0, 3), "skew": st.integers(0, 3),
        "dist": st.sampled_from(["none", "none", "all", "single"]), "seed": st.integers(0, 2**31 - 1),
    })


CHECK = Check(
    "C12",
    "generated centres, rotations, fields of view and sizes; generated sets of vertices framed by the default camera; generated faults of the matrices; "
    "non trivial: rotated and not square",
    [
        Sub("perspective", perspective_cases, prop_perspective, 30000, 150000),
        Sub("default", default_cases, prop_default, 30000, 150000),
        Sub("general", general_cases, prop_general, 15000, 60000),
        Sub("reject", reject_cases, prop_reject, 10000, 40000),
    ],
)
