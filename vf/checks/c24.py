"""C24: helpers of deodr.tools against definitions, exact derivatives by complex or dual arithmetic."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, Sub, Violation
from ..scenes import rng_of


def vec(rng, shape, special):
    x = rng.standard_normal(shape) * 10.0 ** rng.integers(-2, 3)
    if special == 1:
        x = np.round(x)
    elif special == 2:
        x = x * (rng.random(shape) < 0.5)
    return x


def layout(x, k):
    """The same values in another memory layout."""
    if k == 1:
        return np.asfortranarray(x)
    if k == 2:
        y = np.zeros(tuple(2 * s for s in x.shape))
        y = y[tuple(slice(None, None, 2) for _ in x.shape)]
        y[...] = x
        return y
    if k == 3:
        return x[..., ::-1].copy()[..., ::-1]
    return x.copy()


def matrix(q):
    x, y, z, w = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
    ])


def prop_rotation(case, ctx):
    import torch

    from deodr.tools import qrot, qrot_backward
    from scipy.spatial.transform import Rotation

    rng = rng_of(case)
    n = case["n"]
    v = layout(vec(rng, (n, 3), case["special"]), case["layout"])
    m = case["m"]
    q = rng.standard_normal((m, 4))
    if case["special"] == 2:
        q = np.eye(4)[rng.integers(0, 4, m)] * rng.choice([-1, 1], (m, 1))
    q = q / np.linalg.norm(q, axis=1, keepdims=True)
    q = layout(q, case["layout2"])
    q0, v0 = q.copy(), v.copy()
    batch = qrot(q, v)
    ctx.check(batch.shape == (m, n, 3), "rotation of a batch has the shape %s", batch.shape)
    scale = np.abs(v).max() + 1e-300
    for k in range(m):
        single = qrot(q[k], v)
        ctx.check(single.shape == (n, 3), "rotation has the shape %s", single.shape)
        ctx.close(single, v.dot(matrix(q0[k]).T), "rotation by a quaternion", atol=1e-13 * scale, rtol=0)
        ctx.close(single, Rotation.from_quat(q0[k]).apply(v0), "rotation by a quaternion compared to scipy", atol=1e-12 * scale, rtol=0)
        ctx.close(batch[k], single, "rotation in a batch", atol=1e-14 * scale, rtol=0)
        ctx.close(np.linalg.norm(single, axis=1), np.linalg.norm(v0, axis=1), "lengths after rotation", atol=1e-13 * scale, rtol=0)
    # gradient, for any quaternion
    if case["unit"]:
        p = q0[0].copy()
    else:
        p = vec(rng, 4, case["special"])
    p = layout(p, case["layout2"])
    p0 = p.copy()
    vr_b = layout(vec(rng, (n, 3), 0), case["layout2"])
    b0 = vr_b.copy()
    q_b, v_b = qrot_backward(p, v, vr_b)
    tq = torch.tensor(p0, requires_grad=True)
    tv = torch.tensor(v0.copy(), requires_grad=True)
    u = tq[None, :3].expand(n, 3)
    uv = torch.cross(u, tv, dim=1)
    out = tv + 2 * (tq[3] * uv + torch.cross(u, uv, dim=1))
    out.backward(torch.tensor(b0.copy()))
    s = np.abs(b0).max() * (1 + np.abs(p0).max() ** 2) * n
    ctx.close(qrot(p, v), out.detach().numpy(), "rotation by any quaternion", atol=1e-12 * scale * (1 + np.abs(p0).max() ** 2), rtol=0)
    ctx.close(q_b, tq.grad.numpy(), "gradient of the quaternion", atol=1e-12 * s * (scale + 1e-300), rtol=1e-12)
    ctx.close(v_b, tv.grad.numpy(), "gradient of the points", atol=1e-12 * s, rtol=1e-12)
    # calling again gives the same, nothing is modified
    q_b2, v_b2 = qrot_backward(p, v, vr_b)
    ctx.exact(q_b2, q_b, "second gradient of the quaternion")
    ctx.exact(v_b2, v_b, "second gradient of the points")
    v_b2 += 1
    q_b2 += 1
    ctx.exact(q, q0, "quaternions given")
    ctx.exact(v, v0, "points given")
    ctx.exact(p, p0, "quaternion given to the backward")
    ctx.exact(vr_b, b0, "gradient given")
    ctx.nontrivial(n > 1 and m > 1)


def prop_normalize(case, ctx):
    import torch

    from deodr.tools import normalize, normalize_backward

    rng = rng_of(case)
    shape = tuple(case["shape"])
    axis = case["axis"] % len(shape)
    given_axis = axis if case["negative"] == 0 else axis - len(shape)
    x = vec(rng, shape, case["special"])
    # no null vector
    bad = np.sum(x**2, axis=axis, keepdims=True) < 1e-6
    x = np.where(bad, 1.0, x) * 10.0 ** case["scale"]
    x = layout(x, case["layout"])
    x0 = x.copy()
    args = {} if given_axis == -1 and case["seed"] % 2 else {"axis": given_axis}
    y = normalize(x, **args)
    ctx.check(y.shape == shape, "normalisation has the shape %s", y.shape)
    ctx.close(np.sqrt(np.sum(y**2, axis=axis)), np.ones(y.sum(axis=axis).shape), "lengths after normalisation", atol=1e-14 * 10, rtol=0)
    ctx.close(y, x0 / np.linalg.norm(x0, axis=axis, keepdims=True), "normalisation", atol=1e-14, rtol=0)
    b = layout(vec(rng, shape, 0), case["layout2"])
    b0 = b.copy()
    x_b = normalize_backward(x, b, **args)
    t = torch.tensor(x0.copy(), requires_grad=True)
    (t / (t**2).sum(dim=axis, keepdim=True).sqrt()).backward(torch.tensor(b0.copy()))
    norm = np.broadcast_to(np.linalg.norm(x0, axis=axis, keepdims=True), shape)
    ctx.close(x_b * norm, t.grad.numpy() * norm, "gradient of the normalisation", atol=1e-12 * np.abs(b0).max(), rtol=0)
    unit = x0 / norm
    ctx.close(np.sum(x_b * norm * unit, axis=axis), np.zeros(np.sum(x0, axis=axis).shape), "gradient along the vectors", atol=1e-11 * np.abs(b0).max(), rtol=0)
    ctx.exact(x, x0, "vectors given")
    ctx.exact(b, b0, "gradient given")
    ctx.exact(normalize_backward(x, b, **args), x_b, "second gradient")
    ctx.nontrivial(x.size > 3)
    ctx.label("%d dimensions" % len(shape))


def prop_cross(case, ctx):
    import torch

    from deodr.tools import cross_backward

    rng = rng_of(case)
    n = case["n"]
    u, v, c = [layout(vec(rng, (n, 3), case["special"]), k) for k in (case["layout"], case["layout2"], case["layout"])]
    kept = [a.copy() for a in (u, v, c)]
    u_b, v_b = cross_backward(u, v, c)
    tu, tv = torch.tensor(kept[0].copy(), requires_grad=True), torch.tensor(kept[1].copy(), requires_grad=True)
    torch.cross(tu, tv, dim=1).backward(torch.tensor(kept[2].copy()))
    s = np.abs(kept[2]).max()
    ctx.close(u_b, tu.grad.numpy(), "gradient of the first vectors", atol=1e-13 * s * (1e-300 + np.abs(kept[1]).max()), rtol=0)
    ctx.close(v_b, tv.grad.numpy(), "gradient of the second vectors", atol=1e-13 * s * (1e-300 + np.abs(kept[0]).max()), rtol=0)
    for a, b in zip((u, v, c), kept):
        ctx.exact(a, b, "inputs of the gradient of the cross product")
    ctx.nontrivial(n > 1)


def prop_jacobian(case, ctx):
    from deodr.tools import check_jacobian_finite_differences, jacobian_finite_differences

    rng = rng_of(case)
    shape = tuple(case["shape"])
    out_shape = tuple(case["out"])
    x = layout(rng.uniform(-2, 2, shape), case["layout"])
    x0 = x.copy()
    whole = case["whole"]
    if whole:
        # a point whose coordinates have another type
        x = layout(np.round(x), case["layout"]).astype([np.int64, np.int32, np.float32][case["seed"] % 3])
        x0 = x.copy()
    n, m = x.size, int(np.prod(out_shape))
    A = rng.standard_normal((m, n))
    B = rng.standard_normal((m, n)) * 0.5
    form = case["form"]
    if form == 3:
        # functions that return what they are given, or a view of it
        out_shape, m, A = shape, n, np.eye(n)

        def func(y):
            return y
    elif form == 4:
        out_shape, m = (n,), n
        A = np.eye(n)[::-1]

        def func(y):
            return y.reshape(-1)[::-1]
    else:
        def func(y):
            z = y.reshape(-1)
            r = A.dot(z) if form == 0 else A.dot(np.sin(z)) if form == 1 else (A.dot(z)) * np.cos(B.dot(z))
            return r.reshape(out_shape)

    z = x0.reshape(-1).astype(float)
    if form in (0, 3, 4):
        J = A.copy()
    elif form == 1:
        J = A * np.cos(z)[None, :]
    else:
        J = A * np.cos(B.dot(z))[:, None] - (A.dot(z) * np.sin(B.dot(z)))[:, None] * B
    if form in (3, 4) and case["layout"]:
        x = x0.copy()
    eps = [None, 1e-6, 1e-5][case["eps"]]
    kw = {} if eps is None else {"epsilon": eps}
    got = jacobian_finite_differences(func, x, **kw)
    ctx.check(got.shape == (m, n), "jacobian of shape %s instead of %s", got.shape, (m, n))
    ctx.close(got, J, "jacobian by finite differences", atol=1e-7 * (1 + np.abs(J).max()) * n, rtol=1e-7)
    ctx.exact(x, x0, "point given")
    # the checker accepts the right jacobian
    try:
        check_jacobian_finite_differences(J, func, x, **kw)
        if m == 1:
            check_jacobian_finite_differences(J[0], func, x, **kw)
    except AssertionError as e:
        raise Violation("the right jacobian is rejected") from e
    ctx.exact(x, x0, "point given to the checker")
    # and rejects wrong ones, even when a single value is wrong
    W = J.copy()
    i, j = int(rng.integers(0, m)), int(rng.integers(0, n))
    W[i, j] += rng.choice([-1, 1]) * [3e-4, 0.1, 10.0, np.nan][case["wrong"]] * 1.0
    try:
        check_jacobian_finite_differences(W, func, x, **kw)
    except AssertionError:
        pass
    else:
        raise Violation("a jacobian with a wrong value at %s is accepted" % ((i, j),))
    tol = [1e-2, 1.0][case["seed"] % 2]
    W = J.copy()
    W[i, j] += tol * 0.5
    try:
        check_jacobian_finite_differences(W, func, x, tol=tol)
    except AssertionError as e:
        raise Violation("a jacobian within the tolerance is rejected") from e
    W[i, j] = J[i, j] - tol * 1.5
    try:
        check_jacobian_finite_differences(W, func, x, tol=tol)
    except AssertionError:
        pass
    else:
        raise Violation("a jacobian out of the tolerance is accepted")
    ctx.nontrivial(n > 1 and m > 1)
    ctx.label("view", form >= 3)


def prop_stateful(case, ctx):
    """Functions whose value changes by itself are detected."""
    from deodr.tools import jacobian_finite_differences

    rng = rng_of(case)
    x = rng.uniform(-2, 2, tuple(case["shape"]))
    count = [0]

    def func(y):
        count[0] += 1
        return y + (1 if count[0] > case["seed"] % (2 * x.size) + 1 else 0)

    try:
        jacobian_finite_differences(func, x)
    except AssertionError:
        ctx.nontrivial()
        return
    raise Violation("a function whose value changes is not detected")


def seeds():
    return st.integers(0, 2**31 - 1)


def cases():
    return st.fixed_dictionaries({
        "n": st.integers(1, 8), "m": st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 40)), "special": st.integers(0, 2), "unit": st.booleans(), "layout": st.integers(0, 3), "layout2": st.integers(0, 3), "seed": seeds(),
    })


def norm_cases():
    return st.fixed_dictionaries({
        "scale": st.sampled_from([0, 0, 0, -12, -60, 9, 60]), "shape": st.lists(st.integers(1, 5), min_size=1, max_size=4), "axis": st.integers(0, 3), "negative": st.integers(0, 1), "special": st.integers(0, 2),
        "layout": st.integers(0, 3), "layout2": st.integers(0, 3), "seed": seeds(),
    })


def jac_cases():
    return st.fixed_dictionaries({
        "shape": st.lists(st.integers(1, 4), min_size=1, max_size=3), "out": st.lists(st.integers(1, 4), max_size=2), "layout": st.integers(0, 3), "form": st.integers(0, 4),
        "whole": st.sampled_from([False, False, False, True]), "eps": st.integers(0, 2), "wrong": st.integers(0, 3), "seed": seeds(),
    })


CHECK = Check(
    "C24",
    "vectors, quaternions, incoming gradients of all shapes, axes and memory layouts, functions with known jacobians; non trivial: several vectors or several inputs and outputs",
    [Sub("rotation", cases, prop_rotation, 27000, 120000), Sub("normalize", norm_cases, prop_normalize, 12000, 60000), Sub("cross", cases, prop_cross, 18000, 80000),
     Sub("jacobian", jac_cases, prop_jacobian, 27000, 120000), Sub("stateful", jac_cases, prop_stateful, 2400, 9600)],
)
