"""C27: the PyTorch fitters against the numpy fitters and the model of C25, and the energy given to the optimisers of PyTorch."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from .. import fitters, meshes, pipeline
from ..core import Check, Skip, Sub
from ..scenes import rng_of


def prop(case, ctx):
    fitters.history(case, ctx, "torch")


def prop_both(case, ctx):
    """The same history on both fitters, several steps without looking at the model in between."""
    rng = rng_of(case)
    o = fitters.options(case, rng)
    z = 6 * o.radius
    fitters.new_background(o, rng, z)
    with contextlib.redirect_stdout(io.StringIO()):
        pair = [fitters.build(o, "numpy"), fitters.build(o, "torch")]
    model = fitters.Model(o)
    obs, focal, dist = fitters.observation(o, rng, case["w"], case["h"])
    for f in pair:
        fitters.set_image(o, f, obs, focal, dist)
        fitters.set_background(o, f)
    model.set_image(obs, focal, dist)
    n = 0
    for num, op in enumerate(case["ops"]):
        what = "operation %d (%s)" % (num, op)
        if op == "step":
            # the model tells whether the gradient is defined and gives the scale of the rounding errors
            model.p = fitters.parameters(o, pair[0])
            if not all(np.all(np.isfinite(v)) and np.abs(v).max() < 1e6 for v in model.p.values()):
                break
            try:
                exp = model.step()
            except Skip:
                if n == 0:
                    raise
                break
            except fitters.Unjudged:
                op = "pose"
            else:
                a, b = [fitters.step(o, f) for f in pair]
                # errors on the parameters before the step
                tol = 1e-6 * (1 + exp.data) + 1e-9 * exp.scale["vertices"] * np.abs(model.before["vertices"]).max()
                ctx.check(abs(a[0] - b[0]) <= tol, "%s: energy %r with numpy and %r with pytorch", what, a[0], b[0])
                t = 1e-6 * (1 + np.abs(exp.images[0]).max()) + 1000 * exp.R[0].tol
                bad = exp.ok[0] & ~(np.abs(a[1][0].reshape(exp.images[0].shape) - b[1][0].reshape(exp.images[0].shape)).max(axis=2) <= t)
                ctx.check(not bad.any(), "%s: different images at %s", what, np.argwhere(bad)[:1].tolist())
                bad = exp.ok[0] & ~(np.abs(a[2][0] - b[2][0]) <= 10 * t * (1 + np.sqrt(exp.diffs[0])))
                ctx.check(not bad.any(), "%s: different differences", what)
                p, q = [fitters.parameters(o, f) for f in pair]
                for k in p:
                    ctx.check(p[k].shape == q[k].shape, "%s: shape of %s", what, k)
                    tol = 4 * model.tol[k] + 1e-9 * np.abs(p[k]).max()
                    ctx.check(bool(np.all(np.abs(p[k] - q[k]) <= tol)), "%s: %s is %s with numpy and %s with pytorch", what, k, p[k].tolist(), q[k].tolist())
                n += max(exp.moved.values()) > 0
        if op == "pose":
            e, t = fitters.pose(o, rng)
            for f in pair:
                f.set_mesh_transform_init(e.copy(), t.copy())
            model.euler, model.translation_init = e, t
        if op in ("pose", "reset", "fresh"):
            for f in pair:
                f.reset()
            model.reset()
        elif op == "image":
            obs, focal, dist = fitters.observation(o, rng, int(rng.integers(4, 11)), int(rng.integers(4, 11)))
            for f in pair:
                fitters.set_image(o, f, obs, focal, dist)
            model.set_image(obs, focal, dist)
        elif op == "background":
            fitters.new_background(o, rng, z)
            for f in pair:
                fitters.set_background(o, f)
    ctx.label(o.kind)
    ctx.nontrivial(n > 0)


def prop_optim(case, ctx):
    """The energy minimised by the optimisers of PyTorch, and its gradient, are those of the depth fitter."""
    import torch

    from deodr.pytorch import mesh_fitter_pytorch as module

    rng = rng_of(case)
    o = fitters.options(case, rng)
    o.kwargs = {k: v for k, v in o.kwargs.items() if k == "cregu"}
    o.inertia = o.damping = 0.0
    z = 6 * o.radius
    fitters.new_background(o, rng, z)
    args = (o.vertices.copy(), o.faces.copy(), o.euler.copy(), o.translation.copy())
    kept = [a.copy() for a in args]
    lr = case["lr"]
    with contextlib.redirect_stdout(io.StringIO()):
        fitter = module.MeshDepthFitterPytorchOptim(*args, lr=lr, **o.kwargs) if lr is not None else module.MeshDepthFitterPytorchOptim(*args, **o.kwargs)
    model = fitters.Model(o)
    n = 0
    for s in range(case["steps"]):
        if s == 0 or case["change"]:
            obs, focal, _ = fitters.observation(o, rng, case["w"], case["h"])
            fitter.set_image(obs[0], focal=focal)
            fitters.set_background(o, fitter)
            model.set_image(obs, focal, None)
        params = {}
        for name, p in fitter.energy.named_parameters():
            params[{3: "translation", 4: "quaternion"}.get(p.numel() if p.ndim == 1 else 0, "vertices")] = p
        before = {k: v.detach().numpy().copy() for k, v in params.items()}
        if not all(np.all(np.isfinite(v)) and np.abs(v).max() < 1e6 for v in before.values()):
            break
        model.p = {k: v.copy() for k, v in before.items()}
        norm = np.linalg.norm(before["quaternion"])
        if s == 0:
            for k, e in (("vertices", o.vertices), ("quaternion", fitters.euler_quaternion(o.euler)), ("translation", o.translation)):
                ctx.close(before[k], e, "initial " + k, rtol=1e-14, atol=1e-15)
        # the gradient is read in the step of a descent without inertia
        model.factors = {k: (1.0, np.inf) for k in model.p}
        model.speed = {k: np.zeros(v.shape) for k, v in model.p.items()}
        model.tol = {k: 0.0 for k in model.p}
        try:
            exp = model.step()
        except Skip:
            if n == 0:
                raise
            break
        except fitters.Unjudged:
            break
        with contextlib.redirect_stdout(io.StringIO()):
            energy, depth, diff = fitter.step()
        what = "step %d" % s
        tol = 1e-6 * (1 + exp.data) + 1e-9 * exp.scale["vertices"] * np.abs(model.before["vertices"]).max()
        ctx.check(abs(float(energy) - exp.energy) <= tol, "%s: energy %r, expected %r", what, float(energy), exp.energy)
        t = 1e-10 * (1 + np.abs(exp.images[0]).max()) + 100 * exp.R[0].tol
        bad = exp.ok[0] & ~(np.abs(np.array(depth) - exp.images[0][:, :, 0]) <= t)
        ctx.check(not bad.any(), "%s: wrong depth at %s", what, np.argwhere(bad)[:1].tolist())
        bad = exp.ok[0] & ~(np.abs(np.array(diff) - exp.diffs[0]) <= 10 * t * (1 + np.sqrt(exp.diffs[0])))
        ctx.check(not bad.any(), "%s: wrong differences", what)
        g = {}
        for k, p in params.items():
            ctx.check(p.grad is not None, "%s: no gradient of %s", what, k)
            g[k] = p.grad.numpy().copy()
            e = -model.speed[k]
            tol = 1e-9 + 1e-6 * exp.scale[k] / min(1, norm)
            ctx.check(bool(np.all(np.abs(g[k] - e) <= tol)), "%s: gradient of %s is %s, expected %s", what, k, g[k].tolist(), e.tolist())
        if s == 0:
            # the first step of LBFGS goes along the gradient
            total = sum(np.abs(v).sum() for v in g.values())
            for k, p in params.items():
                if total > 1e-5:
                    e = before[k] - (0.8 if lr is None else lr) * min(1.0, 1.0 / total) * g[k]
                    ctx.close(p.detach().numpy(), e, "%s after the first step" % k, rtol=1e-12, atol=1e-14)
        n += np.abs(g["vertices"]).max() > 0
    for a, b in zip(args, kept):
        ctx.exact(a, b, "array given")
    ctx.label("several steps", n > 1)
    ctx.nontrivial(n > 0)


def cases():
    return fitters.cases(kinds=["depth", "rgb"])


@st.composite
def optim_cases(draw):
    return {
        "mesh": draw(meshes.mesh_cases(max_splits=1, shapes=fitters.SHAPES, iso=False)), "kind": "depth", "scale": draw(st.sampled_from([0, 0, 1, 2])), "offset": draw(st.sampled_from([0.0, 0.0, 0.5])),
        "frames": 1, "opts": draw(st.integers(0, 31)), "w": draw(st.integers(4, 10)), "h": draw(st.integers(4, 10)), "lr": draw(st.sampled_from([None, 0.1, 1.0])), "steps": draw(st.integers(1, 4)),
        "change": draw(st.booleans()), "seed": draw(st.integers(0, 2**31 - 1)),
    }


CHECK = Check(
    "C27",
    "histories of steps, resets, changes of image, pose and background of the PyTorch fitters, against the model of C25 and the numpy fitters, and steps of the LBFGS fitter; non trivial: a judged step moves the parameters",
    [Sub("model", cases, prop, 1496, 10000), Sub("numpy", cases, prop_both, 1496, 10000), Sub("optim", optim_cases, prop_optim, 1496, 10000)],
)
