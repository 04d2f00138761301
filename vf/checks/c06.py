"""C06: gradient of the image against the automatic differentiation of the reference model."""
import numpy as np
import torch

from .. import model, scenes
from ..core import Check, Ctx, Sub, Violation

TIES = "gradient-at-exact-ties"

NAMES = ("ij", "colors", "shade", "uv", "texture")
GEOMS = ["generic", "generic", "grid", "mixed", "big", "tiny", "mesh", "mesh"]


def judged(M):
    """Pixels where the gradient is defined and well enough conditioned to be compared."""
    with np.errstate(all="ignore"):
        return ~M.amb & (M.kink > 1e-7) & (M.cond < 3e4) & ~(M.min_T < 1e-5)


def incoming(case, M, salt, shape):
    rng = scenes.rng_of(case, salt)
    g = rng.standard_normal(shape)
    if case["seed"] % 5 == 0:
        g *= rng.random(shape[:2] + (1,) * (len(shape) - 2)) < 0.3
    ok = judged(M)
    g[~ok] = 0
    return g, ok


def expected(M, L, loss):
    keys = [k for k in NAMES if L[k].numel() > 0]
    if not loss.requires_grad:
        grads = [None] * len(keys)
    else:
        grads = torch.autograd.grad(loss, [L[k] for k in keys], allow_unused=True)
    out = {k: np.zeros(tuple(L[k].shape)) for k in NAMES}
    for k, g in zip(keys, grads):
        if g is not None:
            out[k] = g.numpy()
    return out


def mismatch(s, exp, units={}):
    for k in NAMES:
        got = getattr(s, k + "_b")
        e = exp[k]
        if got.shape != e.shape:
            return "gradient of %s has shape %s instead of %s" % (k, got.shape, e.shape)
        if got.size == 0:
            continue
        tol = 1e-8 * units.get(k, 1.0) + 2e-6 * np.abs(e).max()
        diff = np.abs(got - e)
        if not np.all(diff <= tol):
            i = np.unravel_index(np.argmax(np.where(np.isfinite(diff), diff, np.inf)), e.shape)
            return "gradient of %s at %s: got %r expected %r (largest %.3g)" % (
                k, tuple(int(v) for v in i), float(got[i]), float(e[i]), np.abs(e).max())
    return None


def units(case, order=1):
    """Magnitude of the gradients, for images (order 1) or errors (order 2)."""
    v, h = scenes.value_scale(case), max(1.0, scenes.shade_scale(case))
    u = {"ij": v * h, "colors": 1.0, "texture": h, "shade": v, "uv": v * h}
    if order == 2:
        u = {k: x * v * h for k, x in u.items()}
    return u


def labels(ctx, case, d, M, ok, exp):
    ctx.label("blended pixels", bool((ok & (M.nb_blends > 0)).any()))
    ctx.label("pixels blended several times", bool((ok & (M.nb_blends > 1)).any()))
    ctx.label("textured", bool(np.abs(exp["texture"]).max(initial=0) > 0))
    ctx.label("uv gradient", bool(np.abs(exp["uv"]).max(initial=0) > 0))
    ctx.label("non strict", not d["strict_edge"])
    ctx.nontrivial(bool(np.abs(exp["ij"]).max() > 0))


def prop(case, ctx):
    d = scenes.decode(case)
    sigma = case["sigma"]
    L = model.leaves(d)
    M = model.run(d, sigma, L=L)
    image_b, ok = incoming(case, M, 2, (d["height"], d["width"], d["nb_colors"]))
    exp = expected(M, L, (M.image_t * torch.as_tensor(image_b)).sum())
    s = scenes.scene2d(scenes.copy_scene(d))
    s.render(sigma)
    s.render_backward(image_b.copy())
    m = mismatch(s, exp, units(case))
    if m:
        raise Violation(m)
    labels(ctx, case, d, M, ok, exp)


def prop_ties(case, ctx):
    """Every face is there several times, at exactly the same depths: the first one is drawn and the gradient is for its colours."""
    d = scenes.decode(case)
    nf, nv, nuv = len(d["faces"]), len(d["ij"]), len(d["uv"])
    rng = scenes.rng_of(case, 50)
    n = 2 + case["seed"] % 2
    # each copy has its own colours, shade and texture coordinates
    t = {k: d[k] for k in d}
    t["ij"] = np.tile(d["ij"], (n, 1))
    t["depths"] = np.tile(d["depths"], n)
    t["colors"] = rng.random((n * nv, d["nb_colors"]))
    t["shade"] = rng.random(n * nv)
    t["uv"] = np.vstack([d["uv"]] + [rng.random((nuv, 2)) * (d["texture"].shape[1::-1] if d["texture"].size else 1) - 0.5 for _ in range(n - 1)])
    owner = np.concatenate([np.full(nf, k) for k in range(n)])
    face = np.concatenate([np.arange(nf)] * n)
    order = rng.permutation(n * nf)
    owner, face = owner[order], face[order]
    t["faces"] = (d["faces"][face] + (owner * nv)[:, None]).astype(np.uint32)
    t["faces_uv"] = (d["faces_uv"][face] + (owner * nuv)[:, None]).astype(np.uint32)
    textured = rng.random(n * nf) < 0.5 if case["kind"] == "mixed" else d["textured"][face]
    t["textured"], t["shaded"] = textured, np.ones(n * nf, dtype=bool)
    t["edgeflags"] = np.zeros((n * nf, 3), dtype=bool)

    def alone(keep):
        o = dict(t)
        for k in ("faces", "faces_uv", "textured", "shaded", "edgeflags"):
            o[k] = t[k][keep]
        s = scenes.scene2d(scenes.copy_scene(o))
        image, z = s.render(0)
        s.render_backward(image_b.copy())
        return image, z, {k: getattr(s, k + "_b") for k in NAMES}

    image_b = rng.standard_normal((d["height"], d["width"], d["nb_colors"]))
    first = np.array([np.flatnonzero(face == f)[0] for f in range(nf)])
    last = np.array([np.flatnonzero(face == f)[-1] for f in range(nf)])
    s = scenes.scene2d(scenes.copy_scene(t))
    image, z = s.render(0)
    s.render_backward(image_b.copy())
    im1, z1, g1 = alone(np.sort(first))
    ctx.exact(z, z1, "z-buffer")
    ctx.exact(image, im1, "image of the first of the faces at the same depth")
    m = mismatch(s, g1)
    if m:
        # the listed finding, and nothing else
        if mismatch(s, alone(np.sort(last))[2]):
            raise Violation("gradient at exact ties of depth: " + m)
        ctx.known.append(TIES)
        ctx.label("explained by the known finding")
    ctx.nontrivial(bool(np.isfinite(z).any()))


def known(entry):
    ctx = Ctx()
    prop_ties(entry["case"], ctx)
    return TIES in ctx.known


def cases(**kw):
    return lambda: scenes.scene_cases(culling=True, persp=False, min_size=2, geoms=GEOMS, **kw)


CHECK = Check(
    "C06",
    "scenes of 1 to 9 faces decoded from random bytes (plain, textured, mixed, meshes with silhouettes) rendered with sigma from 0 to 9, random incoming "
    "gradient, all gradients compared with automatic differentiation of the reference model; non trivial: non zero gradient on vertex positions",
    [
        Sub("antialiased", cases(), prop, 5400, 60000),
        Sub("textured", cases(kinds=["textured", "mixed"]), prop, 2400, 30000),
        Sub("plain", cases(sigma=0), prop, 1200, 15000),
        Sub("ties", cases(sigma=0), prop_ties, 896, 10000),
        Sub("scaled", lambda: scenes.scaled_cases(culling=True, persp=False, min_size=2, geoms=GEOMS), prop, 1800, 20000),
        Sub("large", lambda: scenes.large_cases(culling=True, persp=False, min_size=2, geoms=GEOMS), prop, 480, 6000),
    ],
    assumptions=[
        "the incoming gradient is zero on pixels where the image is not differentiable (texel borders, uncertain visibility), where faces are degenerate, or "
        "whose centre is within 1e-5 sigma of an edge: their gradient is only required to be finite (C08)",
        "known finding: among faces at exactly the same depths the gradient is given to the last one instead of the first one, which is drawn",
    ],
    known=known,
)
