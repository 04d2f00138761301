"""C07: gradient of the antialiased error against the automatic differentiation of the reference model."""
import numpy as np
import torch

from .. import model, scenes
from ..core import Check, Ctx, Sub, Violation
from .c06 import GEOMS, expected, incoming, labels, mismatch, units

KNOWN = "edge-colour-error-gradient"


def prop(case, ctx):
    d = scenes.decode(case)
    sigma = case["sigma"]
    obs = scenes.rng_of(case, 1).random((d["height"], d["width"], d["nb_colors"])) * 1.5 - 0.2
    obs *= scenes.value_scale(case)
    unit = units(case, 2)
    L = model.leaves(d)
    M = model.run(d, sigma, obs=obs, L=L)
    err_b, ok = incoming(case, M, 3, (d["height"], d["width"]))
    exp = expected(M, L, (M.err_t * torch.as_tensor(err_b)).sum())
    s = scenes.scene2d(scenes.copy_scene(d))
    s.render_error(obs.copy(), sigma)
    s.render_error_backward(err_b.copy())
    m = mismatch(s, exp, unit)
    if m:
        # the listed finding, and nothing else, may be missing from the gradient
        L2 = model.leaves(d)
        M2 = model.run(d, sigma, obs=obs, L=L2, omit=True)
        exp2 = expected(M2, L2, (M2.err_t * torch.as_tensor(err_b)).sum())
        m2 = mismatch(s, exp2, unit)
        if m2:
            raise Violation(m + " (and not explained by the known finding: " + m2 + ")")
        ctx.known.append(KNOWN)
        ctx.label("explained by the known finding")
    labels(ctx, case, d, M, ok, exp)


def known(entry):
    ctx = Ctx()
    prop(entry["case"], ctx)
    return KNOWN in ctx.known


def cases(**kw):
    return lambda: scenes.scene_cases(culling=True, persp=False, min_size=2, geoms=GEOMS, **kw)


CHECK = Check(
    "C07",
    "scenes as in C06 with a random observation and a random gradient of the error buffer; non trivial: non zero gradient on vertex positions",
    [
        Sub("antialiased", cases(), prop, 3840, 40000),
        Sub("textured", cases(kinds=["textured"]), prop, 2560, 30000),
        Sub("plain", cases(sigma=0), prop, 1280, 15000),
        Sub("scaled", lambda: scenes.scaled_cases(culling=True, persp=False, min_size=2, geoms=GEOMS), prop, 1600, 16000),
        Sub("large", lambda: scenes.large_cases(culling=True, persp=False, min_size=2, geoms=GEOMS), prop, 376, 5000),
    ],
    assumptions=[
        "as in C06",
        "known finding: for untextured edges the gradient through the overdraw colour only has its slope along x; gradients are accepted "
        "when they equal the exact ones or the exact ones without precisely these terms",
    ],
    known=known,
)
