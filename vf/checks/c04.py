"""C04: antialiasing by edge overdraw against the reference model."""
import numpy as np

from .. import model, scenes
from ..core import Check, Sub, Violation
from .c01 import check_z


def labels(ctx, case, d, M, ok):
    n = M.nb_blends * ok
    ctx.nontrivial(bool((n > 0).any()))
    ctx.label("pixel blended by several edges", bool((n > 1).any()))
    ctx.label("pixel blended by more than 3 edges", bool((n > 3).any()))
    ctx.label("perspective correct", d["perspective_correct"] and bool((n > 0).any()))
    ctx.label("textured", bool(d["textured"].any()) and bool((n > 0).any()))
    ctx.label("mixed", bool(d["textured"].any()) and not d["textured"].all() and bool((n > 0).any()))
    f = d["ij"][d["faces"].astype(int)]
    e = (np.roll(f, -1, axis=1) - f)[d["edgeflags"] & M.front[:, None]]
    ctx.label("exactly horizontal edge", bool((e[:, 1] == 0).any()))
    ctx.label("exactly vertical edge", bool((e[:, 0] == 0).any()))
    ctx.label("edge hidden by a face", bool((M.nb_blends > 0).any()) and bool((M.owner >= 0).any()))
    ctx.label("sigma %g" % case["sigma"])


def prop(case, ctx):
    d = scenes.decode(case)
    sigma = case["sigma"]
    M = model.run(d, sigma)
    image, z = scenes.render(d, sigma)
    image0, z0 = scenes.render(d, 0.0)
    ctx.close(z, z0, "z-buffer with and without antialiasing", rtol=1e-13, atol=0)
    check_z(ctx, z, M, depth=scenes.depth_scale(case))
    ok = ~M.amb
    diff = np.abs(image - M.image).max(axis=-1)
    tol = 1e-11 * min(1.0, scenes.value_scale(case)) + 4 * M.tol
    bad = ok & ~(diff <= tol)
    if bad.any():
        y, x = np.argwhere(bad)[0]
        raise Violation(
            "pixel x=%d y=%d blended %d times: got %s expected %s (without antialiasing %s, tolerance %.2g)"
            % (x, y, M.nb_blends[y, x], image[y, x], M.image[y, x], image0[y, x], tol[y, x])
        )
    untouched = ok & (M.nb_blends == 0)
    ctx.check(np.array_equal(image[untouched], image0[untouched]), "a pixel out of the edges changes with antialiasing")
    # without flagged edges there is no antialiasing
    e = scenes.copy_scene(d)
    e["edgeflags"][:] = False
    image1, z1 = scenes.render(e, sigma)
    ctx.close(image1, image0, "image without flagged edges", rtol=1e-13, atol=0)
    ctx.close(z1, z0, "z-buffer without flagged edges", rtol=1e-13, atol=0)
    labels(ctx, case, d, M, ok)


CHECK = Check(
    "C04",
    "scenes of 1 to 9 faces decoded from random bytes, with all, random or silhouette edge flags, rendered with sigma from 0.25 to 9 "
    "pixels and compared pixel by pixel with a reference model that blends each edge over the whole image; non trivial: at least one unambiguous pixel is blended",
    [
        Sub("model", lambda: scenes.scene_cases(min_size=2, geoms=["generic", "generic", "grid", "grid", "mixed", "big", "far", "tiny", "mesh", "mesh"]), prop, 8000, 60000),
        Sub("larger", lambda: scenes.scene_cases(max_size=50, max_nf=14, max_nv=20, min_size=25), prop, 400, 5000),
        Sub("scaled", lambda: scenes.scaled_cases(min_size=2), prop, 3200, 30000),
        Sub("large", lambda: scenes.large_cases(min_size=2), prop, 640, 6000),
    ],
    assumptions=["pixels whose membership, visibility or order (equal sums of depths) is not numerically certain are not compared"],
)
