"""C05: the antialiased error buffer against the reference model."""
import numpy as np

from .. import model, scenes
from ..core import Check, Sub, Violation
from .c04 import labels


def prop(case, ctx):
    d = scenes.decode(case)
    sigma = case["sigma"]
    obs = scenes.rng_of(case, 1).random((d["height"], d["width"], d["nb_colors"])) * 1.5 - 0.2
    obs *= scenes.value_scale(case)
    unit = scenes.value_scale(case) ** 2
    if case["seed"] % 4 == 0:
        obs[: d["height"] // 2] = scenes.render(d, 0.0)[0][: d["height"] // 2]
    M = model.run(d, sigma, obs=obs)
    s = scenes.scene2d(scenes.copy_scene(d))
    image, z, err = s.render_error(obs.copy(), sigma)
    image0, z0 = scenes.render(d, 0.0)
    ctx.close(image, image0, "image returned with the error, against the image without antialiasing", rtol=1e-13, atol=0)
    ctx.close(z, z0, "z-buffer returned with the error, against the one without antialiasing", rtol=1e-13, atol=0)
    ctx.check(err.shape == (d["height"], d["width"]), "shape of the error buffer")
    ok = ~M.amb
    tol = 1e-11 * min(1.0, unit) + 4 * M.err_tol
    bad = ok & ~(np.abs(err - M.err) <= tol)
    if bad.any():
        y, x = np.argwhere(bad)[0]
        raise Violation(
            "error of pixel x=%d y=%d blended %d times: got %r expected %r (tolerance %.2g)"
            % (x, y, M.nb_blends[y, x], err[y, x], M.err[y, x], tol[y, x])
        )
    # out of the edges this is the squared difference of the image
    plain = ((image0 - obs) ** 2).sum(axis=-1)
    un = ok & (M.nb_blends == 0)
    ctx.close(err[un], plain[un], "error out of the edges", rtol=1e-12, atol=1e-12 * unit)
    err0 = s.render_error(obs.copy(), 0.0)[2]
    ctx.close(err0, plain, "error without antialiasing", rtol=1e-12, atol=1e-12 * unit)
    labels(ctx, case, d, M, ok)


CHECK = Check(
    "C05",
    "scenes as in C04 with a random observation (equal to the rendering on a part of the image in one case of four), error buffer compared with the "
    "reference model; non trivial: at least one unambiguous pixel is blended",
    [Sub("model", lambda: scenes.scene_cases(min_size=2), prop, 8000, 60000),
     Sub("scaled", lambda: scenes.scaled_cases(min_size=2), prop, 3200, 30000),
     Sub("large", lambda: scenes.large_cases(min_size=2), prop, 480, 5000)],
    assumptions=["pixels whose membership, visibility or order (equal sums of depths) is not numerically certain are not compared"],
)
