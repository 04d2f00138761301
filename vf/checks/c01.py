"""C01: rendering without antialiasing against the reference model."""
import numpy as np

from .. import model, scenes
from ..core import Check, Sub, Violation


def compare_base(ctx, d, image, z, M, what=""):
    ok = ~M.base_amb
    ctx.check(image.shape == (d["height"], d["width"], d["nb_colors"]), "%simage shape %s", what, image.shape)
    ctx.check(z.shape == (d["height"], d["width"]), "%sz-buffer shape %s", what, z.shape)
    empty = ok & (M.owner < 0)
    bg = np.broadcast_to(
        d["background_image"] if d["background_image"] is not None else d["background_color"], image.shape
    )
    if not np.all(z[empty] == np.inf):
        raise Violation("%sa pixel that no face covers has a depth" % what)
    return ok, empty, bg


def check_base(ctx, d, image, z, M, what="", value=1.0, depth=1.0):
    ok, empty, bg = compare_base(ctx, d, image, z, M, what)
    if not np.array_equal(image[empty], bg[empty]):
        raise Violation("%sa pixel that no face covers differs from the background" % what)
    cov = ok & (M.owner >= 0)
    tol = 1e-11 * min(1.0, value) + M.base_tol
    diff = np.abs(image - M.base_image).max(axis=-1)
    bad = cov & ~(diff <= tol)
    if bad.any():
        y, x = np.argwhere(bad)[0]
        raise Violation(
            "%spixel x=%d y=%d, face %d: got %s expected %s (tolerance %.2g, %d pixels differ)"
            % (what, x, y, M.owner[y, x], image[y, x], M.base_image[y, x], tol[y, x], bad.sum())
        )
    check_z(ctx, z, M, what, depth)


def check_z(ctx, z, M, what="", depth=1.0):
    cov = ~M.base_amb & (M.owner >= 0)
    with np.errstate(all="ignore"):
        bad = cov & ~(np.abs(z - M.z) <= 1e-11 * min(1.0, depth) + M.z_tol)
    if bad.any():
        y, x = np.argwhere(bad)[0]
        raise Violation("%sdepth of pixel x=%d y=%d: got %r expected %r" % (what, x, y, z[y, x], M.z[y, x]))
    empty = ~M.base_amb & (M.owner < 0)
    ctx.check(np.all(z[empty] == np.inf), "%sa pixel that no face covers has a finite depth", what)


def labels(ctx, case, d, M):
    own = np.unique(M.owner[(M.owner >= 0) & ~M.base_amb])
    ctx.nontrivial(len(own) > 0)
    ctx.label("several faces visible", len(own) > 1)
    ctx.label("textured face visible", any(d["textured"][k] for k in own))
    ctx.label("plain face visible", any(not d["textured"][k] for k in own))
    ctx.label("perspective correct", d["perspective_correct"] and len(own) > 0)
    ctx.label("back face drawn", any(M.drawn[k] and not M.front[k] for k in own))
    ctx.label("faces with a vertex behind the camera", bool(np.any(d["depths"][d["faces"].astype(int)].min(axis=1) < 0)))
    ctx.label("vertex out of the image", bool(np.any(d["ij"] < -1) or np.any(d["ij"][:, 0] > d["width"])))
    ctx.label("far vertex", bool(np.any(np.abs(d["ij"]) > 40000)))
    ctx.label("ambiguous pixels", bool(M.base_amb.any()))
    ctx.label("geometry " + case["geom"])
    if "large" in case:
        ctx.label("large " + case["large"])


def prop(case, ctx):
    d = scenes.decode(case)
    M = model.run(d, 0.0)
    image, z = scenes.render(d, 0.0)
    check_base(ctx, d, image, z, M, value=scenes.value_scale(case), depth=scenes.depth_scale(case))
    labels(ctx, case, d, M)


CHECK = Check(
    "C01",
    "scenes of 1 to 9 faces decoded from random bytes (generic, grid aligned, tiny, huge and far geometry, meshes; plain, "
    "textured and mixed faces; all flags) , and scenes large in one respect (image, channels, faces, texture, vertices), are rendered with sigma=0 and compared pixel by pixel with a per-pixel reference model; "
    "a case is non trivial when at least one pixel is covered by a face without ambiguity",
    [
        Sub("model", lambda: scenes.scene_cases(sigma=0), prop, 6400, 60000),
        Sub("larger", lambda: scenes.scene_cases(sigma=0, max_size=60, max_nf=30, max_nv=30, min_size=30), prop, 376, 6000),
        Sub("scaled", lambda: scenes.scaled_cases(sigma=0), prop, 2560, 30000),
        Sub("large", lambda: scenes.large_cases(sigma=0), prop, 504, 6000),
    ],
    assumptions=[
        "pixels whose centre is numerically on an edge, or where two depths are numerically equal, are left to C02 and C03",
        "textured faces without shading are not in the domain (they draw nothing)",
    ],
)
