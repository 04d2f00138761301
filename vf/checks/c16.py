"""C16: channels of deferred rendering against each other, the mesh and an independent visibility model."""
import numpy as np
from hypothesis import strategies as st

from .. import cams, meshes, model, pipeline, scenes
from ..core import Check, Skip, Sub, Violation
from ..scenes import rng_of
from .c13 import setup, new_light

CHANNELS = ["color", "depth", "face_id", "barycentric", "normal", "luminosity", "uv", "xyz"]


def weights(ij, depths, f, owner, off, persp):
    """Interpolation weights at the pixels of the faces given by owner, and their conditioning."""
    h, w = owner.shape
    ys, xs = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
    P = np.stack((xs, ys), axis=-1) + off
    t = ij[f[owner]]
    A = scenes.cross2(t[..., 1, :] - t[..., 0, :], t[..., 2, :] - t[..., 0, :])
    b = np.stack([scenes.cross2(t[..., (k + 2) % 3, :] - t[..., (k + 1) % 3, :], P - t[..., (k + 1) % 3, :]) / A for k in range(3)], axis=-1)
    m = np.abs(t).max(axis=(-1, -2)) + max(h, w)
    cond = 1 + m * m / np.abs(A)
    if persp:
        z = depths[f[owner]]
        b = b / z
        cond = cond * z.max(axis=-1) / z.min(axis=-1)
        b = b / b.sum(axis=-1, keepdims=True)
    return b, cond


def prop(case, ctx):
    rng = rng_of(case)
    S, scene, mesh = setup(case, rng)
    scene.sigma = 0
    if S.uv is None or case["seed"] % 3 == 0:
        mesh.set_vertices_colors(scenes.laid(S.colors, case["seed"] // 31))
    f = S.M.faces.astype(int)
    for step, (mask, a) in enumerate(case["calls"]):
        if a % 4 == 3:
            S.vertices = S.vertices + rng.uniform(-1, 1, S.vertices.shape) * 0.05 * np.ptp(S.vertices, axis=0).max()
            if meshes.inside_out(S.M, S.vertices):
                raise Skip("turned inside out")
            mesh.set_vertices(scenes.laid(S.vertices, a))
        if a % 5 == 4:
            S.light, S.ambient = new_light(rng)
            scene.set_light(S.light, S.ambient)
        Mv = meshes.Mesh()
        Mv.vertices = S.vertices
        cam = S.camera = meshes.camera_for(dict(case, rot=a), Mv, rng, case["w"] if S.bg.ndim == 3 else 4 + a, case["h"], case["dist"])
        culling = a % 3 != 1
        scale = [1, 2.5, 0.1, -1.5, 0][a % 5 if a > 4 else 0]
        ij, depths = cam.project_points(S.vertices)
        if not meshes.in_front(depths, S.vertices):
            raise Skip("vertices behind the camera")
        pipeline.check_faces(f, ij, S.vertices, 1e-7)
        want = [c for k, c in enumerate(CHANNELS) if mask >> k & 1]
        possible = [c for c in want if not (c == "color" and S.uv is not None) and not (c == "uv" and S.uv is None)]
        if not possible:
            want = possible = ["depth"]
        what = "call %d" % step
        kw = {c: c in want for c in CHANNELS}
        keep = [(n, np.array(getattr(mesh, n))) for n in ("vertices", "faces", "vertices_colors", "uv", "faces_uv", "texture") if getattr(mesh, n) is not None]
        out = scene.render_deferred(cam, depth_scale=scale, backface_culling=culling, **kw)
        ctx.check(sorted(out) == sorted(possible), "%s: channels %s instead of %s", what, sorted(out), sorted(possible))
        full = scene.render_deferred(cam, depth_scale=scale, backface_culling=culling)
        ctx.check(sorted(full) == sorted(c for c in CHANNELS if c != ("uv" if S.uv is None else "color")), "%s: default channels are %s", what, sorted(full))
        for c in out:
            ctx.close(out[c], full[c], "%s: channel %s requested with %s" % (what, c, want), rtol=1e-12, atol=1e-12)
        for n, c in keep:
            ctx.exact(getattr(mesh, n), c, "%s: %s of the mesh" % (what, n))
        # coverage and depths of the ordinary rendering
        if S.uv is not None or mesh.vertices_colors is not None:
            if S.bg.ndim == 1 or (cam.width, cam.height) == (case["w"], case["h"]):
                _, z = scene.render(cam, return_z_buffer=True, backface_culling=culling)
        covered = np.isfinite(z)
        bary, fid = full["barycentric"], full["face_id"][..., 0]
        ctx.check(bary.shape == (cam.height, cam.width, 3) and full["face_id"].shape == (cam.height, cam.width, 1), "%s: shapes", what)
        rows = np.where(covered, np.rint(fid), 0).astype(int)
        ctx.check(np.all((rows >= 0) & (rows < len(f))), "%s: face ids out of range", what)
        ctx.check(not np.any(covered & (np.abs(fid - rows) > 1e-6 * (1 + rows))), "%s: face ids that are not integers", what)
        for c, v in full.items():
            back = depths.max() if c == "depth" else 0.0
            bad = ~covered & ~np.all(np.abs(v - back) <= 1e-12 * back, axis=-1)
            if bad.any():
                y, x = np.argwhere(bad)[0]
                raise Violation("%s: channel %s of the uncovered pixel at row %d column %d is %r" % (what, c, y, x, v[y, x]))
        # visibility model
        off = 0.0 if S.intpix else 0.5
        d = pipeline.scene_dict(cam, S.M, S.vertices, ij, depths, 0.0, S.persp, S.intpix, culling, np.zeros(1), 1)
        R = model.run(d, 0.0)
        sure = ~R.amb
        ctx.check(np.array_equal(covered[sure], (R.owner >= 0)[sure]), "%s: covered pixels differ from the model", what)
        bad = sure & covered & (rows != R.owner)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("%s: face %d is visible at row %d column %d, not %d" % (what, R.owner[y, x], y, x, rows[y, x]))
        b, cond = weights(ij, depths, f, rows, off, S.persp)
        tol = 1e-11 * cond + 1e-10
        bad = covered & (np.abs(bary - b).max(axis=-1) > tol)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("%s: barycentric coordinates at row %d column %d are %r, expected %r" % (what, y, x, bary[y, x], b[y, x]))
        # attributes of the mesh
        attrs = {"depth": depths[:, None] * scale, "xyz": S.vertices}
        lum = np.full(len(S.vertices), float(S.ambient))
        normals, norm = meshes.vertex_normals(S.vertices, f, S.M.clockwise)
        fine = np.ones(len(f), dtype=bool)
        if np.any(norm[np.unique(f)] < 1e-4):
            fine = ~np.any(norm[f] < 1e-4, axis=1)
        normals = np.where(norm[:, None] < 1e-4, 0, normals)
        if S.light is not None:
            lum = lum + np.maximum(0, -normals.dot(S.light))
        attrs["normal"], attrs["luminosity"] = normals, lum[:, None]
        if S.uv is None:
            attrs["color"] = S.colors
        for c, v in attrs.items():
            e = (b[..., None] * v[f[rows]]).sum(axis=-2)
            vmax = np.abs(v[np.isfinite(v)]).max(initial=0)
            bad = covered & (np.abs(full[c] - e).max(axis=-1) > tol * (1 + vmax) * 4)
            if c in ("normal", "luminosity"):
                bad &= fine[rows]
            if bad.any():
                y, x = np.argwhere(bad)[0]
                raise Violation("%s: channel %s at row %d column %d is %r, expected %r" % (what, c, y, x, full[c][y, x], e[y, x]))
        if S.uv is not None:
            e = (b[..., None] * S.uv[S.faces_uv.astype(int)[rows]]).sum(axis=-2)
            bad = covered & (np.abs(full["uv"] - e).max(axis=-1) > tol * (1 + np.abs(S.uv).max()) * 4)
            if bad.any():
                y, x = np.argwhere(bad)[0]
                raise Violation("%s: uv at row %d column %d is %r, expected %r" % (what, y, x, full["uv"][y, x], e[y, x]))
        zd = np.where(covered, z, 0) * scale
        bad = covered & (np.abs(full["depth"][..., 0] - zd) > tol * (1 + np.abs(depths).max() * abs(scale)) * 4)
        ctx.check(not bad.any(), "%s: the depth channel differs from the z-buffer", what)
        ctx.nontrivial(bool(covered.any()) and len(np.unique(rows[covered])) > 1)
        ctx.label("subset of channels", len(want) < 8)
        ctx.label("perspective correct", S.persp)
        ctx.label("without culling", not culling)
    ctx.label("textured", S.uv is not None)
    # antialiasing is refused
    scene.sigma = 0.5
    try:
        scene.render_deferred(S.camera)
        raised = False
    except BaseException:
        raised = True
    ctx.check(raised, "deferred rendering with sigma > 0 is accepted")


LARGE = 14


@st.composite
def cases(draw, large=False):
    flags = draw(st.integers(0, 7))
    return {
        "mesh": draw(meshes.big_mesh_cases(size=LARGE) if large else meshes.mesh_cases(max_splits=2)), "c": draw(st.sampled_from([1, 2, 3, 3, 4, 5])), "sigma": 0.0, "bgcolor": flags & 1 == 1,
        "persp": flags & 2 == 2, "intpix": flags & 4 == 4, "textured": draw(st.sampled_from([False, False, True])),
        "w": draw(st.integers(20, 80) if large else st.integers(4, 14)), "h": draw(st.integers(20, 80) if large else st.integers(4, 14)), "dist": draw(st.sampled_from(["none", "none", "all", "radial", "tangential", "single"])),
        "rot": draw(st.integers(0, 15)), "seed": draw(st.integers(0, 2**31 - 1)),
        "calls": draw(st.lists(st.tuples(st.integers(0, 255), st.integers(0, 14)).map(list), min_size=1, max_size=3)),
    }


CHECK = Check(
    "C16",
    "generated meshes (textured or not), cameras, flags and subsets of channels; each channel against the interpolation of the mesh attributes on the visible face of "
    "an independent model, coverage against the ordinary rendering; non trivial: at least two faces are visible",
    [Sub("deferred", cases, prop, 4000, 30000), Sub("units", lambda: meshes.with_unit(cases()), prop, 400, 4000), Sub("any faces", lambda: meshes.with_extra(cases()), prop, 800, 6000), Sub("many vertices", lambda: meshes.with_many(cases()), prop, 56, 600), Sub("large", lambda: cases(large=True), prop, 400, 3000)],
    assumptions=["faces seen from their side, degenerate faces and cancelling normals are left out"],
)
