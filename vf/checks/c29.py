"""C29: rendering of textured meshes with moderngl against an independent model with lighting per pixel, and the software renderer."""
import numpy as np
from hypothesis import strategies as st

from .. import cams, meshes, scenes
from ..core import Check, Skip, Sub, Violation
from ..scenes import rng_of

MARGIN = 0.06  # pixels, positions are rounded to 1/256 of a pixel
SHIFT = 0.03
RENDERERS = []


def headless():
    """No display here: EGL contexts instead of X11 ones."""
    import moderngl

    if getattr(moderngl, "_vf_egl", False):
        return
    create = moderngl.create_context

    def create_context(*args, **kwargs):
        kwargs.setdefault("backend", "egl")
        return create(*args, **kwargs)

    moderngl.create_context = create_context
    moderngl._vf_egl = True


def renderer(fresh, k=0):
    """A renderer of this process, with whatever was rendered before, or a new one."""
    from deodr.opengl.moderngl import OffscreenRenderer

    headless()
    while len(RENDERERS) < 2:
        RENDERERS.append(OffscreenRenderer())
    if fresh:
        return OffscreenRenderer()
    return RENDERERS[k]


def new_texture(rng):
    th, tw = [int(rng.integers(1, 9)), int(rng.integers(1, 9))] if rng.random() < 0.6 else [int(rng.integers(1, 33)), int(rng.integers(1, 33))]
    t = rng.random((th, tw, 3))
    if rng.random() < 0.3:
        t = t.astype(np.float32).astype(np.float64).round(2)
    return t


def sample(texture, uv):
    th, tw, _ = texture.shape
    u = np.clip(uv[..., 0], 0, tw - 1)
    v = np.clip(uv[..., 1], 0, th - 1)
    x0 = np.clip(np.floor(u).astype(int), 0, max(tw - 2, 0))
    y0 = np.clip(np.floor(v).astype(int), 0, max(th - 2, 0))
    x1, y1 = np.minimum(x0 + 1, tw - 1), np.minimum(y0 + 1, th - 1)
    fu, fv = (u - x0)[..., None], (v - y0)[..., None]
    return (1 - fu) * (1 - fv) * texture[y0, x0] + fu * (1 - fv) * texture[y0, x1] + (1 - fu) * fv * texture[y1, x0] + fu * fv * texture[y1, x1]


class Visible:
    pass


def visibility(f, ij, z, clockwise, w, h, off):
    """For each pixel the visible face, where it is certain, with margins for the rounding of the positions."""
    ys, xs = np.meshgrid(np.arange(h) + off, np.arange(w) + off, indexing="ij")
    P = np.stack((xs, ys), axis=-1)
    near = np.full((h, w), np.inf)
    face = np.full((h, w), -1)
    unsure = np.full((h, w), np.inf)  # lowest depth at which something else may be
    for k, t in enumerate(f):
        p, zz = ij[t], z[t]
        area = scenes.cross2(p[1] - p[0], p[2] - p[0])
        edges = [np.linalg.norm(p[(i + 1) % 3] - p[i]) for i in range(3)]
        altitude = abs(area) / max(edges)
        front = (area > 0) if clockwise else (area < 0)
        d = np.stack([scenes.cross2(p[(i + 1) % 3] - p[i], P - p[i]) * np.sign(area) / max(edges[i], 1e-12) for i in range(3)], axis=-1)
        dist = d.min(axis=-1)
        if altitude < 0.5:
            # nearly seen from its side: never certain
            maybe = (dist > -MARGIN - 0.5) & np.all((P > p.min(axis=0) - 0.2) & (P < p.max(axis=0) + 0.2), axis=-1)
            unsure = np.where(maybe, np.minimum(unsure, zz.min() - 1e-3 * zz.max()), unsure)
            continue
        if not front:
            continue
        b = np.stack([scenes.cross2(p[(i + 2) % 3] - p[(i + 1) % 3], P - p[(i + 1) % 3]) / area for i in range(3)], axis=-1)
        with np.errstate(divide="ignore"):
            depth = 1 / np.maximum((b / zz).sum(axis=-1), 1e-12)
        eps = 1e-3 * zz.max() + (zz.max() - zz.min()) * 2 * MARGIN / altitude
        certain = dist > MARGIN
        maybe = (dist > -MARGIN) & ~certain
        unsure = np.where(maybe, np.minimum(unsure, zz.min() - eps), unsure)
        if altitude < 2:
            unsure = np.where(certain, np.minimum(unsure, depth - eps), unsure)
            continue
        # the second nearest surface has to be clearly behind
        first = certain & (depth < near)
        unsure = np.where(first, np.minimum(unsure, near - eps), np.where(certain, np.minimum(unsure, depth - eps), unsure))
        near = np.where(first, depth, near)
        face = np.where(first, k, face)
    V = Visible()
    V.face = face
    V.sure = unsure > near
    V.background = np.isinf(near) & np.isinf(unsure)
    V.sure &= face >= 0
    V.P = P
    return V


def shade(S, V, ij, z, normals, P):
    """Texture and luminosities, per pixel and interpolated from the vertices, at the positions P."""
    f = S.faces
    k = np.maximum(V.face, 0)
    p = ij[f[k]]
    A = scenes.cross2(p[..., 1, :] - p[..., 0, :], p[..., 2, :] - p[..., 0, :])
    with np.errstate(all="ignore"):
        b = np.stack([scenes.cross2(p[..., (i + 2) % 3, :] - p[..., (i + 1) % 3, :], P - p[..., (i + 1) % 3, :]) / A for i in range(3)], axis=-1)
    b = b / z[f[k]]
    b = b / b.sum(axis=-1, keepdims=True)
    uv = (b[..., None] * S.uv[S.faces_uv[k]]).sum(axis=-2)
    n = (b[..., None] * normals[f[k]]).sum(axis=-2)
    norm = np.linalg.norm(n, axis=-1)
    with np.errstate(all="ignore"):
        pixel = np.maximum(-(n / norm[..., None]).dot(S.light), 0) + S.ambient
    vertex = (b * (np.maximum(-normals.dot(S.light), 0) + S.ambient)[f[k]]).sum(axis=-1)
    return sample(S.texture, uv), pixel, vertex, norm


def new_scene(case, rng, epoch):
    from deodr.differentiable_renderer import Scene3D
    from deodr.triangulated_mesh import ColoredTriMesh

    S = Visible()
    M = meshes.decode(dict(case["mesh"], seed=case["mesh"]["seed"] + epoch))
    S.M = M
    S.flat = case["flat"] and not M.closed
    if S.flat:
        # parallel to the image
        M.vertices = M.vertices.copy()
        M.vertices[:, 2] = rng.uniform(-1, 1) * 10.0 ** case["mesh"].get("unit", 0)
    S.vertices = M.vertices
    S.faces = M.faces.astype(int)
    p = S.vertices[S.faces]
    if np.linalg.norm(np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]), axis=1).min() < 1e-9 * min(1.0, np.ptp(S.vertices, axis=0).max()) ** 2:
        raise Skip("degenerate faces")
    nf = len(S.faces)
    S.texture = new_texture(rng)
    th, tw = S.texture.shape[:2]
    mode = int(rng.integers(0, 4))
    if mode == 0:
        uv = rng.random((len(S.vertices), 2)) * [tw - 1, th - 1]
        fuv = S.faces
    elif mode == 1:
        # beyond the borders of the texture
        uv = rng.uniform(-0.5, 1.5, (len(S.vertices) + 3, 2)) * [tw, th]
        fuv = rng.integers(0, len(uv), (nf, 3))
    else:
        # a small part of the texture for each face
        c = rng.random((nf, 1, 2)) * [tw - 1, th - 1]
        uv = (c + rng.uniform(-1, 1, (nf, 3, 2)) * min(2, max(tw, th))).reshape(-1, 2)
        uv = np.clip(uv, 0, [tw - 1, th - 1])
        fuv = np.arange(3 * nf).reshape(nf, 3)
    S.uv, S.faces_uv = uv, fuv
    S.light = rng.standard_normal(3) * [0.0, 0.5, 0.5, 1.0][int(rng.integers(0, 4))]
    S.ambient = float([0.0, 0.3, 0.6, 1.0, -0.3][int(rng.integers(0, 5))] * rng.random())
    S.bg = rng.random(3)
    S.intpix = bool(rng.random() < 0.5)
    # the renderer requires textures that cannot be modified
    texture = S.texture.copy()
    texture.setflags(write=False)
    S.mesh = ColoredTriMesh(M.faces.copy(), vertices=M.vertices.copy(), clockwise=M.clockwise, uv=uv.copy(), faces_uv=fuv.astype(M.faces.dtype), texture=texture, compute_adjacencies=bool(rng.random() < 0.5))
    S.scene = Scene3D(sigma=0, perspective_correct=True, integer_pixel_centers=S.intpix)
    S.scene.set_mesh(S.mesh)
    S.scene.set_light(S.light.copy(), S.ambient)
    S.scene.set_background_color(S.bg.copy())
    return S


def prop(case, ctx):
    rng = rng_of(case)
    gl = renderer(case["fresh"], case["seed"] % 2)
    n = 0
    S = None
    for epoch, op in enumerate(["scene"] + case["ops"]):
        what = "rendering %d" % epoch
        if op == "scene":
            S = None
            S = new_scene(case, rng, epoch)
            gl.set_scene(S.scene)
        elif op == "other":
            # another renderer is used in between
            other = renderer(False, 1 - case["seed"] % 2)
            So = new_scene(case, rng, epoch)
            Mo = meshes.Mesh()
            Mo.vertices = So.vertices
            cam = meshes.camera_for(dict(case, rot=7), Mo, rng, int(rng.integers(1, 65)), int(rng.integers(1, 65)))
            cam.intrinsic[0, 1] = 0
            other.set_scene(So.scene)
            other.render(cam)
        elif op == "light":
            S.light = rng.standard_normal(3) * 0.7
            S.ambient = float(rng.random())
            S.scene.set_light(S.light.copy(), S.ambient)
            gl.set_light(S.light.copy(), S.ambient)
        elif op == "vertices":
            S.flat = False
            S.vertices = S.vertices + rng.uniform(-1, 1, S.vertices.shape) * 0.05 * np.ptp(S.vertices, axis=0).max()
            if meshes.inside_out(S.M, S.vertices):
                raise Skip("turned inside out")
            S.mesh.set_vertices(S.vertices.copy())
            gl.set_mesh(S.mesh)
        w, h = (case["w"], case["h"]) if op != "size" else (int(rng.integers(8, 65)), int(rng.integers(8, 65)))
        Mv = meshes.Mesh()
        Mv.vertices = S.vertices
        rot = case["rot"] if epoch == 0 else int(rng.integers(0, 16))
        cam = meshes.camera_for(dict(case, rot=rot), Mv, rng, w, h, case["dist"], case["deep"] and not S.flat)
        cam.intrinsic[0, 1] = 0
        if S.flat:
            c = 0.5 * (S.vertices.max(axis=0) + S.vertices.min(axis=0))
            dist = np.linalg.norm(cam.extrinsic[:, :3].dot(c) + cam.extrinsic[:, 3])
            R = np.diag([1.0, 1, 1] if rng.random() < 0.5 else [1.0, -1, -1])
            cam = type(cam)(np.column_stack((R, [0, 0, dist] - R.dot(c))), cam.intrinsic, h, w, cam.distortion)
        if case["off"]:
            cam.intrinsic[:2, 2] += rng.uniform(-0.5, 0.5, 2) * [w, h]
        i, j, z = cams.project(cam.extrinsic, cam.intrinsic, cam.distortion, S.vertices)
        if z.min() < 0.004 * z.max():
            raise Skip("vertices near the camera plane")
        if max(np.abs(i).max(), np.abs(j).max()) > 4000:
            raise Skip("vertices very far from the image")
        ij = np.column_stack((i, j))
        off = 0.0 if S.intpix else 0.5
        got = gl.render(cam)
        ctx.check(got.shape == (h, w, 3) and got.dtype == np.uint8, "%s: image of shape %s and type %s", what, got.shape, got.dtype)
        got = got.astype(np.float64)
        V = visibility(S.faces, ij, z, S.M.clockwise, w, h, off)
        normals = meshes.vertex_normals(S.vertices, S.faces, S.M.clockwise)[0]
        tex, pixel, vertex, norm = shade(S, V, ij, z, normals, V.P)
        exp = np.clip(tex * pixel[..., None], 0, 1) * 255
        tol = 2.5 + 2 * pixel
        for d in ([SHIFT, 0], [-SHIFT, 0], [0, SHIFT], [0, -SHIFT]):
            t2, p2, _, _ = shade(S, V, ij, z, normals, V.P + d)
            with np.errstate(invalid="ignore"):
                tol = np.maximum(tol, 2.5 + 2 * pixel + 1.5 * np.abs(np.clip(t2 * p2[..., None], 0, 1) * 255 - exp).max(axis=-1))
        ok = V.sure & (norm > 0.2) & (tol < 40)
        bad = ok & ~(np.abs(got - exp).max(axis=-1) <= tol)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("%s: pixel (row %d, column %d) is %s, expected %s (tolerance %.1f, face %d), %d of %d pixels" % (
                what, y, x, got[y, x].tolist(), np.round(exp[y, x], 1).tolist(), tol[y, x], V.face[y, x], bad.sum(), ok.sum()))
        bad = V.background & ~(np.abs(got - S.bg * 255).max(axis=-1) <= 1.01)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("%s: background pixel (row %d, column %d) is %s instead of %s, %d of %d pixels" % (what, y, x, got[y, x].tolist(), np.round(S.bg * 255, 1).tolist(), bad.sum(), V.background.sum()))
        # the software renderer, lit at the vertices
        soft = S.scene.render(cam)
        flat = ok & (np.abs(pixel - vertex) < 2e-3)
        bad = flat & ~(np.abs(np.clip(soft, 0, 1) * 255 - got).max(axis=-1) <= tol + 1.5)
        bad |= V.background & ~(np.abs(soft * 255 - got).max(axis=-1) <= 1.01)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("%s: pixel (row %d, column %d) is %s, and %s with the software renderer" % (what, y, x, got[y, x].tolist(), np.round(soft[y, x] * 255, 1).tolist()))
        n += int(ok.sum())
        ctx.label("compared to the software renderer", bool(flat.any()))
        ctx.label("distorted", case["dist"] != "none")
        ctx.label("depths in a ratio of more than 50", z.min() < 0.02 * z.max())
        ctx.label("negative ambient", S.ambient < 0)
        ctx.label("principal point far from the centre", case["off"])
        ctx.label("clockwise", S.M.clockwise)
        ctx.label("back faces in an open mesh", not S.M.closed)
        ctx.label("several renderings", epoch > 0)
        ctx.label("another renderer used in between", op == "other")
        ctx.label("mesh parallel to the image", S.flat)
    if case["fresh"]:
        gl.ctx.release()
        RENDERERS[0].ctx.__enter__()
    ctx.nontrivial(n > 20)


SHAPES = [s for s in meshes.CLOSED + meshes.OPEN if s not in ("icosa", "torus")]


@st.composite
def cases(draw):
    return {
        "mesh": draw(meshes.mesh_cases(max_splits=1, shapes=SHAPES)), "w": draw(st.integers(1, 64)), "h": draw(st.integers(1, 64)), "dist": draw(st.sampled_from(["none", "all", "radial", "tangential", "single"])),
        "rot": draw(st.integers(0, 15)), "flat": draw(st.integers(0, 3)) == 3, "off": draw(st.booleans()), "fresh": draw(st.sampled_from([False] * 9 + [True])), "deep": draw(st.booleans()),
        "ops": draw(st.lists(st.sampled_from(["camera", "scene", "light", "vertices", "size", "other"]), max_size=4)), "seed": draw(st.integers(0, 2**31 - 1)),
    }


CHECK = Check(
    "C29",
    "histories of scenes, lights, deformations, cameras and image sizes rendered by one moderngl renderer, closed and open meshes of both windings, textures of any size, texture coordinates "
    "beyond the borders; non trivial: at least 20 pixels away from edges compared",
    [Sub("moderngl", cases, prop, 6000, 60000), Sub("units", lambda: meshes.with_unit(cases()), prop, 400, 4000)],
    assumptions=["contexts are created with EGL and the software rasteriser of Mesa", "textures in [0, 1], intrinsics without skew (rejected by an assertion)"],
)
