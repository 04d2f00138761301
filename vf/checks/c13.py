"""C13: renderings of 3D scenes, after generated histories, against 2D scenes assembled by an independent model."""
import numpy as np
from hypothesis import strategies as st

from .. import cams, meshes, scenes
from ..core import Check, Skip, Sub, Violation
from ..scenes import rng_of

OPS = ["render", "render", "render", "vertices", "colors", "light", "background", "sigma", "persp", "pixels", "camera", "normals",
       "deferred", "depth", "backward", "texture", "other"]


class State:
    """What the scene is made of, kept by the check."""


def new_texture(rng, c):
    return rng.random((int(rng.integers(1, 6)), int(rng.integers(1, 6)), c))


def luminosity(S):
    v, f = S.vertices, S.M.faces.astype(int)
    n = len(v)
    if S.light is None:
        return np.full(n, float(S.ambient)), np.zeros(n, dtype=bool)
    normals, norm = meshes.vertex_normals(v, f, S.M.clockwise)
    d = -normals.dot(S.light)
    # sums of normals that nearly cancel: not comparable
    return np.maximum(0, d) + S.ambient, norm < 1e-5


def expected(S, culling):
    from deodr.differentiable_renderer import Scene2D

    f = S.M.faces.astype(int)
    ij, depths = S.camera.project_points(S.vertices.copy())
    nf, nv = len(f), len(S.vertices)
    flags = scenes.silhouette_flags(f, ij, S.M.clockwise) if S.sigma > 0 else np.zeros((nf, 3), dtype=bool)
    t = ij[f]
    if np.abs(scenes.cross2(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])).min() < 1e-9 * (1 + np.abs(t).max()) ** 2:
        raise Skip("a face is seen from its side")
    lum, bad = luminosity(S)
    if bad[np.unique(f)].any():
        raise Skip("normals that cancel")
    lum = np.where(np.isfinite(lum), lum, 0)
    c = S.c
    if S.uv is not None:
        d = dict(uv=S.uv, faces_uv=S.faces_uv, textured=np.ones(nf, dtype=bool), shaded=np.ones(nf, dtype=bool), shade=lum,
                 colors=np.zeros((nv, c)), texture=S.texture)
    else:
        d = dict(uv=np.zeros((nv, 2)), faces_uv=f.astype(np.uint32), textured=np.zeros(nf, dtype=bool), shaded=np.zeros(nf, dtype=bool),
                 shade=np.zeros(nv), colors=S.colors * lum[:, None], texture=np.zeros((0, 0)))
    s = Scene2D(
        faces=f.astype(np.uint32), ij=ij, depths=depths, edgeflags=flags, height=S.camera.height, width=S.camera.width, nb_colors=c,
        background_image=None if S.bg.ndim == 1 else S.bg.copy(), background_color=S.bg.copy() if S.bg.ndim == 1 else None,
        clockwise=S.M.clockwise, backface_culling=culling, strict_edge=True, perspective_correct=S.persp,
        integer_pixel_centers=S.intpix, **d,
    )
    return s.render(S.sigma) + (flags,)


def setup(case, rng):
    from deodr.differentiable_renderer import Scene3D
    from deodr.triangulated_mesh import ColoredTriMesh

    S = State()
    M = S.M = meshes.decode(case["mesh"])
    nv, nf = len(M.vertices), len(M.faces)
    S.c = case["c"]
    S.vertices = M.vertices
    S.sigma, S.persp, S.intpix = case["sigma"], case["persp"], case["intpix"]
    S.colors = scenes.whole(rng.random((nv, S.c)) * 1.4 - 0.2, case["seed"] // 29)
    S.uv = S.faces_uv = S.texture = None
    if case["textured"]:
        S.texture = scenes.whole(new_texture(rng, S.c), case["seed"] // 31)
        nuv = int(rng.integers(1, nv + 4))
        S.uv = np.column_stack((rng.uniform(-1, S.texture.shape[1] + 1, nuv), rng.uniform(-1, S.texture.shape[0] + 1, nuv)))
        S.faces_uv = rng.integers(0, nuv, (nf, 3)).astype([np.int64, np.uint32][case["seed"] % 2])
    mesh = ColoredTriMesh(
        scenes.laid(M.faces, case["seed"] // 5), vertices=scenes.laid(S.vertices, case["seed"] // 7), clockwise=M.clockwise,
        faces_uv=None if S.uv is None else scenes.laid(S.faces_uv, case["seed"] // 11), uv=None if S.uv is None else scenes.laid(S.uv, case["seed"] // 13),
        texture=None if S.uv is None else scenes.laid(S.texture, case["seed"] // 17),
        colors=None if case["textured"] and case["seed"] % 3 else scenes.laid(S.colors, case["seed"] // 19), nb_colors=S.c,
        compute_adjacencies=bool(case["seed"] & 4),
    )
    given = dict(sigma=S.sigma, perspective_correct=S.persp, integer_pixel_centers=S.intpix)
    # arguments that have their documented default value are left out
    scene = Scene3D(**{k: v for k, v in given.items() if v != {"sigma": 1, "perspective_correct": False, "integer_pixel_centers": True}[k]})
    scene.set_mesh(mesh)
    S.light, S.ambient = new_light(rng)
    scene.set_light(None if S.light is None else S.light.copy(), S.ambient)
    w, h = case["w"], case["h"]
    S.bg = scenes.whole(rng.random(S.c), case["seed"] // 37) if case["bgcolor"] else rng.random((h, w, S.c))
    (scene.set_background_color if case["bgcolor"] else scene.set_background_image)(scenes.laid(S.bg, case["seed"] // 23))
    S.camera = meshes.camera_for(case, M, rng, w, h, case["dist"])
    return S, scene, mesh


def new_light(rng):
    if rng.random() < 0.15:
        return None, float(rng.random())
    return rng.standard_normal(3) * 10.0 ** rng.uniform(-1, 1), [0.0, float(rng.random()), float(rng.random() * 2), -float(rng.random())][int(rng.integers(0, 4))]


def prop(case, ctx):
    from deodr.differentiable_renderer import Scene3D

    rng = rng_of(case)
    S, scene, mesh = setup(case, rng)
    w, h = case["w"], case["h"]
    renders = 0
    changed = False
    seen = []
    for step, (op, a) in enumerate(case["ops"] + [["render", 0]]):
        if op == "render":
            culling = a % 3 != 1
            image, z, flags = expected(S, culling)
            cam = S.camera
            E0, K0 = cam.extrinsic.copy(), cam.intrinsic.copy()
            keep = [(n, getattr(mesh, n), np.array(getattr(mesh, n))) for n in ("vertices", "faces", "vertices_colors", "uv", "faces_uv", "texture")
                    if getattr(mesh, n) is not None]
            if a % 2:
                got, gz = scene.render(cam, return_z_buffer=True, backface_culling=culling)
                ctx.close(gz, z, "step %d: z-buffer" % step, rtol=1e-12, atol=0)
            else:
                got = scene.render(cam, backface_culling=culling)
            ctx.check(got.shape == (cam.height, cam.width, S.c), "step %d: the image has shape %s", step, got.shape)
            scale = 1 + np.abs(image).max()
            ctx.close(got, image, "step %d: image" % step, rtol=0, atol=1e-10 * scale)
            for n, obj, copy in keep:
                ctx.check(getattr(mesh, n) is obj and np.array_equal(obj, copy), "step %d: %s of the mesh changed", step, n)
            ctx.check(np.array_equal(cam.extrinsic, E0) and np.array_equal(cam.intrinsic, K0), "the camera changed")
            for b, c in seen:
                ctx.check(np.array_equal(b, c), "step %d: an image returned before changed", step)
            seen = seen[-2:] + [(got, got.copy())]
            renders += 1
            if changed:
                ctx.label("rendered after a change")
            if np.isfinite(z).any():
                ctx.nontrivial()
            ctx.label("silhouette", S.sigma > 0 and flags.any())
            ctx.label("boundary", not S.M.closed)
        elif op == "vertices":
            M = S.M
            size = np.ptp(S.vertices, axis=0).max()
            S.vertices = S.vertices + rng.uniform(-1, 1, S.vertices.shape) * 0.1 * size * (a % 3)
            if not meshes.in_front(S.camera.project_points(S.vertices)[1], S.vertices):
                raise Skip("vertices behind the camera")
            if meshes.inside_out(M, S.vertices):
                raise Skip("turned inside out")
            mesh.set_vertices(scenes.laid(S.vertices, a))
            changed = True
        elif op == "colors":
            S.colors = scenes.whole(rng.random(S.colors.shape), a + 3)
            mesh.set_vertices_colors(scenes.laid(S.colors, a))
            changed = True
        elif op == "texture" and S.texture is not None:
            S.texture = new_texture(rng, S.c)
            mesh.texture = scenes.laid(S.texture, a)
            changed = True
        elif op == "light":
            S.light, S.ambient = new_light(rng)
            if S.light is None:
                scene.set_light(None, S.ambient)
            else:
                given = S.light.copy()
                scene.set_light([given, tuple(given), list(given)][a % 3], S.ambient)
                given *= 3  # the scene has its own copy
            changed = True
        elif op == "background":
            kind = S.bg.ndim
            S.bg = rng.random(S.bg.shape)
            S.bg = scenes.whole(S.bg, a + 1) if kind == 1 else S.bg
            if kind == 1:
                scene.set_background_color([S.bg.copy(), list(S.bg), tuple(S.bg)][a % 3])
            else:
                scene.set_background_image(scenes.laid(S.bg, a))
            # the other one is refused
            try:
                if kind == 1:
                    scene.set_background_image(rng.random((h, w, S.c)))
                else:
                    scene.set_background_color(rng.random(S.c))
                raised = False
            except BaseException:
                raised = True
            ctx.check(raised, "step %d: a background image and a background colour are accepted together", step)
            changed = True
        elif op == "sigma" and not case["mesh"].get("extra"):
            S.sigma = scene.sigma = [0.0, 0.5, 1.0, 2.5, 0][a % 5]
            changed = True
        elif op == "persp":
            S.persp = scene.perspective_correct = not S.persp
        elif op == "pixels":
            S.intpix = scene.integer_pixel_centers = not S.intpix
        elif op == "camera":
            M = meshes.Mesh()
            M.vertices = S.vertices
            ww, hh = (w, h) if S.bg.ndim == 3 else (int(rng.integers(3, 14)), int(rng.integers(3, 14)))
            S.camera = meshes.camera_for(dict(case, rot=a), M, rng, ww, hh, case["dist"])
        elif op == "normals":
            if a % 2:
                mesh.vertex_normals
            else:
                mesh.compute_face_normals()
                mesh.compute_vertex_normals()
        elif op == "deferred" and (mesh.vertices_colors is not None or S.uv is not None):
            s = scene.sigma
            scene.sigma = 0
            scene.render_deferred(S.camera, uv=bool(a % 2), luminosity=bool(a & 4))
            scene.sigma = s
        elif op == "depth" and S.bg.ndim == 1 and S.c == 1:
            scene.render_depth(S.camera)
        elif op == "backward" and S.uv is None and not S.persp:
            expected(S, True)
            im = scene.render(S.camera)
            scene.render_backward(rng.standard_normal(im.shape))
        elif op == "other":
            # another scene sharing the mesh
            o = Scene3D(sigma=0 if case["mesh"].get("extra") else 1.0)
            o.set_mesh(mesh)
            o.set_light(np.array([0.3, 0.2, -1.0]), 0.1)
            o.set_background_color(np.zeros(S.c))
            expected(S, True)
            o.render(S.camera)
    ctx.label("textured", S.uv is not None)
    ctx.label("distorted", case["dist"] != "none")
    ctx.label("no directional light", S.light is None)


LARGE = 24


@st.composite
def cases(draw, large=False):
    flags = draw(st.integers(0, 15))
    return {
        "mesh": draw(meshes.big_mesh_cases(size=LARGE) if large else meshes.mesh_cases()), "c": draw(st.sampled_from([1, 2, 3, 3, 4, 5])), "sigma": draw(st.sampled_from([0.0, 0.5, 1.0, 2.5])),
        "persp": flags & 1 == 1, "intpix": flags & 2 == 2, "bgcolor": flags & 4 == 4, "textured": draw(st.sampled_from([False, False, True])),
        "w": draw(st.integers(20, 80) if large else st.integers(3, 16)), "h": draw(st.integers(20, 80) if large else st.integers(3, 16)), "dist": draw(st.sampled_from(["none", "none", "all", "radial", "tangential", "single"])),
        "rot": draw(st.integers(0, 15)), "seed": draw(st.integers(0, 2**31 - 1)),
        "ops": draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 11)).map(list), max_size=7)),
    }


def prop_background(case, ctx):
    """A scene needs exactly one background; the deprecated setter is an image."""
    from deodr.differentiable_renderer import Scene3D

    rng = rng_of(case)
    S, scene, mesh = setup(case, rng)
    if S.bg.ndim == 3:
        other = Scene3D(sigma=S.sigma, perspective_correct=S.persp, integer_pixel_centers=S.intpix)
        other.set_mesh(mesh)
        other.set_light(S.light, S.ambient)
        try:
            other.render(S.camera)
            raised = False
        except BaseException:
            raised = True
        ctx.check(raised, "a scene without background is rendered")
        other.set_background(S.bg.copy())
        expected(S, True)
        ctx.exact(other.render(S.camera), scene.render(S.camera), "set_background")
        ctx.nontrivial()
    else:
        # a constant image
        other = Scene3D(sigma=S.sigma, perspective_correct=S.persp, integer_pixel_centers=S.intpix)
        other.set_mesh(mesh)
        other.set_light(S.light, S.ambient)
        other.set_background_image(np.tile(S.bg.astype(np.float64), (case["h"], case["w"], 1)))
        expected(S, True)
        ctx.exact(other.render(S.camera), scene.render(S.camera), "constant background image")
        ctx.nontrivial()


CHECK = Check(
    "C13",
    "generated meshes, cameras and histories of changes, renderings, deferred and depth renderings and backward passes on one scene; images against the 2D scene "
    "assembled from independent normals, lighting and silhouettes; non trivial: the mesh covers pixels",
    [
        Sub("history", cases, prop, 24000, 96000),
        Sub("large", lambda: cases(large=True), prop, 720, 5000), Sub("units", lambda: meshes.with_unit(cases()), prop, 1600, 10000), Sub("any faces", lambda: meshes.with_extra(cases()), prop, 1600, 10000), Sub("many vertices", lambda: meshes.with_many(cases()), prop, 120, 600),
        Sub("background", cases, prop_background, 1200, 5000),
    ],
    assumptions=["faces exactly seen from their side and vertex normals that cancel are left out", "the 2D renderer and the projection are those of C01-C05 and C11"],
)
