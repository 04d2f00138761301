"""C14: gradients of 3D scenes against the automatic differentiation of an independent model of the whole pipeline."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import cams, meshes, pipeline, scenes
from ..core import Check, Skip, Sub, Violation
from ..scenes import rng_of
from .c06 import judged
from .c13 import new_light


def expected(S, rng, case, make_b=None):
    """Gradients given by the model, with the incoming gradient restricted to the pixels where it is defined."""
    f = torch.tensor(S.M.faces.astype(np.int64))
    used = torch.zeros(len(S.vertices), dtype=torch.bool)
    used[f.reshape(-1)] = True
    V, C = pipeline.tt(S.vertices, True), pipeline.tt(S.colors, True)
    A = pipeline.tt(S.ambient, True)
    Lt = None if S.light is None else pipeline.tt(S.light, True)
    cam = S.camera
    i, j, z = cams.project(pipeline.tt(cam.extrinsic), cam.intrinsic, cam.distortion, V)
    ij = torch.stack((i, j), dim=-1)
    pipeline.check_faces(S.M.faces.astype(int), ij.detach().numpy(), S.vertices)
    lum, _ = pipeline.torch_luminosity(V, f, S.M.clockwise, Lt, A, used)
    colors = C * lum[:, None]
    d = pipeline.scene_dict(cam, S.M, S.vertices, ij.detach().numpy(), z.detach().numpy(), S.sigma, False, S.intpix, True, S.bg, S.c)
    d["colors"] = colors.detach().numpy()
    M = pipeline.run(d, S.sigma, ij, colors)
    ok = judged(M)
    if make_b is not None:
        image_b = make_b(M, ok)
    else:
        image_b = rng.standard_normal((cam.height, cam.width, S.c))
        if case["seed"] % 4 == 0:
            image_b *= rng.random((cam.height, cam.width, 1)) < 0.3
    image_b[~ok] = 0
    loss = (M.image_t * torch.tensor(image_b)).sum()
    leaves = [V, C, A, ij, colors] + ([] if Lt is None else [Lt])
    if loss.requires_grad:
        g = torch.autograd.grad(loss, leaves, allow_unused=True)
    else:
        g = [None] * len(leaves)
    g = [np.zeros(tuple(x.shape)) if y is None else y.numpy() for x, y in zip(leaves, g)]
    jac = np.abs(cam.intrinsic[:2, :2]).max() / z.detach().numpy().min() * (1 + (0 if cam.distortion is None else 3 * np.abs(cam.distortion).max()))
    ext = np.ptp(S.vertices, axis=0).max()
    light = 0 if S.light is None else np.abs(S.light).max()
    size = np.linalg.norm(np.ptp(S.vertices, axis=0))
    edge = np.inf
    p = S.vertices[S.M.faces.astype(int)]
    edge = np.linalg.norm(p - np.roll(p, 1, axis=1), axis=2).min()
    scale = {
        "vertices": np.abs(g[3]).max() * jac + np.abs(g[4]).max() * light / edge + np.abs(g[0]).max(),
        "colors": np.abs(g[1]).max() + np.abs(g[4]).max() * (light + abs(S.ambient)),
        "ambient": abs(float(g[2])) + np.abs(g[4]).sum(),
        "light": np.abs(g[4]).sum(),
    }
    exp = {"vertices": g[0], "colors": g[1], "ambient": g[2], "light": g[5] if Lt is not None else None}
    return image_b, exp, scale, M, ok


def compare(ctx, scene, mesh, exp, scale, what):
    got = {"vertices": mesh._vertices_b, "colors": mesh.vertices_colors_b, "ambient": np.array(scene.light_ambient_b)}
    if exp["light"] is not None:
        got["light"] = scene.light_directional_b
    for k, g in got.items():
        e = exp[k]
        ctx.check(g.shape == e.shape, "%s: gradient of the %s has shape %s instead of %s", what, k, g.shape, e.shape)
        # vertices that do not belong to a face have no normal
        tol = 1e-9 + 1e-6 * scale[k]
        bad = ~(np.abs(g - e) <= tol)
        if bad.any():
            i = np.unravel_index(np.argmax(bad), e.shape) if e.ndim else ()
            raise Violation("%s: gradient of the %s at %s: got %r expected %r" % (what, k, tuple(int(v) for v in i), float(g[i]), float(e[i])))
    return got


class State:
    pass


def setup(case, rng, cls=None):
    from deodr.differentiable_renderer import Scene3D
    from deodr.triangulated_mesh import ColoredTriMesh

    S = State()
    M = S.M = meshes.decode(case["mesh"])
    S.c = case["c"]
    S.vertices = M.vertices
    S.sigma, S.intpix = case["sigma"], case["intpix"]
    S.colors = scenes.whole(rng.random((len(M.vertices), S.c)) * 1.4 - 0.2, case["seed"] // 29)
    S.light, S.ambient = new_light(rng)
    w, h = case["w"], case["h"]
    S.bg = scenes.whole(rng.random(S.c), case["seed"] // 37) if case["bgcolor"] else rng.random((h, w, S.c))
    S.camera = meshes.camera_for(case, M, rng, w, h, case["dist"])
    mesh = ColoredTriMesh(scenes.laid(M.faces, case["seed"] // 5), vertices=scenes.laid(S.vertices, case["seed"] // 7), clockwise=M.clockwise, colors=scenes.laid(S.colors, case["seed"] // 19),
                          compute_adjacencies=bool(case["seed"] & 4))
    scene = Scene3D(sigma=S.sigma, integer_pixel_centers=S.intpix)
    scene.set_mesh(mesh)
    scene.set_light(S.light, S.ambient)
    (scene.set_background_color if case["bgcolor"] else scene.set_background_image)(scenes.laid(S.bg, case["seed"] // 23))
    return S, scene, mesh


def prop(case, ctx):
    rng = rng_of(case)
    S, scene, mesh = setup(case, rng)
    w, h = case["w"], case["h"]
    n = 0
    for step, (op, a) in enumerate([["gradient", 0]] + case["ops"]):
        if op == "gradient":
            what = "step %d" % step
            image_b, exp, scale, M, ok = expected(S, rng, case)
            scene.render(S.camera)
            given = scenes.laid(image_b, a)
            copy = given.copy()
            scene.render_backward(given)
            got = compare(ctx, scene, mesh, exp, scale, what)
            ctx.exact(given, copy, what + ": the incoming gradient")
            # the same backward pass again, once the gradients of the 2D scene are cleared
            if a % 3 == 1:
                scene.clear_gradients()
                scene.render_backward(given)
                got2 = compare(ctx, scene, mesh, exp, scale, what + " repeated")
                for k in got:
                    ctx.close(got2[k], got[k], "%s: gradient of the %s of a second backward pass" % (what, k), rtol=1e-12)
                ctx.label("repeated")
            elif a % 3 == 2:
                # another backward pass of the same rendering adds its gradients
                other, exp2, scale2, _, _ = expected(S, rng, case)
                scene.render_backward(scenes.laid(other, a))
                both = {k: None if exp[k] is None else exp[k] + exp2[k] for k in exp}
                compare(ctx, scene, mesh, both, {k: scale[k] + scale2[k] for k in scale}, what + " accumulated")
                ctx.label("accumulated")
            n += np.abs(exp["vertices"]).max() > 0
            ctx.label("silhouette pixels", bool((ok & (M.nb_blends > 0)).any()))
        elif op == "vertices":
            size = np.ptp(S.vertices, axis=0).max()
            S.vertices = S.vertices + rng.uniform(-1, 1, S.vertices.shape) * 0.05 * size
            if not meshes.in_front(S.camera.project_points(S.vertices)[1], S.vertices):
                raise Skip("vertices behind the camera")
            if meshes.inside_out(S.M, S.vertices):
                raise Skip("turned inside out")
            mesh.set_vertices(scenes.laid(S.vertices, a))
        elif op == "colors":
            S.colors = scenes.whole(rng.random(S.colors.shape), a + 3)
            mesh.set_vertices_colors(scenes.laid(S.colors, a))
        elif op == "light":
            S.light, S.ambient = new_light(rng)
            scene.set_light(S.light, S.ambient)
        elif op == "sigma":
            S.sigma = scene.sigma = [0.0, 0.5, 1.0, 2.5][a % 4]
        elif op == "camera":
            M = meshes.Mesh()
            M.vertices = S.vertices
            S.camera = meshes.camera_for(dict(case, rot=a), M, rng, w, h, case["dist"])
        elif op == "stray":
            # an unrelated rendering and backward pass, of the same scene
            im = scene.render(S.camera)
            scene.render_backward(rng.standard_normal(im.shape))
        elif op == "refused":
            # renderings without backward pass: perspective correction, or faces seen from both sides
            try:
                if a % 2:
                    scene.perspective_correct = True
                    im = scene.render(S.camera)
                else:
                    im = scene.render(S.camera, backface_culling=False)
                scene.render_backward(np.ones(im.shape))
                raised = False
            except BaseException:
                raised = True
            scene.perspective_correct = False
            ctx.check(raised, "step %d: a backward pass %s is accepted", step, "with perspective_correct" if a % 2 else "without culling")
    ctx.nontrivial(n > 0)
    ctx.label("several gradients", n > 1)
    ctx.label("no light", S.light is None)
    ctx.label("distorted", case["dist"] != "none")
    ctx.label("isolated vertices", S.M.iso > 0)


LARGE = 14


@st.composite
def cases(draw, large=False):
    flags = draw(st.integers(0, 3))
    return {
        "mesh": draw(meshes.big_mesh_cases(size=LARGE) if large else meshes.mesh_cases(max_splits=1, shapes=[s for s in meshes.CLOSED + meshes.OPEN if s not in ("icosa", "torus")])),
        "c": draw(st.sampled_from([1, 2, 3, 3, 4, 5])), "sigma": draw(st.sampled_from([0.0, 0.5, 1.0, 2.5])), "intpix": flags & 1 == 1, "bgcolor": flags & 2 == 2,
        "w": draw(st.integers(20, 80) if large else st.integers(4, 14)), "h": draw(st.integers(20, 80) if large else st.integers(4, 14)), "dist": draw(st.sampled_from(["none", "none", "all", "radial", "tangential", "single"])),
        "rot": draw(st.integers(0, 15)), "seed": draw(st.integers(0, 2**31 - 1)),
        "ops": draw(st.lists(st.tuples(
            st.sampled_from(["gradient", "gradient", "gradient", "vertices", "colors", "light", "sigma", "camera", "stray", "refused"]),
            st.integers(0, 11)).map(list), max_size=4)),
    }


CHECK = Check(
    "C14",
    "generated meshes, cameras, lights and histories of changes and backward passes; gradients with respect to vertices, colours and lights against autograd "
    "through an independent model; non trivial: non zero gradient on the vertices",
    [Sub("gradient", cases, prop, 4800, 40000), Sub("units", lambda: meshes.with_unit(cases()), prop, 480, 4000), Sub("many vertices", lambda: meshes.with_many(cases()), prop, 48, 600), Sub("large", lambda: cases(large=True), prop, 320, 3000)],
    assumptions=["faces seen from their side, degenerate faces, cancelling normals and tangent lights are left out", "pixels judged as in C06"],
)
