"""C15: depth rendering and its gradient."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import cams, meshes, pipeline, scenes
from ..core import Check, Skip, Sub, Violation
from ..scenes import rng_of
from .c06 import judged

SCALES = [1, 1.0, 0.25, 3.0, 100.0, -1.5, 0.0]


def prop(case, ctx):
    from deodr.differentiable_renderer import Scene3D
    from deodr.triangulated_mesh import ColoredTriMesh, TriMesh

    rng = rng_of(case)
    M = meshes.decode(case["mesh"])
    vertices = M.vertices
    w, h = case["w"], case["h"]
    if case["seed"] % 2:
        mesh = ColoredTriMesh(scenes.laid(M.faces, case["seed"] // 5), vertices=scenes.laid(vertices, case["seed"] // 7), clockwise=M.clockwise, nb_colors=0, compute_adjacencies=bool(case["seed"] & 4))
    else:
        mesh = TriMesh(scenes.laid(M.faces, case["seed"] // 5), scenes.laid(vertices, case["seed"] // 7), clockwise=M.clockwise)
    scene = Scene3D(sigma=case["sigma"], perspective_correct=case["persp"], integer_pixel_centers=case["intpix"])
    scene.set_mesh(mesh)
    bg = float(rng.random() * 5)
    scene.set_background_color([bg])
    n = 0
    for step, (op, a) in enumerate([["render", case["seed"] % 12]] + case["ops"]):
        if op == "vertices":
            vertices = vertices + rng.uniform(-1, 1, vertices.shape) * 0.05 * np.ptp(vertices, axis=0).max()
            if meshes.inside_out(M, vertices):
                raise Skip("turned inside out")
            mesh.set_vertices(scenes.laid(vertices, a))
            continue
        if op == "sigma":
            scene.sigma = [0.0, 0.5, 1.0, 2.5][a % 4]
            continue
        if op == "background":
            bg = float(rng.random() * 5)
            scene.set_background_color(np.array([bg]))
            continue
        Mv = meshes.Mesh()
        Mv.vertices = vertices
        camera = meshes.camera_for(case, Mv, rng, w, h, case["dist"])
        depth_scale = SCALES[a % len(SCALES)]
        culling = a % 5 != 1
        sigma = scene.sigma
        V = pipeline.tt(vertices, True)
        i, j, z = cams.project(pipeline.tt(camera.extrinsic), camera.intrinsic, camera.distortion, V)
        if not meshes.in_front(z.detach().numpy(), vertices):
            raise Skip("vertices behind the camera")
        ij = torch.stack((i, j), dim=-1)
        pipeline.check_faces(M.faces.astype(int), ij.detach().numpy(), vertices)
        colors = z[:, None] * depth_scale
        d = pipeline.scene_dict(camera, M, vertices, ij.detach().numpy(), z.detach().numpy(), sigma, case["persp"], case["intpix"], culling,
                                np.array([bg]), 1)
        d["colors"] = colors.detach().numpy()
        R = pipeline.run(d, sigma, ij, colors)
        image = scene.render_depth(camera, depth_scale=depth_scale, backface_culling=culling)
        what = "step %d" % step
        ctx.check(image.shape == (h, w, 1), "%s: the depth image has shape %s", what, image.shape)
        ok = ~R.amb
        err = np.abs(image - R.image)[..., 0]
        tol = 1e-9 * (1 + abs(depth_scale) * np.abs(d["depths"]).max() + bg) + R.tol
        bad = ok & ~(err <= tol)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("%s: depth at row %d column %d is %r, expected %r" % (what, y, x, image[y, x, 0], R.image[y, x, 0]))
        # where the surface is visible and not antialiased, the scaled depth of the surface itself
        inner = ok & (R.owner >= 0) & (R.nb_blends == 0)
        zs = R.z * depth_scale
        bad = inner & ~(np.abs(image[..., 0] - zs) <= tol + R.z_tol * abs(depth_scale))
        ctx.check(not bad.any(), "%s: the depth image is not the scaled depth", what)
        ctx.nontrivial(bool(inner.any()))
        if case["persp"] or not culling:
            try:
                scene.render_depth_backward(np.ones(image.shape))
                raised = False
            except BaseException:
                raised = True
            ctx.check(raised, "%s: a backward pass is accepted with perspective_correct=%s culling=%s", what, case["persp"], culling)
            continue
        b = scenes.laid(rng.standard_normal(image.shape), a)
        b[~judged(R)] = 0
        loss = (R.image_t * torch.tensor(b.copy())).sum()
        if loss.requires_grad:
            g = torch.autograd.grad(loss, [V, ij, colors], allow_unused=True)
        else:
            g = [None] * 3
        g = [np.zeros(tuple(x.shape)) if y is None else y.numpy() for x, y in zip((V, ij, colors), g)]
        b0 = b.copy()
        scene.render_depth_backward(b)
        ctx.exact(b, b0, what + ": the incoming gradient")
        got = mesh._vertices_b
        ctx.check(got.shape == g[0].shape, "%s: the gradient has shape %s", what, got.shape)
        jac = np.abs(camera.intrinsic[:2, :2]).max() / d["depths"].min() * (1 + (0 if camera.distortion is None else 3 * np.abs(camera.distortion).max()))
        tol = 1e-9 + 1e-6 * (np.abs(g[1]).max() * jac + np.abs(g[2]).max() * abs(depth_scale) + np.abs(g[0]).max())
        bad = ~(np.abs(got - g[0]) <= tol)
        if bad.any():
            k = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation("%s: gradient of vertex %d coordinate %d: got %r expected %r" % (what, k[0], k[1], got[k], g[0][k]))
        n += np.abs(g[0]).max() > 0
        ctx.label("gradient through silhouette pixels", bool((judged(R) & (R.nb_blends > 0)).any()))
    ctx.label("gradient", n > 0)
    ctx.label("several gradients", n > 1)


LARGE = 14


@st.composite
def cases(draw, large=False):
    flags = draw(st.integers(0, 7))
    return {
        "mesh": draw(meshes.big_mesh_cases(size=LARGE) if large else meshes.mesh_cases(max_splits=1, shapes=[s for s in meshes.CLOSED + meshes.OPEN if s not in ("icosa", "torus")])),
        "sigma": draw(st.sampled_from([0.0, 0.5, 1.0, 2.5])), "intpix": flags & 1 == 1, "persp": flags & 6 == 6,
        "w": draw(st.integers(20, 80) if large else st.integers(4, 14)), "h": draw(st.integers(20, 80) if large else st.integers(4, 14)), "dist": draw(st.sampled_from(["none", "none", "all", "radial", "tangential", "single"])),
        "rot": draw(st.integers(0, 15)), "seed": draw(st.integers(0, 2**31 - 1)),
        "ops": draw(st.lists(st.tuples(st.sampled_from(["render", "render", "vertices", "sigma", "background"]), st.integers(0, 34)).map(list), max_size=3)),
    }


CHECK = Check(
    "C15",
    "generated meshes, cameras, depth scales and histories; the depth image against the reference model and the depth of the visible surface, its gradient against "
    "autograd; non trivial: covered pixels",
    [Sub("depth", cases, prop, 5280, 40000), Sub("units", lambda: meshes.with_unit(cases()), prop, 480, 4000), Sub("many vertices", lambda: meshes.with_many(cases()), prop, 48, 600), Sub("large", lambda: cases(large=True), prop, 344, 3000)],
    assumptions=["faces seen from their side and degenerate faces are left out", "pixels judged as in C06"],
)
