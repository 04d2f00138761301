"""C26: the PyTorch interface: images and gradients of histories of renderings against the independent model and the numpy classes."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import cams, meshes, pipeline, scenes
from ..core import Check, Skip, Sub, Violation
from ..scenes import rng_of
from . import c14
from .c06 import judged

LOSSES = ["sum", "squared", "permuted", "flipped", "strided", "expanded", "part", "inplace"]


class State:
    pass


def weights(case, rng, shape, kind, ok, image):
    """Incoming gradient of the image for a kind of loss, null where the gradient is not judged."""
    if kind == "squared":
        return None
    if kind == "expanded":
        c = rng.standard_normal(shape[2])
        if ok.all():
            return np.broadcast_to(c, shape).copy()
    b = rng.standard_normal(shape)
    if rng.random() < 0.2:
        b *= rng.random(shape[:2] + (1,)) < 0.3
    return b


def backpropagate(kind, image, b, target, mask, retain):
    """Backward pass of a loss whose gradient with respect to the image is b, in different ways."""
    if kind == "squared":
        (((image - torch.tensor(target)) ** 2) * torch.tensor(mask)[:, :, None]).sum().backward(retain_graph=retain)
    elif kind == "permuted":
        (image.permute(2, 0, 1) * torch.tensor(b.transpose(2, 0, 1).copy())).sum().backward(retain_graph=retain)
    elif kind == "flipped":
        image.backward(torch.tensor(b[::-1].copy()).flip(0), retain_graph=retain)
    elif kind == "strided":
        big = torch.zeros((2 * b.shape[0], 3 * b.shape[1], b.shape[2]), dtype=torch.float64)
        view = big[::2, ::3]
        view.copy_(torch.tensor(b))
        image.backward(view, retain_graph=retain)
    elif kind == "expanded" and np.all(b == b[:1, :1]):
        image.backward(torch.tensor(b[0, 0]).expand(b.shape), retain_graph=retain)
    elif kind == "inplace":
        # the image is modified after its rendering, before the backward pass
        if not getattr(image, "doubled", False):
            image.mul_(2.0)
            image.doubled = True
        (image * torch.tensor(b / 2)).sum().backward(retain_graph=retain)
    elif kind == "part":
        n = b.shape[0] // 2
        ((image[:n] * torch.tensor(b[:n])).sum() + (image[n:] * torch.tensor(b[n:])).sum()).backward(retain_graph=retain)
    else:
        (image * torch.tensor(b)).sum().backward(retain_graph=retain)


def check_image(ctx, got, M, scale, what):
    ctx.check(isinstance(got, torch.Tensor), "%s: the image is not a tensor", what)
    g = got.detach().numpy()
    ctx.check(g.shape == M.image.shape, "%s: the image has the shape %s instead of %s", what, g.shape, M.image.shape)
    tol = 1e-10 * (1 + scale) + 100 * M.tol  # the positions of the vertices are themselves rounded
    tol = tol[:, :, None] if np.ndim(tol) == 2 else tol
    bad = (~M.amb)[:, :, None] & ~(np.abs(g - M.image) <= tol)
    if bad.any():
        k = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation("%s: pixel %s is %r, expected %r" % (what, k, float(g[k]), float(M.image[k])))


def prop_scene(case, ctx):
    from deodr.differentiable_renderer import Camera, Scene3D
    from deodr.pytorch import CameraPytorch, Scene3DPytorch
    from deodr.pytorch.triangulated_mesh_pytorch import ColoredTriMeshPytorch
    from deodr.triangulated_mesh import ColoredTriMesh

    rng = rng_of(case)
    S = State()
    M = S.M = meshes.decode(case["mesh"])
    S.c = case["c"]
    S.sigma, S.intpix = case["sigma"], case["intpix"]
    w, h = case["w"], case["h"]
    S.bg = rng.random(S.c) if case["bgcolor"] else rng.random((h, w, S.c))
    mesh = ColoredTriMeshPytorch(M.faces.astype(np.int64), vertices=M.vertices.copy(), clockwise=M.clockwise, colors=np.zeros((len(M.vertices), S.c)))
    scene = Scene3DPytorch()
    scene.sigma, scene.integer_pixel_centers = S.sigma, S.intpix
    scene.set_mesh(mesh)
    (scene.set_background_color if case["bgcolor"] else scene.set_background_image)(S.bg.copy())
    base = {"vertices": M.vertices, "colors": rng.random((len(M.vertices), S.c)) * 1.4 - 0.2}
    n = 0
    for epoch in range(case["epochs"]):
        what = "epoch %d" % epoch
        base["light"] = rng.standard_normal(3) * 10.0 ** rng.uniform(-1, 1)
        base["ambient"] = np.array([0.0, float(rng.random()), float(rng.random() * 2)][int(rng.integers(0, 3))])
        needs = {k: case["needs"] >> i & 1 == 1 for i, k in enumerate(("vertices", "colors", "light", "ambient"))}
        leaf = {k: torch.tensor(v, dtype=torch.float64, requires_grad=needs[k]) for k, v in base.items()}
        kept = {k: v.clone().detach() for k, v in leaf.items()}
        total = {k: np.zeros(np.shape(v)) for k, v in base.items()}
        scales = {k: 0.0 for k in base}
        jobs = []
        gains = []
        for r in range(case["renders"]):
            what_r = what + " rendering %d" % r
            # the arrays of each rendering are functions of the leaves
            size = np.ptp(M.vertices, axis=0).max()
            offset = rng.uniform(-1, 1, M.vertices.shape) * 0.05 * size * (r > 0)
            gain = 1.0 if r == 0 else float(rng.uniform(0.3, 1.5))
            S.vertices = base["vertices"] + offset
            if meshes.inside_out(M, S.vertices):
                raise Skip("turned inside out")
            S.colors = base["colors"] * gain
            S.light = base["light"]
            S.ambient = float(base["ambient"])
            if r and case["changes"] & 1:
                S.sigma = scene.sigma = [0.0, 0.5, 1.0, 2.5][int(rng.integers(0, 4))]
            Mv = meshes.Mesh()
            Mv.vertices = S.vertices
            cam = meshes.camera_for(dict(case, rot=int(rng.integers(0, 16))) if r else case, Mv, rng, w, h, case["dist"])
            S.camera = cam
            kind = LOSSES[int(rng.integers(0, len(LOSSES)))]
            target = rng.random((h, w, S.c))

            def make_b(R, ok):
                if kind == "squared":
                    return 2 * (R.image - target) * ok[:, :, None]
                return weights(case, rng, (h, w, S.c), kind, ok, R.image)

            b, exp, scale, R, ok = c14.expected(S, rng, case, make_b)
            mesh.set_vertices(leaf["vertices"] + torch.tensor(offset) if r else leaf["vertices"])
            mesh.set_vertices_colors(leaf["colors"] * gain if r else leaf["colors"])
            light = leaf["light"]
            if not needs["light"] and rng.random() < 0.3:
                light = base["light"].copy() if rng.random() < 0.5 else tuple(base["light"].tolist())
            ambient = leaf["ambient"] if needs["ambient"] or rng.random() < 0.5 else float(base["ambient"])
            scene.set_light(light, ambient)
            tcam = CameraPytorch(cam.extrinsic, cam.intrinsic, cam.height, cam.width, cam.distortion)
            if case["seed"] % 3 == 0:
                image, zbuf = scene.render(tcam, return_z_buffer=True)
                z = np.asarray(zbuf.detach())
                ctx.check(z.shape == (h, w), "%s: z-buffer of shape %s", what_r, z.shape)
                okz = ~R.amb
                bad = okz & ~np.where(R.owner >= 0, np.abs(z - R.z) <= 1e-9 + R.z_tol, np.isinf(z))
                ctx.check(not bad.any(), "%s: wrong z-buffer", what_r)
            else:
                image = scene.render(tcam)
            check_image(ctx, image, R, np.abs(R.image).max(), what_r)
            # the numpy classes on the same data
            nmesh = ColoredTriMesh(M.faces, vertices=S.vertices, clockwise=M.clockwise, colors=S.colors, compute_adjacencies=True)
            ns = Scene3D(sigma=S.sigma, integer_pixel_centers=S.intpix)
            ns.set_mesh(nmesh)
            ns.set_light(S.light, S.ambient)
            (ns.set_background_color if case["bgcolor"] else ns.set_background_image)(S.bg.copy())
            nimage = ns.render(Camera(cam.extrinsic, cam.intrinsic, cam.height, cam.width, cam.distortion))
            bad = ~R.amb & ~(np.abs(nimage - image.detach().numpy()).max(axis=2) <= 1e-10 * (1 + np.abs(R.image).max()) + 100 * R.tol)
            ctx.check(not bad.any(), "%s: the image is not the one of the numpy classes", what_r)
            if image.requires_grad:
                gains.append(gain)
                jobs.append((kind, image, b, target, ok.astype(float), exp, scale, image.detach().numpy().copy()))
            else:
                ctx.check(not any(needs.values()), "%s: the image does not require a gradient", what_r)
            ctx.label("silhouette pixels", bool((ok & (R.nb_blends > 0)).any()))
        order = rng.permutation(len(jobs))
        for o in order:
            kind, image, b, target, mask, exp, scale, copy = jobs[o]
            times = 2 if rng.random() < 0.3 else 1
            for t in range(times):
                backpropagate(kind, image, b, target, mask, t + 1 < times)
            for k in total:
                total[k] = total[k] + times * exp[k] * (gains[o] if k == "colors" else 1)
            ctx.check(np.array_equal(image.detach().numpy(), copy * (1 + (kind == "inplace"))), "%s: the image changed", what)
            ctx.label(kind)
            ctx.label("repeated backward", times > 1)
            for k in total:
                scales[k] += times * scale[k]
        for k, v in leaf.items():
            ctx.check(torch.equal(v.detach(), kept[k]), "%s: %s changed", what, k)
            if not needs[k]:
                ctx.check(v.grad is None, "%s: gradient of %s", what, k)
                continue
            if not jobs:
                continue
            g = v.grad
            ctx.check(g is not None, "%s: no gradient of %s", what, k)
            g = g.numpy()
            tol = 1e-9 + 1e-6 * scales[k]
            bad = ~(np.abs(g - total[k]) <= tol)
            if bad.any():
                i = tuple(int(x) for x in np.argwhere(bad)[0])
                raise Violation("%s: gradient of the %s at %s: got %r expected %r (tolerance %g)" % (what, k, i, float(g[i]), float(total[k][i]), tol))
            n += np.abs(total[k]).max() > 0
    ctx.nontrivial(n > 0)
    ctx.label("several renderings before backward", case["renders"] > 1)
    ctx.label("distorted", case["dist"] != "none")


def prop_depth(case, ctx):
    from deodr.pytorch import CameraPytorch, Scene3DPytorch
    from deodr.pytorch.triangulated_mesh_pytorch import ColoredTriMeshPytorch

    rng = rng_of(case)
    M = meshes.decode(case["mesh"])
    w, h = case["w"], case["h"]
    mesh = ColoredTriMeshPytorch(M.faces.astype(np.int64), vertices=M.vertices.copy(), clockwise=M.clockwise, colors=np.zeros((len(M.vertices), 0)))
    scene = Scene3DPytorch()
    scene.sigma, scene.integer_pixel_centers = case["sigma"], case["intpix"]
    scene.set_mesh(mesh)
    n = 0
    for epoch in range(case["epochs"]):
        leaf = torch.tensor(M.vertices, dtype=torch.float64, requires_grad=True)
        total = np.zeros(M.vertices.shape)
        scale = 0.0
        jobs = []
        for r in range(case["renders"]):
            what = "epoch %d rendering %d" % (epoch, r)
            bg = float(rng.random() * 5)
            scene.set_background_color([bg])
            offset = rng.uniform(-1, 1, M.vertices.shape) * 0.05 * np.ptp(M.vertices, axis=0).max() * (r > 0)
            Mv = meshes.Mesh()
            Mv.vertices = M.vertices + offset
            if meshes.inside_out(M, Mv.vertices):
                raise Skip("turned inside out")
            cam = meshes.camera_for(dict(case, rot=int(rng.integers(0, 16))) if r else case, Mv, rng, w, h, case["dist"])
            depth_scale = [1, 1.0, 0.25, 3.0, 100.0][int(rng.integers(0, 5))]
            if case["changes"] & 1 and r:
                scene.sigma = [0.0, 0.5, 1.0, 2.5][int(rng.integers(0, 4))]
            V = pipeline.tt(Mv.vertices, True)
            i, j, z = cams.project(pipeline.tt(cam.extrinsic), cam.intrinsic, cam.distortion, V)
            if not meshes.in_front(z.detach().numpy(), Mv.vertices):
                raise Skip("vertices behind the camera")
            ij = torch.stack((i, j), dim=-1)
            pipeline.check_faces(M.faces.astype(int), ij.detach().numpy(), Mv.vertices)
            colors = z[:, None] * depth_scale
            d = pipeline.scene_dict(cam, M, Mv.vertices, ij.detach().numpy(), z.detach().numpy(), scene.sigma, False, case["intpix"], True, np.array([bg]), 1)
            d["colors"] = colors.detach().numpy()
            R = pipeline.run(d, scene.sigma, ij, colors)
            mesh.set_vertices(leaf + torch.tensor(offset) if r else leaf)
            image = scene.render_depth(CameraPytorch(cam.extrinsic, cam.intrinsic, cam.height, cam.width, cam.distortion), depth_scale=depth_scale)
            check_image(ctx, image, R, abs(depth_scale) * np.abs(d["depths"]).max() + bg, what)
            ok = judged(R)
            kind = LOSSES[int(rng.integers(0, len(LOSSES)))]
            target = rng.random((h, w, 1)) * 4
            if kind == "squared":
                b = 2 * (R.image - target)
            else:
                b = weights(case, rng, (h, w, 1), kind, ok, R.image)
            b[~ok] = 0
            loss = (R.image_t * torch.tensor(b)).sum()
            g = torch.autograd.grad(loss, [V, ij, colors], allow_unused=True) if loss.requires_grad else [None] * 3
            g = [np.zeros(tuple(x.shape)) if y is None else y.numpy() for x, y in zip((V, ij, colors), g)]
            jac = np.abs(cam.intrinsic[:2, :2]).max() / d["depths"].min() * (1 + (0 if cam.distortion is None else 3 * np.abs(cam.distortion).max()))
            jobs.append((kind, image, b, target, ok.astype(float), g[0], np.abs(g[1]).max() * jac + np.abs(g[2]).max() * abs(depth_scale) + np.abs(g[0]).max()))
        for o in rng.permutation(len(jobs)):
            kind, image, b, target, mask, g, s = jobs[o]
            times = 2 if rng.random() < 0.3 else 1
            for t in range(times):
                backpropagate(kind, image, b, target, mask, t + 1 < times)
            total += times * g
            scale += times * s
            ctx.label(kind)
        got = leaf.grad.numpy()
        bad = ~(np.abs(got - total) <= 1e-9 + 1e-6 * scale)
        if bad.any():
            k = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation("epoch %d: gradient of vertex %d coordinate %d: got %r expected %r" % (epoch, k[0], k[1], got[k], total[k]))
        n += np.abs(total).max() > 0
    ctx.nontrivial(n > 0)


def prop_2d(case, ctx):
    """The 2D rendering function on one scene object whose positions and colours change between renderings."""
    from deodr.pytorch import Scene3DPytorch
    from deodr.pytorch.differentiable_renderer_pytorch import TorchDifferentiableRender2D

    rng = rng_of(case, 3)
    d = scenes.decode(case)
    scene = Scene3DPytorch()
    scene.sigma = case["sigma"]
    scene.scene_2d = scenes.scene2d(scenes.copy_scene(d))
    jobs = []
    n = 0
    for r in range(case["renders"]):
        dr = scenes.copy_scene(d)
        if r:
            dr["ij"] = dr["ij"] + rng.uniform(-1, 1, dr["ij"].shape)
            dr["colors"] = rng.random(dr["colors"].shape)
        ij = torch.tensor(dr["ij"], requires_grad=True)
        colors = torch.tensor(dr["colors"], requires_grad=bool(rng.random() < 0.8))
        image = TorchDifferentiableRender2D(ij, colors, scene)
        ref = scenes.scene2d(scenes.copy_scene(dr))
        rimage, _ = ref.render(case["sigma"])
        ctx.exact(image.detach().numpy(), rimage, "rendering %d: image" % r)
        b = rng.standard_normal(rimage.shape)
        kind = LOSSES[2 + int(rng.integers(0, len(LOSSES) - 2))]
        ref.render_backward(b)
        jobs.append((kind, image, b, ij, colors, ref, r))
    for o in rng.permutation(len(jobs)):
        kind, image, b, ij, colors, ref, r = jobs[o]
        times = 1 + int(rng.random() < 0.3)
        for t in range(times):
            backpropagate(kind, image, b, None, None, t + 1 < times)
        what = "rendering %d: gradient of " % r
        ctx.close(ij.grad.numpy(), times * ref.ij_b, what + "the positions", rtol=1e-13, atol=0)
        if colors.requires_grad:
            ctx.close(colors.grad.numpy(), times * ref.colors_b, what + "the colours", rtol=1e-13, atol=0)
        n += np.any(ref.ij_b != 0)
    ctx.nontrivial(n > 0)
    ctx.label("several renderings before backward", len(jobs) > 1)


SHAPES = [s for s in meshes.CLOSED + meshes.OPEN if s not in ("icosa", "torus")]


LARGE = 24


@st.composite
def cases(draw, large=False):
    flags = draw(st.integers(0, 3))
    return {
        "mesh": draw(meshes.big_mesh_cases(size=LARGE) if large else meshes.mesh_cases(max_splits=1, shapes=SHAPES)), "c": draw(st.sampled_from([1, 2, 3, 3, 4, 5])), "sigma": draw(st.sampled_from([0.0, 0.5, 1.0, 2.5])),
        "intpix": flags & 1 == 1, "bgcolor": flags & 2 == 2, "w": draw(st.integers(20, 80) if large else st.integers(4, 12)), "h": draw(st.integers(20, 80) if large else st.integers(4, 12)),
        "dist": draw(st.sampled_from(["none", "none", "all", "radial", "tangential", "single"])), "rot": draw(st.integers(0, 15)), "needs": draw(st.sampled_from([15, 15, 15, 1, 2, 4, 8, 7, 0])),
        "epochs": draw(st.integers(1, 2)), "renders": draw(st.integers(1, 3)), "changes": draw(st.integers(0, 1)), "seed": draw(st.integers(0, 2**31 - 1)),
    }


@st.composite
def cases_2d(draw):
    case = draw(scenes.scene_cases(culling=True, persp=False, geoms=["generic", "generic", "grid", "mixed", "big", "mesh"]))
    case["renders"] = draw(st.integers(1, 3))
    return case


CHECK = Check(
    "C26",
    "histories of renderings of meshes, depth images and 2D scenes with PyTorch, backward passes in another order, repeated, of losses giving gradients of all memory layouts, "
    "with respect to subsets of the arrays, against the model of C06 and the numpy classes; non trivial: non zero gradients",
    [Sub("scene", cases, prop_scene, 1256, 15000), Sub("depth", cases, prop_depth, 1256, 15000), Sub("large", lambda: cases(large=True), prop_scene, 64, 1000), Sub("units", lambda: meshes.with_unit(cases()), prop_scene, 160, 2000), Sub("depth units", lambda: meshes.with_unit(cases()), prop_depth, 160, 2000), Sub("2d", cases_2d, prop_2d, 5600, 60000)],
    assumptions=["textured meshes have no gradient in 3D, with numpy and PyTorch", "pixels judged as in C06"],
)
