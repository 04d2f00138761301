"""Model of the mesh fitters, and histories of operations on the fitters of numpy and PyTorch."""
import contextlib
import io

import numpy as np
import torch
from hypothesis import strategies as st

from . import cams, meshes, pipeline
from .checks.c06 import judged
from .checks.c23 import CONNECTED, laplacian
from .core import Skip, Violation
from .scenes import rng_of

SHAPES = [s for s in CONNECTED if s not in ("icosa", "torus")]
KINDS = ["depth", "rgb", "multi"]


class Unjudged(Exception):
    """The gradient is not defined, or badly conditioned, in the current state."""


def euler_quaternion(angles):
    """Quaternion (x, y, z, w) of rotations about fixed z, then y, then x axes."""
    half = np.asarray(angles, dtype=np.float64)[..., None, :] / 2

    def axis(k, a):
        q = np.zeros(a.shape + (4,))
        q[..., k] = np.sin(a)
        q[..., 3] = np.cos(a)
        return q

    def mul(a, b):
        v, w = a[..., :3], a[..., 3:]
        u, x = b[..., :3], b[..., 3:]
        return np.concatenate((w * u + x * v + np.cross(v, u), w * x - np.sum(v * u, axis=-1, keepdims=True)), axis=-1)

    half = half[..., 0, :]
    return mul(axis(0, half[..., 2]), mul(axis(1, half[..., 1]), axis(2, half[..., 0])))


def rotate(q, V):
    """Rotation matrix of a unit quaternion applied to the rows of V (torch)."""
    x, y, z, w = q
    R = torch.stack([
        torch.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)]),
        torch.stack([2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)]),
        torch.stack([2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]),
    ])
    return V @ R.T


class Options:
    pass


def options(case, rng):
    """Everything that a user gives to the fitters."""
    o = Options()
    M = meshes.decode(dict(case["mesh"], clockwise=False))
    o.kind = case["kind"]
    o.M = M
    o.vertices = M.vertices * 10.0 ** case["scale"] + rng.standard_normal(3) * case["offset"] * 10.0 ** case["scale"]
    o.faces = M.faces.astype(np.int64)
    o.frames = case["frames"] if o.kind == "multi" else 1
    radius = np.std(o.vertices, axis=0).max()
    o.radius = radius
    o.kwargs = {}
    o.cregu, o.inertia, o.damping = 2000, *((0.97, 0.15) if o.kind == "multi" else (0.96, 0.05))
    if case["opts"] & 1:
        o.cregu = o.kwargs["cregu"] = [0.0, 1.0, 10.0, 300.0][int(rng.integers(0, 4))]
    if case["opts"] & 2:
        o.inertia = o.kwargs["inertia"] = float(rng.uniform(0, 1))
        o.damping = o.kwargs["damping"] = float(rng.uniform(0, 0.5))
    o.cdata = 1.0
    if o.kind == "multi" and case["opts"] & 4:
        o.cdata = o.kwargs["cdata"] = float(rng.uniform(0.1, 3))
    o.update_lights = o.update_color = True
    o.c = 1 if o.kind == "depth" else 3
    if o.kind != "depth":
        if case["opts"] & 8:
            o.update_lights = o.kwargs["update_lights"] = False
        if case["opts"] & 16:
            o.update_color = o.kwargs["update_color"] = False
        o.color = rng.random(3)
        o.light = rng.standard_normal(3)
        o.ambient = float(rng.random())
    o.euler, o.translation = pose(o, rng)
    # centre of the camera
    center = o.vertices.mean(axis=0)
    if o.kind == "depth":
        o.center = center + np.array([-0.5, 0, 5]) * radius
    elif o.kind == "rgb":
        o.center = center + o.translation + np.array([0, 0, 9]) * radius
    else:
        o.center = center + np.array([0, 0, 6]) * radius
    o.background = None
    o.max_depth = o.depth_scale = None
    return o


def pose(o, rng):
    shape = (o.frames, 3) if o.kind == "multi" else (3,)
    e = rng.uniform(-1, 1, shape) * [0.3, 3.0][int(rng.integers(0, 2))]
    t = rng.uniform(-1, 1, shape) * 0.5 * o.radius * int(rng.integers(0, 2))
    # the vertices are centred: bring them back in front of the camera
    return e, t + o.vertices.mean(axis=0)


def observation(o, rng, w, h):
    """Images to fit, and the parameters of the camera given with them."""
    obs = []
    for _ in range(o.frames):
        if o.kind == "depth":
            im = rng.random((h, w)) * (1.2 * o.max_depth)
            if rng.random() < 0.5:
                im[rng.random((h, w)) < 0.5] = o.max_depth
        else:
            im = rng.random((h, w, 3)) * [1, 1, 50][int(rng.integers(0, 3))]
        obs.append(im.astype([np.float64, np.float64, np.float32][int(rng.integers(0, 3))]))
    focal = None if rng.random() < 0.3 else float(rng.uniform(1, 4) * w)
    dist = None
    if o.kind != "multi" and rng.random() < 0.4:
        dist = cams.distortion(rng, ["zero", "radial", "all"][int(rng.integers(0, 3))])
    return obs, focal, dist


class Model:
    """State of a fitter, and its evolution."""

    def __init__(self, o):
        self.o = o
        self.H = None
        L = laplacian(len(o.vertices), o.faces)
        self.H = o.cregu * L.T.dot(L)
        self.factors = {"vertices": (0.0005, 0.5), "quaternion": (0.00006, 0.1), "translation": (0.00005, 0.1), "light": (0.0001, np.inf), "ambient": (0.0001, np.inf), "color": (0.00001, np.inf)}
        if o.kind == "rgb":
            self.factors["quaternion"] = (0.00006, 0.05)
        if o.kind == "multi":
            self.factors["quaternion"] = (0.00005, 0.05)
            self.factors["translation"] = (0.00004, 0.1)
        self.euler, self.translation_init = o.euler, o.translation
        self.reset()

    def reset(self):
        o = self.o
        self.p = {"vertices": o.vertices.copy(), "quaternion": euler_quaternion(self.euler), "translation": np.array(self.translation_init)}
        if o.kind != "depth":
            self.p.update({"light": o.light.copy(), "ambient": np.array(o.ambient), "color": o.color.copy()})
        self.speed = {k: np.zeros(np.shape(v)) for k, v in self.p.items()}
        self.tol = {k: 0.0 for k in self.p}
        self.iter = 0

    def set_image(self, obs, focal, dist):
        o = self.o
        self.obs = [im.astype(np.float64) for im in obs]
        self.h, self.w = obs[0].shape[:2]
        if focal is None:
            focal = 2 * self.w
        R = np.diag([1.0, -1.0, -1.0])
        self.extrinsic = np.column_stack((R, -R.T.dot(o.center)))
        self.intrinsic = np.array([[focal, 0, self.w / 2], [0, focal, self.h / 2], [0, 0, 1.0]])
        self.dist = dist
        self.iter = 0

    def render(self, V, q, t, light, ambient, color, obs):
        """Image, squared differences and data energy of one frame, functions of the parameters (torch)."""
        o = self.o
        qn = q / torch.linalg.norm(q)
        T = rotate(qn, V) + t
        i, j, z = cams.project(pipeline.tt(self.extrinsic), self.intrinsic, self.dist, T)
        if float(z.min()) < 0.05 * o.radius:
            raise Skip("vertices near the camera")
        ij = torch.stack((i, j), dim=-1)
        if float(ij.detach().abs().max()) > 1e4:
            raise Skip("far out of the image")
        Tn = T.detach().numpy()
        pipeline.check_faces(o.faces, ij.detach().numpy(), Tn)
        f = torch.tensor(o.faces)
        if o.kind == "depth":
            colors = z[:, None] * o.depth_scale
            bg = np.array([o.max_depth])
        else:
            used = torch.zeros(len(Tn), dtype=torch.bool)
            used[f.reshape(-1)] = True
            lum, _ = pipeline.torch_luminosity(T, f, False, light, ambient, used)
            colors = color[None, :] * lum[:, None]
            bg = o.background

        class Cam:
            height, width = self.h, self.w

        M = meshes.Mesh()
        M.faces, M.clockwise = o.faces, False
        d = pipeline.scene_dict(Cam, M, Tn, ij.detach().numpy(), z.detach().numpy(), 1.0, False, True, True, bg, o.c)
        d["colors"] = colors.detach().numpy()
        R = pipeline.run(d, 1.0, ij, colors)
        image = R.image_t
        ok = judged(R)
        if o.kind == "depth":
            raw = R.image[:, :, 0]
            ok &= ~((np.abs(raw - o.max_depth) < 1e-9 * (1 + o.max_depth)) & (R.owner >= 0))
            image = torch.clamp(image, 0, o.max_depth)
            obs = obs[:, :, None]
        diff = ((image - torch.tensor(obs)) ** 2).sum(-1)
        self.sensitivity = (ij, colors, z)
        return image, diff, R, ok

    def step(self):
        """Energy, images and differences returned by a step; the parameters after it and their tolerances."""
        o, p = self.o, self.p
        p["vertices"] = p["vertices"] - p["vertices"].mean(axis=0)
        leaf = {k: pipeline.tt(v, True) for k, v in p.items()}
        out = Options()
        out.images, out.diffs, out.ok, out.R = [], [], [], []
        total = 0
        coef = o.cdata / o.frames
        multi = o.kind == "multi"
        inner = []
        all_ok = True
        for k in range(o.frames):
            q = leaf["quaternion"][k] if multi else leaf["quaternion"]
            t = leaf["translation"][k] if multi else leaf["translation"]
            image, diff, R, ok = self.render(leaf["vertices"], q, t, leaf.get("light"), leaf.get("ambient"), leaf.get("color"), self.obs[k])
            inner.append(self.sensitivity)
            out.images.append(image.detach().numpy())
            out.diffs.append(diff.detach().numpy())
            out.ok.append(~R.amb)
            out.R.append(R)
            all_ok = all_ok and bool(ok.all())
            total = total + coef * diff.sum()
        if not all_ok:
            raise Unjudged
        leaves = [leaf[k] for k in p] + [x for ij, colors, _ in inner for x in (ij, colors)]
        g = torch.autograd.grad(total, leaves, allow_unused=True) if total.requires_grad else [None] * len(leaves)
        g = [np.zeros(tuple(x.shape)) if y is None else y.numpy() for x, y in zip(leaves, g)]
        grad = dict(zip(p, g))
        d = p["vertices"] - o.vertices
        rigid = self.H.dot(d)
        out.data = float(total)
        out.rigid = 0.5 * float(np.sum(d * rigid))
        out.energy = out.data + out.rigid
        # magnitude of the quantities summed in the gradients
        n = len(p)
        s_v = s_c = 0.0
        light = np.abs(p["light"]).max() if o.kind != "depth" else 0
        for k, (ij, colors, z) in enumerate(inner):
            gij, gc = np.abs(g[n + 2 * k]), np.abs(g[n + 2 * k + 1])
            jac = np.abs(self.intrinsic[:2, :2]).max() / float(z.min()) * (1 + (0 if self.dist is None else 3 * np.abs(self.dist).max()))
            P = o.vertices[o.faces]
            edge = np.linalg.norm(P - np.roll(P, 1, axis=1), axis=2).min()
            s_v += gij.max() * jac + gc.max() * ((o.depth_scale or 0) if o.kind == "depth" else light / edge)
            s_c += gc.sum()
        nv = len(o.vertices)
        s_v += np.abs(grad["vertices"]).max()
        if not multi or self.iter < 500:
            grad["vertices"] = grad["vertices"] - grad["vertices"].mean(axis=0)
        grad["vertices"] = grad["vertices"] + rigid
        ext = np.abs(p["vertices"]).max()
        scale = {
            "vertices": s_v + np.abs(self.H).sum(axis=1).max() * np.abs(d).max(), "translation": nv * s_v,
            "quaternion": 4 * nv * s_v * ext, "light": s_c, "ambient": s_c,
            "color": s_c * (1 + light + (abs(float(p["ambient"])) if o.kind != "depth" else 0)),
        }
        out.scale = scale
        out.moved = {}
        out.clamped = set()
        self.before = {k: v.copy() for k, v in p.items()}
        for k in p:
            if (k in ("light", "ambient") and not o.update_lights) or (k == "color" and not o.update_color):
                continue
            factor, limit = self.factors[k]
            move = np.clip(-grad[k] * factor, -limit, limit)
            out.clamped |= {k} if np.any(np.abs(move) == limit) else set()
            self.speed[k] = (1 - o.damping) * (o.inertia * self.speed[k] + (1 - o.inertia) * move)
            self.tol[k] = (1 - o.damping) * (o.inertia * self.tol[k] + (1 - o.inertia) * np.minimum(factor * (1e-9 + 1e-6 * scale[k]), 2 * limit))
            p[k] = p[k] + self.speed[k]
            if k == "quaternion":
                p[k] = p[k] / np.linalg.norm(p[k], axis=-1, keepdims=True)
            out.moved[k] = np.abs(self.speed[k]).max()
        self.iter += 1
        return out


ATTRIBUTES = {"vertices": "vertices", "quaternion": "transform_quaternion", "translation": "transform_translation", "light": "light_directional", "ambient": "light_ambient", "color": "mesh_color"}


def build(o, library="numpy"):
    if library == "numpy":
        from deodr import mesh_fitter as module
    else:
        from deodr.pytorch import mesh_fitter_pytorch as module
    kwargs = dict(o.kwargs, euler_init=o.euler.copy(), translation_init=o.translation.copy())
    if o.kind != "depth":
        kwargs.update(default_color=o.color.copy(), default_light_directional=o.light.copy(), default_light_ambient=o.ambient)
    cls = {"depth": "MeshDepthFitter", "rgb": "MeshRGBFitterWithPose", "multi": "MeshRGBFitterWithPoseMultiFrame"}[o.kind]
    o.given = [o.vertices.copy(), o.faces.copy()]
    return getattr(module, cls)(o.given[0], o.given[1], **kwargs)


def parameters(o, fitter):
    keys = ["vertices", "quaternion", "translation"] + (["light", "ambient", "color"] if o.kind != "depth" else [])
    return {k: np.array(np.asarray(getattr(fitter, ATTRIBUTES[k])), dtype=np.float64) for k in keys}


def set_image(o, fitter, obs, focal, dist):
    kwargs = {} if focal is None else {"focal": focal}
    if o.kind == "multi":
        fitter.set_images([im for im in obs], **kwargs)
    else:
        if dist is not None:
            kwargs["distortion"] = dist.copy()
        fitter.set_image(obs[0], **kwargs)


def set_background(o, fitter):
    if o.kind == "depth":
        fitter.set_max_depth(o.max_depth)
        fitter.set_depth_scale(o.depth_scale)
    else:
        fitter.set_background_color(o.background.copy())


def step(o, fitter):
    with contextlib.redirect_stdout(io.StringIO()):
        energy, images, diffs = fitter.step()
    if o.kind == "multi":
        return float(energy), [np.array(x) for x in images], [np.array(x) for x in diffs]
    return float(energy), [np.array(images)], [np.array(diffs)]


def new_background(o, rng, z):
    if o.kind == "depth":
        o.depth_scale = float([1.0, 1.0, 0.5, 3.0, 50.0][int(rng.integers(0, 5))]) / z
        o.max_depth = float(rng.uniform(0.9, 2)) * o.depth_scale * z
    else:
        o.background = rng.random(3)


def compare_step(ctx, o, model, fitter, what, exact_speed=True):
    """One step of the fitter against the model, False when the gradient is not defined in that state."""
    if not all(np.all(np.isfinite(v)) and np.abs(v).max() < 1e6 for v in model.p.values()):
        raise Skip("divergence")
    kept = [im.copy() for im in fitter_obs(model)]
    try:
        exp = model.step()
    except Unjudged:
        return None
    energy, images, diffs = step(o, fitter)
    ctx.check(len(images) == o.frames and len(diffs) == o.frames, "%s: %d images", what, len(images))
    for k in range(o.frames):
        im = exp.images[k]
        got = images[k].reshape(im.shape) if o.kind == "depth" else images[k]
        ctx.check(got.shape == im.shape, "%s: image of shape %s", what, got.shape)
        tol = 1e-10 * (1 + np.abs(im).max()) + 100 * exp.R[k].tol
        bad = exp.ok[k] & ~(np.abs(got - im).max(axis=2) <= tol)
        if bad.any():
            i = np.argwhere(bad)[0]
            raise Violation("%s: image %d at %s is %s, expected %s" % (what, k, i.tolist(), got[tuple(i)].tolist(), im[tuple(i)].tolist()))
        bad = exp.ok[k] & ~(np.abs(diffs[k] - exp.diffs[k]) <= 10 * tol * (1 + np.sqrt(exp.diffs[k])))
        ctx.check(not bad.any(), "%s: wrong differences in frame %d", what, k)
    tol = 1e-6 * (1 + exp.data) + 1e-10 * exp.scale["vertices"] * np.abs(model.before["vertices"]).max()
    ctx.check(abs(energy - exp.energy) <= tol, "%s: energy %r, expected %r (data %r, rigid %r)", what, energy, exp.energy, exp.data, exp.rigid)
    got = parameters(o, fitter)
    for k, e in model.p.items():
        g = got[k]
        ctx.check(g.shape == e.shape, "%s: %s of shape %s", what, k, g.shape)
        tol = 2 * model.tol[k] + 1e-13 * (np.abs(e).max() + np.abs(o.vertices).max() * (k == "vertices"))
        bad = ~(np.abs(g - e) <= tol)
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0]) if e.ndim else ()
            raise Violation("%s: %s %s became %r, expected %r (was %r, tolerance %g)" % (what, k, i, float(g[i]), float(e[i]), float(model.before[k][i]), float(np.max(tol))))
        model.p[k] = g
    q = got["quaternion"]
    ctx.check(np.all(np.abs(np.linalg.norm(q, axis=-1) - 1) <= 1e-12), "%s: norm of the quaternions %s", what, np.linalg.norm(q, axis=-1))
    exp.got = (energy, images, diffs, got)
    return exp


def fitter_obs(model):
    return model.obs


OPS = ["step", "step", "step", "step", "step", "reset", "image", "pose", "background", "fresh"]


@st.composite
def cases(draw, kinds=KINDS, max_ops=8):
    return {
        "mesh": draw(meshes.mesh_cases(max_splits=1, shapes=SHAPES, iso=False)), "kind": draw(st.sampled_from(kinds)), "scale": draw(st.sampled_from([0, 0, 0, 1, 2, -2, -3])),
        "offset": draw(st.sampled_from([0.0, 0.0, 0.5])), "frames": draw(st.integers(1, 3)), "opts": draw(st.integers(0, 31)),
        "w": draw(st.integers(4, 10)), "h": draw(st.integers(4, 10)), "ops": draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=max_ops)),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


def history(case, ctx, library="numpy"):
    """Random history of operations on a fitter, each step judged by the model, resets compared to new fitters."""
    rng = rng_of(case)
    o = options(case, rng)
    z = 6 * o.radius
    new_background(o, rng, z)
    with contextlib.redirect_stdout(io.StringIO()):
        fitter = build(o, library)
    model = Model(o)
    obs, focal, dist = observation(o, rng, case["w"], case["h"])
    kept = [im.copy() for im in obs]
    set_image(o, fitter, obs, focal, dist)
    set_background(o, fitter)
    model.set_image(obs, focal, dist)
    given = (o.given, [x.copy() for x in o.given])
    n = steps = 0
    for num, op in enumerate(case["ops"]):
        what = "operation %d (%s)" % (num, op)
        if op == "step":
            try:
                exp = compare_step(ctx, o, model, fitter, what)
            except Skip:
                if n == 0:
                    raise
                break
            if exp is None:
                # start again from another pose
                ctx.label("not judged")
                op = "pose"
            else:
                steps += 1
                n += max(exp.moved.values()) > 0 and exp.data > 0
                ctx.label("several steps", steps > 1)
                for k in exp.clamped:
                    ctx.label(k + " clamped")
        if op == "pose":
            model.euler, model.translation_init = pose(o, rng)
            e, t = model.euler.copy(), model.translation_init.copy()
            fitter.set_mesh_transform_init(e, t)
            ctx.exact(e, model.euler, what + ": angles given")
        if op in ("pose", "reset") or (op == "fresh"):
            fitter.reset()
            model.reset()
            steps = 0
            got = parameters(o, fitter)
            for k, v in model.p.items():
                ctx.close(got[k], v, "%s: %s after a reset" % (what, k), rtol=1e-14, atol=1e-15)
        if op == "image":
            obs, focal, dist = observation(o, rng, int(rng.integers(4, 11)), int(rng.integers(4, 11)))
            kept = [im.copy() for im in obs]
            set_image(o, fitter, obs, focal, dist)
            model.set_image(obs, focal, dist)
        elif op == "background":
            new_background(o, rng, z)
            set_background(o, fitter)
        elif op == "fresh":
            # a fitter that is reset behaves as a new one
            with contextlib.redirect_stdout(io.StringIO()):
                other = build(o, library)
            other.set_mesh_transform_init(model.euler.copy(), model.translation_init.copy())
            other.reset()
            set_image(o, other, obs, focal, dist)
            set_background(o, other)
            for s in range(3):
                a, b = step(o, fitter), step(o, other)
                if not np.all(np.isfinite(a[0])):
                    break
                ctx.check(a[0] == b[0], "%s: step %d after the reset has energy %r, with a new fitter %r", what, s, a[0], b[0])
                for x, y in zip(a[1] + a[2], b[1] + b[2]):
                    ctx.exact(x, y, "%s: image of step %d after a reset and of a new fitter" % (what, s))
                p, q = parameters(o, fitter), parameters(o, other)
                for k in p:
                    ctx.exact(p[k], q[k], "%s: %s after %d steps, reset and new fitter" % (what, k, s + 1))
                if not o.update_lights:
                    ctx.exact(p.get("light", 0), getattr(o, "light", 0), what + ": light")
                    ctx.exact(p.get("ambient", 0), getattr(o, "ambient", 0), what + ": ambient")
                if not o.update_color:
                    ctx.exact(p.get("color", 0), getattr(o, "color", 0), what + ": color")
            fitter.reset()
            model.reset()
            ctx.label("reset and new fitter")
            n += 1
        for a, b in zip(obs, kept):
            ctx.exact(a, b, what + ": observation given")
        for a, b in zip(*given):
            ctx.exact(a, b, what + ": mesh given")
    ctx.label(o.kind)
    ctx.nontrivial(n > 0)


@st.composite
def long_cases(draw):
    return {
        "mesh": draw(meshes.mesh_cases(max_splits=0, shapes=["tetra", "octa", "grid"], iso=False)), "kind": draw(st.sampled_from(["multi", "multi", "multi", "rgb", "depth"])), "scale": 0, "offset": 0.0, "frames": draw(st.integers(1, 2)),
        "opts": draw(st.integers(0, 31)) | 1, "w": 4, "h": 4, "restart": draw(st.booleans()), "seed": draw(st.integers(0, 2**31 - 1)),
    }


def long_history(case, ctx, library="numpy"):
    """More than 500 steps, then a reset: the gradient of the vertices is only centred during the first 500 iterations."""
    rng = rng_of(case)
    o = options(case, rng)
    o.cregu = o.kwargs["cregu"] = 10.0
    z = 6 * o.radius
    new_background(o, rng, z)
    with contextlib.redirect_stdout(io.StringIO()):
        fitter = build(o, library)
    model = Model(o)
    obs, focal, dist = observation(o, rng, case["w"], case["h"])
    obs = [np.minimum(im, 1) if o.kind == "rgb" else im for im in obs]
    set_image(o, fitter, obs, focal, dist)
    set_background(o, fitter)
    model.set_image(obs, focal, dist)
    start = int(rng.integers(400, 499))
    for s in range(start):
        step(o, fitter)
    # the speeds are those of the first judged step
    n = 0
    previous = None
    for s in range(start, 512):
        model.p = parameters(o, fitter)
        if not all(np.all(np.isfinite(v)) and np.abs(v).max() < 1e6 for v in model.p.values()):
            raise Skip("divergence")
        model.iter = s
        if previous is None or s < 498 or s > 504:
            before = model.p["vertices"]
            step(o, fitter)
            after = parameters(o, fitter)["vertices"]
            model.speed = {k: np.zeros(np.shape(v)) for k, v in model.p.items()}
            model.tol = {k: np.inf for k in model.p}
            previous = model.speed["vertices"] = after - (before - before.mean(axis=0))
            model.tol["vertices"] = 1e-13 * np.abs(before).max()
            continue
        model.tol.update({k: np.inf for k in model.p if k != "vertices"})
        exp = compare_step(ctx, o, model, fitter, "step %d" % s)
        if exp is None:
            previous = None
            step(o, fitter)
            continue
        n += exp.moved["vertices"] > 0
    fitter.reset()
    model.reset()
    if not case["restart"]:
        set_image(o, fitter, obs, focal, dist)
    for s in range(2):
        if compare_step(ctx, o, model, fitter, "step %d after the reset" % s) is None:
            break
        n += 1
    ctx.nontrivial(n > 0)
    ctx.label(o.kind)


@st.composite
def check_cases(draw):
    case = draw(long_cases())
    case.update(kind="multi", w=draw(st.integers(4, 16)), h=draw(st.integers(4, 16)), steps=draw(st.integers(0, 3)))
    return case


def checked_step(case, ctx):
    """Asking for a verification of the gradients does not change the steps."""
    rng = rng_of(case)
    o = options(case, rng)
    new_background(o, rng, 6 * o.radius)
    obs, focal, dist = observation(o, rng, case["w"], case["h"])
    pair = []
    for _ in range(2):
        with contextlib.redirect_stdout(io.StringIO()):
            fitter = build(o, "numpy")
        set_image(o, fitter, obs, focal, dist)
        set_background(o, fitter)
        for _ in range(case["steps"]):
            step(o, fitter)
        pair.append(fitter)
    for s in range(2):
        what = "step %d" % s
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                energy, images, diffs = pair[1].step(check_gradient=True)
            exact = True
        except AssertionError:
            # not differentiable there, or too large for finite differences: the next step is the one that was asked
            energy, images, diffs = step(o, pair[1])
            exact = False
        exp = step(o, pair[0])
        p, q = [parameters(o, x) for x in pair]
        if not all(np.all(np.isfinite(v)) and np.abs(v).max() < 1e6 for v in p.values()):
            raise Skip("divergence")
        if exact:
            ctx.check(energy == exp[0], "%s: the energy is %r with a verification of the gradients instead of %r", what, energy, exp[0])
            for a, b in zip(images, exp[1]):
                ctx.exact(a, b, what + ": image")
            for a, b in zip(diffs, exp[2]):
                ctx.exact(a, b, what + ": squared differences")
            for k in p:
                ctx.exact(q[k], p[k], what + ": " + k)
            ctx.label("verified")
        else:
            size = np.abs(p["vertices"]).max()
            # the vertices are centred once more
            ctx.close(q["vertices"], p["vertices"], what + ": vertices after a failed verification", rtol=0, atol=1e-11 * (1 + size))
            ctx.label("verification failed")
            break
    ctx.nontrivial(bool(np.isfinite(energy)))
