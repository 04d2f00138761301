"""C31: scenes given to pyrender, and their rendering, against the definition of the scene."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import cams, meshes
from ..core import Check, Skip, Sub, Violation
from ..scenes import rng_of
from . import c29

RECORDED = []


def headless():
    """EGL contexts, the type of ctypes parameters in Python 3.12 registered in PyOpenGL, and a record of what is rendered."""
    os.environ["PYOPENGL_PLATFORM"] = "egl"
    import ctypes

    from OpenGL.arrays import ctypesparameters

    ctypesparameters.CtypesParameterHandler().register([type(ctypes.byref(ctypes.c_uint(0)))])
    import pyrender

    original = pyrender.offscreen.OffscreenRenderer.render
    if getattr(original, "vf", False):
        return

    def render(self, scene, *args, **kwargs):
        RECORDED.append(scene)
        return original(self, scene, *args, **kwargs)

    render.vf = True
    pyrender.offscreen.OffscreenRenderer.render = render


def to_linear(s):
    return np.where(s > 0.04045, ((np.maximum(s, 0.04045) + 0.055) / 1.055) ** 2.4, s / 12.92)


def shade(tex, ambient):
    """Color given by pyrender to a texture lit by an ambient light."""
    return np.clip((to_linear(np.clip(tex, 0, 1)) * ambient) ** (1 / 2.2), 0, 1) * 255


def surface(S, V, ij, z, P):
    """Texture coordinates and depth of the visible faces at the positions P."""
    f = S.faces
    k = np.maximum(V.face, 0)
    p = ij[f[k]]
    A = c29.scenes.cross2(p[..., 1, :] - p[..., 0, :], p[..., 2, :] - p[..., 0, :])
    with np.errstate(all="ignore"):
        b = np.stack([c29.scenes.cross2(p[..., (i + 2) % 3, :] - p[..., (i + 1) % 3, :], P - p[..., (i + 1) % 3, :]) / A for i in range(3)], axis=-1)
    b = b / z[f[k]]
    s = b.sum(axis=-1, keepdims=True)
    b = b / s
    return (b[..., None] * S.uv[S.faces_uv[k]]).sum(axis=-2), 1 / s[..., 0]


def check_record(ctx, R, S, cam, normals):
    """What is given to pyrender."""
    ctx.check(np.allclose(R.ambient_light, S.ambient, atol=1e-6), "the ambient light is %s instead of %s", R.ambient_light, S.ambient)
    ctx.check(np.allclose(np.asarray(R.bg_color)[:3], S.bg, atol=1e-6), "the background is %s instead of %s", R.bg_color, S.bg)
    lights = [n for n in R.nodes if n.light is not None]
    norm = np.linalg.norm(S.light)
    ctx.check(len(lights) == (norm > 0), "%d lights", len(lights))
    for n in lights:
        pose = R.get_pose(n)
        ctx.check(np.allclose(pose[:3, :3].dot(pose[:3, :3].T), np.eye(3), atol=1e-6) and np.linalg.det(pose[:3, :3]) > 0, "the pose of the light is not rigid")
        d = -pose[:3, 2] * n.light.intensity
        ctx.check(np.allclose(d, S.light, atol=1e-5 * norm), "the light is %s instead of %s", d, S.light)
        ctx.check(np.allclose(n.light.color, 1), "the light is not white")
    cameras = [n for n in R.nodes if n.camera is not None]
    ctx.check(len(cameras) == 1, "%d cameras", len(cameras))
    proj = cameras[0].camera.get_projection_matrix(cam.width, cam.height).dot(np.linalg.inv(R.get_pose(cameras[0])))
    q = np.column_stack((S.vertices, np.ones(len(S.vertices)))).dot(proj.T)
    i, j, z = cams.project(cam.extrinsic, cam.intrinsic, cam.distortion, S.vertices)
    off = 0.5 if S.intpix else 0.0
    win = np.column_stack(((q[:, 0] / q[:, 3] + 1) / 2 * cam.width, (1 - q[:, 1] / q[:, 3]) / 2 * cam.height))
    exp = np.column_stack((i + off, j + off))
    ctx.check(np.abs(win - exp).max() < 1e-5 * (1 + np.abs(exp).max()), "the vertices are projected at %s instead of %s", win, exp)
    ctx.check(np.allclose(q[:, 3], z, rtol=1e-6), "wrong depths")
    used = np.unique(S.faces)
    ctx.check(np.abs(q[used, 2] / q[used, 3]).max() < 1, "vertices out of the clipping planes")
    found = [n for n in R.nodes if n.mesh is not None]
    ctx.check(len(found) == 1 and np.array_equal(R.get_pose(found[0]), np.eye(4)), "the mesh is moved")
    corners = []
    for prim in found[0].mesh.primitives:
        idx = np.asarray(prim.indices).astype(int)
        corners.append(np.concatenate((prim.positions[idx], prim.normals[idx], prim.texcoord_0[idx]), axis=-1))
    corners = np.concatenate(corners)
    th, tw = S.texture.shape[:2]
    uv = S.uv[S.faces_uv]
    exp = np.concatenate((S.vertices[S.faces], normals[S.faces], (uv[..., :1] + 0.5) / tw, 1 - (uv[..., 1:] + 0.5) / th), axis=-1)
    if S.M.clockwise:
        exp = exp[:, ::-1]
    ctx.check(corners.shape == exp.shape, "%s faces", corners.shape)
    # normals that nearly cancel are not compared
    known = meshes.vertex_normals(S.vertices, S.faces, S.M.clockwise)[1][S.faces[:, ::-1] if S.M.clockwise else S.faces] > 1e-3
    compared = np.ones(exp.shape, dtype=bool)
    compared[..., 3:6] = known[..., None]
    exp = np.where(compared, exp, 0)
    tol = 1e-5 * (1 + np.abs(exp).max())
    good = np.zeros(len(exp), dtype=bool)
    for r in range(3):
        m = np.roll(compared, r, axis=1)
        good |= (np.abs(np.where(m, corners, 0) - np.roll(exp, r, axis=1)) <= tol).all(axis=(1, 2))
    if not good.all():
        k = int(np.argmin(good))
        raise Violation("corners of face %d (position, normal, texture coordinates): %s instead of %s" % (k, corners[k].tolist(), exp[k].tolist()))


def prop(case, ctx):
    headless()
    import deodr.opengl.pyrender as conversion

    rng = rng_of(case)
    S = c29.new_scene(dict(case, flat=case["flat"]), rng, 0)
    if case["light"] == "none":
        S.light = np.zeros(3)
    elif case["light"] == "axis":
        S.light = np.eye(3)[int(rng.integers(0, 3))] * (1 if rng.random() < 0.6 else -1) * float(rng.uniform(0.1, 3))
    elif case["light"] == "near":
        S.light = np.array([0, 0, 1.0]) * (1 if rng.random() < 0.7 else -1) + rng.standard_normal(3) * 10.0 ** rng.uniform(-9, -1)
    else:
        S.light = rng.standard_normal(3) * 10.0 ** rng.uniform(-2, 2)
    S.ambient = float(rng.uniform(0.1, 1))
    scale = 10.0 ** case["scale"]
    S.vertices = S.vertices * scale
    S.mesh.set_vertices(S.vertices.copy())
    S.scene.set_light(S.light.copy(), S.ambient)
    w, h = case["w"], case["h"]
    if case["bgimage"]:
        S.scene.background_color = None
        S.scene.background_image = None
        S.scene.set_background_image(np.tile(S.bg, (h, w, 1)))
    cam = meshes.camera_for(case, S, rng, w, h, "none", case["deep"] and not S.flat)
    cam.intrinsic[0, 1] = 0
    if S.flat:
        c = 0.5 * (S.vertices.max(axis=0) + S.vertices.min(axis=0))
        dist = np.linalg.norm(cam.extrinsic[:, :3].dot(c) + cam.extrinsic[:, 3])
        R = np.diag([1.0, 1, 1] if rng.random() < 0.5 else [1.0, -1, -1])
        cam = type(cam)(np.column_stack((R, [0, 0, dist] - R.dot(c))), cam.intrinsic, h, w, cam.distortion)
    if case["off"]:
        cam.intrinsic[:2, 2] += rng.uniform(-0.5, 0.5, 2) * [w, h]
    kept = [S.mesh.vertices.copy(), S.mesh.uv.copy(), np.array(S.mesh.faces), cam.extrinsic.copy(), cam.intrinsic.copy()]
    if case["fault"]:
        fault = case["fault"]
        if fault == "distortion":
            cam.distortion = rng.uniform(-0.1, 0.1, 5)
        elif fault == "skew":
            cam.intrinsic[0, 1] = rng.uniform(0.1, 10)
        else:
            bg = np.tile(S.bg, (h, w, 1))
            bg[int(rng.integers(0, h)), int(rng.integers(0, w)), int(rng.integers(0, 3))] += 0.1
            S.scene.background_color = None
            S.scene.background_image = None
            S.scene.set_background_image(bg)
        try:
            conversion.render(S.scene, cam)
        except BaseException:
            ctx.nontrivial()
            ctx.label("rejected: " + fault)
            return
        raise Violation("accepted with " + fault)
    i, j, z = cams.project(cam.extrinsic, cam.intrinsic, cam.distortion, S.vertices)
    if z.min() < 0.004 * z.max():
        raise Skip("vertices near the camera plane")
    if max(np.abs(i).max(), np.abs(j).max()) > 4000:
        raise Skip("vertices very far from the image")
    ij = np.column_stack((i, j))
    del RECORDED[:]
    image, depth = conversion.render(S.scene, cam)
    ctx.check(len(RECORDED) == 1, "%d renderings", len(RECORDED))
    normals = meshes.vertex_normals(S.vertices, S.faces, S.M.clockwise)[0]
    check_record(ctx, RECORDED.pop(), S, cam, normals)
    for a, b in zip(kept, [S.mesh.vertices, S.mesh.uv, S.mesh.faces, cam.extrinsic, cam.intrinsic]):
        ctx.exact(b, a, "inputs")
    ctx.check(image.shape == (h, w, 3) and image.dtype == np.uint8 and depth.shape == (h, w), "images of shapes %s and %s", image.shape, depth.shape)
    off = 0.0 if S.intpix else 0.5
    V = c29.visibility(S.faces, ij, z, S.M.clockwise, w, h, off)
    # 4 samples per pixel, at most half a pixel away: only pixels inside of the faces
    inner = V.sure.copy()
    inner[1:] &= V.sure[:-1] & (V.face[1:] == V.face[:-1])
    inner[:-1] &= V.sure[1:] & (V.face[1:] == V.face[:-1])
    inner[:, 1:] &= V.sure[:, :-1] & (V.face[:, 1:] == V.face[:, :-1])
    inner[:, :-1] &= V.sure[:, 1:] & (V.face[:, 1:] == V.face[:, :-1])
    inner[[0, -1]] = False
    inner[:, [0, -1]] = False
    # background: far enough from every face
    back = V.background.copy()
    others = np.zeros((h, w), dtype=bool)
    nearest = surface(S, V, ij, z, V.P)[1] * 1.01
    for k, f in enumerate(S.faces):
        p = ij[f]
        box = ((V.P > p.min(axis=0) - 0.8) & (V.P < p.max(axis=0) + 0.8)).all(axis=-1)
        area = c29.scenes.cross2(p[1] - p[0], p[2] - p[0])
        for a in range(3):
            e = p[(a + 1) % 3] - p[a]
            box &= c29.scenes.cross2(e, V.P - p[a]) * np.sign(area) > -0.8 * np.linalg.norm(e)
        back &= ~box
        # another face that may be in front of the visible one at some samples
        others |= box & (V.face != k) & ((area > 0) == S.M.clockwise) & (z[f].min() < nearest)
    inner &= ~others
    uv, zz = surface(S, V, ij, z, V.P)
    dz = 1e-3 * zz
    rho = np.zeros((h, w))
    around = []
    for d in np.array([[1, 0], [-1, 0], [0, 1], [0, -1]]):
        uv1, z1 = surface(S, V, ij, z, V.P + d * 0.5)
        dz = np.maximum(dz, 1.5 * np.abs(z1 - zz))
        around.append(surface(S, V, ij, z, V.P + d * c29.SHIFT)[0])
    # the level of the texture is chosen with differences in blocks of 2 by 2 pixels, some of which can be out of the face
    block = {}
    for dx in (-1, 0, 1):
        for dy in (-1, 0, 1):
            block[dx, dy], z1 = surface(S, V, ij, z, V.P + [dx, dy])
            rho[~(z1 > 0)] = np.inf
    for a, p in block.items():
        for b in ((a[0] + 1, a[1]), (a[0], a[1] + 1)):
            if b in block:
                rho = np.maximum(rho, np.linalg.norm(block[b] - p, axis=-1))
    bad = inner & ~(np.abs(depth - zz) <= dz)
    if bad.any():
        y, x = np.argwhere(bad)[0]
        raise Violation("depth of pixel (row %d, column %d) is %r, expected %r, %d of %d pixels" % (y, x, depth[y, x], zz[y, x], bad.sum(), inner.sum()))
    bad = back & ((depth != 0) | (np.abs(image - S.bg * 255).max(axis=-1) > 1.01))
    if bad.any():
        y, x = np.argwhere(bad)[0]
        raise Violation("background pixel (row %d, column %d) is %s with depth %r instead of %s" % (y, x, image[y, x].tolist(), depth[y, x], np.round(S.bg * 255, 1).tolist()))
    n = int(inner.sum())
    if case["light"] == "none":
        texture = np.floor(S.texture * 255) / 255
        s = c29.sample(texture, uv)
        exp = shade(s, S.ambient)
        tol = np.full(exp.shape, 2.0)
        for a in around:
            tol = np.maximum(tol, 2 + 1.5 * np.abs(shade(c29.sample(texture, a), S.ambient) - exp))
        for e in (-1.5 / 255, 1.5 / 255):
            tol = np.maximum(tol, 2 + np.abs(shade(s + e, S.ambient) - exp))
        ok = inner & (rho < 0.6) & (tol.max(axis=-1) < 40)
        bad = ok & ~(np.abs(image - exp) <= tol).all(axis=-1)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("pixel (row %d, column %d) is %s, expected %s (tolerance %s), %d of %d pixels" % (
                y, x, image[y, x].tolist(), np.round(exp[y, x], 1).tolist(), np.round(tol[y, x], 1).tolist(), bad.sum(), ok.sum()))
        ctx.label("colours compared", bool(ok.any()))
    ctx.label("clockwise", S.M.clockwise)
    ctx.label("light " + case["light"])
    ctx.label("half integer pixel centres", not S.intpix)
    ctx.nontrivial(n > 10)


def prop_rotation(case, ctx):
    """The rotation that aligns a vector with another one, around an axis orthogonal to both."""
    headless()
    from deodr.opengl.pyrender import min_rotation

    rng = rng_of(case)
    a = rng.standard_normal(3)
    b = {"any": rng.standard_normal(3), "same": a.copy(), "opposite": -a, "near": a + rng.standard_normal(3) * 10.0 ** rng.uniform(-12, -2),
         "near opposite": -a + rng.standard_normal(3) * 10.0 ** rng.uniform(-4, -1), "axes": np.eye(3)[int(rng.integers(0, 3))] * rng.choice([-1, 1])}[case["kind"]]
    if case["kind"] == "axes":
        a = np.eye(3)[int(rng.integers(0, 3))] * rng.choice([-1, 1])
    b = b * 10.0 ** rng.uniform(-2, 2)
    R = min_rotation(a.copy(), b.copy())
    u, v = a / np.linalg.norm(a), b / np.linalg.norm(b)
    ctx.check(R.shape == (3, 3), "the rotation has shape %s", R.shape)
    ctx.check(np.allclose(R.dot(R.T), np.eye(3), atol=1e-6) and np.linalg.det(R) > 0, "the matrix is not a rotation")
    ctx.check(np.allclose(R.dot(u), v, atol=1e-6), "%s is aligned with %s instead of %s", u, R.dot(u), v)
    # the angle is the smallest one
    c = np.clip((np.trace(R) - 1) / 2, -1, 1)
    ctx.check(abs(c - u.dot(v)) <= 1e-5, "the cosine of the angle is %g instead of %g", c, u.dot(v))
    ctx.nontrivial()
    ctx.label(case["kind"])


@st.composite
def rotations(draw):
    return {"kind": draw(st.sampled_from(["any", "any", "same", "opposite", "near", "near opposite", "axes"])), "seed": draw(st.integers(0, 2**31 - 1))}


SHAPES = [s for s in meshes.CLOSED + meshes.OPEN if s not in ("icosa", "torus")]


@st.composite
def cases(draw):
    return {
        "mesh": draw(meshes.mesh_cases(max_splits=1, shapes=SHAPES)), "w": draw(st.integers(1, 48)), "h": draw(st.integers(1, 48)), "dist": "none", "deep": draw(st.booleans()),
        "rot": draw(st.integers(0, 15)), "flat": draw(st.integers(0, 5)) == 5, "off": draw(st.booleans()), "bgimage": draw(st.booleans()),
        "scale": draw(st.sampled_from([0, 0, 0, -2, 1, 3])), "light": draw(st.sampled_from(["none", "none", "axis", "near", "any"])),
        "fault": draw(st.sampled_from([""] * 12 + ["distortion", "skew", "background"])), "seed": draw(st.integers(0, 2**31 - 1)),
    }


CHECK = Check(
    "C31",
    "meshes of both windings and all scales, with cameras, lights and backgrounds: the camera, light, background and corners of the faces given to pyrender, and the images and "
    "depths it renders, against the definition of the scene; generated unsupported scenes; non trivial: more than 10 pixels inside of faces, or rejection",
    [Sub("pyrender", cases, prop, 896, 20000), Sub("rotation", rotations, prop_rotation, 1120, 20000)],
    assumptions=["contexts are created with EGL and the software rasteriser of Mesa; the type of ctypes parameters of Python 3.12 is registered in PyOpenGL by the harness",
                 "colours compared with ambient light only, where the texture is magnified"],
)
