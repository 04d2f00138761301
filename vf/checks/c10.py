"""C10: invalid scenes are rejected, valid ones in any memory layout are rendered; memory safety is fuzzed (c10_fuzz)."""
import numpy as np
from hypothesis import strategies as st

from .. import scenes
from ..core import Check, Sub, Violation
from . import c10_fuzz

NAMES = ("ij", "colors", "shade", "uv", "texture")


def wrong_sizes(n, rd):
    """Another size than n."""
    k = int(rd.u8(1)[0] % 4)
    return [n + 1, max(n - 1, 0), n + 3, 0][k]


def resized(a, axis, n):
    out = np.take(a, np.arange(n) % max(a.shape[axis], 1), axis=axis) if a.shape[axis] else np.zeros(
        a.shape[:axis] + (n,) + a.shape[axis + 1 :], a.dtype
    )
    return np.ascontiguousarray(out)


class Setup:
    def __init__(self, d):
        from deodr.differentiable_renderer import Scene2D

        self.s = scenes.scene2d(scenes.copy_scene(d))
        h, w, c = d["height"], d["width"], d["nb_colors"]
        self.image, self.z, self.err = np.zeros((h, w, c)), np.zeros((h, w)), np.zeros((h, w))
        self.obs = np.full((h, w, c), 0.3)
        self.image_b, self.err_b = np.ones((h, w, c)), np.ones((h, w))


def resize_scene(name, axis):
    def f(u, rd):
        a = getattr(u.s, name)
        n = wrong_sizes(a.shape[axis], rd)
        setattr(u.s, name, resized(a, axis, n))
        return n != a.shape[axis]

    f.__name__ = "%s resized along axis %d" % (name, axis)
    return f


def resize_buffer(name, axis):
    def f(u, rd):
        a = getattr(u, name)
        n = wrong_sizes(a.shape[axis], rd)
        setattr(u, name, resized(a, axis, n))
        return n != a.shape[axis]

    f.__name__ = "buffer %s resized along axis %d" % (name, axis)
    return f


def bad_index(u, rd):
    nv = len(u.s.ij)
    v = [nv, nv + 1, nv + 1000, 2**31, 2**32 - 1, 2**31 - 1][rd.u8(1)[0] % 6]
    k = rd.u8(2)
    u.s.faces[k[0] % len(u.s.faces), k[1] % 3] = v
    return True


def bad_index_uv(u, rd):
    n = len(u.s.uv)
    v = [n, n + 1, n + 1000, 2**31, 2**32 - 1][rd.u8(1)[0] % 5]
    k = rd.u8(2)
    u.s.faces_uv[k[0] % len(u.s.faces_uv), k[1] % 3] = v
    return True


def negative_index_uv(u, rd):
    u.s.faces_uv = u.s.faces_uv.astype(np.int64)
    k = rd.u8(2)
    u.s.faces_uv[k[0] % len(u.s.faces_uv), k[1] % 3] = -1 - int(rd.u8(1)[0] % 5)
    return True


def faces_dtype(u, rd):
    u.s.faces = u.s.faces.astype([np.int32, np.int64, np.float64, np.uint8][rd.u8(1)[0] % 4])
    return True


def two_backgrounds(u, rd):
    s = u.s
    s.background_image = np.zeros((s.height, s.width, s.nb_colors))
    s.background_color = np.zeros(s.nb_colors)
    return True


def no_background(u, rd):
    u.s.background_image = u.s.background_color = None
    return True


def background_shape(u, rd):
    s = u.s
    if s.background_image is not None:
        ax = int(rd.u8(1)[0] % 3)
        n = wrong_sizes(s.background_image.shape[ax], rd)
        ok = n != s.background_image.shape[ax]
        s.background_image = resized(s.background_image, ax, n)
        return ok
    n = wrong_sizes(len(s.background_color), rd)
    ok = n != len(s.background_color)
    s.background_color = resized(s.background_color, 0, n)
    return ok


def texture_channels(u, rd):
    if u.s.texture.size == 0:
        return False
    n = wrong_sizes(u.s.texture.shape[2], rd)
    ok = n > 0 and n != u.s.texture.shape[2]
    u.s.texture = resized(u.s.texture, 2, n)
    u.s.texture_b = np.zeros(u.s.texture.shape)
    return ok


def texture_flat(u, rd):
    if u.s.texture.size == 0:
        return False
    u.s.texture = u.s.texture[:, :, 0].copy()
    u.s.texture_b = np.zeros(u.s.texture.shape)
    return True


def no_texture(u, rd):
    if not u.s.textured.any():
        return False
    u.s.texture = [np.zeros((0, 0)), np.zeros((0, 0, u.s.nb_colors)), np.zeros((0, 3, u.s.nb_colors))][rd.u8(1)[0] % 3]
    u.s.texture_b = np.zeros(u.s.texture.shape)
    return True


def scene_size(u, rd):
    k = rd.u8(2)
    d = [1, -1, 5, -2][k[0] % 4]
    if k[1] % 2:
        u.s.height += d
    else:
        u.s.width += d
    return True


def missing_buffer(name):
    def f(u, rd):
        setattr(u, name, None)
        return True

    f.__name__ = "no " + name
    return f


def flat(name):
    def f(u, rd):
        a = getattr(u.s, name)
        setattr(u.s, name, a.reshape(-1) if a.ndim > 1 else a[:, None])
        return True

    f.__name__ = name + " with another number of dimensions"
    return f


def gradient_shape(name):
    def f(u, rd):
        a = getattr(u.s, name)
        if a.size == 0:
            return False
        ax = int(rd.u8(1)[0]) % a.ndim
        n = wrong_sizes(a.shape[ax], rd)
        setattr(u.s, name, resized(a, ax, n))
        return n != a.shape[ax]

    f.__name__ = name + " resized"
    return f


def missing_gradient(name):
    def f(u, rd):
        if getattr(u.s, name).size == 0:
            return False
        setattr(u.s, name, None)
        return True

    f.__name__ = "no " + name
    return f


SCENE = [resize_scene(n, 0) for n in ("faces", "faces_uv", "ij", "shade", "colors", "edgeflags", "textured", "shaded", "depths")]
SCENE += [resize_scene(n, 1) for n in ("faces", "faces_uv", "ij", "colors", "edgeflags", "uv")]
SCENE += [flat(n) for n in ("ij", "uv", "colors", "shade", "edgeflags", "textured", "shaded", "faces", "faces_uv")]
SCENE += [bad_index, bad_index_uv, negative_index_uv, faces_dtype, two_backgrounds, no_background, background_shape, texture_channels,
          texture_flat, no_texture, scene_size]
BUFFERS = {
    "render": ["image", "z"], "error": ["image", "z", "obs", "err"],
    "backward": ["image", "z", "image_b"], "error backward": ["image", "z", "obs", "err", "err_b"],
}
GRADIENTS = [gradient_shape(k + "_b") for k in NAMES] + [missing_gradient(k + "_b") for k in NAMES]


def faults(mode):
    out = list(SCENE)
    for b in BUFFERS[mode]:
        axes = 3 if b in ("image", "obs", "image_b") else 2
        out += [resize_buffer(b, k) for k in range(axes)] + [missing_buffer(b)]
    if "backward" in mode:
        out += GRADIENTS
    return out


def call(u, mode, sigma):
    from deodr.differentiable_renderer import renderScene, renderSceneB

    if mode == "render":
        renderScene(u.s, sigma, u.image, u.z)
    elif mode == "error":
        renderScene(u.s, sigma, u.image, u.z, True, u.obs, u.err)
    elif mode == "backward":
        renderSceneB(u.s, sigma, u.image, u.z, u.image_b)
    else:
        renderSceneB(u.s, sigma, u.image, u.z, None, True, u.obs, u.err, u.err_b)


def prop_reject(case, ctx):
    d = scenes.decode(case)
    mode = case["mode"]
    rd = scenes.Reader(case["data"][::-1])
    table = faults(mode)
    fault = table[case["fault"] % len(table)]
    u = Setup(d)
    if "backward" in mode:
        call(u, mode.replace(" backward", "").replace("backward", "render"), case["sigma"])
    if not fault(u, rd):
        ctx.label("fault without object")
        return
    try:
        call(u, mode, case["sigma"])
        raised = False
    except BaseException:
        raised = True
    ctx.check(raised, "%s: a scene with a fault (%s) is accepted", mode, fault.__name__)
    # the process is still usable
    v, w = Setup(d), Setup(d)
    for x in (v, w):
        call(x, mode.replace(" backward", "").replace("backward", "render"), case["sigma"])
    ctx.exact(v.image, w.image, "image of the valid scene")
    ctx.nontrivial()
    ctx.label("%s: %s" % (mode, fault.__name__))


@st.composite
def reject_cases(draw):
    c = draw(scenes.scene_cases(culling=True, persp=False, max_size=9, max_nv=8, max_nf=5, geoms=["generic", "mesh"], min_size=3))
    c["mode"] = draw(st.sampled_from(sorted(BUFFERS)))
    c["fault"] = draw(st.integers(0, 255))
    return c


def prop_large(case, ctx):
    """Sizes that do not fit in the integers used for the rows and columns: rendered or rejected, never stuck."""
    from deodr.differentiable_renderer import Scene2D

    n, other = case["n"], case["other"]
    h, w = (n, other) if case["tall"] else (other, n)
    ij = np.array([[-0.6 * w, -0.6 * h], [1.7 * w + 5, -0.3 * h], [0.5 * w, case["reach"] * h + 2.3]])
    d = dict(
        faces=np.array([[0, 1, 2]], dtype=np.uint32), faces_uv=np.array([[0, 1, 2]], dtype=np.uint32), ij=ij,
        depths=np.ones(3), textured=np.zeros(1, dtype=bool), uv=np.zeros((3, 2)), shade=np.zeros(3), colors=np.ones((3, 1)),
        shaded=np.zeros(1, dtype=bool), edgeflags=np.ones((1, 3), dtype=bool), height=h, width=w, nb_colors=1,
        texture=np.zeros((0, 0)), background_color=np.zeros(1), clockwise=True, backface_culling=True,
    )
    s = Scene2D(**d)
    try:
        image, z = s.render(case["sigma"])
    except BaseException:
        ctx.label("rejected")
        ctx.check(n > 32000, "an image of %d x %d is rejected", h, w)
        return
    # the area of the triangle inside the image, by columns or rows
    ctx.label("rendered")
    ctx.nontrivial()
    P = ij
    ys, xs = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
    e = [(P[(k + 1) % 3][0] - P[k][0]) * (ys - P[k][1]) - (P[(k + 1) % 3][1] - P[k][1]) * (xs - P[k][0]) for k in range(3)]
    inside = (e[0] > 1e-3) & (e[1] > 1e-3) & (e[2] > 1e-3)
    outside = (e[0] < -1e-3) | (e[1] < -1e-3) | (e[2] < -1e-3)
    ctx.check(np.all(np.isfinite(z[inside])), "pixels of the triangle are not rendered in an image of %d x %d", h, w)
    ctx.check(not np.any(np.isfinite(z[outside])), "pixels out of the triangle are rendered in an image of %d x %d", h, w)
    s.render_backward(np.ones(image.shape))


def large_cases():
    return st.fixed_dictionaries({
        "n": st.sampled_from([300, 5000, 20000, 32000, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 70000, 140000]),
        "other": st.integers(1, 6), "tall": st.booleans(), "reach": st.sampled_from([0.2, 0.5, 0.9, 1.0, 1.5, 3.0]),
        "sigma": st.sampled_from([0.0, 1.0]),
    })


def prop_channels(case, ctx):
    """Channels do not depend on one another, however many there are: the scene with a few of them gives the same."""
    from deodr.differentiable_renderer import Scene2D

    rng = scenes.rng_of(case)
    n, h, w = case["n"], case["h"], case["w"]
    nv = 5
    ij = rng.uniform(-1, 1 + max(h, w), (nv, 2))
    f = np.array([rng.permutation(nv)[:3] for _ in range(2)])
    p = ij[f]
    area = np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0])
    f[area < 0] = f[area < 0][:, ::-1]
    f = f.astype(np.uint32)
    textured = rng.random(2) < 0.5
    whole = dict(
        faces=f, faces_uv=f, ij=ij, depths=rng.uniform(1, 2, nv), textured=textured, uv=rng.uniform(0, 3, (nv, 2)), shade=rng.random(nv), colors=rng.random((nv, n)),
        shaded=textured.copy(), edgeflags=np.ones((2, 3), dtype=bool), height=h, width=w, nb_colors=n, texture=rng.random((3, 3, n)), clockwise=True, backface_culling=True,
    )
    background, image_b = rng.random((h, w, n)), rng.standard_normal((h, w, n))

    def run(sel):
        d = dict(whole, colors=whole["colors"][:, sel].copy(), texture=whole["texture"][:, :, sel].copy())
        d["nb_colors"] = d["colors"].shape[1]
        s = Scene2D(background_image=background[:, :, sel].copy(), **d)
        if case["error"]:
            im, z, err = s.render_error(background[:, :, sel] * 0.5, case["sigma"])
        else:
            im, z = s.render(case["sigma"])
            err = np.zeros((h, w))
        out = [im, z, err]
        s.clear_gradients()
        try:
            if case["error"]:
                s.render_error_backward(image_b[:, :, 0].copy())
            else:
                s.render_backward(image_b[:, :, sel].copy())
        except BaseException:
            if d["nb_colors"] < 1000:
                raise
            return out + [None]
        return out + [{k: getattr(s, k + "_b") for k in NAMES}]

    try:
        im, z, err, g = run(slice(0, n))
    except BaseException:
        ctx.label("rejected")
        ctx.check(n > 32767, "an image of %d channels is rejected", n)
        return
    parts = [run(slice(a, a + 997)) for a in range(0, n, 997)]
    ctx.exact(im, np.concatenate([q[0] for q in parts], axis=2), "image of %d channels" % n)
    ctx.exact(z, parts[0][1], "depths of an image of %d channels" % n)
    ctx.close(err, sum(q[2] for q in parts), "error with %d channels" % n, rtol=1e-10, atol=1e-12 * n)
    if g is None:
        ctx.label("gradient rejected")
        ctx.check(n > 10000, "gradients are rejected with %d channels", n)
    else:
        for k in NAMES:
            e = np.concatenate([q[3][k] for q in parts], axis=-1) if k in ("colors", "texture") else sum(q[3][k] for q in parts)
            ctx.close(g[k], e, "gradient of %s with %d channels" % (k, n), rtol=1e-8, atol=1e-9 * n)
    ctx.nontrivial(np.isfinite(z).any())


def channel_cases():
    return st.fixed_dictionaries({
        "n": st.sampled_from([1, 30, 500, 3000, 10900, 10922, 10923, 11000, 21845, 21846, 32766, 32767, 32768, 32769, 40000, 65536, 70000]),
        "h": st.integers(1, 6), "w": st.integers(1, 6), "sigma": st.sampled_from([0.0, 1.0, 1.5]), "error": st.booleans(), "seed": st.integers(0, 2**31 - 1),
    })


LAYOUTS = ["same", "fortran", "strided", "reversed", "float32", "readonly"]


def relayout(a, kind):
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "strided":
        big = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        v = big[tuple(slice(0, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "reversed":
        return a[::-1].copy()[::-1]
    if kind == "float32" and a.dtype == np.float64:
        return a.astype(np.float32)
    if kind == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.copy()


def prop_layout(case, ctx):
    d = scenes.decode(case)
    rd = scenes.Reader(case["data"][::-1])
    e, ref = scenes.copy_scene(d), scenes.copy_scene(d)
    for k in sorted(k for k, v in d.items() if isinstance(v, np.ndarray)):
        kind = LAYOUTS[rd.u8(1)[0] % len(LAYOUTS)]
        e[k] = relayout(d[k], kind)
        ref[k] = np.ascontiguousarray(e[k]).astype(d[k].dtype)
        ctx.label("%s %s" % (k, kind))
    if rd.u8(1)[0] % 2:
        e["faces_uv"] = e["faces_uv"].astype(np.int64)
    grad = d["backface_culling"] and not d["perspective_correct"]
    b = scenes.rng_of(case, 3).standard_normal((d["height"], d["width"], d["nb_colors"]))
    res = []
    for x in (e, ref):
        s = scenes.scene2d(x)
        im, z = s.render(case["sigma"])
        g = {}
        if grad:
            s.render_backward(relayout(b, LAYOUTS[rd.u8(1)[0] % 4]))
            g = {k: getattr(s, k + "_b") for k in NAMES}
        res.append((im, z, g))
    ctx.exact(res[0][0], res[1][0], "image with other memory layouts")
    ctx.exact(res[0][1], res[1][1], "z-buffer with other memory layouts")
    for k in res[0][2]:
        ctx.exact(res[0][2][k], res[1][2][k], "gradient of %s with other memory layouts" % k)
    ctx.nontrivial(np.isfinite(res[1][1]).any())


SPECIAL = [0.0, -0.0, 1.0, -1.0, float("nan"), float("inf"), -float("inf"), 1e300, -1e300, 1e308, 5e-324, 32767.0, 32768.0, -32769.0, 65536.0, 2.0**31, -(2.0**31) - 1, 1e19]


def prop_wild(case, ctx):
    """Any floating point value in one face leaves the pixels that this face cannot touch alone."""
    d = scenes.decode(case)
    rd = scenes.Reader(case["data"][::-1])
    image, z = scenes.render(d, 0.0)
    e = scenes.copy_scene(d)
    nv = len(d["ij"])
    vals = np.array(SPECIAL)
    new = np.column_stack((rd.u8(3) / 16.0, rd.u8(3) / 16.0))
    m = rd.u8(6).reshape(3, 2) % 3 == 0
    new[m] = vals[rd.u8(6).reshape(3, 2) % len(vals)][m]
    dep = 0.5 + rd.u8(3) / 100.0
    m = rd.u8(3) % 4 == 0
    dep[m] = vals[rd.u8(3) % len(vals)][m]
    e["ij"] = np.vstack((d["ij"], new))
    e["depths"] = np.concatenate((d["depths"], dep))
    e["shade"] = np.concatenate((d["shade"], vals[rd.u8(3) % len(vals)]))
    e["colors"] = np.vstack((d["colors"], vals[rd.u8(3 * d["nb_colors"]).reshape(3, -1) % len(vals)]))
    e["faces"] = np.vstack((d["faces"], [[nv, nv + 1, nv + 2]])).astype(np.uint32)
    for k in ("faces_uv", "textured", "shaded", "edgeflags"):
        e[k] = np.concatenate((d[k], d[k][:1]))
    image2, z2 = scenes.render(e, 0.0)
    only = scenes.copy_scene(e)
    for k in ("faces", "faces_uv", "textured", "shaded", "edgeflags"):
        only[k] = e[k][-1:].copy()
    image1, z1 = scenes.render(only, 0.0)
    touched = np.isfinite(z1) | np.isnan(z1)
    ctx.check(np.array_equal(image2[~touched], image[~touched], equal_nan=True), "pixels that the face does not cover changed")
    ctx.check(np.array_equal(z2[~touched], z[~touched]), "depths of pixels that the face does not cover changed")
    if not np.all(dep >= 0):
        # a vertex behind the camera, or nan: at least negative ones are not drawn
        if np.any(dep < 0):
            ctx.check(not touched.any(), "a face with a vertex behind the camera is drawn")
    if np.isnan(new).any():
        ctx.check(not touched.any(), "a face with an undefined position is drawn")
    s = scenes.scene2d(e)
    s.render(case["sigma"])
    if d["backface_culling"] and not d["perspective_correct"]:
        s.render_backward(np.ones(image.shape))
        # gradients of the data that the scene does not use
        unused = np.ones(len(e["ij"]), dtype=bool)
        unused[e["faces"].astype(int).ravel()] = False
        for k in ("ij", "colors", "shade"):
            ctx.check(not getattr(s, k + "_b")[unused].any(), "gradient of an unused vertex")
    ctx.nontrivial(bool(np.isfinite(z).any()))
    ctx.label("face with wild values drawn", bool(touched.any()))


CHECK = Check(
    "C10",
    "(1) libFuzzer with address and undefined behaviour sanitizers on the C++ header, scenes decoded from bytes with every kind of floating point value, "
    "forward and backward in both modes; (2) valid scenes with one generated fault (sizes, dimensions, indices, buffers, backgrounds), which have to raise; "
    "(3) valid scenes in other memory layouts; (4) images of up to 140000 rows or columns; (5) a face with wild values among others",
    [
        Sub("reject", reject_cases, prop_reject, 5120, 40000),
        Sub("large", large_cases, prop_large, 256, 1200),
        Sub("channels", channel_cases, prop_channels, 120, 2000),
        Sub("layout", lambda: scenes.scene_cases(min_size=2, max_size=10), prop_layout, 1280, 15000),
        Sub("wild", lambda: scenes.scene_cases(min_size=2, max_size=10), prop_wild, 3840, 40000),
    ],
    assumptions=["calls with check_valid=False are out of the property", "images are limited to 32767 rows and columns, larger ones may be rejected"],
    runner=c10_fuzz,
)
