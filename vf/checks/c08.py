"""C08: algebra of the backward passes, over generated histories of renderings and backward passes."""
import numpy as np
from hypothesis import strategies as st

from .. import scenes
from ..core import Check, Sub, Violation

NAMES = ("ij", "colors", "shade", "uv", "texture")
GEOMS = ["generic", "generic", "grid", "mixed", "big", "tiny", "mesh", "mesh"]


def grads(s):
    return {k: np.array(getattr(s, k + "_b")) for k in NAMES}


def compare(ctx, got, exp, scale, what, rtol=1e-7):
    for k in NAMES:
        g, e = got[k], exp[k]
        ctx.check(g.shape == e.shape, "%s: gradient of %s has shape %s instead of %s", what, k, g.shape, e.shape)
        if not g.size:
            continue
        diff = np.abs(g - e)
        tol = 1e-9 + rtol * scale[k]
        if not np.all(diff <= tol):
            i = np.unravel_index(np.argmax(np.where(np.isfinite(diff), diff, np.inf)), g.shape)
            raise Violation(
                "%s: gradient of %s at %s: got %r expected %r" % (what, k, tuple(int(v) for v in i), float(g[i]), float(e[i]))
            )


def observation(d, case, k):
    return scenes.rng_of(case, 100 + k).random((d["height"], d["width"], d["nb_colors"])) * 1.5 - 0.2


def increment(d, case, mode, k):
    """Incoming gradients: dense, sparse, or a view of another layout."""
    rng = scenes.rng_of(case, 200 + k)
    shape = (d["height"], d["width"]) + ((d["nb_colors"],) if mode == "image" else ())
    b = rng.standard_normal(shape)
    if k % 3 == 1:
        b *= rng.random(shape) < 0.3
    return b


def contribution(d, case, mode, sigma, obs, b):
    s = scenes.scene2d(scenes.copy_scene(d))
    if mode == "image":
        s.render(sigma)
        s.render_backward(b.copy())
    else:
        s.render_error(obs.copy(), sigma)
        s.render_error_backward(b.copy())
    return grads(s)


class Snapshots:
    def __init__(self, ctx):
        self.items = {}
        self.ctx = ctx

    def add(self, name, a):
        self.items[name] = (a, a.copy())

    def drop(self, a):
        self.items = {k: v for k, v in self.items.items() if v[0] is not a}

    def verify(self, when):
        for k, (a, c) in self.items.items():
            if not np.array_equal(a, c, equal_nan=True):
                raise Violation("%s was modified by %s" % (k, when))


def prop_history(case, ctx):
    d = scenes.decode(case)
    s = scenes.scene2d(scenes.copy_scene(d))
    snap = Snapshots(ctx)
    for k, v in vars(s).items():
        if isinstance(v, np.ndarray) and not k.endswith("_b"):
            snap.add("scene." + k, v)
    zero = {k: np.zeros_like(getattr(s, k + "_b")) for k in NAMES}
    total = {k: v.copy() for k, v in zero.items()}
    scale = {k: 0.0 for k in NAMES}
    store = None
    nback = naccum = 0
    for step, (op, a, b) in enumerate(case["ops"]):
        sigma = [case["sigma"], 0.0, 1.0, 2.5][a % 4]
        what = "step %d (%s)" % (step, op)
        if op == "render":
            image, z = s.render(**scenes.given(sigma))
            store = ("image", sigma, None, [image, z])
            snap.add("image of step %d" % step, image)
            snap.add("z-buffer of step %d" % step, z)
        elif op == "render_error":
            obs = observation(d, case, a % 3)
            snap.add("observation of step %d" % step, obs)
            image, z, err = s.render_error(obs, **scenes.given(sigma))
            store = ("error", sigma, obs, [image, z, err])
            for n, v in (("image", image), ("z-buffer", z), ("error buffer", err)):
                snap.add("%s of step %d" % (n, step), v)
        elif op in ("backward", "backward_nocopy"):
            if store is None:
                continue
            mode, sigma, obs, bufs = store
            inc = increment(d, case, mode, a % 4)
            c = contribution(d, case, mode, sigma, obs, inc)
            copies = op == "backward"
            if copies and b % 3 == 1:
                # not contiguous
                inc = np.asfortranarray(inc)
            given = inc if copies else inc.copy()
            snap.add("incoming gradient of step %d" % step, inc)
            if not copies:
                for v in bufs:
                    snap.drop(v)
            (s.render_backward if mode == "image" else s.render_error_backward)(given, make_copies=copies)
            if not copies:
                store = None  # the buffers of the rendering have been used
            for k in NAMES:
                total[k] = total[k] + c[k]
                scale[k] = max(scale[k], np.abs(c[k]).max(initial=0))
            nback += 1
            naccum += any(np.abs(total[k] - c[k]).max(initial=0) > 0 for k in NAMES) and np.abs(c["ij"]).max() > 0
        elif op == "clear":
            s.clear_gradients()
            total = {k: v.copy() for k, v in zero.items()}
            scale = {k: 0.0 for k in NAMES}
        elif op == "compare":
            obs = observation(d, case, a % 3)
            snap.add("observation of step %d" % step, obs)
            mask = None
            if b % 2:
                rng = scenes.rng_of(case, 300 + b)
                mask = (rng.random((d["height"], d["width"])) < 0.6).astype([float, float, bool, np.uint8, np.int64, np.float32][case["seed"] % 6])
                if case["seed"] % 7 > 3:
                    mask = rng.random((d["height"], d["width"])) * 2
                mask = scenes.laid(mask, case["seed"] // 7)
                snap.add("mask of step %d" % step, mask)
            ae, clear, copies = bool(b & 2), bool(b & 4), bool(b & 8)
            # arguments that have their default value are left out
            given = {"antialiase_error": ae, "clear_gradients": clear, "make_copies": copies}
            given = {k: v for k, v in given.items() if v != {"antialiase_error": False, "clear_gradients": True, "make_copies": True}[k]}
            if mask is not None:
                given["mask"] = mask
            image, z, err_buffer, err = s.render_compare_and_backward(obs, **scenes.given(sigma), **given)
            r = scenes.scene2d(scenes.copy_scene(d))
            m = np.ones((d["height"], d["width"])) if mask is None else mask
            if ae:
                im, zz, eb = r.render_error(obs.copy(), sigma)
                eb = eb * m
                inc = np.array(m, dtype=np.float64)
            else:
                im, zz = r.render(sigma)
                # weights that are not 0 or 1 can multiply the differences or their squares: the gradient is that of the error returned
                w = np.square(m, dtype=np.float64)
                if not np.isclose(err, np.sum((im - obs) ** 2 * w[:, :, None]), rtol=1e-9, atol=0):
                    w = np.asarray(m, dtype=np.float64)
                eb = (im - obs) ** 2 * w[:, :, None]
                inc = 2 * (im - obs) * w[:, :, None]
            if copies or ae:
                ctx.exact(image, im, what + ": image")
            ctx.exact(z, zz, what + ": z-buffer")
            ctx.close(err_buffer, eb, what + ": error buffer", rtol=1e-12, atol=1e-12)
            ctx.check(abs(err - eb.sum()) <= 1e-9 * (1 + np.abs(eb).sum()), "%s: error %r instead of %r", what, err, eb.sum())
            c = contribution(d, case, "error" if ae else "image", sigma, obs, inc)
            if clear:
                total = {k: v.copy() for k, v in zero.items()}
                scale = {k: 0.0 for k in NAMES}
            for k in NAMES:
                total[k] = total[k] + c[k]
                scale[k] = max(scale[k], np.abs(c[k]).max(initial=0))
            nback += 1
            store = None
            if copies:
                store = ("error" if ae else "image", sigma, obs, [image, z])
                if ae:
                    store = None  # the buffer returned is masked, the one kept is not accessible
        got = grads(s)
        for k in NAMES:
            if not np.all(np.isfinite(got[k])):
                raise Violation("%s: gradient of %s is not finite" % (what, k))
        compare(ctx, got, total, scale, what)
        snap.verify(what)
    ctx.nontrivial(nback >= 2 and np.abs(total["ij"]).max() > 0 or naccum > 0)
    ctx.label("accumulations", naccum > 0)
    ctx.label("histories with a mask", any(op == "compare" and b % 2 for op, a, b in case["ops"]))
    ctx.label("histories with make_copies=False", any(op == "backward_nocopy" for op, a, b in case["ops"]))


OPS = ["render", "render", "render_error", "render_error", "backward", "backward", "backward", "backward_nocopy", "clear", "compare", "compare"]


@st.composite
def histories(draw):
    c = draw(scenes.scene_cases(culling=True, persp=False, min_size=2, max_size=10, max_c=3, geoms=GEOMS))
    n = draw(st.integers(2, 9))
    c["ops"] = [
        [draw(st.sampled_from(OPS)), draw(st.integers(0, 11)), draw(st.integers(0, 15))] for _ in range(n)
    ]
    # start with something to back-propagate
    c["ops"].insert(0, [draw(st.sampled_from(["render", "render_error"])), draw(st.integers(0, 11)), 0])
    return c


def prop_linear(case, ctx):
    d = scenes.decode(case)
    mode = "image" if case["seed"] % 2 else "error"
    obs = observation(d, case, 0) if mode == "error" else None
    b1, b2 = increment(d, case, mode, 0), increment(d, case, mode, 1)
    x, y = case["xy"]
    g1 = contribution(d, case, mode, case["sigma"], obs, b1)
    g2 = contribution(d, case, mode, case["sigma"], obs, b2)
    g = contribution(d, case, mode, case["sigma"], obs, x * b1 + y * b2)
    scale = {k: abs(x) * np.abs(g1[k]).max(initial=0) + abs(y) * np.abs(g2[k]).max(initial=0) for k in NAMES}
    compare(ctx, g, {k: x * g1[k] + y * g2[k] for k in NAMES}, scale, "linear combination")
    g0 = contribution(d, case, mode, case["sigma"], obs, np.zeros_like(b1))
    for k in NAMES:
        ctx.check(not g0[k].any(), "gradient of %s for a zero incoming gradient", k)
    # additive over the pixels: each part of the image separately
    rng = scenes.rng_of(case, 9)
    part = (rng.random((d["height"], d["width"])) < 0.5).astype(float)
    part = part[:, :, None] if mode == "image" else part
    ga = contribution(d, case, mode, case["sigma"], obs, b1 * part)
    gb = contribution(d, case, mode, case["sigma"], obs, b1 * (1 - part))
    scale = {k: np.abs(ga[k]).max(initial=0) + np.abs(gb[k]).max(initial=0) for k in NAMES}
    compare(ctx, g1, {k: ga[k] + gb[k] for k in NAMES}, scale, "sum over pixels")
    ctx.nontrivial(np.abs(g1["ij"]).max() > 0)
    ctx.label("textured", np.abs(g1["texture"]).max(initial=0) > 0)


@st.composite
def linear(draw, large=False):
    c = draw((scenes.large_cases if large else scenes.scene_cases)(culling=True, persp=False, min_size=2, geoms=GEOMS))
    c["xy"] = [draw(st.sampled_from([-2.5, -1.0, 0.0, 0.3, 1.0, 4.0])), draw(st.sampled_from([-1.0, 0.7, 3.0]))]
    return c


def prop_finite(case, ctx):
    d = scenes.decode(case)
    s = scenes.scene2d(d)
    obs = observation(d, case, 0)
    n = 0
    for mode in ("image", "error"):
        b = increment(d, case, mode, 0)
        if mode == "image":
            im, z = s.render(case["sigma"])
            s.render_backward(b)
        else:
            im, z, eb = s.render_error(obs, case["sigma"])
            ctx.check(np.all(np.isfinite(eb)), "the error buffer is not finite")
            s.render_error_backward(b)
        ctx.check(np.all(np.isfinite(im)), "the image is not finite")
        for k in NAMES:
            ctx.check(np.all(np.isfinite(getattr(s, k + "_b"))), "gradient of %s is not finite (%s)", k, mode)
        n += np.abs(s.ij_b).max() > 0
    ctx.nontrivial(n > 0)
    ctx.label("edge through a pixel centre", case["geom"] in ("grid", "mixed"))


def prop_reject(case, ctx):
    d = scenes.decode(case)
    bad = d["perspective_correct"] or not d["backface_culling"]
    s = scenes.scene2d(scenes.copy_scene(d))
    obs = observation(d, case, 0)
    s.render(case["sigma"])
    calls = [("render_backward", lambda: s.render_backward(increment(d, case, "image", 0)), None)]
    calls.append(
        ("render_error_backward", lambda: s.render_error_backward(increment(d, case, "error", 0)), lambda: s.render_error(obs, case["sigma"]))
    )
    calls.append(("render_compare_and_backward", lambda: s.render_compare_and_backward(obs, case["sigma"]), None))
    calls.append(
        ("render_compare_and_backward with antialiase_error",
         lambda: s.render_compare_and_backward(obs, case["sigma"], antialiase_error=True), None)
    )
    for name, f, before in calls:
        if before:
            before()
        try:
            f()
            raised = False
        except BaseException:
            raised = True
        if raised != bad:
            raise Violation(
                "%s %s with perspective_correct=%s backface_culling=%s"
                % (name, "fails" if raised else "is accepted", d["perspective_correct"], d["backface_culling"])
            )
    ctx.nontrivial(bad)


CHECK = Check(
    "C08",
    "generated histories of render, render_error, backward with and without copies, render_compare_and_backward and clear_gradients on one scene, against the "
    "sum of the gradients given by fresh scenes; linearity in the incoming gradient; finiteness on degenerate alignments; non trivial: non zero accumulated gradient",
    [
        Sub("history", histories, prop_history, 9600, 38400),
        Sub("linear", linear, prop_linear, 12800, 51200),
        Sub("large", lambda: linear(large=True), prop_linear, 800, 4000),
        Sub("finite", lambda: scenes.scene_cases(culling=True, persp=False, geoms=["grid", "grid", "mixed", "far", "tiny", "big", "mesh"]),
            prop_finite, 9600, 40000),
        Sub("reject", lambda: scenes.scene_cases(max_size=8), prop_reject, 2400, 9600),
    ],
    assumptions=["gradients are compared up to 1e-7 of their largest value (order of additions)"],
)
