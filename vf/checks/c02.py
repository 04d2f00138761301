"""C02: faces that tile the image cover every pixel centre, once when edges are strict."""

import numpy as np
from hypothesis import strategies as st

from .. import scenes
from ..core import Check, Skip, Sub, Violation

UNIT = 4096  # coordinates are multiples of 1/UNIT : everything below is exact in integers


@st.composite
def tilings(draw):
    h, w = draw(st.integers(1, 16)), draw(st.integers(1, 16))
    big = draw(st.integers(0, 39))
    if big == 0:
        h = draw(st.integers(17, 3000))
    if big == 1:
        w = draw(st.integers(17, 3000))
    return {
        "h": h,
        "w": w,
        "root": draw(st.sampled_from(["quad", "triangle", "fan", "huge", "long"])),
        "splits": draw(st.lists(st.tuples(st.integers(0, 63), st.integers(0, 9)), max_size=9)),
        "step": draw(st.sampled_from([4096, 4096, 2048, 1024, 256])),
        "flags": draw(st.integers(0, 63)),
        "textured": draw(st.booleans()),
        "data": draw(st.binary(min_size=40, max_size=40)).hex(),
    }


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def build(case):
    """List of triangles with integer coordinates (in 1/UNIT pixels)."""
    rd = scenes.Reader(case["data"])
    h, w, step = case["h"], case["w"], case["step"]

    def pt(lo_x, hi_x, lo_y, hi_y):
        r = rd.u16(2)
        nx = max(1, (hi_x - lo_x) * UNIT // step)
        ny = max(1, (hi_y - lo_y) * UNIT // step)
        return (int(lo_x * UNIT + (r[0] % (nx + 1)) * step), int(lo_y * UNIT + (r[1] % (ny + 1)) * step))

    if case["root"] == "quad":
        a, b, c, e = pt(-2, w // 2, -2, h // 2), pt(w // 2, w + 2, -2, h // 2), pt(w // 2, w + 2, h // 2, h + 2), pt(-2, w // 2, h // 2, h + 2)
        if min(orient(a, b, c), orient(b, c, e), orient(c, e, a), orient(e, a, b)) <= 0:
            raise Skip("non convex quad")
        tris = [(a, b, c), (a, c, e)]
        region = [a, b, c, e]
    elif case["root"] == "fan":
        c = pt(0, w, 0, h)
        # a ring of points around the centre
        ring = []
        for dx, dy in ((1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)):
            k = int(rd.u8(1)[0])
            if k % 4 == 0:
                continue
            r = (1 + k % 9) * step * 2
            ring.append((c[0] + dx * r, c[1] + dy * r))
        tris = []
        n = len(ring)
        if n < 3:
            raise Skip("degenerate fan")
        for i in range(n):
            a, b = ring[i], ring[(i + 1) % n]
            if orient(c, a, b) <= 0:
                raise Skip("open fan")
            tris.append((c, a, b))
        region = ring
    elif case["root"] == "long":
        # faces between two chains of far points: nearly horizontal or vertical edges that are up to 2**18 pixels long
        q = UNIT // 16

        def chain(side):
            n = 1 + int(rd.u8(1)[0]) % 4
            ys = np.sort(rd.u16(n) % ((h + 4) * 16)) - 32
            far = 2 ** (4 + rd.u8(n) % 14)
            return [(int(side * int(f) * UNIT + (w * UNIT if side > 0 else 0)), int(y) * q) for y, f in zip(ys, far)]

        left, right = chain(-1), chain(1)
        tris = []
        i = j = 0
        while i < len(left) - 1 or j < len(right) - 1:
            if j == len(right) - 1 or (i < len(left) - 1 and left[i + 1][1] <= right[j + 1][1]):
                tris.append((left[i], right[j], left[i + 1]))
                i += 1
            else:
                tris.append((left[i], right[j], right[j + 1]))
                j += 1
        region = left[::-1] + right
        if rd.u8(1)[0] % 2:
            tris = [tuple((y, x) for x, y in t)[::-1] for t in tris]
            region = [(y, x) for x, y in region][::-1]
        if not tris or any(orient(*t) <= 0 for t in tris):
            raise Skip("folded strip")
    else:
        r = 40000 if case["root"] == "huge" else 0
        a, b, c = pt(-4 - r, w + 4, -4, h + 4 + r), pt(-4, w + 4 + r, -4 - r, h + 4), pt(-4, w + 4, -4, h + 4 + r)
        if orient(a, b, c) == 0:
            raise Skip("flat triangle")
        if orient(a, b, c) < 0:
            b, c = c, b
        tris = [(a, b, c)]
        region = [a, b, c]
    for which, how in case["splits"]:
        k = which % len(tris)
        a, b, c = tris[k]
        rot = how % 3
        a, b, c = (a, b, c)[rot:] + (a, b, c)[:rot]
        if how < 6:
            # split an edge : with the other side unchanged this is a T junction, the tiling is still exact
            if (a[0] + b[0]) % 2 or (a[1] + b[1]) % 2:
                continue
            m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
            new = [(a, m, c), (m, b, c)]
        else:
            s = (2 * a[0] + b[0] + c[0], 2 * a[1] + b[1] + c[1])
            if s[0] % 4 or s[1] % 4:
                continue
            m = (s[0] // 4, s[1] // 4)
            new = [(a, b, m), (b, c, m), (c, a, m)]
        if any(orient(*t) <= 0 for t in new):
            continue
        tris[k : k + 1] = new
    return tris, region


def one_scene(case, tri_coords, clockwise, k=None):
    """Scene of the triangles (float coordinates, shape n,3,2) with one colour per face."""
    n = len(tri_coords)
    rng = np.random.default_rng(7)
    fl = case["flags"]
    tex = case["textured"]
    return {
        "faces": np.arange(3 * n, dtype=np.uint32).reshape(n, 3),
        "faces_uv": np.zeros((n, 3), dtype=np.uint32),
        "ij": tri_coords.reshape(-1, 2), "depths": np.full(3 * n, 1.0),
        "textured": np.full(n, tex), "uv": np.zeros((1, 2)), "shade": np.ones(3 * n),
        "colors": np.ones((3 * n, 1)), "shaded": np.full(n, tex), "edgeflags": np.zeros((n, 3), dtype=bool),
        "height": case["h"], "width": case["w"], "nb_colors": 1,
        "texture": np.ones((1, 1, 1)), "background_image": None, "background_color": np.zeros(1),
        "clockwise": clockwise, "backface_culling": bool(fl & 2), "strict_edge": bool(fl & 4),
        "perspective_correct": bool(fl & 8), "integer_pixel_centers": bool(fl & 16),
    }


def coverage(case, tris, ctx):
    """Coverage of each face rendered alone, and of all of them together."""
    h, w = case["h"], case["w"]
    cov = np.zeros((len(tris), h, w), dtype=bool)
    fl = case["flags"]
    clockwise = bool(fl & 1)
    off = 0 if fl & 16 else 0.5
    rd = scenes.Reader(case["data"][::-1])
    order = rd.u8(len(tris)) % 3
    T = []
    for t, r in zip(tris, order):
        p = np.array(t, dtype=np.float64)
        # orient > 0 : clockwise in image coordinates for the library
        if not clockwise:
            p = p[::-1]
        if not (fl & 2) and r == 1:
            p = p[::-1]  # without culling both sides are drawn
        T.append(np.roll(p, r, axis=0) + off)
    T = np.array(T)
    for k in range(len(T)):
        image, z = scenes.render(one_scene(case, T[k : k + 1], clockwise), 0.0)
        cov[k] = np.isfinite(z)
        ctx.check(np.array_equal(image[:, :, 0] != 0, cov[k]), "painted pixels and finite depths differ")
    image, z = scenes.render(one_scene(case, T, clockwise), 0.0)
    ctx.check(
        np.array_equal(np.isfinite(z), cov.any(axis=0)), "faces rendered together cover %d pixels instead of %d",
        np.isfinite(z).sum(), cov.any(axis=0).sum(),
    )
    return cov


def prop_exact(case, ctx):
    tris, region = build(case)
    h, w = case["h"], case["w"]
    cov = coverage(case, [[(x / UNIT, y / UNIT) for x, y in t] for t in tris], ctx)
    strict = bool(case["flags"] & 4)
    ys, xs = np.meshgrid(np.arange(h, dtype=np.int64) * UNIT, np.arange(w, dtype=np.int64) * UNIT, indexing="ij")

    def side(a, b):
        return (b[0] - a[0]) * (ys - a[1]) - (b[1] - a[1]) * (xs - a[0])

    on_shared = np.zeros((h, w), dtype=bool)
    for k, t in enumerate(tris):
        s = np.stack([side(t[i], t[(i + 1) % 3]) for i in range(3)])
        closed = (s >= 0).all(axis=0)
        interior = (s > 0).all(axis=0)
        bad = cov[k] & ~closed
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("pixel x=%d y=%d is painted by a face that does not contain it: %s / %d" % (x, y, t, UNIT))
        bad = ~cov[k] & (interior if strict else closed)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("pixel x=%d y=%d is not painted by the face that contains it: %s / %d" % (x, y, t, UNIT))
        on_shared |= closed & ~interior
    n = len(region)
    inner = np.stack([side(region[i], region[(i + 1) % n]) for i in range(n)])
    inner = (inner > 0).all(axis=0)
    if case["root"] in ("fan", "long"):
        # the ring is star shaped or a strip, not convex: the interior is the union of the closed faces minus the ring
        inner = np.zeros((h, w), dtype=bool)
        ring = np.zeros((h, w), dtype=bool)
        for t in tris:
            s = np.stack([side(t[i], t[(i + 1) % 3]) for i in range(3)])
            inner |= (s >= 0).all(axis=0)
        for i in range(n):
            a, b = region[i], region[(i + 1) % n]
            on = (side(a, b) == 0) & (xs >= min(a[0], b[0])) & (xs <= max(a[0], b[0])) & (ys >= min(a[1], b[1])) & (ys <= max(a[1], b[1]))
            ring |= on
        inner &= ~ring
    count = cov.sum(axis=0)
    if strict:
        bad = inner & (count != 1)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("pixel x=%d y=%d of the tiled region is painted by %d faces" % (x, y, count[y, x]))
        # on the border of the region too, no pixel is painted twice
        ctx.check(np.all(count <= 1), "a pixel is painted by %d faces", count.max())
    ctx.check(np.all(count[inner] >= 1), "a pixel of the tiled region is not painted")
    ctx.nontrivial(bool((inner & on_shared).any()))
    ctx.label("strict", strict)
    ctx.label("non strict", not strict)
    ctx.label("pixel centre on a shared edge", bool((inner & on_shared).any()))
    verts = {v for t in tris for v in t}
    ctx.label("pixel centre on a vertex", any(x % UNIT == 0 and y % UNIT == 0 and 0 <= x < w * UNIT and 0 <= y < h * UNIT and inner[y // UNIT, x // UNIT] for x, y in verts))
    ctx.label("root " + case["root"])
    ctx.label("textured", case["textured"])


# ---------------------------------------------------------------------------------------------------------------------


@st.composite
def float_tilings(draw):
    n = draw(st.integers(2, 4))
    m = draw(st.integers(2, 4))
    return {
        "h": draw(st.integers(3, 16)), "w": draw(st.integers(3, 16)), "n": n, "m": m,
        "flags": draw(st.integers(0, 63)), "textured": draw(st.booleans()), "aim": draw(st.booleans()),
        "data": draw(st.binary(min_size=80, max_size=80)).hex(),
    }


def prop_float(case, ctx):
    """Triangulated grids with arbitrary double precision coordinates, edges aimed at pixel centres up to rounding."""
    rd = scenes.Reader(case["data"])
    n, m, h, w = case["n"], case["m"], case["h"], case["w"]
    gy, gx = np.meshgrid(np.arange(n), np.arange(m), indexing="ij")
    j = rd.u16(2 * n * m) / 65535.0 - 0.5
    V = np.stack(
        ((gx / (m - 1) * 1.2 - 0.1) * w + j[: n * m].reshape(n, m) * w / m * 0.7,
         (gy / (n - 1) * 1.2 - 0.1) * h + j[n * m :].reshape(n, m) * h / n * 0.7), axis=-1)
    tris = []
    diag = rd.u8((n - 1) * (m - 1)) % 2
    for y in range(n - 1):
        for x in range(m - 1):
            a, b, c, e = (y, x), (y, x + 1), (y + 1, x + 1), (y + 1, x)
            tris += [(a, b, c), (a, c, e)] if diag[y * (m - 1) + x] else [(a, b, e), (b, c, e)]
    if case["aim"]:
        # move some vertices on the line from another vertex through a pixel centre: the centre is on the edge, up to rounding
        for k in range(3):
            t = tris[int(rd.u8(1)[0]) % len(tris)]
            p, q = V[t[0]], V[t[1]]
            c = np.round(p + (q - p) * (0.25 + rd.u8(1)[0] / 512.0))
            s = (0.7 + rd.u16(1)[0] / 65535.0) * np.linalg.norm(q - p) / max(np.linalg.norm(c - p), 1e-3)
            V[t[1]] = p + (c - p) * s
    T = np.array([[V[i] for i in t] for t in tris])
    area = scenes.cross2(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
    if not np.all(area > 1e-3):
        raise Skip("folded grid")
    cov = coverage(case, T, ctx)
    # interior: away from the border of the grid and from the vertices
    ys, xs = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
    P = np.stack((xs, ys), axis=-1).astype(float)
    inner = np.zeros((h, w), dtype=bool)
    near = np.zeros((h, w), dtype=bool)
    for t in T:
        s = np.stack([scenes.cross2(t[(i + 1) % 3] - t[i], P - t[i]) / np.linalg.norm(t[(i + 1) % 3] - t[i]) for i in range(3)])
        inside = (s > -1e-9).all(axis=0)
        inner |= inside
        near |= inside & (np.abs(s).min(axis=0) < 1e-9)
    border = [V[0, :], V[-1, :], V[:, 0], V[:, -1]]
    for line in border:
        for a, b in zip(line[:-1], line[1:]):
            u = (b - a) / np.linalg.norm(b - a)
            d = np.abs(scenes.cross2(np.broadcast_to(u, P.shape), P - a))
            along = (P - a) @ u
            inner &= ~((d < 1e-6) & (along > -1e-6) & (along < np.linalg.norm(b - a) + 1e-6))
    for v in V.reshape(-1, 2):
        inner &= np.linalg.norm(P - v, axis=-1) > 1e-6
    count = cov.sum(axis=0)
    strict = bool(case["flags"] & 4)
    bad = inner & ((count != 1) if strict else (count < 1))
    if bad.any():
        y, x = np.argwhere(bad)[0]
        raise Violation("pixel x=%d y=%d of the tiled region is painted by %d faces" % (x, y, count[y, x]))
    for k, t in enumerate(T):
        s = np.stack([scenes.cross2(t[(i + 1) % 3] - t[i], P - t[i]) / np.linalg.norm(t[(i + 1) % 3] - t[i]) for i in range(3)])
        ctx.check(not np.any(cov[k] & (s < -1e-9).any(axis=0)), "a face paints a pixel centre out of it")
        ctx.check(not np.any(~cov[k] & (s > 1e-9).all(axis=0)), "a face does not paint a pixel centre inside of it")
    ctx.nontrivial(bool(inner.any()))
    ctx.label("pixel centre within 1e-9 of a shared edge", bool((near & inner).any()))


CHECK = Check(
    "C02",
    "exact: tilings made by splitting triangles at dyadic points (pixel centres on edges and vertices, T junctions, huge "
    "triangles), each face rendered alone and compared with membership computed in integers; float: triangulated grids with "
    "arbitrary coordinates and edges aimed at pixel centres; non trivial: a pixel centre of the region exactly on a shared "
    "edge (exact), a pixel inside the region (float)",
    [Sub("exact", tilings, prop_exact, 40000, 200000), Sub("float", float_tilings, prop_float, 16000, 80000)],
    assumptions=[
        "for pixel centres exactly on vertices, coordinates are dyadic so that edge equations are exact; with arbitrary "
        "coordinates the pixels closer than 1e-6 to a vertex are not judged",
    ],
)
