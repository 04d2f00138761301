"""Generation of 2.5D scenes: a case is a small json object, decoded into arrays by deterministic functions."""
import numpy as np
from hypothesis import strategies as st

NB = 224  # bytes of geometry per case

SIGMAS = [0.25, 0.5, 1.0, 1.0, 1.7, 2.5, 4.0, 9.0]


def rng_of(case, salt=0):
    return np.random.default_rng([case["seed"], salt])


class Reader:
    def __init__(self, data):
        self.a = np.frombuffer(bytes.fromhex(data), dtype=np.uint8)
        self.i = 0

    def u8(self, n):
        idx = (self.i + np.arange(n)) % len(self.a)
        self.i += n
        return self.a[idx].astype(np.int64)

    def u16(self, n):
        b = self.u8(2 * n)
        return b[0::2] + 256 * b[1::2]


def backwards(case):
    """A reader of the bytes of the case from the end, for the choices of the checks."""
    return Reader(case["data"][::-1] or rng_of(case, 902).bytes(6000).hex())


GEOMS = ["generic", "generic", "grid", "mixed", "big", "far", "tiny", "mesh", "mesh"]
KINDS = ["plain", "plain", "textured", "mixed"]
DEPTHS = ["generic", "generic", "coarse", "steep", "behind"]


@st.composite
def scene_cases(draw, geoms=GEOMS, kinds=KINDS, depths=DEPTHS, max_c=5, max_nv=12, max_nf=9, max_size=15, culling=None,
                persp=None, sigma=None, edges=("all", "random", "random", "silhouette"), strict=None, min_size=1):
    big = draw(st.integers(0, 7))
    lo = min_size if big == 0 else max(min_size, 4)
    flags = draw(st.integers(0, 63))
    case = {
        "h": draw(st.integers(lo, max_size)),
        "w": draw(st.integers(lo, max_size)),
        "c": draw(st.integers(1, max_c)),
        "nv": draw(st.integers(3, max_nv)),
        "nf": draw(st.integers(1, max_nf)),
        "geom": draw(st.sampled_from(geoms)),
        "kind": draw(st.sampled_from(kinds)),
        "depth": draw(st.sampled_from(depths)),
        "clockwise": bool(flags & 1),
        "culling": bool(flags & 2) if culling is None else culling,
        "strict": bool(flags & 4) if strict is None else strict,
        "persp": bool(flags & 8) if persp is None else persp,
        "intpix": bool(flags & 16),
        "bgimage": bool(flags & 32),
        "edges": draw(st.sampled_from(edges)),
        "sigma": draw(st.sampled_from(SIGMAS)) if sigma is None else sigma,
        "th": draw(st.integers(1, 6)),
        "tw": draw(st.integers(1, 6)),
        "seed": draw(st.integers(0, 2**31 - 1)),
        "data": draw(st.binary(min_size=NB, max_size=NB)).hex(),
    }
    return case


LARGE = ["wide", "tall", "image", "channels", "faces", "faces", "texture", "vertices", "vertices", "sigma"]


@st.composite
def large_cases(draw, kinds=LARGE, **kw):
    """Scenes that are large in one respect: image, channels, faces, texture, numbers of vertices and texture coordinates, width of the edges."""
    case = draw(scene_cases(**kw))
    # the geometry comes from the seed
    case["data"] = ""
    case["large"] = kind = draw(st.sampled_from(kinds))
    if kind in ("wide", "tall"):
        a, b = draw(st.integers(100, 900)), draw(st.integers(1, 6))
        case["w"], case["h"] = (a, b) if kind == "wide" else (b, a)
    elif kind == "image":
        case["w"], case["h"] = draw(st.integers(40, 130)), draw(st.integers(40, 130))
    elif kind == "channels":
        case["c"] = draw(st.integers(6, 70))
    elif kind == "faces":
        case["nf"], case["nv"] = draw(st.integers(30, 400)), draw(st.integers(20, 200))
        case["w"], case["h"] = draw(st.integers(4, 30)), draw(st.integers(4, 30))
        case["mesh_size"] = draw(st.integers(4, 12))
    elif kind == "texture":
        a, b = draw(st.integers(60, 400)), draw(st.integers(1, 40))
        case["tw"], case["th"] = (a, b) if draw(st.booleans()) else (b, a)
        case["kind"] = draw(st.sampled_from(["textured", "textured", "mixed"]))
    elif kind == "vertices":
        case["pad"] = draw(st.sampled_from([300, 33000, 66000, 70000]))
    else:
        case["w"], case["h"] = draw(st.integers(20, 50)), draw(st.integers(20, 50))
        if case["sigma"]:
            case["sigma"] = draw(st.sampled_from([12.0, 20.0, 33.3, 60.0]))
    return case


VALUES = [1e-6, 1e-3, 1.0, 255.0, 1e4, 1e8]
DISTANCES = [1e-6, 1e-3, 1.0, 1e3, 1e7, 1e12]


@st.composite
def scaled_cases(draw, **kw):
    """Scenes with other orders of magnitude: colours, shades (of both signs), depths, nearly equal depths, very small faces."""
    case = draw(scene_cases(**kw))
    if draw(st.integers(0, 3)) == 0:
        case["geom"] = "dust"
    case["scales"] = {
        "value": draw(st.sampled_from(VALUES)),
        "shade": draw(st.sampled_from([1.0, 1.0, 1e-3, 40.0])),
        "depth": draw(st.sampled_from(DISTANCES)),
        "near": draw(st.sampled_from([0, 0, 1e-9, 1e-6])) if case["depth"] != "behind" else 0,
    }
    return case


def value_scale(case):
    return case.get("scales", {}).get("value", 1.0)


def shade_scale(case):
    return case.get("scales", {}).get("shade", 1.0)


def depth_scale(case):
    return case.get("scales", {}).get("depth", 1.0)


def rescale(case, d):
    s = case["scales"]
    for k in ("colors", "texture", "background_image", "background_color"):
        if d[k] is not None:
            d[k] = d[k] * s["value"]
    d["shade"] = (d["shade"] - 0.5) * s["shade"]
    if s["near"]:
        d["depths"] = 1 + d["depths"] * s["near"]
    d["depths"] = d["depths"] * s["depth"]
    return d


def pad(case, d):
    """The same faces among many vertices and texture coordinates that no face uses."""
    rng = rng_of(case, 900)
    n = case["pad"] + len(d["ij"]) + len(d["uv"])
    for index, names in (("faces", ("ij", "depths", "colors", "shade")), ("faces_uv", ("uv",))):
        m = len(d[names[0]])
        to = np.sort(rng.choice(n, m, replace=False))
        if rng.random() < 0.5:
            to = rng.permutation(to)
        for k in names:
            a = rng.uniform(-5, 20, (n,) + d[k].shape[1:])
            a[to] = d[k]
            d[k] = a
        d[index] = to[d[index].astype(np.int64)].astype(np.uint32)
    return d


def _coords(rd, n, size, geom):
    """n coordinates along an axis of the given size."""
    if geom == "grid":
        # quarter of pixels, around the image: centers of pixels, exactly aligned edges...
        return (rd.u8(n) % (4 * (size + 6))) / 4.0 - 3
    if geom == "mixed":
        v = (rd.u16(n) % 8192) / 8192.0 * (size + 8) - 4
        k = rd.u8(n)
        return np.where(k % 2 == 0, np.round(v * 2) / 2, v)
    if geom == "big":
        return (rd.u16(n) / 65535.0 - 0.5) * 6 * size + size / 2
    if geom == "far":
        v = rd.u16(n) / 65535.0 * size
        k = rd.u8(n)
        scale = np.choose(k % 5, [1, 1, 1e2, 1e4, 1e6])
        return np.where(scale == 1, v, (v - size / 2) * scale)
    if geom == "tiny":
        v = rd.u16(n) / 65535.0
        base = rd.u8(1)[0] % (size + 1)
        return base + (v - 0.5) * 3
    if geom == "dust":
        # close to a few points
        v = rd.u16(n) / 65535.0
        base = rd.u8(n) % 3 * (size // 3)
        return base + (v - 0.5) * 10.0 ** -(rd.u8(1)[0] % 3)
    return rd.u16(n) / 65535.0 * (size + 4) - 2


def decode(case):
    """Arrays of the scene, as a dict (see `scene2d` to get the object of the library)."""
    h, w, c = case["h"], case["w"], case["c"]
    rng = rng_of(case)
    rd = Reader(case["data"] or rng_of(case, 901).bytes(6000).hex())
    if case["geom"] == "mesh":
        # a jittered grid of 2x(n-1)x(m-1) faces: a manifold surface with shared edges
        n, m = 2 + case["nv"] % 3, 2 + case["nf"] % 3
        if "mesh_size" in case:
            n, m = 2 + case["nv"] % case["mesh_size"], 2 + case["nf"] % case["mesh_size"]
        gy, gx = np.meshgrid(np.arange(n), np.arange(m), indexing="ij")
        nv = n * m
        j = rd.u16(2 * nv) / 65535.0 - 0.5
        x = (gx.ravel() / (m - 1) * 1.0 - 0.1) * w + j[:nv] * w / m * 1.2
        y = (gy.ravel() / (n - 1) * 1.0 - 0.1) * h + j[nv:] * h / n * 1.2
        k = gy[:-1, :-1] * m + gx[:-1, :-1]
        k = k.ravel()
        if case["clockwise"]:
            faces = np.vstack((np.column_stack((k, k + 1, k + m)), np.column_stack((k + 1, k + m + 1, k + m))))
        else:
            faces = np.vstack((np.column_stack((k, k + m, k + 1)), np.column_stack((k + 1, k + m, k + m + 1))))
        ij = np.column_stack((x, y))
        nf = len(faces)
        roll = rd.u8(nf) % 3
        faces = np.stack([np.roll(f, r) for f, r in zip(faces, roll)])
    else:
        nv, nf = case["nv"], case["nf"]
        ij = np.column_stack((_coords(rd, nv, w, case["geom"]), _coords(rd, nv, h, case["geom"])))
        f = rd.u8(3 * nf).reshape(nf, 3)
        if nv > 200:
            f = f + 256 * rd.u8(3 * nf).reshape(nf, 3)
        a = f[:, 0] % nv
        b = (a + 1 + f[:, 1] % max(nv - 1, 1)) % nv
        d = (a + 1 + f[:, 2] % max(nv - 1, 1)) % nv
        d = np.where((d == b) & (f[:, 2] % 8 != 0), (d + 1) % nv, d)
        d = np.where((d == a) & (f[:, 2] % 8 != 0), (d + 1) % nv, d)
        faces = np.column_stack((a, b, d))
    if case["depth"] == "coarse":
        depths = 1.0 + rd.u8(nv) % 4
    elif case["depth"] == "steep":
        depths = 2.0 ** (rd.u16(nv) / 65535.0 * 12 - 4)
    else:
        depths = 0.5 + rd.u16(nv) / 65535.0 * 3
        if case["depth"] == "behind":
            k = rd.u8(nv)
            depths = np.where(k % 6 == 0, -depths, depths)
            if not case["persp"]:
                depths = np.where(k % 16 == 1, 0.0, depths)
    th, tw = case["th"], case["tw"]
    nuv = 1 + (case["nv"] * 7 + case["nf"]) % 9
    uvc = rd.u16(2 * nuv).reshape(nuv, 2)
    uv = np.column_stack((uvc[:, 0] / 65535.0 * (tw + 2) - 1.5, uvc[:, 1] / 65535.0 * (th + 2) - 1.5))
    if case["seed"] % 3 == 0:
        uv = np.round(uv * 2) / 2
    if case["seed"] % 11 == 5:
        # far out of the texture, the same value for whole faces when there are few texture coordinates
        far = [3e9, -3e9, 1e3, 1e18, -1e5]
        uv[case["seed"] % len(uv)] = [far[case["seed"] // 11 % 5], far[case["seed"] // 55 % 5]]
    faces_uv = rd.u8(3 * nf).reshape(nf, 3) % nuv
    if case["kind"] == "plain":
        textured = np.zeros(nf, dtype=bool)
        texture = np.zeros((0, 0)) if case["seed"] % 2 else rng.random((th, tw, c))
    else:
        textured = np.ones(nf, dtype=bool) if case["kind"] == "textured" else (rd.u8(nf) % 2 == 0)
        texture = rng.random((th, tw, c))
    # a textured face needs a shade to be drawn; the flag is free for the others
    shaded = textured | (rd.u8(nf) % 2 == 0)
    colors = rng.random((nv, c)) * 2 - 0.5
    shade = rng.random(nv) * 1.5
    if case["edges"] == "none":
        edgeflags = np.zeros((nf, 3), dtype=bool)
    elif case["edges"] == "all":
        edgeflags = np.ones((nf, 3), dtype=bool)
    elif case["edges"] == "random":
        edgeflags = (rd.u8(3 * nf).reshape(nf, 3) % 2) == 0
    else:
        edgeflags = silhouette_flags(faces, ij, case["clockwise"])
    background_image = rng.random((h, w, c)) if case["bgimage"] else None
    background_color = None if case["bgimage"] else rng.random(c)
    d = {
        "faces": faces.astype(np.uint32), "faces_uv": faces_uv.astype(np.uint32), "ij": ij, "depths": depths,
        "textured": textured, "uv": uv, "shade": shade, "colors": colors, "shaded": shaded, "edgeflags": edgeflags,
        "height": h, "width": w, "nb_colors": c, "texture": texture, "background_image": background_image,
        "background_color": background_color, "clockwise": case["clockwise"], "backface_culling": case["culling"],
        "strict_edge": case["strict"], "perspective_correct": case["persp"], "integer_pixel_centers": case["intpix"],
    }
    if case.get("scales"):
        d = rescale(case, d)
    return pad(case, d) if case.get("pad") else d


def cross2(u, v):
    return u[..., 0] * v[..., 1] - u[..., 1] * v[..., 0]


def silhouette_flags(faces, ij, clockwise):
    """Edges of faces that belong to exactly one front facing face (by definition, on the list of faces)."""
    t = ij[faces]
    cr = cross2(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
    front = cr > 0 if clockwise else cr < 0
    count = {}
    for f, vis in zip(faces, front):
        for k in range(3):
            e = tuple(sorted((int(f[k]), int(f[(k + 1) % 3]))))
            count[e] = count.get(e, 0) + int(vis)
    return np.array(
        [[count[tuple(sorted((int(f[k]), int(f[(k + 1) % 3]))))] == 1 for k in range(3)] for f in faces], dtype=bool
    ).reshape(-1, 3)


def copy_scene(d):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}


def scene2d(d):
    from deodr.differentiable_renderer import Scene2D

    # arguments that have their documented default value are left out
    return Scene2D(**{k: v for k, v in d.items() if not (k in DEFAULTS and type(v) is bool and v == DEFAULTS[k])})


DEFAULTS = {"clockwise": False, "backface_culling": False, "strict_edge": True, "perspective_correct": False, "integer_pixel_centers": True}


def given(sigma):
    """The parameters of a rendering: the default value of sigma is left out."""
    return {} if sigma == 1 else {"sigma": sigma}


def render(d, sigma):
    return scene2d(copy_scene(d)).render(**given(sigma))


def laid(a, k):
    """A copy of an array with the same values and another layout in memory."""
    a = np.asarray(a)
    k %= 6
    if k == 1:
        return np.asfortranarray(a) if a.ndim > 1 else a[::-1].copy()[::-1]
    if k == 2:
        big = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if k == 3:
        return a[::-1].copy()[::-1]
    if k == 4 and a.ndim > 1:
        big = np.zeros(a.shape[:-1] + (a.shape[-1] + 3,), dtype=a.dtype)
        big[..., 1:-2] = a
        return big[..., 1:-2]
    return a.copy()


def whole(a, k):
    """Values given as integers one time out of six."""
    return np.round(np.asarray(a) * 3).astype([np.int64, np.int32, np.int16][k // 6 % 3]) if k % 6 == 0 else a
