"""Generation of triangulated meshes: a case is a small json object, decoded by deterministic functions."""
import numpy as np
from hypothesis import strategies as st

from .scenes import rng_of

CLOSED = ["tetra", "octa", "cube", "icosa", "bipyramid", "torus", "two"]
OPEN = ["triangle", "pair", "grid", "fan", "cylinder", "annulus", "pieces"]


def grid_faces(n, m, wrap_n=False, wrap_m=False):
    a = []
    for i in range(n if wrap_n else n - 1):
        for j in range(m if wrap_m else m - 1):
            i2, j2 = (i + 1) % n, (j + 1) % m
            p, q, r, s = i * m + j, i * m + j2, i2 * m + j, i2 * m + j2
            if (i + j) % 2:
                a += [[p, q, s], [p, s, r]]
            else:
                a += [[p, q, r], [q, s, r]]
    return np.array(a)


def icosahedron():
    t = (1 + 5**0.5) / 2
    v = np.array([[-1, t, 0], [1, t, 0], [-1, -t, 0], [1, -t, 0], [0, -1, t], [0, 1, t], [0, -1, -t], [0, 1, -t], [t, 0, -1], [t, 0, 1], [-t, 0, -1], [-t, 0, 1]])
    f = np.array([[0, 11, 5], [0, 5, 1], [0, 1, 7], [0, 7, 10], [0, 10, 11], [1, 5, 9], [5, 11, 4], [11, 10, 2], [10, 7, 6], [7, 1, 8],
                  [3, 9, 4], [3, 4, 2], [3, 2, 6], [3, 6, 8], [3, 8, 9], [4, 9, 5], [2, 4, 11], [6, 2, 10], [8, 6, 7], [9, 8, 1]])
    return v / np.sqrt(1 + t * t), f


def bipyramid(n):
    a = np.arange(n) * 2 * np.pi / n
    v = np.vstack((np.column_stack((np.cos(a), np.sin(a), np.zeros(n))), [[0, 0, 1], [0, 0, -1]]))
    f = []
    for i in range(n):
        j = (i + 1) % n
        f += [[i, j, n], [j, i, n + 1]]
    return v, np.array(f)


def base(shape, n, m):
    """Vertices and outward (counterclockwise seen from outside) faces."""
    if shape == "tetra":
        return np.array([[1.0, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) / 3**0.5, np.array([[0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2]])
    if shape == "octa":
        return bipyramid(4)
    if shape == "bipyramid":
        return bipyramid(3 + n % 5)
    if shape == "icosa":
        return icosahedron()
    if shape == "cube":
        v = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]) / 3**0.5
        quads = [[0, 1, 3, 2], [4, 6, 7, 5], [0, 4, 5, 1], [2, 3, 7, 6], [0, 2, 6, 4], [1, 5, 7, 3]]
        f = []
        for k, q in enumerate(quads):
            f += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if k % 2 else [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
        return v, np.array(f)
    if shape == "torus":
        n, m = 3 + n % 3, 3 + m % 3
        a, b = np.meshgrid(np.arange(n) * 2 * np.pi / n, np.arange(m) * 2 * np.pi / m, indexing="ij")
        r = 0.65 + 0.3 * np.cos(b)
        v = np.column_stack(((r * np.cos(a)).ravel(), (r * np.sin(a)).ravel(), (0.3 * np.sin(b)).ravel()))
        return v, grid_faces(n, m, True, True)[:, ::-1]
    if shape == "two":
        v, f = base("tetra", 0, 0)
        v2, f2 = base("octa", 0, 0)
        return np.vstack((v * 0.5 + [0.5, 0, 0], v2 * 0.4 - [0.5, 0.1, 0])), np.vstack((f, f2 + len(v)))
    if shape == "triangle":
        return np.array([[-0.8, -0.6, 0.0], [0.9, -0.5, 0.1], [0.1, 0.9, -0.1]]), np.array([[0, 1, 2]])
    if shape == "pair":
        return np.array([[-0.8, -0.6, 0.0], [0.9, -0.5, 0.1], [0.1, 0.9, -0.1], [-0.7, 0.8, 0.2]]), np.array([[0, 1, 2], [0, 2, 3]])
    if shape == "grid":
        n, m = 2 + n % 4, 2 + m % 4
        y, x = np.meshgrid(np.linspace(-0.9, 0.9, n), np.linspace(-0.9, 0.9, m), indexing="ij")
        return np.column_stack((x.ravel(), y.ravel(), 0.3 * np.sin(3 * x + 2 * y).ravel())), grid_faces(n, m)
    if shape == "fan":
        n = 3 + n % 5
        a = np.arange(n) * 2 * np.pi / n
        v = np.vstack((np.column_stack((np.cos(a), np.sin(a), np.zeros(n))), [[0, 0, 0.5]]))
        k = n if m % 2 else n - 1
        return v, np.array([[i, (i + 1) % n, n] for i in range(k)])
    if shape == "cylinder":
        n, m = 2 + n % 3, 3 + m % 3
        z, a = np.meshgrid(np.linspace(-0.7, 0.7, n), np.arange(m) * 2 * np.pi / m, indexing="ij")
        return np.column_stack((0.7 * np.cos(a).ravel(), 0.7 * np.sin(a).ravel(), z.ravel())), grid_faces(n, m, False, True)
    if shape == "annulus":
        n, m = 2 + n % 2, 3 + m % 4
        r, a = np.meshgrid(np.linspace(0.3, 0.95, n), np.arange(m) * 2 * np.pi / m, indexing="ij")
        return np.column_stack([(r * np.cos(a)).ravel(), (r * np.sin(a)).ravel(), (0.2 * np.cos(2 * a)).ravel()]), grid_faces(n, m, False, True)
    if shape == "pieces":
        v, f = base("pair", 0, 0)
        v2, f2 = base("fan", n, m)
        return np.vstack((v * 0.5 + [0.4, 0.4, 0.2], v2 * 0.5 - [0.4, 0.4, 0])), np.vstack((f, f2 + len(v)))
    raise KeyError(shape)


BIG = ["torus", "bipyramid", "grid", "cylinder", "fan", "annulus"]


def big_base(shape, n, m):
    """The same kinds of meshes with hundreds of vertices, n and m being the numbers of rows and columns."""
    if shape == "bipyramid":
        return bipyramid(n * m // 2)
    if shape == "torus":
        a, b = np.meshgrid(np.arange(n) * 2 * np.pi / n, np.arange(m) * 2 * np.pi / m, indexing="ij")
        r = 0.65 + 0.3 * np.cos(b)
        return np.column_stack(((r * np.cos(a)).ravel(), (r * np.sin(a)).ravel(), (0.3 * np.sin(b)).ravel())), grid_faces(n, m, True, True)[:, ::-1]
    if shape == "grid":
        y, x = np.meshgrid(np.linspace(-0.9, 0.9, n), np.linspace(-0.9, 0.9, m), indexing="ij")
        return np.column_stack((x.ravel(), y.ravel(), 0.3 * np.sin(3 * x + 2 * y).ravel())), grid_faces(n, m)
    if shape == "fan":
        k = n * m // 2
        a = np.arange(k) * 2 * np.pi / k
        return np.vstack((np.column_stack((np.cos(a), np.sin(a), np.zeros(k))), [[0, 0, 0.5]])), np.array([[i, (i + 1) % k, k] for i in range(k - n % 2)])
    if shape == "cylinder":
        m += m % 2
        z, a = np.meshgrid(np.linspace(-0.7, 0.7, n), np.arange(m) * 2 * np.pi / m, indexing="ij")
        return np.column_stack((0.7 * np.cos(a).ravel(), 0.7 * np.sin(a).ravel(), z.ravel())), grid_faces(n, m, False, True)
    r, a = np.meshgrid(np.linspace(0.3, 0.95, n), np.arange(m) * 2 * np.pi / m, indexing="ij")
    return np.column_stack([(r * np.cos(a)).ravel(), (r * np.sin(a)).ravel(), (0.2 * np.cos(2 * a)).ravel()]), grid_faces(n, m, False, True)


def split(v, f, k, mode):
    """Split the face k in three, or one of its edges in two: the mesh stays manifold."""
    f = [list(map(int, t)) for t in f]
    n = len(v)
    if mode % 2:
        a, b, c = f[k]
        f[k] = [a, b, n]
        f += [[b, c, n], [c, a, n]]
        return np.vstack((v, v[[a, b, c]].mean(axis=0) * 1.05)), np.array(f)
    i = (mode // 2) % 3
    a, b = f[k][i], f[k][(i + 1) % 3]
    out = []
    for t in f:
        done = False
        for j in range(3):
            if {t[j], t[(j + 1) % 3]} == {a, b}:
                p, q, r = t[j], t[(j + 1) % 3], t[(j + 2) % 3]
                out += [[p, n, r], [n, q, r]]
                done = True
        if not done:
            out.append(t)
    return np.vstack((v, 0.5 * (v[a] + v[b]) * 1.04)), np.array(out)


def volume(v, f):
    a, b, c = v[f[:, 0]], v[f[:, 1]], v[f[:, 2]]
    return float(np.sum(np.einsum("ij,ij->i", a, np.cross(b, c))) / 6)


def inside_out(M, v):
    """Whether a deformation turned the mesh inside out (the library refuses closed meshes of negative volume)."""
    f = M.faces.astype(int)
    used = np.unique(f)
    return M.closed and not volume(v - v[used].mean(axis=0), f) * (-1 if M.clockwise else 1) > 1e-6 * np.ptp(v[used], axis=0).max() ** 3


class Mesh:
    pass


def decode(case):
    rng = rng_of(case, 7)
    build = big_base if case.get("big") else base
    v, f = build(case["shape"], case["n"], case["m"])
    v = np.array(v, dtype=np.float64)
    for k in case["splits"]:
        v, f = split(v, f, k % len(f), k // 7)
    size = np.ptp(v, axis=0).max()
    v = v + rng.uniform(-1, 1, v.shape) * case["jitter"] * size
    closed = case["shape"] in CLOSED
    if closed and volume(v, f) < 0:
        f = f[:, ::-1].copy()
    if closed and abs(volume(v, f)) < 1e-6:
        v, f = build(case["shape"], case["n"], case["m"])
        v = np.array(v, dtype=np.float64)
    M = Mesh()
    M.closed = closed
    M.iso = case.get("iso", 0)
    if M.iso:
        v = np.vstack((v, rng.uniform(-1, 1, (M.iso, 3)) * 0.5))
    nv = len(v)
    if case["shuffle"] & 1:
        p = rng.permutation(nv)
        v2 = np.empty_like(v)
        v2[p] = v
        v, f = v2, p[f]
    if case["shuffle"] & 2:
        f = f[rng.permutation(len(f))]
    if case["shuffle"] & 4:
        f = np.array([np.roll(t, r) for t, r in zip(f, rng.integers(0, 3, len(f)))])
    M.clockwise = bool(case["clockwise"])
    if M.clockwise:
        f = f[:, ::-1].copy()
    M.dtype = [np.int64, np.uint32, np.int32][case["seed"] % 3]
    if case.get("extra"):
        # faces joining any vertices: not a manifold
        t = np.array([rng.permutation(nv)[:3] for _ in range(case["extra"])])
        p = v[t]
        n = np.linalg.norm(np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]), axis=1)
        known = {tuple(sorted(x)) for x in f.tolist()}
        t = t[(n > 1e-3 * size**2) & np.array([tuple(sorted(x)) not in known for x in t.tolist()])]
        if not is_manifold(np.vstack((f, t))):
            f = np.vstack((f, t))
            M.closed = False
    if "unit" in case:
        # another unit of length, and another origin
        v = (v + rng.uniform(-1, 1, 3) * size * case["far"]) * 10.0 ** case["unit"]
    M.vertices, M.faces = v, f.astype(M.dtype)
    return M


def in_front(depths, vertices):
    """Whether all depths are clearly positive, whatever the unit of length."""
    return bool(np.min(depths) > 1e-2 * min(1.0, np.ptp(vertices, axis=0).max()))


@st.composite
def mesh_cases(draw, shapes=CLOSED + OPEN, max_splits=3, iso=True, jitter=(0.0, 0.02, 0.08, 0.25)):
    return {
        "shape": draw(st.sampled_from(shapes)), "n": draw(st.integers(0, 6)), "m": draw(st.integers(0, 6)),
        "splits": draw(st.lists(st.integers(0, 999), max_size=max_splits)), "jitter": draw(st.sampled_from(jitter)),
        "iso": draw(st.sampled_from([0, 0, 0, 1, 2])) if iso else 0, "shuffle": draw(st.integers(0, 7)),
        "clockwise": draw(st.booleans()), "seed": draw(st.integers(0, 2**31 - 1)),
    }


@st.composite
def with_unit(draw, strategy):
    """The same cases, the mesh being in another unit of length and far from the origin."""
    case = draw(strategy)
    case["mesh"]["unit"] = draw(st.sampled_from([-6, -4, -2, 0, 2, 4]))
    case["mesh"]["far"] = draw(st.sampled_from([0, 1, 10, 100]))
    return case


@st.composite
def with_extra(draw, strategy):
    """The cases of a strategy with antialiasing disabled, in which the mesh gets faces that join any vertices."""
    case = draw(strategy)
    case["mesh"]["extra"] = draw(st.integers(1, 8))
    case["sigma"] = 0.0
    return case


@st.composite
def big_mesh_cases(draw, shapes=BIG, iso=True, jitter=(0.0, 0.002, 0.01), size=24):
    case = draw(mesh_cases(shapes=shapes, max_splits=2, iso=iso, jitter=jitter))
    case["big"] = True
    case["n"], case["m"] = draw(st.integers(6, size)), draw(st.integers(6, size))
    return case


@st.composite
def huge_mesh_cases(draw, shapes=("torus", "grid", "cylinder", "annulus", "bipyramid"), iso=False, jitter=(0.0, 1e-4)):
    """More vertices than 16 bits can number."""
    case = draw(mesh_cases(shapes=list(shapes), max_splits=0, iso=iso, jitter=jitter))
    case["big"] = True
    case["n"], case["m"] = draw(st.sampled_from([(258, 259), (263, 251), (300, 222), (14, 4800)]))
    return case


@st.composite
def with_huge(draw, strategy, change=None, **kw):
    case = dict(draw(strategy))
    case["mesh"] = draw(huge_mesh_cases(**kw))
    case.update(change or {})
    return case


@st.composite
def with_many(draw, strategy):
    """The same cases, the vertices of the faces being anywhere among more than 65536, which belong to no face."""
    case = dict(draw(strategy))
    case["mesh"] = dict(case["mesh"])
    case["mesh"]["iso"] = 66000
    case["mesh"]["shuffle"] |= 1
    return case


@st.composite
def with_big(draw, strategy, change=None, **kw):
    """The same cases with a mesh of hundreds of faces."""
    case = dict(draw(strategy))
    case["mesh"] = draw(big_mesh_cases(**kw))
    case.update(change or {})
    return case


# definitions on the list of faces

def half_edges(f):
    return [(int(t[k]), int(t[(k + 1) % 3])) for t in f for k in range(3)]


def edge_faces(f):
    """undirected edge -> list of (face, corner, increasing)"""
    d = {}
    for i, t in enumerate(f):
        for k in range(3):
            a, b = int(t[k]), int(t[(k + 1) % 3])
            d.setdefault((min(a, b), max(a, b)), []).append((i, k, a < b))
    return d


def is_manifold(f):
    """Every edge belongs to at most two faces, which traverse it in opposite directions."""
    for inc in edge_faces(f).values():
        if len(inc) > 2 or (len(inc) == 2 and inc[0][2] == inc[1][2]):
            return False
    return True


def face_normals(v, f, clockwise):
    n = np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]])
    if clockwise:
        n = -n
    return n / np.linalg.norm(n, axis=1, keepdims=True)


def vertex_normals(v, f, clockwise):
    n = face_normals(v, f, clockwise)
    out = np.zeros((len(v), 3))
    for k in range(3):
        np.add.at(out, f[:, k], n)
    norm = np.linalg.norm(out, axis=1, keepdims=True)
    return out / norm, norm[:, 0]


def components(nv, f):
    parent = list(range(nv))

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i

    for t in f:
        for k in range(2):
            a, b = find(int(t[k])), find(int(t[k + 1]))
            parent[a] = b
    return len({find(i) for i in range(nv)})


def camera_for(case, M, rng, w, h, dist="none", deep=False):
    """A camera seeing the mesh, at a distance such that no vertex is behind it (deep: some vertices are much nearer than others)."""
    from deodr.differentiable_renderer import Camera

    from . import cams

    R = cams.rotation(rng, case["rot"] if case["rot"] < 6 else None)
    v = M.vertices
    c = 0.5 * (v.max(axis=0) + v.min(axis=0))
    radius = np.linalg.norm(v - c, axis=1).max()
    z = radius * rng.uniform(1.3, 5)
    f = rng.uniform(0.5, 1.2) * min(w, h) / 2 * z / radius
    if deep:
        d = (v - c).dot(R[2])
        z = -d.min() + 10.0 ** rng.uniform(-2.2, -0.3) * max(np.ptp(d), 0.1 * radius)
        f = rng.uniform(0.1, 1) * min(w, h)
    K = np.array([[f, 0, w * rng.uniform(0.35, 0.65)], [0, f * rng.uniform(0.8, 1.25), h * rng.uniform(0.35, 0.65)], [0, 0, 1.0]])
    if rng.random() < 0.3:
        K[0, 1] = rng.uniform(-0.2, 0.2) * f
    T = np.array([0, 0, z]) - R.dot(c)
    D = cams.distortion(rng, dist)
    if D is not None:
        D = D * 0.3
        if deep:
            # comparable to the one in the middle of the image
            X = (v - c).dot(R.T) + [0, 0, z]
            r = max(1.0, np.linalg.norm(X[:, :2] / X[:, 2:], axis=1).max())
            D = D / r ** np.array([2, 4, 1, 1, 6])
    return Camera(np.column_stack((R, T)), K, h, w, D)
