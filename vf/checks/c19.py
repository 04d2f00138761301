"""C19: Loop subdivision against an independent refinement of the list of faces."""
import numpy as np
from hypothesis import strategies as st

from .. import meshes, scenes
from ..core import Check, Skip, Sub, Violation
from ..scenes import rng_of


def refine(v, f, c):
    """One iteration: vertices of the mesh first, then one vertex per edge (numbered by first appearance)."""
    ef = meshes.edge_faces(f)
    nv = len(v)
    index = {e: nv + k for k, e in enumerate(ef)}
    neigh, bneigh = {}, {}
    for (a, b), inc in ef.items():
        for p, q in ((a, b), (b, a)):
            neigh.setdefault(p, []).append(q)
            if len(inc) == 1:
                bneigh.setdefault(p, []).append(q)
    out = []
    for k in range(nv):
        if k in bneigh:
            out.append(0.75 * v[k] + 0.25 * v[bneigh[k]].mean(axis=0))
        else:
            out.append(5 / 8 * v[k] + 3 / 8 * v[neigh[k]].mean(axis=0))
    for (a, b), inc in ef.items():
        if len(inc) == 1:
            out.append(0.5 * (v[a] + v[b]))
        else:
            opp = [f[i][(k + 2) % 3] for i, k, _ in inc]
            out.append(3 / 8 * (v[a] + v[b]) + 1 / 8 * (v[opp[0]] + v[opp[1]]))
    c2 = None if c is None else np.vstack([c] + [0.5 * (c[a] + c[b])[None] for a, b in ef])
    nf = []
    for t in f:
        m = [index[(min(t[k], t[(k + 1) % 3]), max(t[k], t[(k + 1) % 3]))] for k in range(3)]
        nf += [[t[0], m[0], m[2]], [t[1], m[1], m[0]], [t[2], m[2], m[1]], m]
    return np.array(out), np.array(nf), c2


def canonical(f):
    out = []
    for t in f:
        t = [int(x) for x in t]
        k = t.index(min(t))
        out.append(tuple(t[k:] + t[:k]))
    return sorted(out)


def prop(case, ctx):
    from deodr.triangulated_mesh import ColoredTriMesh, loop_subdivision

    rng = rng_of(case)
    M = meshes.decode(case["mesh"])
    F = M.faces.astype(int)
    v = M.vertices * 10.0 ** rng.integers(-1, 3)
    n = case["n"]
    c = None
    if case["colors"] == 1:
        c = rng.random((len(v), case["c"]))
    elif case["colors"]:
        # integer colours, signed or not, are interpolated as numbers
        top = [2, 256][rng.integers(0, 2)]
        c = rng.integers(0, top, (len(v), case["c"])).astype([np.uint8, np.int64, np.int32][rng.integers(0, 3)])
    ctx.label("integer colours", case["colors"] == 2)
    nbc = case["c"] if c is None or case["seed"] % 2 else None
    m = ColoredTriMesh(scenes.laid(M.faces, case["seed"] // 5), vertices=scenes.laid(v, case["seed"] // 7), clockwise=M.clockwise,
                       colors=None if c is None else scenes.laid(c, case["seed"] // 11), nb_colors=nbc,
                       compute_adjacencies=bool(case["seed"] & 4))
    ev, ef, ec = v, F, None if c is None else c.astype(float)
    for _ in range(n):
        ev, ef, ec = refine(ev, ef, ec)
    try:
        r = m.subdivise(n) if case["seed"] & 8 else loop_subdivision(m, n)
    except BaseException as e:
        # a closed mesh which is not nearly convex can end up with a negative volume: not a mesh that the library accepts
        if M.closed:
            x, y = v, F
            for _ in range(n):
                x, y, _c = refine(x, y, None)
                if meshes.volume(x, y) * (-1 if M.clockwise else 1) <= 1e-12:
                    raise Skip("the refined mesh has no volume")
        raise
    if n == 0:
        ctx.check(np.array_equal(r.vertices, v) and np.array_equal(r.faces, M.faces), "zero iterations change the mesh")
    # the mesh itself is left unchanged
    ctx.exact(m.vertices, v, "vertices of the mesh after its subdivision")
    ctx.exact(m.faces, M.faces, "faces of the mesh after its subdivision")
    if c is not None:
        ctx.exact(m.vertices_colors, c, "colours of the mesh after its subdivision")
    ctx.check(m.clockwise == M.clockwise, "the clockwise flag of the mesh changed")
    RV, RF = np.asarray(r.vertices), np.asarray(r.faces)
    ctx.check(RV.shape == ev.shape, "%d vertices instead of %d", len(RV), len(ev))
    ctx.check(RF.shape == ef.shape, "%d faces instead of %d", len(RF), len(ef))
    ctx.check(bool(r.clockwise) == M.clockwise, "the clockwise flag is lost")
    ctx.check(r.nb_colors == case["c"], "nb_colors is %s", r.nb_colors)
    ctx.check((r.vertices_colors is None) == (c is None), "colours are %s", "lost" if c is not None else "invented")
    # vertices correspond by position
    size = np.abs(v).max()
    from scipy.spatial import cKDTree

    tree = cKDTree(ev)
    d, _ = tree.query(ev, k=2)
    if d[:, 1].min() < 1e-6 * size:
        raise Skip("vertices at the same position")
    dist, to = tree.query(RV)
    if dist.max() > 1e-10 * size:
        k = int(np.argmax(dist))
        raise Violation("vertex %d at %r is none of the refined vertices (the nearest is %g away)" % (k, RV[k], dist[k]))
    ctx.check(len(np.unique(to)) == len(ev), "refined vertices are repeated")
    got, exp = canonical(to[RF]), canonical(ef)
    if got != exp:
        lost = sorted(set(exp) - set(got))
        raise Violation("the refined faces differ, e.g. %s (in the numbering of the reference) is missing" % (lost[:1],))
    if c is not None:
        ctx.close(r.vertices_colors, ec[to], "colours", rtol=1e-12, atol=1e-12)
    # invariants
    A = r.adjacencies
    euler = len(RV) - int(A.nb_edges) + len(RF)
    ctx.check(euler == len(v) - len(meshes.edge_faces(F)) + len(F), "the Euler characteristic changed")
    ctx.check(bool(A.is_manifold) and bool(A.is_closed) == M.closed, "manifoldness or closedness changed")
    ctx.check(meshes.components(len(RV), RF) == meshes.components(len(v), F), "the number of components changed")
    # affine transforms
    L = np.diag(rng.uniform(0.5, 2, 3)) + rng.uniform(-0.4, 0.4, (3, 3))
    if np.linalg.det(L) > 0.05 and n:
        t = rng.uniform(-2, 2, 3) * size
        m2 = ColoredTriMesh(M.faces.copy(), vertices=v.dot(L.T) + t, clockwise=M.clockwise, nb_colors=1)
        r2 = loop_subdivision(m2, n)
        ctx.close(r2.vertices, RV.dot(L.T) + t, "vertices of the transformed mesh", rtol=0, atol=1e-10 * size)
        ctx.exact(r2.faces, RF, "faces of the transformed mesh")
    ctx.nontrivial(n > 0 and len(F) > 1)
    ctx.label("boundary", not M.closed)
    ctx.label("%d iterations" % n)
    ctx.label("coloured", c is not None)


SMALL = ["triangle", "pair", "tetra", "fan", "octa"]


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 1, 1, 2, 2, 2, 3, 3, 0, 0, 1, 2, 3, 4]))
    shapes = dict(shapes=SMALL, max_splits=1) if n == 4 else dict(max_splits=3)
    return {
        "mesh": draw(meshes.mesh_cases(iso=False, jitter=(0.0, 0.02, 0.08), **shapes)), "n": n,
        "c": draw(st.sampled_from([1, 2, 3, 3, 4, 5])), "colors": draw(st.sampled_from([0, 1, 1, 2])), "seed": draw(st.integers(0, 2**31 - 1)),
    }


def prop_textured(case, ctx):
    from deodr.triangulated_mesh import ColoredTriMesh, loop_subdivision

    M = meshes.decode(case)
    rng = rng_of(case)
    m = ColoredTriMesh(M.faces, vertices=M.vertices, clockwise=M.clockwise, faces_uv=M.faces, uv=rng.random((len(M.vertices), 2)), texture=rng.random((2, 2, 3)))
    try:
        loop_subdivision(m, 1)
        raised = False
    except BaseException:
        raised = True
    ctx.check(raised, "the texture coordinates of a textured mesh are silently dropped")
    ctx.nontrivial()


CHECK = Check(
    "C19",
    "generated manifold meshes, closed and with boundaries, refined up to three times, against an independent refinement (matched by positions), topological "
    "invariants and affine transforms; non trivial: at least one iteration and two faces",
    [Sub("loop", cases, prop, 4320, 30000), Sub("large", lambda: meshes.with_big(cases(), {"n": 1}, iso=False, size=14), prop, 144, 2000), Sub("huge", lambda: meshes.with_huge(cases(), {"n": 1}), prop, 8, 200), Sub("textured", lambda: meshes.mesh_cases(iso=False), prop_textured, 144, 800)],
    assumptions=["vertices of no face are left out", "meshes whose refined vertices coincide or whose refined volume vanishes are left out"],
)
