"""C17: adjacencies against their definitions on the list of faces."""
import numpy as np
from hypothesis import strategies as st

from .. import meshes, scenes
from ..core import Check, Skip, Sub, Violation
from ..scenes import rng_of


def dense(a, n, m):
    """Rows, columns and values of a sparse or dense matrix, as a dict without zeros."""
    from scipy import sparse

    if a.shape != (n, m):
        raise Violation("a matrix has shape %s instead of %s" % (a.shape, (n, m)))
    a = sparse.coo_matrix(a)
    out = {}
    for i, j, v in zip(a.row, a.col, a.data):
        out[(int(i), int(j))] = out.get((int(i), int(j)), 0) + float(v)
    return {k: v for k, v in out.items() if v != 0}


def same(ctx, got, exp, what):
    if got != exp:
        diff = [k for k in set(got) | set(exp) if got.get(k, 0) != exp.get(k, 0)]
        k = sorted(diff)[0]
        raise Violation("%s: entry %s is %r instead of %r (%d differences)" % (what, k, got.get(k, 0), exp.get(k, 0), len(diff)))


def faces_of(case):
    rng = rng_of(case, 3)
    if case["mesh"] is not None:
        M = meshes.decode(case["mesh"])
        f, nv = M.faces.astype(np.int64), len(M.vertices)
        if case["drop"] and len(f) > 2:
            keep = rng.random(len(f)) < 0.7
            keep[0] = True
            f = f[keep]
        if case["flip"] == 1:
            k = int(rng.integers(0, len(f)))
            f[k] = f[k][::-1]
        elif case["flip"] == 2:
            f = np.vstack((f, f[:1]))
    else:
        nv = case["nv"]
        f = np.array([rng.permutation(nv)[:3] for _ in range(case["nf"])])
    big = case["big"]
    if big:
        # large numbers of vertices: products of indices exceed 32 bits
        m = np.sort(rng.choice([70000, 100001, 66001][big % 3], nv, replace=False))
        f = m[f]
        nv = int(f.max()) + 1 + int(rng.integers(0, 3))
    dtype = [np.int64, np.uint32, np.int32, np.uint64][case["seed"] % 4]
    return f.astype(dtype), nv


def prop(case, ctx):
    from deodr.triangulated_mesh import TriMeshAdjacencies

    rng = rng_of(case)
    f, nv = faces_of(case)
    given = scenes.laid(f, case["seed"] // 7) if case["seed"] % 3 else f.tolist()
    implicit = case["seed"] % 5 == 0
    if implicit:
        nv = int(f.max()) + 1
        A = TriMeshAdjacencies(given, clockwise=case["clockwise"])
    else:
        A = TriMeshAdjacencies(given, clockwise=case["clockwise"], nb_vertices=nv)
    nf = len(f)
    F = f.astype(np.int64)
    ef = meshes.edge_faces(F)
    ctx.check(A.nb_vertices == nv and A.nb_faces == nf, "sizes are %s vertices %s faces", A.nb_vertices, A.nb_faces)
    ctx.check(int(A.nb_edges) == len(ef), "%s edges instead of %d", A.nb_edges, len(ef))
    edges = [tuple(sorted(map(int, e))) for e in A.edges]
    ctx.check(len(edges) == len(ef) and set(edges) == set(ef), "the list of edges is wrong")
    index = {e: k for k, e in enumerate(edges)}
    ne = len(edges)
    fe = np.asarray(A.faces_edges)
    ctx.check(fe.shape == (nf, 3), "faces_edges has shape %s", fe.shape)
    for i in range(nf):
        for k in range(3):
            e = tuple(sorted((int(F[i, k]), int(F[i, (k + 1) % 3]))))
            if int(fe[i, k]) != index[e]:
                raise Violation("edge %d of face %d is edge %d instead of %d" % (k, i, fe[i, k], index[e]))
    same(ctx, dense(A.edges_faces_ones, ne, nf), {(index[e], i): 1.0 for e, inc in ef.items() for i, k, up in inc}, "edge-face incidence")
    ev = dense(A.edges_vertices_ones, ne, nv)
    ctx.check(set(ev) == {(index[e], v) for e in ef for v in e}, "edge-vertex incidence")
    if hasattr(A, "_vertices_faces"):
        same(ctx, dense(A._vertices_faces, nv, nf), {(int(v), i): 1.0 for i in range(nf) for v in F[i]}, "vertex-face incidence")
    dvf = np.zeros(nv)
    for v in F.ravel():
        dvf[v] += 1
    ctx.exact(np.asarray(A.degree_v_f).ravel(), dvf, "number of faces per vertex")
    neigh = {(a, b): 1.0 for e in ef for a, b in (e, e[::-1])}
    same(ctx, dense(A.adjacency_vertices, nv, nv), neigh, "vertex adjacency")
    dve = np.zeros(nv)
    for a, b in neigh:
        dve[a] += 1
    ctx.exact(np.asarray(A.degree_v_e).ravel(), dve, "number of edges per vertex")
    lap = {k: -1.0 for k in neigh}
    lap.update({(v, v): dve[v] for v in np.flatnonzero(dve)})
    same(ctx, dense(A.laplacian, nv, nv), {k: float(v) for k, v in lap.items()}, "laplacian")
    border = {e for e, inc in ef.items() if len(inc) == 1}
    b = A.boundary_edges()
    ctx.check(b.shape == (len(border), 2), "boundary_edges has shape %s instead of %d rows", b.shape, len(border))
    ctx.check({tuple(sorted(map(int, e))) for e in b} == border, "boundary edges are wrong")
    ctx.check(bool(A.hasBoundaries) == bool(border), "hasBoundaries is %s", A.hasBoundaries)
    manifold = meshes.is_manifold(F)
    ctx.check(bool(A.is_manifold) == manifold, "is_manifold is %s", A.is_manifold)
    closed = manifold and not border
    ctx.check(bool(A.is_closed) == closed, "is_closed is %s", A.is_closed)
    # silhouettes
    used, inv = np.unique(F, return_inverse=True)
    for kind in range(2):
        ij = np.zeros((nv, 2))
        if kind == 0:
            p = rng.integers(-6, 7, (len(used), 2)) / 4.0
        else:
            p = rng.standard_normal((len(used), 2)) * 10 + rng.uniform(-50, 50, 2)
        ij[used] = p
        t = ij[F]
        cr = scenes.cross2(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
        front = cr > 0 if case["clockwise"] else cr < 0
        exp = np.array([[sum(front[i] for i, _, _ in ef[edges[fe[k, n]]]) == 1 for n in range(3)] for k in range(nf)])
        got = np.asarray(A.edge_on_silhouette(ij))
        ctx.check(got.shape == (nf, 3), "edge_on_silhouette has shape %s", got.shape)
        if np.any(got.astype(bool) != exp):
            k = np.argwhere(got != exp)[0]
            raise Violation("edge %d of face %d is %s the silhouette" % (k[1], k[0], "on" if got[tuple(k)] else "not on"))
        ctx.label("silhouette edges", exp.any())
    ctx.exact(np.asarray(given), f, "the faces given")
    ctx.nontrivial(nf > 1)
    ctx.label("manifold" if manifold else "not manifold")
    ctx.label("closed", closed)
    ctx.label("isolated vertices", bool((dvf == 0).any()))
    ctx.label("edges with three faces or more", any(len(x) > 2 for x in ef.values()))
    ctx.label("large numbers of vertices", bool(case["big"]))


@st.composite
def cases(draw):
    return {
        "mesh": draw(st.one_of(st.none(), meshes.mesh_cases(), meshes.mesh_cases())), "nv": draw(st.integers(3, 9)), "nf": draw(st.integers(1, 12)),
        "drop": draw(st.sampled_from([False, False, True])), "flip": draw(st.sampled_from([0, 0, 0, 1, 2])),
        "big": draw(st.sampled_from([0] * 9 + [1, 2, 3])), "clockwise": draw(st.booleans()), "seed": draw(st.integers(0, 2**31 - 1)),
    }


def prop_mesh(case, ctx):
    """Silhouettes through the mesh class are refused for meshes that are not manifold."""
    from deodr.triangulated_mesh import TriMesh

    f, nv = faces_of(case)
    rng = rng_of(case)
    v = rng.standard_normal((nv, 3))
    F = f.astype(int)
    if meshes.is_manifold(F) and not any(len(x) == 1 for x in meshes.edge_faces(F).values()):
        vol = meshes.volume(v, F)
        if abs(vol) < 1e-9:
            raise Skip("no volume")
        if (vol < 0) != case["clockwise"]:
            F = F[:, ::-1].copy()
    m = TriMesh(F, v, clockwise=case["clockwise"])
    ij = rng.standard_normal((nv, 2))
    manifold = meshes.is_manifold(F)
    try:
        got = m.edge_on_silhouette(ij)
    except BaseException:
        got = None
    ctx.check((got is not None) == manifold, "silhouettes of a %s mesh are %s", "manifold" if manifold else "non manifold",
              "refused" if got is None else "accepted")
    if got is not None:
        exp = scenes.silhouette_flags(F, ij, case["clockwise"])
        ctx.exact(np.asarray(got).astype(bool), exp, "silhouette edges")
        ctx.nontrivial(bool(exp.any()))
    else:
        ctx.nontrivial()
    ctx.label("manifold" if manifold else "not manifold")


def edges_of(F):
    """Edges (sorted pairs) of faces with the incidences, vectorised: unique pairs, index of the edge of each side, number of faces per edge."""
    sides = np.stack((F, np.roll(F, -1, axis=1)), axis=2)
    sides = np.sort(sides, axis=2).reshape(-1, 2)
    pairs, inv, count = np.unique(sides, axis=0, return_inverse=True, return_counts=True)
    return pairs, inv.reshape(F.shape), count


def prop_large(case, ctx):
    """Meshes with many vertices and edges."""
    from deodr.triangulated_mesh import TriMeshAdjacencies

    rng = rng_of(case)
    a, b = case["rows"], case["cols"]
    i, j = np.meshgrid(np.arange(a - 1), np.arange(b - 1), indexing="ij")
    k = (i * b + j).ravel()
    F = np.vstack((np.column_stack((k, k + 1, k + b)), np.column_stack((k + 1, k + b + 1, k + b))))
    nv = a * b
    if case["tube"]:
        # joined into a tube
        row = np.arange(b - 1) + (a - 1) * b
        F = np.vstack((F, np.column_stack((row, row + 1, row - (a - 1) * b)), np.column_stack((row + 1, row - (a - 1) * b + 1, row - (a - 1) * b))))
    if case["drop"]:
        F = F[rng.random(len(F)) > 0.01]
    if case["flip"]:
        n = int(rng.integers(0, len(F)))
        F[n] = F[n][::-1]
    if case["order"] >= 1:
        F = rng.permutation(nv)[F]
    if case["order"] >= 2:
        F = F[rng.permutation(len(F))]
    iso = int(rng.integers(0, 3))
    F = F.astype([np.int64, np.uint32, np.int32, np.uint64][case["seed"] % 4])
    A = TriMeshAdjacencies(F.copy(), clockwise=case["clockwise"], nb_vertices=nv + iso)
    nf = len(F)
    F = F.astype(np.int64)
    pairs, inv, count = edges_of(F)
    ne = len(pairs)
    ctx.check(A.nb_vertices == nv + iso and A.nb_faces == nf, "sizes are %s vertices %s faces", A.nb_vertices, A.nb_faces)
    ctx.check(int(A.nb_edges) == ne, "%s edges instead of %d", A.nb_edges, ne)
    E = np.sort(np.asarray(A.edges).astype(np.int64), axis=1)
    ctx.check(E.shape == (ne, 2) and np.array_equal(np.unique(E, axis=0), pairs), "the list of edges is wrong")
    fe = np.asarray(A.faces_edges)
    ctx.check(fe.shape == (nf, 3) and np.array_equal(E[fe], pairs[inv]), "the edges of the faces are wrong")
    ctx.exact(np.asarray(A.degree_v_f).ravel(), np.bincount(F.ravel(), minlength=nv + iso).astype(float), "number of faces per vertex")
    ctx.exact(np.asarray(A.degree_v_e).ravel(), np.bincount(pairs.ravel(), minlength=nv + iso).astype(float), "number of edges per vertex")
    border = pairs[count == 1]
    b = np.sort(np.asarray(A.boundary_edges()).astype(np.int64), axis=1)
    ctx.check(b.shape == border.shape and np.array_equal(np.unique(b, axis=0), border), "the boundary edges are wrong")
    # each edge is gone through at most once in each direction
    d = np.stack((F, np.roll(F, -1, axis=1)), axis=2).reshape(-1, 2)
    manifold = len(np.unique(d, axis=0)) == len(d)
    ctx.check(bool(A.is_manifold) == manifold, "is_manifold is %s", A.is_manifold)
    ctx.check(bool(A.is_closed) == (manifold and not len(border)), "is_closed is %s", A.is_closed)
    ij = rng.standard_normal((nv + iso, 2))
    t = ij[F]
    cr = scenes.cross2(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
    front = cr > 0 if case["clockwise"] else cr < 0
    n = np.bincount(inv.ravel(), weights=np.repeat(front, 3), minlength=ne)
    got = np.asarray(A.edge_on_silhouette(ij)).astype(bool)
    ctx.check(np.array_equal(got, (n == 1)[inv]), "the silhouette edges are wrong")
    ctx.nontrivial()
    ctx.label("more than 65536 vertices", nv > 65536)
    ctx.label("manifold" if manifold else "not manifold")


@st.composite
def large(draw):
    long = draw(st.booleans())
    return {
        "rows": draw(st.integers(2, 6) if long else st.integers(240, 340)), "cols": draw(st.integers(12000, 36000) if long else st.integers(240, 340)),
        "tube": draw(st.booleans()), "drop": draw(st.sampled_from([False, False, True])), "flip": draw(st.sampled_from([False, False, False, True])),
        "order": draw(st.integers(0, 2)), "clockwise": draw(st.booleans()), "seed": draw(st.integers(0, 2**31 - 1)),
    }


@st.composite
def small(draw):
    c = draw(cases())
    c["big"] = 0
    return c


CHECK = Check(
    "C17",
    "generated lists of faces (random, manifold meshes, with faces removed, repeated or reversed, isolated vertices, up to 100000 vertices, large grids and tubes in any order) against brute-force "
    "definitions; non trivial: at least two faces",
    [Sub("adjacencies", cases, prop, 10000, 60000), Sub("mesh", small, prop_mesh, 5000, 30000),
     Sub("large", large, prop_large, 80, 600)],
)
