"""C18: normals, volumes and their caches over histories of updates and queries."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import meshes, pipeline, scenes
from ..core import Check, Skip, Sub, Violation
from ..scenes import rng_of

OPS = ["vertices", "vertices", "small", "face_normals", "vertex_normals", "vertex_normals", "backward", "backward", "compute_face", "compute_vertex",
       "volume", "same", "inplace", "inplace"]


def quality(v, F):
    """Smallest height of the faces relative to their size."""
    p = v[F]
    n = np.linalg.norm(np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]), axis=1)
    e = np.linalg.norm(p[:, 1:] - p[:, :1], axis=2).max(axis=1)
    return float((n / e**2).min()), float(e.min())


def prop(case, ctx):
    from deodr.triangulated_mesh import ColoredTriMesh, TriMesh

    rng = rng_of(case)
    M = meshes.decode(case["mesh"])
    if case.get("extra"):
        # faces joining any vertices: normals do not need a manifold
        t = [rng.permutation(len(M.vertices))[:3] for _ in range(case["extra"])]
        t = np.array([x for x in t if quality(M.vertices, x[None])[0] > 0.1] + [M.faces[0]], dtype=M.faces.dtype)
        M.faces = np.vstack((M.faces, t))
        M.closed = False
    F = M.faces.astype(int)
    used = np.unique(F)
    v = M.vertices * 10.0 ** rng.integers(-2, 3) + rng.uniform(-1, 1, 3) * 2
    lazy = bool(case["seed"] & 1)
    given = scenes.laid(v, case["seed"] // 7)
    if case["seed"] & 2:
        m = TriMesh(scenes.laid(M.faces, case["seed"] // 5), given, clockwise=M.clockwise, compute_adjacencies=not lazy)
    else:
        m = ColoredTriMesh(scenes.laid(M.faces, case["seed"] // 5), vertices=given, clockwise=M.clockwise, nb_colors=3, compute_adjacencies=not lazy)
    total = np.zeros(v.shape)
    scale = 0.0
    queried = False
    changes = queries = backs = 0
    tf = torch.tensor(F)

    def check_face(n, what):
        ctx.check(n.shape == F.shape, "%s: face normals have shape %s", what, n.shape)
        q, e = quality(v, F)
        c = (1 + np.abs(v).max() / e) / q
        ctx.check(np.all(np.abs(np.linalg.norm(n, axis=1) - 1) < 1e-12), "%s: face normals are not unit", what)
        p = v[F]
        for a in range(3):
            u = p[:, a] - p[:, (a + 1) % 3]
            d = np.abs((n * u).sum(axis=1)) / np.linalg.norm(u, axis=1)
            if not np.all(d < 1e-14 * c * 20):
                raise Violation("%s: the normal of face %d is not orthogonal to it" % (what, int(np.argmax(d))))
        exp = meshes.face_normals(v, F, M.clockwise)
        ctx.close(n, exp, "%s: face normals" % what, rtol=0, atol=1e-14 * c * 20)

    def check_vertex(n, what):
        exp, norm = meshes.vertex_normals(v, F, M.clockwise)
        ctx.check(n.shape == exp.shape, "%s: vertex normals have shape %s", what, n.shape)
        q, e = quality(v, F)
        c = (1 + np.abs(v).max() / e) / q
        sel = used[norm[used] > 1e-6]
        bad = np.abs(n[sel] - exp[sel]).max(axis=1) > 1e-14 * c * 200 / norm[sel]
        if bad.any():
            k = sel[int(np.argmax(bad))]
            raise Violation("%s: the normal of vertex %d is %r, expected %r" % (what, k, n[k], exp[k]))
        if norm[used].min() > 1e-6:
            ctx.label("all vertices")

    for step, (op, a) in enumerate(case["ops"] + [["vertex_normals", 0], ["face_normals", 0]]):
        what = "step %d (%s)" % (step, op)
        if op in ("vertices", "small", "same", "inplace"):
            if op in ("vertices", "inplace"):
                new = M.vertices * rng.uniform(0.3, 3, 3) + rng.uniform(-1, 1, v.shape) * 0.1 + rng.uniform(-2, 2, 3)
            elif op == "small":
                new = v + rng.uniform(-1, 1, v.shape) * 1e-3 * np.ptp(v, axis=0).max()
            else:
                new = v.copy()
            if quality(new, F)[0] < 1e-3:
                continue
            if M.closed and meshes.volume(new - new[used].mean(axis=0), F) * (-1 if M.clockwise else 1) < 1e-3 * np.ptp(new[used], axis=0).prod():
                continue  # turned inside out
            v = new
            if op == "inplace":
                # the same array is modified and given again
                given[:] = v
            else:
                given = scenes.laid(v, a)
            m.set_vertices(given)
            total = np.zeros(v.shape)
            scale = 0.0
            queried = False
            changes += 1
            ctx.check(not np.any(m._vertices_b), "%s: the gradient is not reset with the vertices", what)
        elif quality(v, F)[0] < 1e-3:
            raise Skip("degenerate face")
        elif op == "face_normals":
            check_face(m.face_normals, what)
            queries += changes > 0
        elif op == "vertex_normals":
            check_vertex(m.vertex_normals, what)
            queried = True
            queries += changes > 0
        elif op == "compute_face":
            m.compute_face_normals()
            check_face(m.face_normals, what)
        elif op == "compute_vertex":
            m.compute_vertex_normals()
            check_vertex(m.vertex_normals, what)
            queried = True
        elif op == "backward":
            if not queried:
                continue
            b = rng.standard_normal(v.shape) * (rng.random((len(v), 1)) < 0.7)
            V = pipeline.tt(v, True)
            s = pipeline.torch_normals(V, tf, M.clockwise)
            norm = torch.linalg.norm(s, dim=1)
            use = torch.zeros(len(v), dtype=torch.bool)
            use[tf.reshape(-1)] = True
            if float(norm.detach()[use].min()) < 1e-2:
                continue
            nn = s / torch.where(use, norm, torch.ones_like(norm))[:, None]
            (g,) = torch.autograd.grad((nn * torch.tensor(b)).sum(), V)
            b0 = b.copy()
            m.compute_vertex_normals_backward(b)
            ctx.exact(b, b0, what + ": the incoming gradient")
            total += g.numpy()
            q, e = quality(v, F)
            scale = max(scale, np.abs(g.numpy()).max(), 1 / e)
            tol = 1e-12 * scale * (1 + np.abs(v).max() / e) / q**2 / float(norm.detach()[use].min())
            bad = ~(np.abs(m._vertices_b - total) <= tol)
            if bad.any():
                k = tuple(int(x) for x in np.argwhere(bad)[0])
                raise Violation("%s: the gradient of vertex %d coordinate %d is %r, expected %r" % (what, k[0], k[1], m._vertices_b[k], total[k]))
            backs += 1
        elif op == "volume":
            try:
                vol = m.compute_volume()
            except BaseException:
                vol = None
            ctx.check((vol is not None) == M.closed, "%s: the volume of a %s mesh is %s", what, "closed" if M.closed else "open", vol)
            if M.closed:
                c = v[used].mean(axis=0)
                exp = meshes.volume(v - c, F) * (-1 if M.clockwise else 1)
                ctx.check(abs(vol - exp) <= 1e-12 * (1 + np.abs(v).max()) ** 3 * len(F), "%s: the volume is %r instead of %r", what, vol, exp)
        ctx.exact(m.vertices, v, what + ": vertices")
        ctx.exact(np.asarray(m.faces), M.faces, what + ": faces")
    ctx.nontrivial(queries > 0 and changes > 0)
    ctx.label("backward passes", backs > 0)
    ctx.label("accumulated backward passes", backs > 1)
    ctx.label("lazy adjacencies", lazy)
    ctx.label("closed", M.closed)


@st.composite
def cases(draw):
    return {
        "mesh": draw(meshes.mesh_cases(jitter=(0.02, 0.08, 0.25))), "seed": draw(st.integers(0, 2**31 - 1)), "extra": draw(st.sampled_from([0, 0, 0, 1, 3])),
        "ops": draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 9)).map(list), min_size=2, max_size=10)),
    }


def prop_orientation(case, ctx):
    """Closed meshes with inward faces are rejected, when the adjacencies are computed."""
    from deodr.triangulated_mesh import ColoredTriMesh, TriMesh

    M = meshes.decode(case["mesh"])
    rng = rng_of(case)
    F = M.faces.astype(int)
    v = (M.vertices + (rng.uniform(-1, 1, 3) * 3 if case["seed"] % 2 else 0)) * 10.0 ** case["scale"]
    vol = meshes.volume(M.vertices, F) * (-1 if M.clockwise else 1)
    if M.closed and abs(vol) < 1e-9:
        raise Skip("no volume")
    inward = case["inward"]
    if inward:
        F = F[:, ::-1].copy()
    cls = TriMesh if case["seed"] % 3 else (lambda *a, **k: ColoredTriMesh(*a, nb_colors=1, **k))
    bad = M.closed and inward
    for lazy in (False, True):
        try:
            m = cls(F.copy(), v.copy(), clockwise=M.clockwise, compute_adjacencies=not lazy)
            if lazy:
                m.vertex_normals
            raised = False
        except BaseException:
            raised = True
        ctx.check(raised == bad, "a %s mesh with %s faces is %s (lazy adjacencies: %s)", "closed" if M.closed else "open",
                  "inward" if inward else "outward", "rejected" if raised else "accepted", lazy)
    ctx.nontrivial(M.closed)


def orientation_cases():
    return st.fixed_dictionaries({"mesh": meshes.mesh_cases(), "scale": st.sampled_from([0, 0, -6, -2, 3, 6]), "inward": st.booleans(), "seed": st.integers(0, 2**31 - 1)})


CHECK = Check(
    "C18",
    "generated meshes and histories of vertex updates, queries of normals and volumes and backward passes, with eager and lazy adjacencies, against definitions and "
    "autograd; non trivial: normals queried after an update",
    [Sub("history", cases, prop, 12000, 60000), Sub("large", lambda: meshes.with_big(cases(), jitter=(0.002, 0.01)), prop, 480, 3000), Sub("huge", lambda: meshes.with_huge(cases(), jitter=(1e-4,)), prop, 8, 200), Sub("orientation", orientation_cases, prop_orientation, 6000, 24000)],
    assumptions=["degenerate faces are left out; vertices of no face have no defined normal"],
)
