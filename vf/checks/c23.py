"""C23: laplacian rigidity energy of numpy and PyTorch, against the definition on the list of edges."""
import numpy as np
from hypothesis import strategies as st

from .. import meshes
from ..core import Check, Sub
from ..scenes import rng_of

CONNECTED = [s for s in meshes.CLOSED + meshes.OPEN if s not in ("two", "pieces")]


def laplacian(nv, f):
    """Uniform laplacian: degree on the diagonal, -1 for each edge."""
    L = np.zeros((nv, nv))
    for a, b in meshes.edge_faces(f):
        L[a, b] = L[b, a] = -1
    L[np.arange(nv), np.arange(nv)] = -L.sum(axis=1)
    return L


def build(case, rng):
    from deodr.triangulated_mesh import ColoredTriMesh, TriMesh

    M = meshes.decode(case["mesh"])
    f = M.faces
    kind = case["kind"]
    if kind == "torch":
        from deodr.pytorch.triangulated_mesh_pytorch import ColoredTriMeshPytorch

        mesh = ColoredTriMeshPytorch(f.astype(np.int64), M.vertices.copy(), M.clockwise, colors=np.zeros((len(M.vertices), 3)))
    elif kind == "colored":
        mesh = ColoredTriMesh(f, M.vertices.copy(), M.clockwise, nb_colors=3, colors=np.zeros((len(M.vertices), 3)))
    else:
        mesh = TriMesh(f, M.vertices.copy(), M.clockwise)
    return M, mesh


def prop_energy(case, ctx):
    import torch

    from deodr.laplacian_rigid_energy import LaplacianRigidEnergy
    from deodr.pytorch.laplacian_rigid_energy_pytorch import LaplacianRigidEnergyPytorch

    rng = rng_of(case)
    M, mesh = build(case, rng)
    nv = len(M.vertices)
    several = meshes.components(nv, M.faces) > 1
    scale = 10.0 ** case["scale"]
    ref = rng.standard_normal((nv, 3)) * scale if case["other"] else M.vertices * scale
    w = [0.0, 1.0, 2000.0, 1e-3, float(rng.uniform(0, 100))][case["weight"]]
    if case["order"]:
        ref = np.asfortranarray(ref)
    given = ref.copy(order="K")
    cls = LaplacianRigidEnergyPytorch if case["kind"] == "torch" else LaplacianRigidEnergy
    try:
        energy = cls(mesh, given, w)
    except BaseException as e:
        ctx.check(several and "connected component" in str(e), "rejected: %r", e)
        ctx.label("several components")
        ctx.nontrivial()
        return
    ctx.check(not several, "a mesh of several components is accepted")
    ctx.exact(given, ref, "reference given")
    # the reference is not affected by later modifications
    given[...] = rng.standard_normal(given.shape)
    if case["other"]:
        other = M.vertices * rng.uniform(0.2, 5, 3) + rng.standard_normal(3)
        mesh.set_vertices(torch.tensor(other) if case["kind"] == "torch" else other)
    L = laplacian(nv, M.faces)
    H = w * L.T.dot(L)
    other_energy = None
    for step in range(case["steps"]):
        mode = int(rng.integers(0, 5))
        if mode == 0:
            x = ref.copy()
        elif mode == 1:
            x = ref + rng.standard_normal(3) * scale * 10
        else:
            x = ref + rng.standard_normal((nv, 3)) * scale * 10.0 ** rng.integers(-3, 2)
        if rng.random() < 0.3:
            x = np.asfortranarray(x)
        d = x - ref
        Ld = L.dot(d)
        expected = 0.5 * w * np.sum(Ld**2)
        grad = w * L.T.dot(Ld)
        bound = w * (np.abs(L).sum(axis=1).max() * (np.abs(d).max() + 1e-15 * scale)) ** 2 * d.size
        kept = x.copy()
        if case["kind"] == "torch":
            with_grad = rng.random() < 0.5
            xt = torch.tensor(np.ascontiguousarray(x)) if rng.random() < 0.7 else torch.tensor(x.T.copy()).T
            xt.requires_grad_(with_grad)
            e, g, h = energy.evaluate(xt)
            if with_grad:
                e.backward()
                ctx.close(xt.grad.numpy(), grad, "gradient by autograd, step %d" % step, rtol=1e-10, atol=1e-13 * max(1, bound) / max(1e-300, np.abs(d).max() + 1e-15 * scale) * 1e-2 + 1e-300)
            ctx.check(isinstance(g, torch.Tensor) and isinstance(e, torch.Tensor), "the energy and its gradient are not tensors")
            e = float(e.detach())
            g = g.detach().numpy()
            ctx.exact(xt.detach().numpy(), kept, "vertices evaluated")
        else:
            e, g, h = energy.evaluate(x)
            ctx.exact(x, kept, "vertices evaluated")
            ctx.check(np.ndim(e) == 0, "the energy is not a scalar")
        tol = 1e-12 * (bound + 1e-300)
        ctx.check(abs(e - expected) <= tol, "step %d: energy %r instead of %r (tolerance %g)", step, float(e), expected, tol)
        gtol = 1e-12 * bound / (np.abs(d).max() + 1e-15 * scale) + 1e-300
        ctx.check(np.shape(g) == (nv, 3), "gradient of shape %s", np.shape(g))
        ctx.close(g, grad, "gradient, step %d" % step, rtol=1e-10, atol=gtol)
        h = h.toarray() if hasattr(h, "toarray") else h.to_dense().numpy()
        ctx.close(h, np.kron(H, np.eye(3)), "hessian, step %d" % step, rtol=1e-12, atol=0)
        if mode == 0:
            ctx.check(e == 0, "energy %r at the reference", float(e))
            ctx.exact(np.asarray(g), np.zeros((nv, 3)), "gradient at the reference")
        if mode == 1:
            ctx.check(abs(e) <= 1e-13 * bound, "energy %r for a translation", float(e))
            ctx.label("translation")
        # what is returned belongs to the caller
        g2 = np.asarray(g)
        if g2.flags.writeable:
            g2[...] = np.nan
        ctx.nontrivial(mode > 1 and w > 0)
        ctx.label("zero weight", w == 0)
    ctx.label(case["kind"])


@st.composite
def cases(draw):
    multi = draw(st.sampled_from([False] * 7 + [True]))
    mesh = draw(meshes.mesh_cases(shapes=meshes.CLOSED + meshes.OPEN, iso=True) if multi else meshes.mesh_cases(shapes=CONNECTED, iso=False))
    return {
        "mesh": mesh, "kind": draw(st.sampled_from(["numpy", "colored", "torch", "torch"])), "scale": draw(st.sampled_from([0, 0, -3, 3])), "other": draw(st.booleans()),
        "weight": draw(st.integers(0, 4)), "order": draw(st.booleans()), "steps": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 2**31 - 1)),
    }


CHECK = Check(
    "C23",
    "connected and disconnected meshes, weights, references and histories of evaluations; non trivial: displacement that is not a translation with a positive weight, or rejection",
    [Sub("energy", cases, prop_energy, 27000, 120000), Sub("large", lambda: meshes.with_big(cases(), iso=False, size=14), prop_energy, 360, 3000)],
)
