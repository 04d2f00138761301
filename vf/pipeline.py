"""Independent differentiable model of the rendering of a mesh: projection, normals, lighting, then the model of 2D scenes."""
import numpy as np
import torch

from . import cams, model, scenes
from .core import Skip


def tt(a, grad=False):
    return torch.tensor(np.array(a, dtype=np.float64), requires_grad=grad)


def torch_normals(V, f, clockwise):
    n = torch.linalg.cross(V[f[:, 1]] - V[f[:, 0]], V[f[:, 2]] - V[f[:, 0]], dim=1)
    if clockwise:
        n = -n
    n = n / torch.linalg.norm(n, dim=1, keepdim=True)
    s = torch.zeros_like(V)
    for k in range(3):
        s = s.index_add(0, f[:, k], n)
    return s


def torch_luminosity(V, f, clockwise, light, ambient, used):
    """Luminosity per vertex; skips the case when it is not differentiable or ill conditioned."""
    if light is None:
        return ambient.expand(len(V)), None
    s = torch_normals(V, f, clockwise)
    norm = torch.linalg.norm(s, dim=1)
    # vertices of no face have no normal
    safe = torch.where(used, norm, torch.ones_like(norm))
    if float(safe.detach().min()) < 0.05:
        raise Skip("normals that cancel")
    n = s / safe[:, None]
    d = -(n * light).sum(-1)
    if float(d.detach()[used].abs().min()) < 1e-6 * (1e-12 + float(light.detach().abs().max())):
        raise Skip("light tangent to a vertex")
    return torch.where(d > 0, d, torch.zeros_like(d)) + ambient, n


def check_faces(f, ij, vertices, limit=1e-4):
    """Skip faces seen (nearly) from their side and slivers."""
    t = ij[f]
    ext = np.abs(t[:, 1:] - t[:, :1]).max(axis=(1, 2))
    area = np.abs(scenes.cross2(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]))
    if np.any(area < limit * ext**2):
        raise Skip("a face is seen from its side")
    p = vertices[f]
    n = np.linalg.norm(np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]), axis=1)
    e = np.linalg.norm(p[:, 1:] - p[:, :1], axis=2).max(axis=1)
    if np.any(n < 1e-3 * e**2):
        raise Skip("degenerate face")


def scene_dict(camera, M, vertices, ij, depths, sigma, persp, intpix, culling, bg, c):
    f = M.faces.astype(np.int64)
    nf, nv = len(f), len(vertices)
    flags = scenes.silhouette_flags(f, ij, M.clockwise) if sigma > 0 else np.zeros((nf, 3), dtype=bool)
    return dict(
        faces=f.astype(np.uint32), faces_uv=f.astype(np.uint32), ij=ij, depths=depths, textured=np.zeros(nf, dtype=bool),
        uv=np.zeros((nv, 2)), shade=np.zeros(nv), colors=np.zeros((nv, c)), shaded=np.zeros(nf, dtype=bool), edgeflags=flags,
        height=camera.height, width=camera.width, nb_colors=c, texture=np.zeros((0, 0)),
        background_image=None if bg.ndim == 1 else bg, background_color=bg if bg.ndim == 1 else None, clockwise=M.clockwise,
        backface_culling=culling, strict_edge=True, perspective_correct=persp, integer_pixel_centers=intpix,
    )


def run(d, sigma, ij, colors):
    L = {k: model._t(d[k]) for k in ("ij", "colors", "shade", "uv", "texture")}
    L["ij"], L["colors"] = ij, colors
    return model.run(d, sigma, L=L)
