"""C03: visibility."""
import numpy as np
from hypothesis import strategies as st

from .. import scenes
from ..core import Check, Sub, Violation

FACE_KEYS = ("faces", "faces_uv", "textured", "shaded", "edgeflags")


def subset(d, idx):
    e = scenes.copy_scene(d)
    for k in FACE_KEYS:
        e[k] = e[k][idx].copy()
    return e


def renumber(d, perm):
    """Vertex v becomes perm[v]."""
    e = scenes.copy_scene(d)
    inv = np.argsort(perm)
    for k in ("ij", "depths", "shade", "colors"):
        e[k] = e[k][inv].copy()
    e["faces"] = perm[d["faces"].astype(int)].astype(np.uint32)
    return e


def alone(d, sigma=0.0):
    out = [scenes.render(subset(d, [k]), sigma) for k in range(len(d["faces"]))]
    return np.array([o[0] for o in out]), np.array([o[1] for o in out])


def prop(case, ctx):
    d = scenes.decode(case)
    n = len(d["faces"])
    rd = scenes.backwards(case)
    if case["ties"]:
        # copies of faces, with other colours at the same place, and faces at constant equal depths
        src = rd.u8(2) % n
        nv = len(d["ij"])
        for s in src:
            f = d["faces"][s].astype(int)
            base = len(d["ij"])
            d["ij"] = np.vstack((d["ij"], d["ij"][f]))
            d["depths"] = np.concatenate((d["depths"], d["depths"][f]))
            d["shade"] = np.concatenate((d["shade"], 1 - d["shade"][f]))
            d["colors"] = np.vstack((d["colors"], 1 - d["colors"][f]))
            d["faces"] = np.vstack((d["faces"], np.arange(base, base + 3, dtype=np.uint32)))
            for k in FACE_KEYS[1:]:
                d[k] = np.concatenate((d[k], d[k][[s]]))
            p = rd.u8(1)[0] % len(d["faces"])
            order = np.insert(np.arange(len(d["faces"]) - 1), p, len(d["faces"]) - 1)
            d = subset(d, order)
        n = len(d["faces"])
    image, z = scenes.render(d, 0.0)
    I, Z = alone(d)
    zmin = Z.min(axis=0)
    if not np.array_equal(z, zmin):
        raise Violation("the z-buffer is not the minimum of those of the faces at %d pixels" % (z != zmin).sum())
    first = Z.argmin(axis=0)  # lowest index for ties
    expected = np.take_along_axis(I, first[None, :, :, None], axis=0)[0]
    bg = np.broadcast_to(d["background_image"] if case["bgimage"] else d["background_color"], image.shape)
    expected = np.where(np.isfinite(zmin)[:, :, None], expected, bg)
    if not np.array_equal(image, expected):
        y, x = np.argwhere((image != expected).any(axis=-1))[0]
        raise Violation("pixel x=%d y=%d does not show the front-most face %d" % (x, y, first[y, x]))
    tie = ((Z == zmin) & np.isfinite(Z)).sum(axis=0) > 1
    several = (np.isfinite(Z).sum(axis=0) > 1) & ~tie
    # order of faces
    perm = np.array(rd.u8(n) * 64 + np.arange(n)).argsort()
    im2, z2 = scenes.render(subset(d, perm), 0.0)
    ctx.exact(z2, z, "z-buffer after a permutation of the faces")
    ctx.check(np.array_equal(im2[~tie], image[~tie]), "the image depends on the order of the faces")
    # numbering of vertices
    nv = len(d["ij"])
    vperm = np.argsort(rd.u8(nv) * 64 + np.arange(nv))
    im3, z3 = scenes.render(renumber(d, vperm), 0.0)
    ctx.exact(z3, z, "z-buffer after a renumbering of the vertices")
    ctx.exact(im3, image, "image after a renumbering of the vertices")
    # faces that own no pixel can be removed
    owners = np.unique(first[np.isfinite(zmin)])
    if len(owners):
        im4, z4 = scenes.render(subset(d, owners), 0.0)
        ctx.exact(z4, z, "z-buffer without the hidden faces")
        ctx.exact(im4, image, "image without the hidden faces")
    # with antialiasing too, when the order of the overdraw is defined
    s = d["depths"][d["faces"].astype(int)]
    sums = np.sort((s[:, 0] + s[:, 1]) + s[:, 2])
    if case["sigma"] > 0 and np.all(np.diff(sums) > 1e-13 * np.abs(sums).max()) and not tie.any():
        a1, za1 = scenes.render(d, case["sigma"])
        a2, za2 = scenes.render(subset(d, perm), case["sigma"])
        a3, za3 = scenes.render(renumber(d, vperm), case["sigma"])
        ctx.exact(a2, a1, "antialiased image after a permutation of the faces")
        ctx.exact(a3, a1, "antialiased image after a renumbering of the vertices")
        ctx.exact(za2, z, "z-buffer of the antialiased rendering after a permutation of the faces")
        ctx.exact(za3, z, "z-buffer of the antialiased rendering after a renumbering of the vertices")
        ctx.label("antialiased permutations", bool((a1 != image).any()))
    ctx.nontrivial(bool(several.any()) or bool(tie.any()))
    ctx.label("overlapping faces", bool(several.any()))
    ctx.label("depth ties", bool(tie.any()))


@st.composite
def cases(draw, large=False, scaled=False):
    c = draw(scenes.scaled_cases(min_size=2)) if scaled else draw(scenes.large_cases(["wide", "tall", "channels", "faces", "faces", "vertices"], min_size=2) if large else scenes.scene_cases(min_size=2))
    if large:
        c["nf"], c["w"], c["h"] = min(c["nf"], 150), min(c["w"], 300), min(c["h"], 300)
    c["ties"] = draw(st.integers(0, 3)) == 0
    return c


CHECK = Check(
    "C03",
    "random scenes are rendered whole, face by face, with permuted faces, renumbered vertices, hidden faces removed, with copies of faces for "
    "ties; all comparisons are exact; non trivial: at least one pixel centre is inside two drawn faces",
    [Sub("order", cases, prop, 32000, 128000), Sub("scaled", lambda: cases(scaled=True), prop, 9600, 40000),
     Sub("large", lambda: cases(large=True), prop, 800, 5000)],
    assumptions=["ties are faces whose depths are computed from equal vertices"],
)
