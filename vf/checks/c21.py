"""C21: conversions from and to trimesh, and loading of textured and coloured files."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import meshes, scenes
from ..core import Check, Sub, Violation
from ..scenes import rng_of


def texture_levels(case, rng, channels):
    h, w = case["th"], case["tw"]
    return rng.integers(0, 256, (h, w, channels)).astype(np.uint8)


def seams(case, rng, nv, f):
    """Texture coordinates (in [0, 1]), and their index at each corner of the faces."""
    uv, faces_uv = [], np.zeros(f.shape, dtype=np.int64)
    known = {}
    for i in range(len(f)):
        chart = int(rng.integers(0, case["charts"]))
        for k in range(3):
            key = (chart, int(f[i, k]))
            if key not in known or rng.random() < case["split"]:
                known[key] = len(uv)
                if case["close"] and uv and rng.random() < 0.4:
                    # almost the coordinates of another corner
                    uv.append(np.array(uv[int(rng.integers(0, len(uv)))]) + rng.choice([-1, 1], 2) * 1e-5)
                else:
                    uv.append(rng.uniform(-0.2, 1.2, 2) if case["wide"] else rng.uniform(0, 1, 2))
            faces_uv[i, k] = known[key]
    return np.array(uv), faces_uv


def split_vertices(v, f, faces_uv, uv, rng):
    """One vertex for each couple position, texture coordinate: the way trimesh stores textured meshes."""
    couples = {}
    nf = np.zeros(f.shape, dtype=np.int64)
    for i in range(len(f)):
        for k in range(3):
            nf[i, k] = couples.setdefault((int(f[i, k]), int(faces_uv[i, k])), len(couples))
    keys = list(couples)
    order = rng.permutation(len(keys))
    rank = np.empty(len(keys), dtype=np.int64)
    rank[order] = np.arange(len(keys))
    v2 = np.array([v[keys[o][0]] for o in order])
    uv2 = np.array([uv[keys[o][1]] for o in order])
    return v2, rank[nf], uv2


def geometry(case, clockwise=None):
    c = dict(case["mesh"])
    if clockwise is not None:
        c["clockwise"] = clockwise
    M = meshes.decode(c)
    v = M.vertices * 10.0 ** case["scale"]
    if case["snap"]:
        v = np.round(v, 1) if case["scale"] == 0 else v
    v = v + 0.0
    if case["zero"]:
        # zeros of both signs are the same position
        v[np.abs(v) < 0.35 * np.abs(v).max()] = 0.0
    return M, v


def orient(v, f):
    if meshes.volume(v, f) < 0:
        f = f[:, ::-1].copy()
    return f


def check_corners(ctx, mesh, v, f, what):
    ctx.check(mesh.faces.shape == f.shape, "%s: %s faces instead of %s", what, mesh.faces.shape, f.shape)
    ctx.exact(np.asarray(mesh.vertices)[np.asarray(mesh.faces).astype(np.int64)], v[f], what + ": position of the corners")


def check_merged(ctx, mesh, what):
    n = len({tuple(p) for p in (np.asarray(mesh.vertices) + 0.0).tolist()})
    ctx.check(n == len(mesh.vertices), "%s: %d vertices at %d positions", what, len(mesh.vertices), n)


def solid(v, f):
    """Volume far from zero, or open surface: the constructor does not reject the orientation because of rounding"""
    ext = np.ptp(v, axis=0).max()
    return abs(meshes.volume(v, f)) > 1e-6 * ext**3


def prop_textured(case, ctx):
    import trimesh
    from PIL import Image

    from deodr.triangulated_mesh import ColoredTriMesh

    rng = rng_of(case)
    M, v = geometry(case, False)
    f = M.faces.astype(np.int64)
    f = orient(v, f)
    if not solid(v, f) and M.closed:
        ctx.label("flat")
        return
    uv, faces_uv = seams(case, rng, len(v), f)
    v2, f2, uv2 = split_vertices(v, f, faces_uv, uv, rng)
    if case["zero"]:
        v2 = np.where((v2 == 0) & (rng.random(v2.shape) < 0.5), -0.0, v2)
    mode = case["mode"]
    channels = {"L": 1, "RGB": 3, "RGBA": 4, "P": 3}[mode]
    levels = texture_levels(case, rng, channels)
    if mode == "P":
        palette = rng.integers(0, 256, (256, 3)).astype(np.uint8)
        image = Image.fromarray(levels[:, :, 0], mode="P")
        image.putpalette(palette.ravel().tolist())
        levels = palette[levels[:, :, 0]]
    else:
        image = Image.fromarray(levels[:, :, 0] if mode == "L" else levels, mode=mode)
    tm = trimesh.Trimesh(
        vertices=v2, faces=f2, process=False,
        visual=trimesh.visual.texture.TextureVisuals(uv=uv2, material=trimesh.visual.material.SimpleMaterial(image=image)),
    )
    mesh = ColoredTriMesh.from_trimesh(tm, compute_adjacencies=case["adj"])
    check_corners(ctx, mesh, v2, f2, "from_trimesh")
    check_merged(ctx, mesh, "from_trimesh")
    ctx.check(not mesh.clockwise, "the faces of trimesh are counterclockwise")
    h, w = levels.shape[:2]
    expected = np.column_stack((uv2[:, 0] * w - 0.5, (1 - uv2[:, 1]) * h - 0.5))[f2]
    got = np.asarray(mesh.uv)[np.asarray(mesh.faces_uv).astype(np.int64)]
    ctx.close(got, expected, "from_trimesh: texture coordinates of the corners", rtol=1e-12, atol=1e-10)
    ctx.close(mesh.texture, levels[:, :, : min(3, channels)] / 255, "from_trimesh: texture", rtol=1e-15, atol=1e-15)
    ctx.check(mesh.textured and mesh.nb_colors == min(3, channels), "%s colours", mesh.nb_colors)
    ctx.check(mesh.vertices_colors is None, "colours are given to a textured mesh")
    # and back
    back = mesh.to_trimesh()
    ctx.check(back.faces.shape == f2.shape, "to_trimesh: %s faces instead of %s", back.faces.shape, f2.shape)
    bf = np.asarray(back.faces)
    ctx.exact(np.asarray(back.vertices)[bf], v2[f2], "to_trimesh: position of the corners")
    ctx.close(np.asarray(back.visual.uv)[bf], uv2[f2], "to_trimesh: texture coordinates of the corners", rtol=1e-12, atol=1e-12)
    image2 = np.array(back.visual.material.image)
    ctx.exact(image2.reshape(h, w, -1), levels[:, :, : min(3, channels)], "to_trimesh: levels of the texture")
    # the inputs are not modified
    ctx.exact(np.asarray(tm.vertices), v2, "vertices of the trimesh given")
    ctx.exact(np.asarray(tm.faces), f2, "faces of the trimesh given")
    ctx.exact(np.asarray(tm.visual.uv), uv2, "texture coordinates of the trimesh given")
    ctx.exact(np.array(tm.visual.material.image if mode != "P" else tm.visual.material.image.convert("RGB")).reshape(levels.shape), levels, "image of the trimesh given")
    ctx.nontrivial(len(v2) > len(mesh.vertices))
    ctx.label("seams", len(v2) > len(mesh.vertices))
    ctx.label(mode)


def prop_coloured(case, ctx):
    import trimesh

    from deodr.triangulated_mesh import ColoredTriMesh

    rng = rng_of(case)
    M, v = geometry(case, False)
    f = orient(v, M.faces.astype(np.int64))
    if not solid(v, f) and M.closed:
        ctx.label("flat")
        return
    colours = rng.integers(0, 256, (len(v), 4)).astype(np.uint8)
    if case["snap"] or case["zero"]:
        # equal positions get equal colours
        first = {}
        for i, p in enumerate((v + 0.0).tolist()):
            j = first.setdefault(tuple(p), i)
            colours[i] = colours[j]
    _, faces_dup = seams(case, rng, len(v), f)
    n = int(faces_dup.max()) + 1
    v2, f2, _ = split_vertices(v, f, faces_dup, np.zeros((n, 2)), rng)
    # colours of the duplicated vertices
    c2 = np.zeros((len(v2), 4), dtype=np.uint8)
    c2[f2.ravel()] = colours[f.ravel()]
    c2[:, 3] = rng.integers(0, 256, len(v2)) if case["alpha"] else 255
    conflict = None
    if case["conflict"]:
        # a vertex at the position of another one, with another colour
        groups = {}
        for i, p in enumerate((v2 + 0.0).tolist()):
            groups.setdefault(tuple(p), []).append(i)
        groups = [g for g in groups.values() if len(g) > 1]
        if groups:
            g = groups[int(rng.integers(0, len(groups)))]
            conflict = g[int(rng.integers(0, len(g)))]
            k = int(rng.integers(0, 3))
            c2[conflict, k] = (int(c2[conflict, k]) + int(rng.integers(1, 256))) % 256
    tm = trimesh.Trimesh(vertices=v2, faces=f2, process=False, vertex_colors=c2 if case["alpha"] or case["seed"] % 2 else c2[:, :3])
    if tm.visual.kind != "vertex":
        raise Violation("the generated mesh has no vertex colours")
    try:
        mesh = ColoredTriMesh.from_trimesh(tm, compute_adjacencies=case["adj"])
    except BaseException as e:
        ctx.check(conflict is not None and "same color" in str(e), "rejected: %r", e)
        ctx.label("conflict rejected")
        ctx.nontrivial()
        return
    ctx.check(conflict is None, "a mesh with two colours at a single position is accepted")
    check_corners(ctx, mesh, v2, f2, "from_trimesh")
    check_merged(ctx, mesh, "from_trimesh")
    mf = np.asarray(mesh.faces).astype(np.int64)
    ctx.close(np.asarray(mesh.vertices_colors)[mf], c2[f2][:, :, :3] / 255, "colours of the corners", rtol=1e-15, atol=1e-15)
    ctx.check(mesh.texture is None and not mesh.textured and mesh.nb_colors == 3, "coloured meshes have no texture")
    ctx.check(not mesh.clockwise, "the faces of trimesh are counterclockwise")
    ctx.exact(np.asarray(tm.vertices), v2, "vertices of the trimesh given")
    ctx.exact(np.asarray(tm.faces), f2, "faces of the trimesh given")
    ctx.exact(np.asarray(tm.visual.vertex_colors)[:, :3], c2[:, :3], "colours of the trimesh given")
    try:
        mesh.to_trimesh()
    except BaseException:
        pass
    else:
        raise Violation("a mesh with vertex colours is converted without them")
    ctx.nontrivial(len(v2) > len(mesh.vertices))


def prop_to(case, ctx):
    from deodr.triangulated_mesh import ColoredTriMesh

    rng = rng_of(case)
    M, v = geometry(case)
    f = M.faces.astype(np.int64)
    if (meshes.volume(v, f) < 0) != M.clockwise:
        f = f[:, ::-1].copy()
    if not solid(v, f) and M.closed:
        ctx.label("flat")
        return
    uv, faces_uv = seams(case, rng, len(v), f)
    if case["seed"] % 3 == 0:
        # as many texture coordinates as vertices
        if len(uv) > len(v):
            used = rng.permutation(len(v))
            faces_uv = used[faces_uv % len(v)]
            uv = uv[: len(v)]
        else:
            uv = np.concatenate((uv, rng.uniform(0, 1, (len(v) - len(uv), 2))))
    channels = 1 if case["mode"] == "L" else 3
    levels = texture_levels(case, rng, channels)
    h, w = levels.shape[:2]
    if case["levels"] == 0:
        texture = levels / 255.0
    elif case["levels"] == 1:
        texture = rng.random(levels.shape)
    else:
        texture = rng.uniform(-0.3, 1.3, levels.shape)
    uv_texels = uv * [w, h] - 0.5
    args = [f.astype(M.dtype), v, faces_uv.astype(M.dtype), uv_texels, texture]
    args = [scenes.laid(a, case["seed"] // k) for a, k in zip(args, (5, 7, 11, 13, 17))]
    kept = [a.copy() for a in args]
    mesh = ColoredTriMesh(args[0], args[1], M.clockwise, faces_uv=args[2], uv=args[3], texture=args[4], compute_adjacencies=case["adj"])
    back = mesh.to_trimesh()
    bf = np.asarray(back.faces)
    ctx.check(bf.shape == f.shape, "to_trimesh: %s faces instead of %s", bf.shape, f.shape)
    ctx.exact(np.asarray(back.vertices)[bf], v[f], "to_trimesh: position of the corners")
    expected = np.column_stack(((uv_texels[:, 0] + 0.5) / w, 1 - (uv_texels[:, 1] + 0.5) / h))
    ctx.close(np.asarray(back.visual.uv)[bf], expected[faces_uv], "to_trimesh: texture coordinates of the corners", rtol=1e-12, atol=1e-12)
    image = np.array(back.visual.material.image)
    ctx.check(image.dtype == np.uint8 and image.shape[:2] == (h, w), "image of type %s and shape %s", image.dtype, image.shape)
    err = np.abs(image.reshape(levels.shape) - np.clip(texture, 0, 1) * 255)
    if err.max() > 0.5 + 1e-9:
        k = tuple(int(x) for x in np.argwhere(err > 0.5 + 1e-9)[0])
        raise Violation("to_trimesh: texel %s of value %r becomes the level %d" % (k, float(texture[k]) * 255, image.reshape(levels.shape)[k]))
    for a, b, n in zip(args, kept, ["faces", "vertices", "faces_uv", "uv", "texture"]):
        ctx.exact(a, b, n + " of the mesh given")
    for a, b, n in zip([mesh.faces, mesh.vertices, mesh.faces_uv, mesh.uv, mesh.texture], kept, ["faces", "vertices", "faces_uv", "uv", "texture"]):
        ctx.exact(np.asarray(a), b, n + " of the mesh")
    # the other way
    again = ColoredTriMesh.from_trimesh(back, compute_adjacencies=False)
    check_corners(ctx, again, v, f, "from_trimesh(to_trimesh)")
    ctx.close(np.asarray(again.uv)[np.asarray(again.faces_uv).astype(np.int64)], uv_texels[faces_uv], "texture coordinates converted twice", rtol=1e-12, atol=1e-10)
    ctx.close(again.texture, image.reshape(levels.shape) / 255, "texture converted twice", rtol=1e-15, atol=1e-15)
    ctx.nontrivial(len(uv) > 3)
    ctx.label("levels", case["levels"] == 0)
    ctx.label("as many texture coordinates as vertices", len(uv) == len(v) and not np.array_equal(faces_uv, f))


def prop_load(case, ctx):
    """A textured OBJ, or a coloured PLY, written here and loaded with ColoredTriMesh.load."""
    from PIL import Image

    from deodr.triangulated_mesh import ColoredTriMesh

    rng = rng_of(case)
    M, v = geometry(case, False)
    f = orient(v, M.faces.astype(np.int64))
    if not solid(v, f) and M.closed:
        ctx.label("flat")
        return
    with tempfile.TemporaryDirectory(prefix="vf-c21-") as tmp:
        if case["ply"]:
            colours = rng.integers(0, 256, (len(v), 3))
            if case["snap"] or case["zero"]:
                colours[:] = colours[0]
            path = os.path.join(tmp, "mesh.ply")
            with open(path, "w") as fid:
                fid.write("ply\nformat ascii 1.0\nelement vertex %d\n" % len(v))
                for n in "xyz":
                    fid.write("property double %s\n" % n)
                for n in ("red", "green", "blue"):
                    fid.write("property uchar %s\n" % n)
                fid.write("element face %d\nproperty list uchar int vertex_indices\nend_header\n" % len(f))
                for p, c in zip(v.tolist(), colours.tolist()):
                    fid.write("%r %r %r %d %d %d\n" % (*p, *c))
                for t in f.tolist():
                    fid.write("3 %d %d %d\n" % tuple(t))
            mesh = ColoredTriMesh.load(path)
            mf = np.asarray(mesh.faces).astype(np.int64)
            ctx.check(mf.shape == f.shape, "load: %s faces instead of %s", mf.shape, f.shape)
            ctx.close(np.asarray(mesh.vertices)[mf], v[f], "load: position of the corners", rtol=1e-12, atol=0)
            ctx.close(np.asarray(mesh.vertices_colors)[mf], colours[f] / 255, "load: colours of the corners", rtol=1e-15, atol=1e-15)
            ctx.nontrivial()
            ctx.label("ply")
            return
        uv, faces_uv = seams(case, rng, len(v), f)
        channels = 1 if case["mode"] == "L" else 3
        levels = texture_levels(case, rng, channels)
        h, w = levels.shape[:2]
        Image.fromarray(levels[:, :, 0] if channels == 1 else levels).save(os.path.join(tmp, "image.png"))
        with open(os.path.join(tmp, "mesh.mtl"), "w") as fid:
            fid.write("newmtl skin\nKd 1 1 1\nmap_Kd image.png\n")
        path = os.path.join(tmp, "mesh.obj")
        with open(path, "w") as fid:
            fid.write("mtllib mesh.mtl\n")
            for p in v.tolist():
                fid.write("v %r %r %r\n" % tuple(p))
            for p in uv.tolist():
                fid.write("vt %r %r\n" % tuple(p))
            fid.write("usemtl skin\n")
            for t, q in zip(f + 1, faces_uv + 1):
                fid.write("f %d/%d %d/%d %d/%d\n" % (t[0], q[0], t[1], q[1], t[2], q[2]))
        mesh = ColoredTriMesh.load(path)
    mf = np.asarray(mesh.faces).astype(np.int64)
    ctx.check(mf.shape == f.shape, "load: %s faces instead of %s", mf.shape, f.shape)
    ctx.close(np.asarray(mesh.vertices)[mf], v[f], "load: position of the corners", rtol=1e-12, atol=0)
    expected = np.column_stack((uv[:, 0] * w - 0.5, (1 - uv[:, 1]) * h - 0.5))[faces_uv]
    got = np.asarray(mesh.uv)[np.asarray(mesh.faces_uv).astype(np.int64)]
    ctx.close(got, expected, "load: texture coordinates of the corners", rtol=1e-12, atol=1e-10)
    tex = np.asarray(mesh.texture)
    if tex.shape[2] == 3 and channels == 1:
        tex = tex[:, :, :1]
    ctx.close(tex, levels / 255, "load: texture", rtol=1e-15, atol=1e-15)
    check_merged(ctx, mesh, "load")
    ctx.nontrivial()


@st.composite
def cases(draw, mode=("RGB", "RGB", "RGBA", "L", "P")):
    return {
        "mesh": draw(meshes.mesh_cases(iso=False)), "scale": draw(st.sampled_from([0, 0, 0, -3, -9, 4])), "snap": draw(st.booleans()), "zero": draw(st.booleans()),
        "charts": draw(st.integers(1, 3)), "split": draw(st.sampled_from([0.0, 0.1, 0.5])), "close": draw(st.booleans()), "wide": draw(st.booleans()),
        "th": draw(st.integers(1, 9)), "tw": draw(st.integers(1, 9)), "mode": draw(st.sampled_from(mode)), "levels": draw(st.integers(0, 2)),
        "adj": draw(st.booleans()), "alpha": draw(st.booleans()), "conflict": draw(st.sampled_from([False, False, True])), "ply": draw(st.booleans()),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


CHECK = Check(
    "C21",
    "meshes of all topologies with charts, seams, duplicated vertices, zeros of both signs, all scales and kinds of images; non trivial: vertices have to be merged, "
    "or a colour conflict has to be rejected",
    [Sub("textured", cases, prop_textured, 10000, 60000), Sub("large", lambda: meshes.with_big(cases(), iso=False, size=18), prop_textured, 240, 2000),
     Sub("huge", lambda: meshes.with_huge(cases()), prop_textured, 8, 100), Sub("huge coloured", lambda: meshes.with_huge(cases()), prop_coloured, 8, 100),
     Sub("large coloured", lambda: meshes.with_big(cases(), iso=False, size=18), prop_coloured, 240, 2000), Sub("coloured", cases, prop_coloured, 10000, 60000),
     Sub("to", lambda: cases(("RGB", "L")), prop_to, 10000, 60000), Sub("load", lambda: cases(("RGB", "L")), prop_load, 4800, 30000)],
    assumptions=["vertices within rounding of one another are not generated for the rejection of inverted closed surfaces"],
)
