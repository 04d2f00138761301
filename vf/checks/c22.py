"""C22: MeshLab projects, read by an independent reader with the conventions of MeshLab (vcg::Shot)."""
import os
import tempfile
from xml.etree import ElementTree

import numpy as np
from hypothesis import strategies as st

from .. import cams, meshes
from ..core import Check, Sub
from ..scenes import rng_of


def floats(node, name, n):
    v = np.array([float(x) for x in node.attrib[name].split()])
    assert v.shape == (n,), "%s has %d values" % (name, v.size)
    return v


def read_obj(path):
    v, f = [], []
    with open(path) as fid:
        for line in fid:
            t = line.split()
            if t and t[0] == "v":
                v.append([float(x) for x in t[1:4]])
            elif t and t[0] == "f":
                f.append([int(x.split("/")[0]) - 1 for x in t[1:]])
    return np.array(v), np.array(f)


def prop_export(case, ctx):
    from imageio.v3 import imread

    from deodr.differentiable_renderer import Camera
    from deodr.meshlab_io import export_meshlab
    from deodr.triangulated_mesh import ColoredTriMesh

    rng = rng_of(case)
    M = meshes.decode(case["mesh"])
    v = M.vertices * 10.0 ** case["scale"] + rng.uniform(-3, 3, 3) * 10.0 ** case["scale"]
    mesh = ColoredTriMesh(M.faces, v, M.clockwise, nb_colors=3, colors=np.ones((len(v), 3)))
    cameras, images = [], []
    for _ in range(case["cameras"]):
        R = cams.rotation(rng, None if rng.random() < 0.7 else int(rng.integers(0, 6)))
        h, w = int(rng.integers(2, 12)), int(rng.integers(2, 12))
        f = rng.uniform(0.3, 3) * w
        fy = f * (rng.uniform(0.3, 3) if rng.random() < 0.3 else 1)
        K = np.array([[f, 0, w * rng.uniform(0.2, 0.8)], [0, fy, h * rng.uniform(0.2, 0.8)], [0, 0, 1]])
        c = v.mean(axis=0)
        z = np.linalg.norm(v - c, axis=1).max() * rng.uniform(1.5, 5)
        T = np.array([0, 0, z]) - R.dot(c)
        cameras.append(Camera(np.column_stack((R, T)), K, h, w))
        im = rng.integers(0, 256, (h, w, 3))
        images.append(im.astype([np.float64, np.uint8, np.int64, np.float32][int(rng.integers(0, 4))]))
    kept = [(c.extrinsic.copy(), c.intrinsic.copy()) for c in cameras]
    kept_im = [i.copy() for i in images]
    names = {}
    with tempfile.TemporaryDirectory(prefix="vf-c22-") as tmp:
        folder = tmp
        if case["path"] & 1:
            folder = os.path.join(tmp, "sub folder")
            os.mkdir(folder)
        work = os.path.join(tmp, "work")
        os.mkdir(work)
        old = os.getcwd()
        os.chdir(work)
        try:
            project = os.path.join(folder, "project.mlp")
            if case["path"] & 2:
                project = os.path.relpath(project)
            if case["path"] & 4:
                folder = work
                project = "project.mlp"
            if "/" in case["obj"]:
                os.mkdir(os.path.join(folder, os.path.dirname(case["obj"])))
            if case["obj"]:
                names["obj_name"] = case["obj"]
            export_meshlab(project, mesh, cameras, images, **names)
        finally:
            os.chdir(old)
        files = sorted(os.listdir(folder))
        root = ElementTree.parse(os.path.join(folder, "project.mlp")).getroot()
        ctx.check(root.tag == "MeshLabProject", "root element %s", root.tag)
        ml = root.findall("MeshGroup/MLMesh")
        ctx.check(len(ml) == 1, "%d meshes", len(ml))
        name = ml[0].attrib["filename"]
        ctx.check(not os.path.isabs(name), "the mesh has the absolute path %s", name)
        ctx.check(name == (case["obj"] or "mesh.obj") and ml[0].attrib["label"] == name, "the mesh is named %s with label %s", name, ml[0].attrib["label"])
        rv, rf = read_obj(os.path.join(folder, name))
        matrices = root.findall("MeshGroup//MLMatrix") + root.findall("MeshGroup//MLMatrix44")
        for m in matrices:
            ctx.exact(np.array([float(x) for x in m.text.split()]), np.eye(4).ravel(), "matrix of the mesh")
        ctx.exact(rf, M.faces.astype(np.int64), "faces of the exported mesh")
        ctx.close(rv, v, "vertices of the exported mesh", rtol=4e-16, atol=5.0001e-7)
        rasters = root.findall("RasterGroup/MLRaster")
        ctx.check(len(rasters) == len(cameras), "%d rasters for %d cameras", len(rasters), len(cameras))
        image_names = []
        for k, (r, cam, im) in enumerate(zip(rasters, cameras, images)):
            what = "raster %d: " % k
            planes = r.findall("Plane")
            ctx.check(len(planes) == 1, "%s %d planes", what, len(planes))
            n = planes[0].attrib["fileName"]
            ctx.check(not os.path.isabs(n), "%s absolute path %s", what, n)
            ctx.check(r.attrib["label"] == n, "%s label %s for the file %s", what, r.attrib["label"], n)
            image_names.append(n)
            got = imread(os.path.join(folder, n))
            ctx.exact(got, im.astype(np.int64), what + "image")
            c = r.find("VCGCamera")
            viewport = floats(c, "ViewportPx", 2)
            ctx.exact(viewport, [im.shape[1], im.shape[0]], what + "ViewportPx (width, height)")
            ctx.exact(floats(c, "LensDistortion", 2), [0, 0], what + "LensDistortion")
            ctx.check(c.attrib["CameraType"] == "0", "%s CameraType %s", what, c.attrib["CameraType"])
            rot = floats(c, "RotationMatrix", 16).reshape(4, 4)
            ctx.exact(rot[3], [0, 0, 0, 1], what + "last row of RotationMatrix")
            ctx.exact(rot[:3, 3], [0, 0, 0], what + "last column of RotationMatrix")
            ctx.close(rot[:3, :3].dot(rot[:3, :3].T), np.eye(3), what + "RotationMatrix times its transpose", atol=1e-9)
            ctx.check(np.linalg.det(rot[:3, :3]) > 0, "%s RotationMatrix is a reflection", what)
            tra = -floats(c, "TranslationVector", 4)
            ctx.check(abs(abs(tra[3]) - 1) < 1e-12, "%s TranslationVector is not homogeneous", what)
            p = (v - tra[:3]).dot(rot[:3, :3].T)
            # the camera looks towards the negative z axis, with the y axis upwards
            focal = float(c.attrib["FocalMm"]) / floats(c, "PixelSizeMm", 2)
            centre = floats(c, "CenterPx", 2)
            x = centre[0] + focal[0] * p[:, 0] / -p[:, 2]
            y = centre[1] - focal[1] * p[:, 1] / -p[:, 2]
            i, j, depth = cams.project(kept[k][0], kept[k][1], None, v)
            ctx.close(-p[:, 2], depth, what + "depth", rtol=1e-9, atol=0)
            size = max(im.shape[:2])
            ctx.close(x, i, what + "columns of the projected vertices", rtol=1e-9, atol=1e-8 * size)
            ctx.close(y, j, what + "rows of the projected vertices", rtol=1e-9, atol=1e-8 * size)
        ctx.check(len(set(image_names)) == len(image_names), "rasters share image files: %s", image_names)
        expected = sorted(set(["project.mlp", name] + image_names))
        if case["obj"] and "/" in case["obj"]:
            expected = [e for e in expected if "/" not in e]
        extra = [e for e in files if e not in expected and e not in ("work", "sub folder", "project.mlp") and not os.path.isdir(os.path.join(folder, e))]
        ctx.check(not extra, "other files are written: %s", extra)
        if folder != work:
            ctx.check(not os.listdir(work), "files are written in the current folder instead of the one of the project: %s", os.listdir(work))
    for c, (e, k) in zip(cameras, kept):
        ctx.exact(c.extrinsic, e, "extrinsic of the camera given")
        ctx.exact(c.intrinsic, k, "intrinsic of the camera given")
    for a, b in zip(images, kept_im):
        ctx.exact(a, b, "image given")
    ctx.exact(mesh.vertices, v, "vertices of the mesh given")
    ctx.nontrivial(len(cameras) > 0)
    ctx.label("%d cameras" % len(cameras))


def cases():
    return st.fixed_dictionaries({
        "mesh": meshes.mesh_cases(), "scale": st.sampled_from([0, 0, 2, 4]), "cameras": st.integers(0, 12), "path": st.integers(0, 7),
        "obj": st.sampled_from(["", "", "head.obj", "a & b.obj", "it's <one>.obj", "the models/head.obj"]), "seed": st.integers(0, 2**31 - 1),
    })


CHECK = Check(
    "C22",
    "meshes with 0 to 12 cameras of any pose with their images, exported to absolute and relative paths and read back by another reader; non trivial: at least one camera",
    [Sub("export", cases, prop_export, 7200, 30000), Sub("large", lambda: meshes.with_big(cases()), prop_export, 120, 1000), Sub("huge", lambda: meshes.with_huge(cases()), prop_export, 4, 60)],
    assumptions=["CenterPx is the principal point measured like the rows and columns of the image; images have integer levels from 0 to 255"],
)
