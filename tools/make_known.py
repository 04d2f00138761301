"""Writes known_findings.jsonl: run by hand when a fix commit or a finding is added, never by a check."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

# beginning of the subject of the fix commit -> property, what failed
FIXED = [
    ("MeshLab cameras with non square", "C22", "cameras with two different focal lengths were exported with square pixels"),
    ("antialias exactly horizontal", "C04", "edges exactly aligned with the image axes were not antialiased (division by zero in the span computation)"),
    ("finite gradient when a silhouette", "C08", "nan gradient when a silhouette edge passes exactly through a pixel centre"),
    ("accumulate the texture gradient", "C08", "texture_b was overwritten by each backward pass instead of accumulated"),
    ("do not access texels", "C10", "out of bounds texel reads and writes with textures of a single row or column"),
    ("rasterize triangles with vertices projected further", "C10", "triangles with vertices further than 32767 pixels from the image were lost, or ran out of bounds, by overflow of short integers"),
    ("place PerspectiveCamera", "C12", "PerspectiveCamera put the camera centre at the wrong place for any rotation other than the identity"),
    ("gradient of the camera projection", "C11", "project_points_backward was wrong for non symmetric rotations and skewed intrinsics"),
    ("pytorch gradients when several", "C26", "gradients of several renderings made before backward used the data of the last one"),
    ("pytorch backward with non contiguous", "C26", "backward failed on non contiguous incoming gradients, and repeated backward accumulated onto stale gradients"),
    ("use the sigma of the scene in the pytorch", "C26", "scene.sigma was ignored by the PyTorch renderer"),
    ("raise a python exception instead of aborting", "C10", "scenes rejected by the C++ code aborted the process"),
    ("do not draw faces with vertices behind", "C01", "faces with vertices behind the camera were drawn when backface culling is off"),
    ("texture coordinate gradient of faces that use", "C06", "uv_b lost contributions of faces that use one texture coordinate for several corners"),
    ("reject buffers that do not match", "C10", "image, observation, z-buffer and gradient buffers of other sizes than the scene were accessed out of bounds"),
    ("do not modify the image gradient", "C08", "the backward passes zeroed the image_b or err_buffer_b of the caller"),
    ("use the perspective_correct flag of the scene in render_depth", "C15", "render_depth ignored perspective_correct"),
    ("render_deferred with clockwise", "C16", "render_deferred ignored clockwise and perspective_correct and failed for other numbers of channels than 3"),
    ("lazy computation of the mesh adjacencies", "C18", "compute_adjacencies=False left the mesh unusable"),
    ("vertices that do not belong to any face", "C17", "isolated vertices were given a wrong degree in the vertex adjacency"),
    ("keep the clockwise flag in the loop subdivision", "C19", "the subdivision of clockwise meshes lost the flag and was rejected"),
    ("loop subdivision of meshes with boundaries", "C19", "wrong vertices and connectivity along boundaries"),
    ("compare the whole rendered image", "C25", "the multi frame fitter only compared a part of the images"),
    ("do not update the lights or the color", "C25", "update_lights=False and update_color=False were ignored (also C27)"),
    ("read obj files with normals", "C20", "read_obj failed on f records with references to vt and vn, relative indices and continued lines"),
    ("raster files, sizes, labels", "C22", "wrong file names, sizes, labels and rotations in MeshLab projects"),
    ("use the clockwise flag and the number of vertices", "C26", "PyTorch meshes ignored clockwise and nb_vertices"),
    ("face normals of pytorch meshes with exactly three", "C26", "torch.cross applied along the wrong axis for meshes of three faces"),
    ("silhouette edges of vertices projected too far", "C10", "row and column range of edges overflowed for far vertices (also C04)"),
    ("row range of triangles with two vertices", "C10", "crash on triangles with two vertices further than 32767 pixels below the image (also C01)"),
    ("empty spans in the last column", "C02", "spans that contain no pixel centre painted the last column when strict_edge is off"),
    ("row of exactly horizontal edges", "C02", "pixel centres exactly on horizontal edges were not all painted when strict_edge is off"),
    ("texture, uv and shade gradients counted twice", "C06", "the gradient of the row of the middle vertex was counted twice for textured faces when strict_edge is off (also C07)"),
    ("out of bounds read of edge depths", "C10", "the perspective correct edge antialiasing read a third depth and shade of two-element arrays"),
    ("overflow of texture coordinates", "C01", "texture coordinates beyond the range of int were projected on the opposite border (also C10)"),
    ("reject faces that do not have three", "C10", "faces with another number of columns than three were accepted and read out of bounds"),
    ("reject textured faces without texture", "C10", "textured faces with an empty texture were accepted and read out of bounds"),
    ("gradient of the light when a mesh has vertices", "C14", "a mesh with vertices that belong to no face gave nan shades and gradients of the light (also C26)"),
    ("obj files with tabs", "C20", "v and f records with tabs or leading spaces were silently ignored"),
    ("vertices and texture coordinates merged", "C21", "to_trimesh merged distinct vertices closer than 1e-8 and texture coordinates closer than 1e-4"),
    ("conversion of trimesh with a texture made of gray", "C21", "from_trimesh raised IndexError on gray level textures"),
    ("round the texture to the nearest", "C21", "to_trimesh truncated the texture instead of rounding it to 8 bits"),
    ("conversion of trimesh with a palette", "C21", "from_trimesh used the indices of palette textures as colours"),
    ("null jacobian by finite differences", "C24", "the finite difference helpers gave a null jacobian for functions returning a view of their argument"),
    ("pytorch rigid energy of vertices", "C23", "LaplacianRigidEnergyPytorch.evaluate raised an exception for vertices that require a gradient"),
    ("reject images with too many rows", "C10", "images with more than 32767 rows or columns were rasterized with overflowing short integers"),
    ("pytorch scenes returned the depths of the vertices", "C26", "Scene3DPytorch.render(return_z_buffer=True) returned the depths of the vertices instead of the z buffer"),
    ("colors given to the pytorch 2D rendering", "C26", "TorchDifferentiableRender2D ignored its colors argument, and the positions saved for the backward pass were overwritten by later renderings"),
    ("normalize the quaternion of each frame", "C25", "the multi frame fitter normalized the quaternions of all the frames together, not each of them"),
    ("the iteration number that ends", "C25", "reset kept the iteration number of the numpy fitters: after 500 steps a reset fitter did not behave as a new one"),
    ("numpy depth fitter with another limit", "C27", "the numpy depth fitter clamped the steps of the vertices at 1, the PyTorch and TensorFlow ones at 0.5"),
    ("camera of the pytorch depth fitter shifted", "C27", "the PyTorch depth fitter placed its camera with the initial translation, contrary to the numpy one"),
    ("the pytorch depth fitter with LBFGS turned", "C27", "MeshDepthFitterEnergy flipped the faces: it rendered the back of the mesh"),
    ("moderngl renderer drew the back faces", "C29", "the OpenGL renderer drew the back faces that the software renderer culls"),
    ("moderngl renderer repeated the texture", "C29", "texture coordinates beyond the borders repeated the texture in OpenGL instead of clamping it"),
    ("moderngl renderer kept a texture", "C29", "a new texture with the id of a collected one was not sent to OpenGL"),
    ("moderngl renderer clipped the furthest", "C29", "the far plane of the OpenGL renderer passed exactly through the furthest points: planes parallel to the image were not drawn at all"),
    ("wrong texture coordinates in pyrender", "C31", "height and width of the texture were swapped in the texture coordinates given to pyrender, with half a texel shift"),
    ("min_rotation returned the identity", "C31", "lights opposite to the axis of pyrender's lights were given in the reverse direction"),
    ("half a pixel shift in pyrender", "C31", "the principal point given to pyrender was half a pixel away with integer pixel centers"),
    ("the parts of the mesh closer than 0.05", "C31", "fixed clipping planes: meshes closer than 0.05 or further than 100 were clipped in pyrender"),
    ("the back faces of clockwise meshes were drawn in pyrender", "C31", "clockwise meshes were given to pyrender with their back faces in front"),
    ("texture coordinates beyond the borders repeated the texture in pyrender", "C31", "texture coordinates beyond the borders repeated the texture in pyrender"),
    ("the skew of the camera was silently ignored", "C31", "the skew of the camera was ignored by the conversion to pyrender"),
    ("textures whose width is not a multiple of four", "C31", "three channel textures whose width is not a multiple of four were sheared in pyrender"),
    ("learning rate given to the pytorch depth fitter", "C27", "MeshDepthFitterPytorchOptim ignored lr"),
    ("weigh the gradient by the mask", "C08", "render_compare_and_backward did not return the gradient of its error for masks with values other than 0 and 1"),
    ("accept masks of any type", "C08", "render_compare_and_backward with antialias_error=True raised an error for masks of booleans or integers, and for masks that are not contiguous with make_copies=False"),
    ("render and differentiate images with more than 32767", "C10", "segmentation fault, or endless loop, with more than 32767 channels (10922 in backward passes)"),
    ("finite differences at integer", "C24", "wrong jacobians by finite differences at points given as integers or in single precision"),
    ("several moderngl renderers drew", "C29", "with two OffscreenRenderer objects, the first one drew the mesh and used the light of the last one created"),
    ("checking the gradients displaced", "C25", "step(check_gradient=True) of the multi frame fitter went on from displaced vertices and with their gradients"),
    ("light given as a tuple was rounded", "C26", "images and gradients with errors of 1e-8 in PyTorch scenes whose light is given as a tuple or list"),
]

FINDINGS = [
    {
        "property": "C06", "kind": "finding", "id": "gradient-at-exact-ties",
        "what": "renderScene_B: where several faces have exactly the same depth at a pixel, the gradient of the pixel is given to the last of these "
                "faces, while the first one is drawn (not repaired: visiting the faces in the order of the rendering changes the order of the "
                "additions, and the last digits of the losses that the existing tests compare exactly)",
        "case": "c06_known.json",
    },
    {
        "property": "C07", "kind": "finding", "id": "edge-colour-error-gradient",
        "what": "rasterize_edge_interpolated_error_B: in antialias_error mode the gradient through the colour of the overdraw of untextured "
                "edges only has its slope along x (the call to mul_matrixNx3_vect_B is missing)",
        "case": "c07_known.json",
    },
    {
        "property": "C28", "kind": "finding", "id": "interactor-default-center",
        "what": "Interactor(camera, mode='camera_centered') without object_center: the default centre is an array of integers and translations "
                "parallel to the image raise a TypeError (deodr/examples/mesh_viewer.py, not repaired: examples are not to be changed)",
        "case": "Interactor.mouse_callback, self.object_center -= ..., default centre, drag with the middle button",
    },
    {
        "property": "C28", "kind": "finding", "id": "interactor-center-in-place",
        "what": "Interactor.mouse_callback: translations parallel to the image modify the object_center array given by the caller in place, so "
                "that Viewer.recenter_camera recentres elsewhere (deodr/examples/mesh_viewer.py, not repaired: examples are not to be changed)",
        "case": "Interactor.mouse_callback, self.object_center -= ..., drag with the middle button",
    },
]


def main():
    log = subprocess.run(
        ["git", "-C", REPO, "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True, check=True
    ).stdout.splitlines()
    commits = {}
    for l in log:
        h, s = l.split(" ", 1)
        if s.startswith("fix: "):
            commits[s[5:]] = h
    out = []
    used = set()
    for prefix, pid, what in FIXED:
        m = [s for s in commits if s.startswith(prefix)]
        if not m:
            print("no commit for", prefix)
            continue
        used.add(m[0])
        out.append({"property": pid, "kind": "fixed", "commit": commits[m[0]],
                    "what": "fixed: property=%s %s %s" % (pid, commits[m[0]], what)})
    for s in commits:
        if s not in used:
            print("commit not listed:", s)
    for e in FINDINGS:
        e = dict(e)
        if e["case"].endswith(".json"):
            with open(os.path.join(HERE, "tools", e["case"])) as fid:
                e["case"] = json.load(fid)
        out.append(e)
    with open(os.path.join(HERE, "known_findings.jsonl"), "w") as fid:
        for e in out:
            fid.write(json.dumps(e) + "\n")


main()
