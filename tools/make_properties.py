"""Writes properties.jsonl (kept as a program because the lines are long)."""
import json
import os

H = "C++/DifferentiableRenderer.h"
DR = "deodr/differentiable_renderer.py"
PYX = "deodr/differentiable_renderer_cython.pyx"
TM = "deodr/triangulated_mesh.py"
MF = "deodr/mesh_fitter.py"
OUT = []


def P(id, title, statement, qtext, why, files, mech, over=("inputs",), state=()):
    assert len(title) <= 80, (id, len(title))
    OUT.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech]},
    })


P("C01", "The image without antialiasing is the definition of the scene",
  "With sigma=0, every pixel whose centre is inside a drawn face has the value of the front-most one there: the "
  "interpolation at the pixel centre of the vertex colours, or the bilinearly sampled texture (texel centres at integer "
  "coordinates, clamped at the borders) times the interpolated shade, interpolation being linear in the image or "
  "perspective correct as the scene asks; the z-buffer has the interpolated depth. Pixels that no drawn face covers keep "
  "the background image or colour and have an infinite depth. A face is drawn if none of its vertices is behind the camera "
  "and it faces the camera according to the clockwise flag, or whatever its side if backface culling is off.",
  "any 2.5D scene: vertices in and out of the image, tiny, huge and degenerate faces, textured/shaded/plain faces mixed, any "
  "number of channels, both pixel centre conventions, both windings, both culling modes, background image or colour",
  "The tests compare a duck, a soup of a few triangles and four texels with stored images or hashes: one scene each, always "
  "with backface culling, no perspective correction of mixed faces.",
  [H, PYX, DR],
  [("renderScene / rasterize_triangle_interpolated / rasterize_triangle_textured_gouraud", H), ("get_triangle_stencil_equations", H),
   ("bilinear_sample", H), ("renderSceneCpp", PYX)])

P("C02", "Faces sharing edges tile the image: no hole, and no overlap when strict",
  "When faces tile a region of the image without overlapping, every pixel centre of the interior of the region is painted; "
  "with strict_edge it is painted by exactly one of the faces, even when the pixel centre lies exactly on a shared edge or "
  "vertex. A pixel centre outside of a face is never painted by it, and without strict_edge a pixel centre exactly on an "
  "edge of a face is painted by it.",
  "any triangulation, including vertices at pixel centres, axis aligned and diagonal edges through pixel centres, slivers, "
  "parts outside of the image",
  "A crack or a double hit needs a pixel centre exactly or nearly on a shared edge: no test places one there.",
  [H], [("get_edge_xrange_from_ineq / render_part_interpolated (half open spans)", H), ("floor_div / ceil_div", H)])

P("C03", "Visibility depends on depths only, not on the order of faces or vertices",
  "Without depth ties, permuting the faces or renumbering the vertices of a scene changes neither the image nor the "
  "z-buffer; with ties the face of lowest index is visible. Every pixel of the z-buffer is the minimum of the depths that the "
  "faces give when rendered alone, and adding a face changes only pixels where this face is in front of the others. Faces that are hidden everywhere, or "
  "not drawn, change nothing.",
  "any set of overlapping, intersecting faces, any permutation",
  "The tests render each scene in a single order.",
  [H], [("z_buffer comparison in the rasterization spans", H), ("renderScene loop over faces", H)])

P("C04", "Edge antialiasing is the overdraw of the flagged edges, nothing else",
  "With sigma>0, for each flagged edge of each front facing face, the pixels whose centre projects orthogonally inside the edge at a "
  "distance t between 0 and sigma on the outer side, and where the edge is in front of the z-buffer, are blended as "
  "(t/sigma)*current + (1-t/sigma)*(colour or shaded texture of the face interpolated at the projection on the edge), the faces being processed by "
  "decreasing sum of depths. No other pixel changes, the z-buffer is that of the rendering without antialiasing, and without flagged edges or with sigma=0 the image is too.",
  "any scene, any edge flags (including shared and non silhouette edges), any sigma from sub-pixel to wider than the image, edges of any direction including exactly horizontal and vertical",
  "The tests use sigma=1 on three meshes and check one hash or a stored image; the blend along each direction of edge is never compared to its definition.",
  [H, PYX], [("get_edge_stencil_equations", H), ("rasterize_edge_interpolated / rasterize_edge_textured_gouraud", H), ("sort of the faces by depth in renderScene", H)])

P("C05", "The antialiased error is the blend of the squared differences",
  "The error buffer equals the per pixel sum over channels of the squared difference between the image without antialiasing and the "
  "observation, blended along flagged edges with the squared difference of the edge colour with the same weights, order and visibility "
  "as the edge antialiasing of the image. The image returned with it is the one without antialiasing, and the z-buffer is the same as when rendering the image.",
  "any scene, observation, sigma, number of channels, textured or not",
  "One soup fitting test in this mode, with a fixed observation, checks a final loss value only.",
  [H, DR], [("rasterize_edge_interpolated_error / rasterize_edge_textured_gouraud_error", H), ("Scene2D.render_error", DR)])

P("C06", "The image gradient is the derivative of the image",
  "Rendering an image then back-propagating any image_b gives, on the vertex positions, colours, shade, texture coordinates and texture, the exact gradient of sum(image*image_b) "
  "wherever the rendering is differentiable for fixed visibility: through the interpolation inside faces and through the antialiasing overdraw of flagged edges.",
  "any scene with backface culling and without perspective correction, any incoming gradient, textured and plain faces, sigma from 0 to large, pixels blended by several edges",
  "The gradient is tested through final losses of three fittings; a wrong term for one orientation, channel, texel or for pixels blended several times changes nothing the tests see.",
  [H, PYX, DR], [("renderScene_B and all the *_B functions", H), ("Scene2D.render_backward", DR)])

P("C07", "The gradient of the antialiased error is its derivative",
  "Rendering the error buffer then back-propagating any err_buffer_b gives, on the vertex positions, colours, shade, texture coordinates and texture, the exact gradient "
  "of sum(err_buffer*err_buffer_b) for fixed visibility.",
  "any scene with backface culling and without perspective correction, any observation and incoming gradient, textured and plain faces, pixels blended by several edges",
  "Only the final losses of one soup fitting are tested in this mode.",
  [H, PYX, DR], [("rasterize_edge_interpolated_error_B / rasterize_edge_textured_gouraud_error_B", H), ("Scene2D.render_error_backward", DR)])

P("C08", "Backward passes are linear, accumulate, and leave their inputs untouched",
  "Back-propagation is linear in the incoming gradient, accumulates onto the gradients already there until they are cleared, gives finite gradients for finite scenes, "
  "and rendering and back-propagation with make_copies modify none of the scene inputs, images, observations or incoming gradients, so repeating them gives the same result. make_copies=False gives the same "
  "gradients. render_compare_and_backward equals rendering, comparing under the mask (flags or weights of any type), and back-propagating the exact gradient of the returned error, in both modes, and the backward pass rejects perspective-correct and non culled scenes.",
  "any scene, any sequence of render/backward/clear calls on it",
  "Tests call one render and one backward per step and always clear the gradients.",
  [DR, PYX, H], [("Scene2D.render_compare_and_backward / render_backward / render_error_backward / clear_gradients", DR), ("renderSceneBCpp copying gradients in and out", PYX)],
  over=("inputs", "histories"), state=[("uv_b, ij_b, shade_b, colors_b, texture_b", "accumulated gradients", DR), ("store_backward", "what the last rendering kept for the backward pass", DR)])

P("C09", "Rendering respects the symmetries of its inputs",
  "Images, z-buffers, error buffers and gradients do not change when the winding of every face and the clockwise flag are both flipped, when vertices, faces or texture coordinates are renumbered (with "
  "gradients renumbered), when a uniform background image replaces the background colour, or when coordinates shift by half a pixel together with the pixel centre convention. Translating the scene by whole pixels, "
  "transposing the image axes, cropping the image or splitting the channels translates, transposes, crops or splits the result; scaling the colours and the background scales the image and scaling all depths by a power of two only scales the z-buffer.",
  "any scene, any such transformation, both directions of rendering",
  "Each test renders one scene in one pose and one convention.",
  [H, DR], [("renderScene, renderScene_B", H)])

P("C10", "The renderer is memory safe, terminates, and rejects invalid scenes",
  "For scenes whose arrays have consistent sizes and indices, with any floating point values (nan, infinite, huge, degenerate), rendering and back-propagation terminate, never access memory out of bounds, "
  "and only modify the pixels and gradients they own. Scenes with inconsistent array sizes, out of range indices, mismatched buffers or missing or duplicated backgrounds raise a python exception instead of crashing, and leave the process usable.",
  "any bit pattern of the scene values, any inconsistency of sizes, types or indices",
  "No test renders a degenerate or invalid scene.",
  [H, PYX, DR], [("saturate_to_short, image bounds in rasterization spans", H), ("checks in renderScene / renderSceneB", DR), ("checkSceneValid", H), ("asserts and except + in renderSceneCpp", PYX)],
  over=("inputs", "fault_sequences"))

P("C11", "Camera projection follows the OpenCV model and its gradient is exact",
  "Projecting points gives the pixel coordinates of the pinhole model with OpenCV radial and tangential distortion, and the depths in the camera frame. Its backward pass gives the exact gradient with respect to the "
  "points of any function of the projections and depths, for any rotation, intrinsics (including skew) and distortion.",
  "any extrinsic, intrinsic, distortion, points in front of or behind the camera, any incoming gradient",
  "No test uses distortion, skew or a non symmetric rotation with the backward pass.",
  [DR], [("Camera.project_points / project_points_backward / world_to_camera", DR)])

P("C12", "Camera construction conventions are consistent",
  "A camera built from a centre, rotation and field of view has that centre and fields of view (those of a general camera are given when its principal point is centred), sees along its rotation's third row, and projects its axis to the image centre; its camera-to-world matrix is the inverse of its "
  "world-to-camera transform. The default camera frames the vertices: all of them project inside the image, in front of the camera, for any rotation, field of view and aspect ratio, with no room left around their box in the binding direction. Cameras with invalid matrices are rejected.",
  "any centre, rotation, field of view, image size, set of vertices",
  "Tests only use near-identity rotations and a fixed field of view.",
  [DR], [("PerspectiveCamera.__init__", DR), ("default_camera", DR), ("Camera.get_center / camera_to_world_mtx_4x4 / xfov / yfov", DR)])

P("C13", "Rendering a 3D scene is projecting, lighting and rasterizing its mesh",
  "The image of a 3D scene equals that of the 2D scene made of the projected vertices and their depths, with vertex colours (or texture shade) multiplied by the ambient light plus the positive part of the opposite of the dot product of the light and the vertex normal, "
  "antialiased along the silhouette edges when sigma>0, with the camera's size and the scene's flags and background. Rendering does not depend on what was rendered before, nor on whether normals were already computed, and follows changes of vertices, colours, lights and background.",
  "any manifold mesh, camera, light, culling, clockwise, perspective and pixel centre flags, any history of renderings and updates",
  "Tests render two meshes under one light each.",
  [DR, TM], [("Scene3D.render", DR), ("compute_vertices_luminosity", DR), ("edge_on_silhouette", TM)], over=("inputs", "histories"),
  state=[("_face_normals, _vertex_normals", "cached normals", TM), ("store_backward_current", "data of the last rendering", DR)])

P("C14", "Gradients of 3D scenes are exact for vertices, colours and lights",
  "For meshes with vertex colours, back-propagating any image gradient through a 3D scene gives the exact gradient, for fixed visibility and silhouette, with respect to vertex positions (through projection, shading normals and edge overdraw), vertex colours, directional light and ambient light. "
  "It does not depend on previous backward passes.",
  "any manifold mesh, camera with or without distortion, light or no light, sigma, incoming gradient, several successive steps",
  "Fitting tests check final losses of one hand model only.",
  [DR, TM, H], [("Scene3D.render_backward", DR), ("compute_vertices_luminosity_backward", DR), ("compute_vertex_normals_backward / compute_face_normals_backward", TM)], over=("inputs", "histories"))

P("C15", "Depth rendering gives scaled depths and exact gradients",
  "render_depth gives at each covered pixel the depth of the visible surface times the depth scale, antialiased along silhouette edges when sigma>0, and the background elsewhere; its backward pass gives the exact gradient, for fixed visibility, with respect to the vertices.",
  "any manifold mesh, camera, depth scale, flags, sigma, incoming gradient",
  "One fitting test with one depth scale and identity-like camera checks final energies.",
  [DR], [("Scene3D.render_depth / render_depth_backward", DR)])

P("C16", "Deferred rendering channels agree with each other and with the mesh",
  "Each requested channel of deferred rendering holds, at every covered pixel, the interpolation over the visible face of the corresponding attribute (depth, face id, barycentric coordinates, normal, luminosity, uv or colour, position), so that interpolating the mesh attributes of the face given by the face id with the barycentric coordinates gives the other channels. "
  "Requesting a subset of channels gives the same values for these, only these are returned, coverage is the one of the normal rendering, and uncovered pixels are zero except the depth which is the maximum depth of the vertices.",
  "any mesh (textured or not), camera, flags and subset of channels",
  "Only used through one example; no channel is compared with its definition.",
  [DR], [("Scene3D.render_deferred", DR)])

P("C17", "Mesh adjacencies describe the faces",
  "Edges, face-edge, edge-face and vertex-face incidences, vertex adjacency, degrees, laplacian, boundary edges, and the manifold and closed flags of a mesh are those given by their definitions on the list of faces, whatever the order of faces and vertices, with isolated vertices and boundaries. The "
  "silhouette flag of an edge of a face is true exactly when one of the faces having this edge is front facing in the given projection, for both windings.",
  "any list of faces without repeated vertices in a face, manifold or not, closed or not",
  "Tests build adjacencies of two closed meshes.",
  [TM], [("TriMeshAdjacencies.__init__ / boundary_edges / edge_on_silhouette", TM)])

P("C18", "Normals, volumes and their caches always reflect the current vertices",
  "After any sequence of vertex updates and queries, face normals are unit, orthogonal to the faces and oriented by the clockwise flag, vertex normals are the normalized sum of the normals of the incident faces, and the volume of a closed mesh is the one enclosed. "
  "The normals' backward pass accumulates the exact gradient on the vertices; closed meshes with inward faces are rejected.",
  "any mesh, both orientations, adjacencies computed eagerly or lazily, any history of set_vertices, normal, volume and backward calls",
  "Tests never change the vertices between two queries of normals except inside fitters.",
  [TM, "deodr/tools.py"], [("TriMesh.set_vertices cache invalidation", TM), ("compute_face_normals / compute_vertex_normals and backward", TM), ("compute_volume / check_orientation", TM)],
  over=("inputs", "histories"), state=[("_face_normals, _vertex_normals, _adjacencies", "lazy caches", TM), ("_vertices_b", "accumulated vertex gradient", TM)])

P("C19", "Loop subdivision refines every mesh consistently",
  "Each iteration of the subdivision of a manifold mesh gives four faces per face and one vertex per vertex and per edge, connected as the refined triangulation, with the same orientation, clockwise flag, boundary, number of components, Euler characteristic and manifoldness. Positions are those of Loop's rules (smooth interior, boundary rule on boundaries), colours interpolate linearly, "
  "and the result commutes with affine transforms and renumbering of the mesh, which itself is left unchanged.",
  "any manifold mesh, closed or with boundaries, any number of iterations, colours or none",
  "No test subdivides a mesh with boundaries or checks more than a stored rendering.",
  [TM], [("loop_subdivision", TM)])

P("C20", "OBJ files round trip and are read according to the format",
  "Saving a mesh as OBJ and reading it back gives the same faces and the same vertices up to the written precision. Reading gives the vertices and faces of any file made of v and f records, with comments, other records, v/vt/vn references, relative indices and continued lines.",
  "any vertices and faces, any layout of the file",
  "Tests read two files and never write one.",
  ["deodr/obj.py"], [("read_obj / save_obj", "deodr/obj.py")])

P("C21", "Conversions from and to trimesh preserve geometry, texture and colours",
  "Converting a trimesh merges vertices at equal positions and keeps, for every face corner, its position, its colour, and its texture coordinates expressed in texels from the upper left texel centre, with face order and orientation kept; meshes giving different colours to merged vertices are rejected. Converting back "
  "gives a trimesh with, for every face corner, the same position and original texture coordinates, and the same texture up to 8 bit rounding. Inputs are not modified.",
  "any textured or vertex-coloured mesh, with seams and duplicated vertices",
  "One test loads the duck and compares a rendering.",
  [TM], [("ColoredTriMesh.from_trimesh / to_trimesh", TM)])

P("C22", "MeshLab projects describe the same cameras, images and mesh",
  "An exported MeshLab project references, by names relative to the project, an OBJ with the mesh and one image file per camera holding the image, and its camera descriptions, read with MeshLab's conventions, project world points to the same pixels as the cameras.",
  "any mesh, any number of cameras without skew or distortion (with square pixels or not), any images and paths",
  "The exporter is not tested.",
  ["deodr/meshlab_io.py"], [("export_meshlab", "deodr/meshlab_io.py")])

P("C23", "The rigidity energy is the quadratic form of the laplacian",
  "The energy is half the weight times the squared norm of the laplacian of the displacement from the reference vertices, its gradient and Hessian are exact, it is zero at the reference and invariant to translation of the vertices, and the reference is not affected by later modification of the vertices given. Meshes with several components are rejected. The PyTorch version returns the same values.",
  "any connected mesh, weight, reference and vertices",
  "Only used inside the fitting tests.",
  ["deodr/laplacian_rigid_energy.py", "deodr/pytorch/laplacian_rigid_energy_pytorch.py"], [("LaplacianRigidEnergy.evaluate", "deodr/laplacian_rigid_energy.py"), ("LaplacianRigidEnergyPytorch.evaluate", "deodr/pytorch/laplacian_rigid_energy_pytorch.py")])

P("C24", "Geometry helpers and their adjoints are consistent",
  "Rotating points by a unit quaternion equals applying its rotation matrix, for a single quaternion or a batch; normalisation gives unit vectors. The backward functions of rotation, normalisation and cross product give exact gradients without modifying their inputs, the finite difference helper gives the Jacobian, and the Jacobian checker accepts right Jacobians and rejects wrong ones.",
  "any vectors, quaternions, axes and incoming gradients",
  "Not tested directly.",
  ["deodr/tools.py"], [("qrot, qrot_backward, normalize, normalize_backward, cross_backward, jacobian_finite_differences", "deodr/tools.py")])

P("C25", "Fitters minimise the energy they report, reproducibly, from any reset",
  "Each step of the numpy mesh fitters returns the data energy between the current rendering and the observation plus the rigidity energy, and moves the parameters by the documented preconditioned, damped and inertial descent along the exact gradient, keeping quaternions normalised. "
  "A fitter that is reset behaves as a new one, and two fitters in the same state behave identically; parameters whose update is disabled do not change.",
  "any mesh, camera, observation, options, any history of resets, settings of image and pose, and steps, single and multi frame",
  "The hand fitting tests run one fixed sequence and compare the final energy.",
  [MF], [("MeshDepthFitter, MeshRGBFitterWithPose, MeshRGBFitterWithPoseMultiFrame: reset / set_* / step / render", MF)], over=("inputs", "histories"),
  state=[("speed_*, iter, vertices, transform_*", "optimiser state", MF)])

P("C26", "The PyTorch interface renders and differentiates like the numpy one",
  "For meshes, cameras, lights, 2D scenes, depth and colour rendering, the PyTorch classes return the same images as the numpy classes on the same data, and autograd gives the same gradients with respect to vertices, colours, lights and scene arrays, for any loss, several renderings before a backward, repeated backward and non contiguous incoming gradients.",
  "any mesh, camera, light, sigma, loss and order of calls",
  "The PyTorch tests check final losses of two fittings.",
  ["deodr/pytorch/differentiable_renderer_pytorch.py", "deodr/pytorch/triangulated_mesh_pytorch.py"], [("TorchDifferentiableRenderer2D.forward/backward", "deodr/pytorch/differentiable_renderer_pytorch.py"), ("CameraPytorch, Scene3DPytorch", "deodr/pytorch/differentiable_renderer_pytorch.py"), ("TriMeshPytorch", "deodr/pytorch/triangulated_mesh_pytorch.py")],
  over=("inputs", "histories"))

P("C27", "The PyTorch fitters follow the same trajectory as the numpy fitters",
  "From the same initial state and options, the PyTorch fitters give at each step the same energy, rendering and parameters as the numpy fitters, after any number of steps and resets, and with parameters whose update is disabled left unchanged.",
  "any mesh, camera, observation, options, any number of steps",
  "Tests compare each implementation with its own stored energies on one sequence.",
  ["deodr/pytorch/mesh_fitter_pytorch.py", MF], [("MeshDepthFitter, MeshRGBFitterWithPose", "deodr/pytorch/mesh_fitter_pytorch.py")], over=("inputs", "histories"))

P("C28", "Viewer navigation keeps the camera a rigid transform and its pivots fixed",
  "After any sequence of mouse drags, in every interaction mode, the camera matrix is a rigid transform with the same intrinsics, except for the field of view gesture (Shift and right button), which scales both focal lengths by the same factor: rotation in object mode leaves the object centre fixed in the camera frame, rotation in camera mode keeps the camera centre, translations keep the rotation, and actions without displacement or outside of a drag change nothing. The arrays given by the caller are not modified.",
  "any sequence of mouse events, modes, buttons and keys",
  "The interactive viewer is only run for a few automatic frames.",
  ["deodr/examples/mesh_viewer.py"], [("Interactor.mouse_callback", "deodr/examples/mesh_viewer.py")], over=("histories",),
  state=[("camera.extrinsic, object_center, x_last, y_last, left_is_down, ...", "navigation state", "deodr/examples/mesh_viewer.py")])

P("C29", "OpenGL rendering agrees with the software renderer",
  "Rendering a textured mesh with moderngl gives, up to 8 bit rounding and away from silhouettes and texture seams, the image of the software renderer with perspective correction where their lightings agree (OpenGL interpolates the normals and lights each pixel, the software renderer lights the vertices), and that of the per pixel model elsewhere: for any camera pose, intrinsics without skew, distortion, lights, winding (back faces are not drawn), texture size, texture coordinates beyond the borders (clamped), both pixel centre conventions, and whatever the same renderer rendered before.",
  "any textured mesh in view, camera, ambient and directional light",
  "One test compares one view of the duck, without rotation about the axis nor off-centre principal point.",
  ["deodr/opengl/moderngl.py", "deodr/opengl/shaders.py"], [("OffscreenRenderer, opencv_to_opengl_perspective", "deodr/opengl/moderngl.py"), ("vertex and fragment shaders", "deodr/opengl/shaders.py")])

P("C31", "Scenes are converted to pyrender faithfully",
  "deodr.opengl.pyrender.render gives pyrender the scene that deodr describes: the projection of every vertex with the same pixel centre convention, clipping planes that keep every vertex, the directional light with its direction and intensity (any direction, none when it is null), the ambient light, the background, and the faces with their positions, normals, texture coordinates (clamped at the borders, pixel centres at integers) and front side for both windings; the image and depth it returns are those of that scene; cameras with distortion or skew and background images that are not uniform are rejected; the scene, mesh and camera given are left unmodified.",
  "any textured mesh in view at any scale, camera, light and uniform background",
  "No test checks the image: one renders the duck when a display is available.",
  ["deodr/opengl/pyrender.py"], [("render, deodr_mesh_to_pyrender, deodr_directional_light_to_pyrender, min_rotation", "deodr/opengl/pyrender.py")])

P("C30", "The TensorFlow interface renders and differentiates like the numpy one",
  "The TensorFlow classes return the same images, energies and gradients as the numpy classes on the same data.",
  "any mesh, camera, light, observation and number of steps",
  "The TensorFlow tests are skipped: TensorFlow is not installed.",
  ["deodr/tensorflow/differentiable_renderer_tensorflow.py", "deodr/tensorflow/mesh_fitter_tensorflow.py"], [("TensorflowDifferentiableRender2D", "deodr/tensorflow/differentiable_renderer_tensorflow.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for o in OUT:
        f.write(json.dumps(o) + "\n")
