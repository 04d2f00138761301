"""Writes MANIFEST.json for the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = {
    "C01": ("differential property-based testing against a per-pixel reference model", "random structured 2D scenes rendered and compared with an independent model written from the definition (exact background, tolerances derived from conditioning elsewhere)"),
    "C02": ("property-based testing with exact rational oracles", "generated tilings (dyadic coordinates, pixel centres on edges and vertices, slivers, huge triangles) judged by exact integer arithmetic"),
    "C03": ("metamorphic property-based testing", "permutations of faces and vertices, added, hidden and culled faces, ties, and face-by-face z-buffer composition"),
    "C04": ("differential property-based testing against a per-pixel reference model", "overdraw model of the flagged edges with conditioning based tolerances, ambiguous pixels left out"),
    "C05": ("differential property-based testing against a per-pixel reference model", "error buffer model of the flagged edges with random observations"),
    "C06": ("differential property-based testing against automatic differentiation of the reference model", "gradients of all the inputs compared with torch autograd through the per-pixel model"),
    "C07": ("differential property-based testing against automatic differentiation of the reference model", "as C06 for the error buffer; one listed finding is accounted for exactly"),
    "C08": ("stateful property-based testing (linearity, accumulation, repetition) of backward passes", "generated sequences of renders and backward passes on one scene against an additive model"),
    "C09": ("metamorphic property-based testing", "generated scenes and transformations with known effect on image, depth, error and gradients"),
    "C10": ("coverage guided fuzzing (libFuzzer, ASan, UBSan) and property-based fuzzing of invalid scenes", "the C++ header of the working tree under sanitizers on fuzzed scenes, and generated corruptions of valid scenes through the python interface in child processes"),
    "C11": ("differential property-based testing (OpenCV and autograd oracles)", "random cameras and points against cv2.projectPoints, a torch model and its gradient"),
    "C12": ("property-based testing of camera construction", "random centres, rotations, fields of view, meshes; direct geometric definitions"),
    "C13": ("differential and stateful property-based testing", "Scene3D renderings after generated sequences of changes against 2D scenes assembled from an independent model of projection, normals, lighting and silhouettes"),
    "C14": ("differential property-based testing against automatic differentiation", "gradients of Scene3D against torch autograd through an independent model of the whole pipeline"),
    "C15": ("differential property-based testing against a reference model and autograd", "depth rendering and its gradient"),
    "C16": ("differential property-based testing", "channels against the interpolation on the face given by an independent visibility model"),
    "C17": ("differential property-based testing against brute-force definitions", "random face lists with boundaries, isolated vertices, both windings"),
    "C18": ("stateful property-based testing against definitions", "generated sequences of vertex updates and queries, gradients against autograd"),
    "C19": ("property-based testing with combinatorial and metamorphic oracles", "random manifold meshes with and without boundaries, refined one to three times"),
    "C20": ("round-trip and grammar-based property-based testing", "generated meshes and generated OBJ texts against a reference reader"),
    "C21": ("round-trip property-based testing", "generated trimesh objects with duplicated vertices, uv, colours"),
    "C22": ("round-trip property-based testing", "exported projects parsed back with MeshLab's conventions and their cameras compared with the originals"),
    "C23": ("differential property-based testing against definitions", "random meshes and displacements, finite algebraic oracles"),
    "C24": ("property-based testing against definitions and autograd", "random inputs, gradients against torch autograd, right and wrong Jacobians"),
    "C25": ("stateful model-based property-based testing", "random fitting problems and operation sequences against an independent implementation of the documented descent"),
    "C26": ("differential property-based testing (numpy against PyTorch)", "same generated data through both interfaces, several graphs, repeated and strided backward"),
    "C27": ("differential stateful property-based testing (numpy against PyTorch fitters)", "random problems, options, steps and resets through both implementations"),
    "C28": ("stateful property-based testing", "generated mouse event histories with rigidity, pivot and no-op invariants"),
    "C29": ("differential property-based testing (OpenGL against software rendering)", "random textured meshes, cameras, distortions and lights rendered with both on the software GL driver"),
    "C31": ("model-based property-based testing of the conversion, and of images rendered on the software GL driver", "random textured meshes of both windings and all scales, cameras, lights and backgrounds, some unsupported ones"),
}

NA = {
    "C30": "TensorFlow is not installed in this sandbox and cannot be: the module cannot even be imported, so no generated input can be run through it",
}


def main():
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl")) as fid:
        ids = [json.loads(l)["id"] for l in fid if l.strip()]
    for pid in ids:
        if pid in NA:
            na.append({"property": pid, "reason": NA[pid]})
        elif os.path.exists(os.path.join(HERE, "vf", "checks", pid.lower() + ".py")):
            technique, note = T[pid]
            checks.append({
                "property": pid, "quick_cmd": "./run.sh " + pid, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + pid,
                "technique": technique, "level": "exploration",
                "level_note": note + ". Explores generated inputs only; trusts the oracle, numpy/torch and hypothesis. Domain and tolerances: DESIGN.md.",
            })
        else:
            na.append({"property": pid, "reason": "no check yet"})
    m = {
        "version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo. Checks compile the extension (and the fuzz target) from /repo's working tree into /verif/.build, "
                 "keyed by content, and import the python files of /repo directly.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fid:
        json.dump(m, fid, indent=1)
        fid.write("\n")


main()
