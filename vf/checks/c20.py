"""C20: OBJ files: round trips of meshes, and generated files against a reference reader."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import meshes
from ..core import Check, Sub, Violation
from ..scenes import rng_of


def prop_roundtrip(case, ctx):
    from deodr.obj import read_obj, save_obj

    rng = rng_of(case)
    M = meshes.decode(case["mesh"])
    v = M.vertices * 10.0 ** case["scale"] + rng.uniform(-1, 1, 3) * case["shift"]
    f = M.faces
    v0, f0 = v.copy(), f.copy()
    with tempfile.TemporaryDirectory(prefix="vf-c20-") as tmp:
        path = os.path.join(tmp, ["mesh.obj", "a b.obj", "mesh"][case["seed"] % 3])
        if case["seed"] % 2:
            # an existing longer file is replaced
            with open(path, "w") as fid:
                fid.write("v 9 9 9\nf 1 2 3\n" * 200)
        save_obj(path, v, f)
        rf, rv = read_obj(path)
        ctx.check(os.listdir(tmp) == [os.path.basename(path)], "other files are written: %s", os.listdir(tmp))
        # saving what has been read gives the same again
        save_obj(path, rv, rf)
        rf2, rv2 = read_obj(path)
    ctx.check(rv.shape == v.shape and rf.shape == f.shape, "%s vertices and %s faces instead of %s and %s", rv.shape, rf.shape, v.shape, f.shape)
    ctx.exact(rf.astype(np.int64), f.astype(np.int64), "faces")
    bad = np.abs(rv - v) > 5.0000001e-7 + 4e-16 * np.abs(v)
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation("vertex %d coordinate %d is read as %r instead of %r" % (k[0], k[1], rv[k], v[k]))
    ctx.exact(rf2, rf, "faces saved again")
    ctx.close(rv2, rv, "vertices saved again", rtol=4e-16, atol=0)
    ctx.exact(v, v0, "the vertices given")
    ctx.exact(f, f0, "the faces given")
    ctx.nontrivial(len(f) > 1)


def roundtrip_cases():
    return st.fixed_dictionaries({
        "mesh": meshes.mesh_cases(), "scale": st.integers(-4, 7), "shift": st.sampled_from([0.0, 1.0, 1e3, 1e8]), "seed": st.integers(0, 2**31 - 1),
    })


NOISE = ["", "#", "# v 1 2 3", "#f 1 2 3", "o object", "g f 1 2 3", "g v", "s off", "s 1", "usemtl f", "mtllib v.mtl", "vn 0.0 0.0 1.0", "vt 0.5 0.25",
         "vp 0.1 0.2", "   ", "# comment ending with a word v"]


def number(x, rng):
    k = int(rng.integers(0, 6))
    return [repr(float(x)), "%.3f" % x, "%e" % x, "%g" % x, "%+.6f" % x, "%d" % round(x)][k]


def generate(case):
    """Text of the file with the vertices and faces it describes."""
    rng = rng_of(case)
    nv, nf, size = case["nv"], case["nf"], case["size"]
    sep = [" ", " ", " ", "  ", "\t", " \t "]
    eol = ["\n", "\n", "\r\n"][case["eol"]]
    lines, vertices, faces = [], [], []
    todo = ["v"] * nv + ["f"] * nf
    if case["interleave"]:
        first = todo[: size]
        rest = todo[size:]
        todo = first + [rest[i] for i in rng.permutation(len(rest))]
    form = case["form"]

    def emit(fields):
        out = fields[0]
        style = case["style"]
        for x in fields[1:]:
            s = sep[int(rng.integers(0, 3 if style < 2 else len(sep)))]
            if style % 2 and rng.random() < 0.15:
                s = s + "\\" + eol + (" " if rng.random() < 0.5 else "")
            out += s + x
        if style >= 2:
            if rng.random() < 0.2:
                out = "  " + out
            if rng.random() < 0.3:
                out += " "
        lines.append(out)

    for kind in todo:
        while rng.random() < case["noise"]:
            lines.append(NOISE[int(rng.integers(0, len(NOISE)))])
        if kind == "v":
            s = [number(x, rng) for x in rng.uniform(-100, 100, 3) * 10.0 ** rng.integers(-3, 3)]
            vertices.append([float(x) for x in s])
            emit(["v"] + s)
        else:
            ids = rng.permutation(nv if not case["interleave"] else len(vertices))[:size] if nv < 50 else rng.choice(len(vertices), size, replace=False)
            fields = []
            for k in ids:
                r = int(k) - len(vertices) if (form == "relative" or (form == "mixed" and rng.random() < 0.4)) and k < len(vertices) else int(k) + 1
                t = int(rng.integers(1, 50)) * (-1 if r < 0 else 1)
                q = int(rng.integers(0, 4)) if form in ("mixed", "refs", "relative") else 0
                fields.append(["%d" % r, "%d/%d" % (r, t), "%d/%d/%d" % (r, t, t), "%d//%d" % (r, t)][q])
            faces.append([int(k) for k in ids])
            emit(["f"] + fields)
    text = eol.join(lines)
    if case["final"]:
        text += eol
    return text, np.array(vertices), np.array(faces)


def prop_grammar(case, ctx):
    from deodr.obj import read_obj

    text, v, f = generate(case)
    with tempfile.TemporaryDirectory(prefix="vf-c20-") as tmp:
        path = os.path.join(tmp, "generated.obj")
        with open(path, "w", newline="") as fid:
            fid.write(text)
        rf, rv = read_obj(path)
        with open(path, newline="") as fid:
            ctx.check(fid.read() == text, "the file is modified by its reading")
    ctx.check(rv.shape == v.shape, "%s vertices are read instead of %s in\n%s", rv.shape, v.shape, text[:2000])
    ctx.check(rf.shape == f.shape, "%s faces are read instead of %s in\n%s", rf.shape, f.shape, text[:2000])
    if not np.array_equal(rv, v):
        raise Violation("vertices are read as %s instead of %s in\n%s" % (rv[:20].tolist(), v[:20].tolist(), text[:2000]))
    if not np.array_equal(rf.astype(np.int64), f):
        raise Violation("faces are read as %s instead of %s in\n%s" % (rf[:20].tolist(), f[:20].tolist(), text[:2000]))
    ctx.nontrivial(case["nf"] > 1)
    ctx.label("relative indices", "f -" in text or " -" in text)
    ctx.label("continued lines", "\\" in text)
    ctx.label("tabs", "\t" in text)


@st.composite
def long_cases(draw):
    """Files with thousands of records."""
    c = draw(grammar_cases())
    c["nv"], c["nf"] = draw(st.sampled_from([(300, 40), (1100, 1100), (1500, 30), (1500, 300), (5000, 30)] * 3 + [(66000, 60)]))
    c["noise"] = min(c["noise"], 0.2)
    return c


@st.composite
def grammar_cases(draw):
    size = draw(st.sampled_from([3, 3, 3, 4]))
    return {
        "nv": draw(st.integers(size, 12)), "nf": draw(st.integers(1, 9)), "size": size, "interleave": draw(st.booleans()),
        "form": draw(st.sampled_from(["plain", "refs", "relative", "mixed"])), "noise": draw(st.sampled_from([0.0, 0.2, 0.5])),
        "style": draw(st.integers(0, 3)), "eol": draw(st.integers(0, 2)), "final": draw(st.booleans()), "seed": draw(st.integers(0, 2**31 - 1)),
    }


CHECK = Check(
    "C20",
    "meshes of all scales saved and read back; generated texts (other records, comments, references, relative indices, continued lines, line endings) against what they "
    "were generated from; non trivial: at least two faces",
    [Sub("roundtrip", roundtrip_cases, prop_roundtrip, 9000, 60000), Sub("large", lambda: meshes.with_big(roundtrip_cases()), prop_roundtrip, 240, 3000), Sub("huge", lambda: meshes.with_huge(roundtrip_cases()), prop_roundtrip, 8, 100), Sub("long", long_cases, prop_grammar, 240, 3000), Sub("grammar", grammar_cases, prop_grammar, 45000, 400000)],
    assumptions=["three coordinates per vertex, faces with the same number of corners, no comment after a record"],
)
