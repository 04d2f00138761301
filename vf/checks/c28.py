"""C28: histories of mouse events on the interactor of the viewer, checked on the matrices of the camera."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from .. import cams
from ..core import Check, Sub, Violation
from ..scenes import rng_of

MOVE, LDOWN, RDOWN, MDOWN, LUP, RUP, MUP, LDBL = range(8)
CTRL, SHIFT = 8, 16
BUTTON = {"l": (LDOWN, LUP, 1), "r": (RDOWN, RUP, 2), "m": (MDOWN, MUP, 4)}
DEFAULT_CENTER = "interactor-default-center"
CENTER_IN_PLACE = "interactor-center-in-place"


def interactor(camera, mode, center, **kwargs):
    from deodr.examples.mesh_viewer import Interactor

    with contextlib.redirect_stdout(io.StringIO()):
        return Interactor(camera, mode=mode, object_center=center, **kwargs)


def new_camera(rng):
    from deodr.differentiable_renderer import Camera

    R = cams.rotation(rng)
    T = rng.uniform(-1, 1, 3) * [1, 1, 0] + [0, 0, rng.uniform(2, 10)]
    K = np.array([[rng.uniform(50, 500), 0, rng.uniform(0, 300)], [0, rng.uniform(50, 500), rng.uniform(0, 300)], [0, 0, 1.0]])
    return Camera(np.column_stack((R, T)), K, 480, 640, cams.distortion(rng, ["none", "all"][int(rng.integers(0, 2))]))


def prop(case, ctx):
    rng = rng_of(case)
    camera = new_camera(rng)
    mode = ["camera_centered", "object_centered_trackball"][case["mode"]]
    pivot = rng.uniform(-1, 1, 3)
    speeds = {}
    if case["speeds"]:
        speeds = dict(rotation_speed=float(rng.uniform(1e-3, 0.02)), z_translation_speed=float(rng.uniform(0.01, 1)), xy_translation_speed=float(rng.uniform(1e-4, 0.02)))
    # the centre is given as a private copy: modifying it in place is a listed finding
    inter = interactor(camera, mode, pivot.copy(), **speeds)
    held = set()
    x, y = 0, 0
    ref = None  # last position taken into account in the current drag
    lost = False  # the last movements had no effect
    n = 0
    dist = None if camera.distortion is None else np.array(camera.distortion)
    for num, (op, a, b, mods) in enumerate(case["events"]):
        E0, K0 = np.array(camera.extrinsic), np.array(camera.intrinsic)
        P0 = np.array(inter.object_center, dtype=np.float64)
        flags = (CTRL if mods & 1 else 0) | (SHIFT if mods & 2 else 0)
        what = "event %d (%s)" % (num, op)
        if op == "toggle":
            with contextlib.redirect_stdout(io.StringIO()):
                inter.toggle_mode()
            mode = "camera_centered" if mode != "camera_centered" else "object_centered_trackball"
            ctx.exact(camera.extrinsic, E0, what + ": pose")
            ctx.exact(camera.intrinsic, K0, what + ": intrinsics")
            ctx.check(inter.mode == mode, "%s: mode %s", what, inter.mode)
            continue
        dx = dy = 0
        if op == "move":
            dx, dy = a, b
            x, y = x + a, y + b
            event = MOVE
        elif op == "double":
            event = LDBL
        else:
            down, up, _ = BUTTON[op]
            event = up if op in held else down
            if op in held:
                held.remove(op)
                if a % 3 == 0:
                    # the mouse moved since the last event
                    dx, dy = b, a
                    x, y = x + dx, y + dy
            else:
                # the other drags restart from there
                x, y = x + a, y + b
                held.add(op)
        for k in held:
            flags |= BUTTON[k][2]
        inter.mouse_callback(event, x, y, flags, None)
        E, K = np.array(camera.extrinsic), np.array(camera.intrinsic)
        P = np.array(inter.object_center, dtype=np.float64)
        ctx.check(E.shape == (3, 4) and np.all(np.isfinite(E)), "%s: pose %s", what, E)
        R = E[:, :3]
        ctx.check(np.abs(R.dot(R.T) - np.eye(3)).max() <= 1e-12 * (num + 10) and np.linalg.det(R) > 0, "%s: the rotation of the camera is %s", what, R.tolist())
        tolT = 1e-12 * (1 + np.abs(E0[:, 3]).max() + np.abs(P0).max())
        samepose = np.abs(E - E0).max() <= tolT
        sameK = np.array_equal(K, K0)
        zoom = "r" in held and mods & 2
        if zoom:
            off = K - K0
            off[0, 0] = off[1, 1] = 0
            ctx.check(np.all(off == 0), "%s: intrinsics changed from %s to %s", what, K0.tolist(), K.tolist())
            ctx.check(abs(K[0, 0] / K0[0, 0] - K[1, 1] / K0[1, 1]) <= 1e-12 * K[0, 0] / K0[0, 0] and K[0, 0] > 0, "%s: the two focals changed differently", what)
            ctx.label("zoom", not sameK)
        else:
            ctx.check(sameK, "%s: intrinsics changed from %s to %s", what, K0.tolist(), K.tolist())
        ctx.check(camera.height == 480 and camera.width == 640, "%s: size changed", what)
        ctx.check((camera.distortion is None) == (dist is None) and (dist is None or np.array_equal(camera.distortion, dist)), "%s: distortion changed", what)
        in0, in1 = E0[:, :3].dot(P0) + E0[:, 3], R.dot(P) + E[:, 3]
        center0, center1 = -E0[:, :3].T.dot(E0[:, 3]), -R.T.dot(E[:, 3])
        samepivot = np.abs(P - P0).max() <= tolT
        started = event in (LDOWN, RDOWN, MDOWN)
        if not held:
            ctx.check(samepose and sameK and samepivot, "%s: the camera moved without any button", what)
            lost = False
        elif dx == 0 and dy == 0 and (started or not lost):
            ctx.check(samepose and sameK and samepivot, "%s: the camera changed without displacement", what)
            n_lost = lost
        if started:
            lost = False
        if len(held) == 1 and not started:
            b1 = next(iter(held))
            pan = b1 == "m" or (b1 == "l" and mods & 1)
            if pan:
                ctx.check(np.array_equal(R, E0[:, :3]), "%s: a translation changed the rotation", what)
                ctx.check(E[2, 3] == E0[2, 3], "%s: the translation is not parallel to the image", what)
                ctx.check(np.abs(in1 - in0).max() <= tolT + (0 if True else 0), "%s: the pivot moved from %s to %s in the frame of the camera", what, in0, in1) if in0[2] > 0 else None
                if not lost and in0[2] > 0:
                    t = E[:2, 3] - E0[:2, 3]
                    d = np.array([dx, dy])
                    ctx.check(np.all((t != 0) == (d != 0)) and np.all(t * d >= 0), "%s: translation %s for a displacement %s", what, t, d)
                    ctx.check(abs(t[0] * d[1] - t[1] * d[0]) <= 1e-9 * (np.abs(t).max() * np.abs(d).max() + tolT), "%s: translation %s for a displacement %s", what, t, d)
                n += dx != 0 or dy != 0
                ctx.label("pan", dx != 0 or dy != 0)
            elif b1 == "l" or (b1 == "r" and not mods & 1 and not mods & 2 and abs(dy) < abs(dx) and not lost):
                ctx.check(samepivot, "%s: a rotation moved the pivot", what)
                if mode == "camera_centered":
                    ctx.check(np.abs(center1 - center0).max() <= 10 * tolT, "%s: the centre of the camera moved from %s to %s", what, center0, center1)
                else:
                    ctx.check(np.abs(in1 - in0).max() <= 10 * tolT, "%s: the pivot moved from %s to %s in the frame of the camera", what, in0, in1)
                D = R.dot(E0[:, :3].T)
                axis = np.array([D[2, 1] - D[1, 2], D[0, 2] - D[2, 0], D[1, 0] - D[0, 1]])
                if b1 == "l":
                    ctx.check(abs(axis[2]) <= 1e-12 * (num + 10), "%s: rotation about the optical axis", what)
                    if not lost and max(abs(dx), abs(dy)) < 100:
                        ctx.check((abs(axis[0]) > 1e-9) == (dy != 0) and (abs(axis[1]) > 1e-9) == (dx != 0), "%s: rotation about %s for a displacement (%d, %d)", what, axis, dx, dy)
                else:
                    ctx.check(np.abs(axis[:2]).max() <= 1e-12 * (num + 10), "%s: rotation about %s instead of the optical axis", what, axis)
                n += not samepose
                ctx.label("rotation in mode " + mode, not samepose)
            elif b1 == "r" and not mods & 1 and not mods & 2 and not lost:
                ctx.check(np.array_equal(R, E0[:, :3]) and samepivot, "%s: a translation changed the rotation", what)
                ctx.check(np.array_equal(E[:2, 3], E0[:2, 3]), "%s: the translation is not along the optical axis", what)
                ctx.check((E[2, 3] - E0[2, 3]) * dy <= 0 and (E[2, 3] != E0[2, 3]) == (dy != 0), "%s: translation %g for a displacement %d", what, E[2, 3] - E0[2, 3], dy)
                n += dy != 0
                ctx.label("translation along the optical axis", dy != 0)
            elif b1 == "r" and mods & 2:
                ctx.check(samepose and samepivot, "%s: the field of view gesture moved the camera", what)
                n += not sameK
        # gestures without effect keep the reference position
        if held and not started:
            if held == {"r"} and mods & 1 and not mods & 2:
                lost = lost or dx != 0 or dy != 0
            else:
                lost = False
    ctx.nontrivial(n > 0)


def known(entry):
    """True when the listed finding is still there."""
    camera = new_camera(np.random.default_rng(0))
    if entry["id"] == DEFAULT_CENTER:
        inter = interactor(camera, "camera_centered", None)
        try:
            inter.mouse_callback(MDOWN, 0, 0, 4, None)
            inter.mouse_callback(MOVE, 10, 5, 4, None)
        except TypeError:
            return True
        return False
    center = np.array([0.1, 0.2, 0.3])
    inter = interactor(camera, "object_centered_trackball", center)
    inter.mouse_callback(MDOWN, 0, 0, 4, None)
    inter.mouse_callback(MOVE, 10, 5, 4, None)
    return not np.array_equal(center, [0.1, 0.2, 0.3])


def prop_default(case, ctx):
    """The default centre, and the array given by the caller: nothing else than the listed findings."""
    rng = rng_of(case)
    camera = new_camera(rng)
    center = None if case["default"] else rng.uniform(-1, 1, 3)
    kept = None if center is None else center.copy()
    inter = interactor(camera, "camera_centered" if case["default"] else "object_centered_trackball", center)
    kinds = []
    panned = False
    for button, dx, dy in case["drags"]:
        E0 = np.array(camera.extrinsic)
        pan = button == "m"
        try:
            down, up, f = BUTTON[button]
            inter.mouse_callback(down, 0, 0, f, None)
            inter.mouse_callback(MOVE, dx, dy, f, None)
            inter.mouse_callback(up, dx, dy, 0, None)
        except TypeError as e:
            if case["default"] and pan:
                ctx.known.append(DEFAULT_CENTER)
                return
            raise Violation("exception: %s" % e)
        panned = panned or pan
        if kept is not None and not np.array_equal(kept, center):
            if not panned:
                raise Violation("the centre given by the caller was modified by the button %s" % button)
            ctx.known.append(CENTER_IN_PLACE)
            return
    ctx.nontrivial(bool(case["drags"]))


@st.composite
def cases(draw):
    d = st.integers(-60, 60)
    event = st.tuples(st.sampled_from(["move"] * 8 + ["l", "l", "r", "r", "m", "toggle", "double"]), d, d, st.sampled_from([0, 0, 0, 0, 1, 1, 2, 3]))
    return {"mode": draw(st.integers(0, 1)), "speeds": draw(st.booleans()), "events": [list(e) for e in draw(st.lists(event, min_size=1, max_size=40))], "seed": draw(st.integers(0, 2**31 - 1))}


@st.composite
def default_cases(draw):
    d = st.integers(-60, 60)
    return {"default": draw(st.booleans()), "drags": [list(e) for e in draw(st.lists(st.tuples(st.sampled_from("lrm"), d, d), max_size=5))], "seed": draw(st.integers(0, 2**31 - 1))}


CHECK = Check(
    "C28",
    "histories of presses, moves, releases with any buttons and keys, changes of mode, in any pose; non trivial: a drag moves the camera",
    [Sub("drags", cases, prop, 24000, 100000), Sub("default", default_cases, prop_default, 4000, 16000)],
    assumptions=["movements with Ctrl and the right button have no effect until another gesture", "the two listed findings are only accepted for translations parallel to the image"],
    known=known,
)
