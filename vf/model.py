"""Reference model of the renderer, written from its definition: per pixel, per face, without any span or stencil.

Everything is evaluated for all the pixels of the (small) image, with double precision torch tensors so that the same
model gives the exact gradient for fixed visibility. Pixels whose value depends on a decision that is not numerically
certain (a pixel centre on an edge, nearly equal depths...) are marked as ambiguous, the others get a tolerance
derived from the conditioning of the faces and edges involved.
"""
import numpy as np
import torch

EPS = 2.3e-16
K = 256 * EPS


class Model:
    pass


def _t(x):
    return torch.as_tensor(np.ascontiguousarray(x), dtype=torch.float64)


def leaves(d):
    """Differentiable inputs of the scene."""
    return {
        k: _t(d[k]).clone().requires_grad_(True) for k in ("ij", "colors", "shade", "uv", "texture")
    }


def _outer(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def sample_texture(texture, u, v):
    """Bilinear sampling, texel centres at integer coordinates (u along the width), clamped.

    Returns the sample and the distance of the clamped coordinates to the nearest place where it is not smooth.
    """
    th, tw, c = texture.shape
    with torch.no_grad():
        uc = u.clamp(0, tw - 1)
        vc = v.clamp(0, th - 1)
        x0 = torch.clamp(torch.floor(uc), 0, max(tw - 2, 0)).long()
        y0 = torch.clamp(torch.floor(vc), 0, max(th - 2, 0)).long()
        x1 = torch.clamp(x0 + 1, 0, tw - 1)
        y1 = torch.clamp(y0 + 1, 0, th - 1)
    # clamped coordinates do not depend on uv : gradient zero outside of the texture
    in_u = ((u >= 0) & (u <= tw - 1)).detach()
    in_v = ((v >= 0) & (v <= th - 1)).detach()
    uu = torch.where(in_u, u, uc)
    vv = torch.where(in_v, v, vc)
    fu = (uu - x0)[..., None]
    fv = (vv - y0)[..., None]
    s = (
        (1 - fu) * (1 - fv) * texture[y0, x0]
        + fu * (1 - fv) * texture[y0, x1]
        + (1 - fu) * fv * texture[y1, x0]
        + fu * fv * texture[y1, x1]
    )
    with torch.no_grad():
        du = (u - torch.round(u)).abs()
        dv = (v - torch.round(v)).abs()
        # away from the texture the nearest kink is the border
        du = torch.where(u < 0, -u, torch.where(u > tw - 1, u - (tw - 1), du))
        dv = torch.where(v < 0, -v, torch.where(v > th - 1, v - (th - 1), dv))
        kink = torch.minimum(du, dv)
    return s, kink


def run(d, sigma=0.0, obs=None, L=None, omit=False):
    """Model of rendering (obs None) or of the antialiased error (obs given).

    With omit, the gradient through the colour of the overdraw of plain edges misses what the listed known finding of
    the error mode misses: all but its slope along x (the values are the same).
    """
    if L is None:
        L = {k: _t(d[k]) for k in ("ij", "colors", "shade", "uv", "texture")}
    h, w, c = d["height"], d["width"], d["nb_colors"]
    persp = d["perspective_correct"]
    off = 0.0 if d["integer_pixel_centers"] else 0.5
    ys, xs = torch.meshgrid(
        torch.arange(h, dtype=torch.float64), torch.arange(w, dtype=torch.float64), indexing="ij"
    )
    pix = torch.stack((xs, ys), dim=-1)
    faces = d["faces"].astype(np.int64)
    fuv = d["faces_uv"].astype(np.int64)
    depths = _t(d["depths"])
    nf = len(faces)
    if d["background_image"] is not None:
        bg = _t(d["background_image"])
    else:
        bg = _t(d["background_color"]).expand(h, w, c)
    zbuf = torch.full((h, w), float("inf"), dtype=torch.float64)
    zlow = zbuf.clone()
    tolz = torch.zeros((h, w), dtype=torch.float64)
    amb = torch.zeros((h, w), dtype=torch.bool)
    owner = torch.full((h, w), -1, dtype=torch.long)
    kink = torch.full((h, w), float("inf"), dtype=torch.float64)
    tol = torch.zeros((h, w), dtype=torch.float64)
    cond = torch.ones((h, w), dtype=torch.float64)
    image = bg.clone()
    drawn = np.zeros(nf, dtype=bool)
    front = np.zeros(nf, dtype=bool)
    coverage = np.zeros((nf, h, w), dtype=bool)
    face_amb = np.zeros((nf, h, w), dtype=bool)
    face_z = np.full((nf, h, w), np.inf)
    with torch.no_grad():
        P0 = L["ij"].detach() - off
    for k in range(nf):
        f = faces[k]
        if np.any(d["depths"][f] < 0):
            continue
        with torch.no_grad():
            p = P0[f]
            area2 = float(_outer(p[1] - p[0], p[2] - p[0]))
            signed = area2 if d["clockwise"] else -area2
            m = float(p.abs().max()) + max(h, w)
            ext = float((p - p.mean(0)).abs().max())
        front[k] = signed > 0
        if not (signed > 0 or (not d["backface_culling"] and signed < 0)):
            if abs(area2) < 64 * EPS * m * m and signed != 0:
                face_amb[k] = True
                amb[:] = True
            continue
        if abs(area2) < 64 * EPS * m * m:
            # the orientation itself is not certain
            amb[:] = True
            face_amb[k] = True
            continue
        drawn[k] = True
        q = L["ij"][f] - off
        A2 = _outer(q[1] - q[0], q[2] - q[0])
        bary = torch.stack(
            [_outer(q[(i + 2) % 3] - q[(i + 1) % 3], pix - q[(i + 1) % 3]) / A2 for i in range(3)], dim=-1
        )
        with torch.no_grad():
            b = bary.detach()
            inside = torch.ones((h, w), dtype=torch.bool)
            maybe = torch.ones((h, w), dtype=torch.bool)
            for i in range(3):
                u = p[(i + 2) % 3] - p[(i + 1) % 3]
                length = float(torch.linalg.norm(u))
                e = b[..., i] * abs(area2) / length
                # rounding of the span limits, in pixels, whatever the direction of the edge
                eps_e = 1e-10 + 64 * EPS * m * m / length * (1 + m / length)
                inside &= e > eps_e
                maybe &= e >= -eps_e
            cf = 1 + m * m / abs(area2)
            dz = depths[f]
            if persp:
                iz = (b / dz).sum(-1)
                Z = 1 / iz
                tz = K * cf * float((1 / dz).abs().max()) * Z * Z + K * Z.abs()
                maybe_z = torch.ones_like(maybe)
                bad = maybe & ((iz.abs() * 0.5 < K * cf * float((1 / dz).abs().max())))
                amb |= bad
            else:
                Z = (b * dz).sum(-1)
                tz = torch.full((h, w), K * cf * float(dz.abs().max()))
            coverage[k] = inside.numpy()
            face_amb[k] = (maybe & ~inside).numpy()
            face_z[k] = torch.where(inside, Z, torch.full_like(Z, float("inf"))).numpy()
            certain = inside & (Z + tz < zlow - tolz)
            unsure = maybe & ~certain & (Z - tz <= zbuf + tolz)
            amb = (amb & ~certain) | unsure
            zlow = torch.where(certain, Z, torch.where(unsure, torch.minimum(zlow, Z), zlow))
            upd = certain | (unsure & inside & (Z < zbuf))
            zbuf = torch.where(upd, Z, zbuf)
            tolz = torch.where(upd | unsure, torch.maximum(tz, torch.where(upd, torch.zeros_like(tolz), tolz)), tolz)
            owner = torch.where(upd, torch.full_like(owner, k), owner)
        if not bool(upd.any()):
            continue
        if persp:
            wgt = bary / dz
            wgt = wgt / wgt.sum(-1, keepdim=True)
            wgt = torch.where(upd[..., None], wgt, torch.full_like(wgt, 1 / 3))
        else:
            wgt = bary
        amp = cf * (float(dz.max() / dz.min()) if persp else 1.0)
        if d["textured"][k]:
            uvf = L["uv"][fuv[k]]
            puv = (wgt[..., None] * uvf).sum(-2)
            sm, kk = sample_texture(L["texture"], puv[..., 0], puv[..., 1])
            sh = (wgt * L["shade"][f]).sum(-1)
            A = sm * sh[..., None]
            with torch.no_grad():
                tolA = K * amp * (
                    float(L["shade"][f].abs().max()) * float(L["texture"].abs().max()) * (2 + 4 * float(uvf.abs().max()))
                )
                kmin = kk - K * amp * float(uvf.abs().max())
                kink = torch.where(upd, kmin, kink)
        else:
            A = (wgt[..., None] * L["colors"][f]).sum(-2)
            with torch.no_grad():
                tolA = K * amp * float(L["colors"][f].abs().max())
                kink = torch.where(upd, torch.full_like(kink, float("inf")), kink)
        image = torch.where(upd[..., None], A, image)
        tol = torch.where(upd, torch.full_like(tol, tolA), tol)
        cond = torch.where(upd, torch.full_like(cond, amp), cond)
    M = Model()
    M.front = front
    M.drawn = drawn
    M.coverage = coverage
    M.face_amb = face_amb
    M.face_z = face_z
    M.base_amb = amb.numpy().copy()
    M.base_image = image.detach().numpy().copy()
    M.base_tol = tol.numpy().copy()
    M.owner = owner.numpy()
    M.z = zbuf.numpy()
    M.z_tol = tolz.numpy()
    M.nb_blends = np.zeros((h, w), dtype=int)
    M.min_T = np.full((h, w), np.inf)
    err = None
    if obs is not None:
        o = _t(obs)
        err = ((image - o) ** 2).sum(-1)
        tol_err = (2 * (image.detach() - o).abs().sum(-1) + tol) * tol + K * err.detach()
    if sigma > 0:
        sums = np.array([(d["depths"][f[0]] + d["depths"][f[1]]) + d["depths"][f[2]] for f in faces])
        order = np.argsort(-sums, kind="stable")
        last_sum = torch.full((h, w), float("nan"), dtype=torch.float64)
        last_face = torch.full((h, w), -1, dtype=torch.long)
        for k in order:
            k = int(k)
            f = faces[k]
            if not front[k] or np.any(d["depths"][f] < 0):
                continue
            for n in range(3):
                if not d["edgeflags"][k, n]:
                    continue
                ia, ib = n, (n + 1) % 3
                ic = (n + 2) % 3
                q = L["ij"][f] - off
                a, b_ = q[ia], q[ib]
                u = b_ - a
                with torch.no_grad():
                    length = float(torch.linalg.norm(u))
                if length == 0:
                    amb[:] = True
                    continue
                # unit normal pointing away from the third vertex of the face
                nrm = torch.stack((u[1], -u[0]))
                with torch.no_grad():
                    side = float(((q[ic] - a) * nrm).sum())
                if side > 0:
                    nrm = -nrm
                nrm = nrm / torch.linalg.norm(u)
                s = ((pix - a) * u).sum(-1) / (u * u).sum()  # position along the edge
                T = ((pix - a) * nrm).sum(-1) / sigma
                with torch.no_grad():
                    m = float(q.abs().max()) + max(h, w)
                    ce = 1 + m / length
                    eps_s = 1e-10 + K * ce * m / length
                    eps_T = 1e-10 + K * m * ce / sigma
                    sd, Td = s.detach(), T.detach()
                    inside = (sd > eps_s) & (sd < 1 - eps_s) & (Td > eps_T) & (Td < 1 - eps_T)
                    maybe = (sd > -eps_s) & (sd < 1 + eps_s) & (Td > -eps_T) & (Td < 1 + eps_T)
                    if not bool(maybe.any()):
                        continue
                    za, zb = float(d["depths"][f[ia]]), float(d["depths"][f[ib]])
                    if persp:
                        iz = (1 - sd) / za + sd / zb
                        Z = 1 / iz
                        mz = max(1 / za, 1 / zb)
                        tz = K * ce * ce * mz * Z * Z + K * Z.abs()
                    else:
                        Z = (1 - sd) * za + sd * zb
                        tz = torch.full_like(Z, K * ce * ce * max(abs(za), abs(zb)))
                    vis = Z < zbuf
                    unsure_z = (Z - zbuf).abs() <= tz + tolz
                    possible = maybe & (vis | unsure_z | amb)
                    blend = inside & vis
                    amb |= possible & ~(inside & vis & ~unsure_z)
                    # the order of faces with the same sum of depths is not specified
                    tie = (last_face != k) & (last_face >= 0) & ((last_sum - sums[k]).abs() <= 1e-12 * (abs(sums[k]) + 1))
                    amb |= possible & tie
                    last_face = torch.where(possible, torch.full_like(last_face, k), last_face)
                    last_sum = torch.where(possible, torch.full_like(last_sum, sums[k]), last_sum)
                if not bool(blend.any()):
                    continue
                if persp:
                    wa = (1 - s) / za
                    wb = s / zb
                    wa, wb = wa / (wa + wb), wb / (wa + wb)
                    wa = torch.where(blend, wa, torch.full_like(wa, 0.5))
                    wb = torch.where(blend, wb, torch.full_like(wb, 0.5))
                    amp = ce * ce * max(za, zb) / min(za, zb)
                else:
                    wa, wb = 1 - s, s
                    amp = ce * ce
                wa, wb = wa[..., None], wb[..., None]
                if d["textured"][k] and d["shaded"][k]:
                    uva, uvb = L["uv"][fuv[k, ia]], L["uv"][fuv[k, ib]]
                    puv = wa * uva + wb * uvb
                    sm, kk = sample_texture(L["texture"], puv[..., 0], puv[..., 1])
                    sh = wa * L["shade"][f[ia]] + wb * L["shade"][f[ib]]
                    A = sm * sh
                    with torch.no_grad():
                        mu = float(torch.maximum(uva.abs().max(), uvb.abs().max()))
                        tolA = K * amp * float(L["shade"][f].abs().max()) * float(L["texture"].abs().max()) * (2 + 4 * mu)
                        kink = torch.where(blend, torch.minimum(kink, kk - K * amp * mu), kink)
                else:
                    A = wa * L["colors"][f[ia]] + wb * L["colors"][f[ib]]
                    if omit:
                        slope = (L["colors"][f[ib]] - L["colors"][f[ia]]) * (u[0] / (u * u).sum())
                        Ax = slope * xs[..., None]
                        A = (A - Ax).detach() + Ax
                    with torch.no_grad():
                        tolA = K * amp * float(L["colors"][f].abs().max())
                with torch.no_grad():
                    tT = K * m * ce / sigma
                    cond = torch.where(blend, torch.maximum(cond, torch.full_like(cond, amp)), cond)
                    bn = blend.numpy()
                    M.nb_blends += bn
                    M.min_T = np.where(bn, np.minimum(M.min_T, Td.numpy()), M.min_T)
                if obs is None:
                    new = T[..., None] * image + (1 - T)[..., None] * A
                    with torch.no_grad():
                        nt = Td * tol + (1 - Td) * tolA + tT * (image.detach().abs().amax(-1) + A.detach().abs().amax(-1))
                        tol = torch.where(blend, nt + 4 * EPS * new.detach().abs().amax(-1), tol)
                    image = torch.where(blend[..., None], new, image)
                else:
                    res = ((A - o) ** 2).sum(-1)
                    new = T * err + (1 - T) * res
                    with torch.no_grad():
                        tr = (2 * (A.detach() - o).abs().sum(-1) + c * tolA) * tolA + K * res.detach()
                        nt = Td * tol_err + (1 - Td) * tr + tT * (err.detach() + res.detach())
                        tol_err = torch.where(blend, nt, tol_err)
                    err = torch.where(blend, new, err)
    M.image_t = image
    M.image = image.detach().numpy()
    M.tol = tol.numpy()
    M.err_t = err
    if err is not None:
        M.err = err.detach().numpy()
        M.err_tol = tol_err.numpy()
    M.amb = amb.numpy()
    M.kink = kink.numpy()
    M.cond = cond.numpy()
    M.L = L
    return M
