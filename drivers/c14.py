import itertools, math, torch
from harness import q, enc, guard, attempt
from pytorch3d.structures import Meshes
from pytorch3d.ops import interpolate_face_attributes
from pytorch3d.renderer import (BlendParams, HardPhongShader, SoftPhongShader, HardGouraudShader, SoftGouraudShader, HardFlatShader,
    PointLights, DirectionalLights, Materials, FoVPerspectiveCameras, TexturesVertex)
from pytorch3d.renderer.lighting import specular
from pytorch3d.renderer.mesh.shading import phong_shading, gouraud_shading, flat_shading
from shadelib import LN2, fragments, cameras, lights, materials, mesh
MODULE = "Shade"
ASSUMPTIONS = ["integer positions, normals and colours, barycentric coordinates in eighths, integer shininess",
               "points lit at a grazing angle below 3e-4 are not decided (the highlight is discontinuous there)"]
FN = {"phong": phong_shading, "gouraud": gouraud_shading, "flat": flat_shading}
SH = {("phong", "hard"): HardPhongShader, ("phong", "soft"): SoftPhongShader, ("gouraud", "hard"): HardGouraudShader, ("gouraud", "soft"): SoftGouraudShader, ("flat", "hard"): HardFlatShader}


def interp(ctx, rng, tr):
    N, H, W, K, F, D = rng.choice([1, 2]), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3), rng.randint(0, 4), rng.randint(1, 5)
    pix = ctx.ints((N, H, W, K), -1, F - 1, torch.int64)
    b, att = ctx.ints((N, H, W, K, 3), -4, 8), ctx.ints((F, 3, D), -6, 6)
    bf, af = (b / 8).requires_grad_(), att.clone().requires_grad_()
    if rng.random() < 0.3:
        pix = pix.permute(0, 2, 1, 3).contiguous().permute(0, 2, 1, 3)
    keep = pix.clone()
    r = []

    def go(e):
        o = interpolate_face_attributes(pix, bf, af)
        e["o"] = enc(o.reshape(-1, D) if tuple(o.shape) == (N, H, W, K, D) else [[0]], 8)
        r.append(o)
    e = {"op": "interp", "pix": pix.reshape(-1).tolist(), "b": enc(b.reshape(-1, 3)), "att": enc(att), "D": D}
    tr.append(guard(dict(e), go))

    def gr(e):
        w = ctx.ints(tuple(r[0].shape), -3, 3)
        gb, ga = torch.autograd.grad((r[0] * w).sum(), [bf, af])
        e["go"], e["gb"], e["ga"] = enc(w.reshape(-1, D)), enc(gb.reshape(-1, 3)), enc(ga, 8)
    if r and r[0].requires_grad:
        tr.append(guard(dict(e, op="interpgrad"), gr))
    tr.append({"op": "same", "what": "interpolation does not modify its arguments", "same": torch.equal(pix, keep)})


def shade(ctx, rng, tr):
    N, H, W, K = rng.choice([1, 2, 3]), rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 3)
    ambient = rng.random() < 0.2
    C = rng.choice([3, 3, 1, 4, 5]) if ambient else 3
    M, e, first, nf = mesh(ctx, rng, N, C)
    if not sum(nf):
        return
    style = rng.choice(["phong", "phong", "gouraud", "flat"])
    out = rng.choice(["colors", "hard", "soft"])
    if C != 3 and out == "soft" or style == "flat" and out == "soft":
        out = "hard"
    znear, zfar = ([1, 1.0][rng.randrange(2)], 9.0)
    sigma, gamma = rng.choice([1e-4, 1e-2]), 0.02
    D = zfar - znear
    fr, rows = fragments(ctx, rng, N, H, W, K, first, nf, sigma, D, gamma, zfar)
    cam, cc = cameras(rng, rng.choice([1, N]), N)
    L, ls = lights(rng, N, C, ambient)
    mt, ms = materials(rng, N, C)
    bg = [rng.randint(0, 1) for _ in range(C)]
    bp = BlendParams(sigma, gamma, rng.choice([tuple(bg), bg, torch.tensor(bg).float()]))
    e.update(rows)
    e.update({"op": "shade", "style": style, "out": out, "l": ls, "m": ms, "cc": cc, "bg": bg})
    where = {k: rng.random() < 0.5 for k in ("cameras", "lights", "materials", "blend_params")}
    snap = [x.clone() for x in (M.verts_packed(), L.ambient_color, mt.shininess, cam.R, fr.pix_to_face, fr.bary_coords)]

    def go(e):
        if out == "colors":
            kw = dict(meshes=M, fragments=fr, lights=L, cameras=cam, materials=mt)
            if style != "gouraud":
                kw["texels"] = M.sample_textures(fr)
            o = FN[style](**kw)
            e["o"] = q(o.reshape(N * H * W, K, C), 10000)
        else:
            a = {"cameras": cam, "lights": L, "materials": mt, "blend_params": bp}
            other = {"cameras": FoVPerspectiveCameras(), "lights": PointLights(), "materials": Materials(), "blend_params": BlendParams()}
            S = SH[style, out](**{k: a[k] if where[k] else rng.choice([other[k], None]) for k in a})
            kw = {k: a[k] for k in a if not where[k]}
            if out == "soft":
                form = rng.choice([0, 1, 2])
                f = (lambda v: v) if form == 0 else (lambda v: torch.full((N,), float(v))) if form == 1 else (lambda v: torch.tensor([float(v)]))
                kw["znear"], kw["zfar"] = f(znear), f(zfar)
            o = S(fr, M, **kw)
            e["o"] = q(o.reshape(N * H * W, C + 1), 10000)
    tr.append(guard(e, go))
    tr.append({"op": "same", "what": "shading does not modify its arguments",
               "same": all(torch.equal(a, b) for a, b in zip(snap, (M.verts_packed(), L.ambient_color, mt.shininess, cam.R, fr.pix_to_face, fr.bary_coords)))})


INT = [v for v in itertools.product(range(-7, 8), repeat=3) if 0 < sum(x * x for x in v) <= 81 and math.isqrt(sum(x * x for x in v)) ** 2 == sum(x * x for x in v)]


def scales(ctx, rng, tr):
    """lights at any scale: directions of integer length, scaled by powers of two"""
    N, K = rng.choice([1, 2, 3]), rng.randint(1, 3)
    kind, packed = rng.choice(["point", "dir"]), rng.random() < 0.4
    rows = []
    l, v, P = [[rng.choice(INT) for _ in range(N)] for _ in range(2)] + [[[rng.randint(-8, 8) for _ in range(3)] for _ in range(N)]]
    n = [[rng.choice([x for x in INT if sum(a * b for a, b in zip(x, l[i])) != 0]) for _ in range(K)] for i in range(N)]
    col, sh = [[[rng.randint(0, 4) for _ in range(3)] for _ in range(2)] for _ in range(N)], [rng.choice([0, 1, 2, 3, 5, 64]) for _ in range(N)]
    a, b = 2.0 ** -rng.choice([0, 3, 8, 11]), 2.0 ** -rng.choice([-4, 0, 3, 8, 11])
    t = lambda x: torch.tensor(x, dtype=torch.float32)  # noqa: E731
    e = {"op": "light", "K": K, "n": n, "l": l, "v": v, "col": col, "sh": sh, "d": [], "s": []}

    def go(e):
        pts, nrm = t(P)[:, None, None, None].expand(N, 1, 1, K, 3) * b, t(n)[:, None, None] * a
        x = (t(P) + t(l)) * b if kind == "point" else t(l) * b
        cam, s = (t(P) + t(v)) * b, t(sh)
        dc, sc = t([c[0] for c in col]) / 4, t([c[1] for c in col]) / 4
        if packed:
            r = lambda y: y[:, None].expand(N, K, *y.shape[1:]).reshape(N * K, *y.shape[1:])  # noqa: E731
            pts, nrm, x, cam, s, dc, sc = pts.reshape(-1, 3), nrm.reshape(-1, 3), r(x), r(cam), r(s), r(dc), r(sc)  # points of shape (P, 3)
        kw = dict(diffuse_color=dc, specular_color=sc)
        L = PointLights(location=x, **kw) if kind == "point" else DirectionalLights(direction=x, **kw)
        e["d"] = q(L.diffuse(normals=nrm, points=pts).reshape(N, K, 3), 10000)
        e["s"] = q(L.specular(normals=nrm, points=pts, camera_position=cam, shininess=s).reshape(N, K, 3), 10000)
    tr.append(guard(e, go))


def traces(ctx):
    M = Meshes([torch.rand(3, 3)], [torch.tensor([[0, 1, 2]])])
    fr, _ = fragments(ctx, ctx.rng, 1, 1, 1, 1, [0], [1], 1e-2, 8, 0.1, 9.0)
    tr = []
    for k, f in {
        "faces with two vertices": lambda: interpolate_face_attributes(fr.pix_to_face, fr.bary_coords, torch.zeros(1, 2, 3)),
        "shape of pix_to_face": lambda: interpolate_face_attributes(fr.pix_to_face[0], fr.bary_coords, torch.zeros(1, 3, 3)),
        "light colour": lambda: PointLights(diffuse_color=((1, 1),)),
        "light location": lambda: PointLights(location=((1, 1),)),
        "light direction": lambda: DirectionalLights(direction=((1, 1),)),
        "material channels": lambda: Materials(ambient_color=((1, 1),)),
        "shininess shape": lambda: Materials(shininess=torch.ones(2, 2)),
        "texture for Gouraud shading": lambda: gouraud_shading(M, fr, PointLights(), FoVPerspectiveCameras(), Materials()),
        "missing cameras": lambda: HardPhongShader()(fr, M),
        "shapes of points and normals": lambda: specular(torch.zeros(1, 4, 3), torch.zeros(1, 3, 3), torch.zeros(1, 3), torch.ones(1, 3), torch.zeros(1, 3), torch.ones(1)),
    }.items():
        tr.append({"op": "rejects", "what": k, "rejected": not attempt(f)[0]})
    yield tr
    for k in range(ctx.n(350, 12000)):
        tr = []
        interp(ctx, ctx.rng, tr)
        scales(ctx, ctx.rng, tr)
        shade(ctx, ctx.rng, tr)
        shade(ctx, ctx.rng, tr)
        yield tr
