import math, torch
from harness import q, enc, guard, attempt
from pytorch3d.structures import Meshes
from pytorch3d.renderer import (BlendParams, hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend, SoftSilhouetteShader,
    SplatterPhongShader, FoVOrthographicCameras, FoVPerspectiveCameras, PerspectiveCameras, AmbientLights, Materials, TexturesVertex,
    PointLights, DirectionalLights, MeshRasterizer, RasterizationSettings, MeshRenderer, MeshRendererWithFragments, look_at_view_transform)
import pytorch3d.renderer.mesh.shader as sd
from pytorch3d.renderer.mesh.shader import HardDepthShader, SoftDepthShader
from pytorch3d.renderer.splatter_blend import SplatterBlender
from pytorch3d.renderer.mesh.rasterizer import Fragments
from shadelib import LN2, fragments
MODULE = "Shade"
ASSUMPTIONS = ["distances are integer multiples of sigma*ln 2 and depths of gamma*ln 2 so that blending weights are powers of two",
               "fragments in front of the far plane; depths of the splatter in 1/64, sub-pixel shifts in quarters"]


def background(rng, C=3):
    bg = [rng.randint(0, 3) for _ in range(C)]
    return bg, rng.choice([tuple, list, lambda x: torch.tensor(x).float()])(bg)


def blend(ctx, rng, tr):
    N, H, W, K = rng.choice([1, 2, 3]), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4)
    sigma, gamma, znear, zfar = rng.choice([1e-4, 1e-2, 0.5]), 0.02, rng.choice([1, 0.5]), rng.choice([9, 5.0])
    D = zfar - znear
    C = rng.choice([1, 3, 4])
    form = rng.choice([0, 0, 1, 1, 2])
    if form == 1:  # planes of their own for every image
        znear, zfar = torch.tensor([rng.choice([1, 0.5, 2.5]) for _ in range(N)]), torch.tensor([rng.choice([9, 5.0, 40]) for _ in range(N)])
        D = (zfar - znear)[:, None, None, None]
    fr, rows = fragments(ctx, rng, N, H, W, K, [0] * N, [5] * N, sigma, D, gamma, zfar[:, None, None, None] if form == 1 else zfar)
    bg, bgv = background(rng, C)
    bp = BlendParams(sigma, gamma, bgv)
    col = ctx.ints((N, H, W, K, C), -2, 3)
    snap = [x.clone() for x in (fr.pix_to_face, fr.zbuf, fr.dists, col)]
    r2 = lambda o, s, f=q: f(o.reshape(N * H * W, o.shape[-1]), s)  # noqa: E731
    rc = enc(col.reshape(N * H * W, K, C))

    def hard(e):
        e["o"] = r2(hard_rgb_blend(col, fr, bp), 1, enc)
    tr.append(guard(dict(rows, op="hard", c=rc, bg=bg), hard))
    if C == 3:
        def sig(e):
            e["o"] = r2(sigmoid_alpha_blend(col, fr, bp), 10000)
        tr.append(guard(dict(rows, op="sig", c=rc), sig))
        go = ctx.ints((N, H, W), -3, 3)

        def grad(e):
            d = fr.dists.clone().requires_grad_()
            sigmoid_alpha_blend(col, fr._replace(dists=d) if hasattr(fr, "_replace") else Fragments(fr.pix_to_face, fr.zbuf, fr.bary_coords, d), bp)[..., 3].backward(go)
            e["gd"] = q(d.grad.reshape(N * H * W, K) * sigma, 10000)
        tr.append(guard(dict(rows, op="siggrad", go=enc(go.reshape(-1))), grad))
        f = (lambda v: v) if form < 2 else (lambda v: torch.tensor([float(v)]))

        def soft(e):
            e["o"] = r2(softmax_rgb_blend(col, fr, bp, znear=f(znear), zfar=f(zfar)), 10000)
        tr.append(guard(dict(rows, op="soft", c=rc, bg=bg), soft))

        def sil(e):
            S = SoftSilhouetteShader(bp) if rng.random() < 0.5 else SoftSilhouetteShader()
            e["o"] = r2(S(fr, None, blend_params=bp) if S.blend_params is not bp else S(fr, None), 10000)
        tr.append(guard(dict(rows, op="sig", c=[[[1, 1, 1]] * K] * (N * H * W)), sil))
    tr.append({"op": "same", "what": "blending does not modify its arguments", "same": all(torch.equal(a, b) for a, b in zip(snap, (fr.pix_to_face, fr.zbuf, fr.dists, col)))})


def depth(ctx, rng, tr):
    N, H, W, K = rng.choice([1, 2, 3]), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4)
    sigma = rng.choice([1e-4, 1e-2])
    fr, rows = fragments(ctx, rng, N, H, W, K, [0] * N, [5] * N, sigma, 1, 1, 0)
    zb = ctx.ints((N, H, W, K), 1, 9)
    zb = torch.where(fr.pix_to_face >= 0, zb.sort(dim=-1).values, torch.full((), -1.0))
    fr = Fragments(fr.pix_to_face, zb, fr.bary_coords, fr.dists)
    soft = rng.random() < 0.5
    src = rng.choice(["kwarg", "kwargN", "cams", "cams1", "default"])
    zf = [rng.randint(10, 40) for _ in range(N if src in ("kwargN", "cams") else 1)]
    bp = BlendParams(sigma, 1e-4, (0, 0, 0))
    S = (SoftDepthShader if soft else HardDepthShader)
    kw = {}
    cams = PerspectiveCameras()
    if src == "kwarg":
        kw["zfar"] = rng.choice([float(zf[0]), zf[0], torch.tensor([float(zf[0])])])
    elif src == "kwargN":
        kw["zfar"] = torch.tensor(zf).float()
    elif src == "default":
        zf = [100]
    else:
        cams = rng.choice([FoVPerspectiveCameras, FoVOrthographicCameras])(zfar=torch.tensor(zf).float() if len(zf) > 1 else float(zf[0]))
    where = rng.choice(["init", "call"])

    def go(e):
        if where == "init":
            s = S(cameras=cams, blend_params=bp)
        else:
            s = S(cameras=rng.choice([None, FoVPerspectiveCameras(zfar=77.0)]))
            kw.update(cameras=cams, blend_params=bp)
        o = s(fr, None, **kw)
        e["o"] = q(o.reshape(N * H * W, -1) if tuple(o.shape) == (N, H, W, 1) else [[]], 1000)
    keep = zb.clone()
    tr.append(guard(dict(rows, op="depth", soft=soft, zfar=zf, zb=enc(zb.reshape(N * H * W, K))), go))
    tr.append({"op": "same", "what": "depth shading does not modify its arguments", "same": torch.equal(keep, fr.zbuf)})


def scene(ctx, rng, N, H, W, K):
    a = torch.zeros(N, H, W, K, dtype=torch.int64)
    for i in range(N * H * W):
        a.view(-1, K)[i, :rng.randint(0, K)] = 1
    zz = ctx.ints((N, H, W, K), 1, rng.choice([4, 20, 60]), torch.int64).sort(dim=-1).values
    m = min(H, W)
    sx, sy = (ctx.ints((N, H, W, K), -1, 1, torch.int64) for _ in range(2)) if rng.random() < 0.7 else (torch.zeros_like(a), torch.zeros_like(a))
    w = torch.arange(W).view(1, 1, W, 1)
    h = torch.arange(H).view(1, H, 1, 1)
    x = (W - 2 * w - 1) / m + 2 * (sx / 4) / m
    y = (H - 2 * h - 1) / m + 2 * (sy / 4) / m
    return a, zz, sx, sy, torch.stack([x.expand_as(a), y.expand_as(a), zz / 64], dim=-1).float()


SIG = math.sqrt(1 / (2 * LN2))


def splat(ctx, rng, tr):
    N, H, W, K = rng.choice([1, 2]), rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3)
    a, zz, sx, sy, xyz = scene(ctx, rng, N, H, W, K)
    col = ctx.ints((N, H, W, K, 3), 0, 3)
    bg, bgv = background(rng)
    cams = FoVOrthographicCameras(znear=0.0, zfar=1.0)
    ev = lambda: {"op": "splat", "N": N, "H": H, "W": W, "K": K, "a": enc(a), "c": enc(col), "zz": enc(zz), "sx": enc(sx), "sy": enc(sy), "bg": bg}  # noqa: E731
    snap = [col.clone(), xyz.clone(), a.clone()]
    mask = a == 0

    def go(e):
        b = SplatterBlender((N, H, W, K), "cpu")
        for _ in range(rng.choice([1, 2])):
            o = b(col, xyz, cams, mask, BlendParams(SIG, 1e-4, bgv))
        e["o"] = q(o, 10000)
    tr.append(guard(ev(), go))
    tr.append({"op": "same", "what": "splatting does not modify its arguments", "same": torch.equal(snap[0], col) and torch.equal(snap[1], xyz) and torch.equal(mask, a == 0)})


def shader(ctx, rng, tr):
    """one shader renders images of several sizes"""
    bp0 = background(rng)
    S = SplatterPhongShader(cameras=FoVOrthographicCameras(znear=0.0, zfar=1.0), lights=AmbientLights(), materials=Materials(), blend_params=BlendParams(SIG, 1e-4, bp0[1]))
    for _ in range(rng.choice([2, 3])):
        N, H, W, K = rng.choice([1, 2]), rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 2)
        a, zz, sx, sy, xyz = scene(ctx, rng, N, H, W, K)
        # every fragment has its own small face: all corners at its position, one colour
        P = xyz.reshape(-1, 3)
        col = ctx.ints((N, H, W, K, 3), 0, 3)
        per = H * W * K
        M = Meshes([P[n * per:(n + 1) * per] for n in range(N)], [torch.arange(per)[:, None].expand(per, 3).contiguous() for _ in range(N)],
                   textures=TexturesVertex([col.reshape(N, per, 3)[n] for n in range(N)]))
        idx = torch.arange(N * per).view(N, H, W, K)
        m = a == 1
        fr = Fragments(torch.where(m, idx, -1), torch.where(m, zz / 64, -1.0), torch.where(m[..., None], torch.tensor([0.25, 0.5, 0.25]), torch.full((), -1.0)), torch.where(m, 0.0, -1.0))
        kw, bg = {}, bp0[0]
        if rng.random() < 0.4:
            bg, v = background(rng)
            kw["blend_params"] = BlendParams(SIG, 1e-4, v)

        def go(e):
            e["o"] = q(S(fr, M, **kw), 10000)
        tr.append(guard({"op": "splat", "N": N, "H": H, "W": W, "K": K, "a": enc(a), "c": enc(col), "zz": enc(zz), "sx": enc(sx), "sy": enc(sy), "bg": bg}, go))


def renderer(ctx, rng, tr):
    """A renderer is its shader applied to its rasterizer; settings given at the call override constructed ones."""
    N = rng.choice([1, 2])
    ms = []
    for _ in range(N):
        v = torch.tensor(ctx.np.rand(rng.randint(3, 6), 3)).float() * 2 - 1
        f = torch.tensor([rng.sample(range(len(v)), 3) for _ in range(rng.randint(1, 4))])
        ms.append((v, f, torch.tensor(ctx.np.rand(len(v), 3)).float()))
    M = lambda: Meshes([m[0] for m in ms], [m[1] for m in ms], TexturesVertex([m[2] for m in ms]))
    def cam():
        R, T = look_at_view_transform(rng.uniform(2, 4), rng.uniform(-40, 40), torch.tensor([rng.uniform(0, 360) for _ in range(rng.choice([1, N]))]))
        k = rng.choice([FoVPerspectiveCameras, FoVOrthographicCameras, FoVPerspectiveCameras])
        return k(R=R, T=T, znear=0.5, zfar=rng.choice([10.0, 20.0]))
    lig = lambda: rng.choice([lambda: PointLights(location=[[rng.uniform(-3, 3) for _ in range(3)]]), lambda: DirectionalLights(direction=[[rng.uniform(-3, 3) for _ in range(3)]]), lambda: AmbientLights()])()
    mat = lambda: Materials(shininess=rng.randint(1, 60), diffuse_color=[[rng.random() for _ in range(3)]])
    bl = lambda: BlendParams(rng.choice([1e-4, 1e-2]), rng.choice([1e-4, 1e-1]), tuple(rng.random() for _ in range(3)))
    st = lambda: RasterizationSettings(image_size=rng.choice([5, (4, 7)]), blur_radius=rng.choice([0.0, 0.0, 1e-2]), faces_per_pixel=rng.choice([1, 3]), perspective_correct=rng.random() < 0.5)
    sh = rng.choice([sd.HardPhongShader, sd.SoftPhongShader, sd.HardGouraudShader, sd.SoftGouraudShader, sd.HardFlatShader, sd.SoftSilhouetteShader, sd.SplatterPhongShader, sd.HardDepthShader, sd.SoftDepthShader])
    a = {"cameras": cam(), "lights": lig(), "materials": mat(), "blend_params": bl(), "raster_settings": st()}
    if sh is sd.SplatterPhongShader:
        a["blend_params"] = BlendParams(0.5, 1e-4, (0.2, 0.3, 0.4))
        a["raster_settings"].perspective_correct = False
    over = {}
    for k, g in (("cameras", cam), ("lights", lig), ("materials", mat), ("blend_params", bl), ("raster_settings", st)):
        if rng.random() < 0.4 and not (sh is sd.SplatterPhongShader and k in ("blend_params", "raster_settings")):
            over[k] = g()
    take = {"cameras", "blend_params"} | (set() if sh is sd.SoftSilhouetteShader else {"lights", "materials"})
    if sh is sd.SoftSilhouetteShader:
        take = {"blend_params"}
    frag = rng.random() < 0.5
    both = {**a, **over}

    def build(x):
        return MeshRasterizer(cameras=x["cameras"], raster_settings=x["raster_settings"]), sh(**{k: x[k] for k in take})

    def go(e):
        ra, sa = build(a)
        R = (MeshRendererWithFragments if frag else MeshRenderer)(ra, sa)
        if rng.random() < 0.5:
            R = R.to(torch.device("cpu"))
        out = R(M(), **over)
        rb, sb = build(both)
        F = rb(M())
        I = sb(F, M())
        im = out[0] if frag else out
        e["same"] = torch.equal(im, I) and (not frag or all(torch.equal(getattr(out[1], k), getattr(F, k)) for k in ("pix_to_face", "zbuf", "bary_coords", "dists")))
        e["over"] = sorted(over)
    tr.append(guard({"op": "same", "what": "a renderer shades what it rasterizes, arguments of the call override constructed ones", "shader": sh.__name__}, go))


def traces(ctx):
    fr, _ = fragments(ctx, ctx.rng, 1, 1, 1, 1, [0], [1], 1e-2, 8, 0.1, 9.0)
    tr = []
    for k, f in {
        "splat width": lambda: SplatterBlender((1, 1, 1, 1), "cpu")(torch.zeros(1, 1, 1, 1, 3), torch.zeros(1, 1, 1, 1, 3), FoVOrthographicCameras(), torch.zeros(1, 1, 1, 1) > 0, BlendParams(sigma=0.0)),
        "fragments without distances for soft depth": lambda: SoftDepthShader(cameras=FoVPerspectiveCameras())(Fragments(fr.pix_to_face, fr.zbuf, fr.bary_coords, None), None),
        "depth shader without cameras": lambda: HardDepthShader()(fr, None),
    }.items():
        tr.append({"op": "rejects", "what": k, "rejected": not attempt(f)[0]})
    yield tr
    for k in range(ctx.n(300, 10000)):
        tr = []
        blend(ctx, ctx.rng, tr)
        depth(ctx, ctx.rng, tr)
        splat(ctx, ctx.rng, tr)
        if k % 3 == 1:
            renderer(ctx, ctx.rng, tr)
        if k % 3 == 0:
            shader(ctx, ctx.rng, tr)
        yield tr
