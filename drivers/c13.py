import torch
from harness import q, guard, attempt
from pytorch3d.structures import Pointclouds
from pytorch3d.renderer import PointsRasterizer, PointsRasterizationSettings, PointsRenderer, AlphaCompositor, NormWeightedCompositor
from pytorch3d.renderer.compositing import alpha_composite, norm_weighted_sum, weighted_sum
from pointlib import sizes, cams, cloud, radius_arg
MODULE = "Points"
ASSUMPTIONS = ["weights are multiples of 1/8 (of 1/200000 around the clamp of the normalization), features small integers",
               "rendered clouds have pairwise distinct depths"]
FN = {"alpha": alpha_composite, "norm": norm_weighted_sum, "sum": weighted_sum}
CO = {"alpha": AlphaCompositor, "norm": NormWeightedCompositor}


def comp(ctx, rng, tr):
    N, K, H, W, Cn, P = rng.choice([1, 2]), rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 5)
    how = rng.choice(["alpha", "alpha", "norm", "norm", "sum"])
    tiny = how == "norm" and rng.random() < 0.4
    ad = 210000 if tiny else 8  # even weights: their sum is never exactly the clamp
    lo = 1 if how == "norm" else 0  # vanishing sums of weights are covered by tiny
    f = ctx.ints((Cn, P), -4, 4)
    a = 2 * ctx.ints((N, K, H, W), 0, 7) if tiny else ctx.ints((N, K, H, W), lo, 8)
    ix = ctx.ints((N, K, H, W), 0, P - 1, torch.int64)
    cnt = ctx.ints((N, 1, H, W), 0, K)
    k = torch.arange(K)[None, :, None, None]
    hole = rng.random() < 0.3  # entries need not be contiguous
    ix = torch.where((k < cnt) if not hole else (ctx.ints((N, K, H, W), 0, 2) > 0), ix, torch.tensor(-1))
    e = {"op": "comp", "how": how, "ad": ad, "f": q(f, 1), "a": q(a, 1), "ix": ix.tolist(), "H": H, "W": W, "bg": []}
    fa, aa = f.clone().requires_grad_(), (a / ad).requires_grad_()
    if rng.random() < 0.2:  # non-contiguous arguments
        fa = f.t().contiguous().t().requires_grad_()
        aa = (a / ad).permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2).requires_grad_()
    ref = fa.detach().clone(), aa.detach().clone(), ix.clone()
    with_bg = how != "sum" and not hole and rng.random() < 0.4
    r = []

    def go(e):
        if with_bg:
            bg = [rng.randint(0, 1) for _ in range(Cn)]
            form = rng.choice(["list", "tuple", "tensor", "kwarg", "scalar", "noalpha"])
            if form == "noalpha" and Cn > 1:
                bg = bg[:-1] + [1]
                o = CO[how](background_color=bg[:-1])(ix, aa, fa)
            elif form == "scalar":
                bg = [bg[0]] * Cn
                o = CO[how](background_color=torch.tensor(float(bg[0])))(ix, aa, fa)
            elif form == "kwarg":
                o = CO[how](background_color=[7.0] * Cn)(ix, aa, fa, background_color=bg)
            else:
                o = CO[how](background_color={"tuple": tuple, "tensor": lambda b: torch.tensor(b)}.get(form, list)(bg))(ix, aa, fa)
            e["bg"] = bg
        elif how != "sum" and rng.random() < 0.3:
            o = CO[how]()(ix, aa, fa)
        else:
            o = FN[how](ix, aa, fa)
        e["o"] = q(o, 10000)
        r.append(o)
    tr.append(guard(e, go))
    if r and r[0].requires_grad and not with_bg:
        e2 = {k: v for k, v in e.items() if k != "o"}
        e2["op"], e2["gs"] = "compgrad", 0 if tiny else 3

        def gr(e):
            go_ = ctx.ints(tuple(r[0].shape), -3, 3)
            gf, ga = torch.autograd.grad((r[0] * go_).sum(), [fa, aa])
            e["go"], e["gf"], e["ga"] = q(go_, 1), q(gf, 1000), q(ga, 1 if tiny else 1000)
        tr.append(guard(e2, gr))
    tr.append({"op": "same", "what": "compositing does not modify its arguments", "same": all(torch.equal(x, y) for x, y in zip((fa.detach(), aa.detach(), ix), ref))})


def render(ctx, rng, tr):
    H, W = sizes(rng, dyadic=True)
    m = min(H, W)
    N = rng.choice([1, 1, 2, 3])
    nc = rng.choice([1, N])
    cs, C, kind = cams(rng, nc, H, W, dyadic=True)
    pts, feats = [], []
    Cn = rng.choice([1, 3, 4])
    for n in range(N):
        c = cs[min(n, nc - 1)]
        zs = rng.sample(range(-4, 9), rng.choice([0, 1, 3, 6, 9]))
        p = []
        for z in zs:
            x = [rng.randint(-2, 2) for _ in range(3)]
            d = [c["R"][i][2] for i in range(3)]
            j = [i for i in range(3) if d[i] != 0][0]
            x[j] = z * d[j]
            p.append(x)
        pts.append(p)
        feats.append([[rng.randint(-3, 3) for _ in range(Cn)] for _ in p])
    if not any(pts):
        return
    K = rng.choice([1, 2, 3, 8])
    rs, r = radius_arg(rng, pts, m, lo=2, hi=9)
    how = rng.choice(["alpha", "norm"])
    bg = [rng.randint(0, 1) for _ in range(Cn)] if rng.random() < 0.5 else []
    e = {"op": "render", "mode": "cam", "H": H, "W": W, "K": K, "pts": pts, "f": [x for p in feats for x in p], "radius": rs, "cams": cs, "how": how, "bg": bg}
    ps = [torch.tensor(p).float().reshape(-1, 3) for p in pts]
    P = Pointclouds(ps, features=[torch.tensor(f).float().reshape(-1, Cn) for f in feats])
    ref = P.points_padded().clone(), P.features_padded().clone()
    S = PointsRasterizationSettings(image_size=(H, W), radius=r, points_per_pixel=K)
    mode = rng.choice(["init", "kwargs", "bgkw"])

    def go(e):
        if mode == "init" or (mode == "bgkw" and not bg):
            o = PointsRenderer(PointsRasterizer(cameras=C, raster_settings=S), CO[how](background_color=bg or None))(P)
        elif mode == "bgkw":
            o = PointsRenderer(PointsRasterizer(cameras=C, raster_settings=S), CO[how]())(P, background_color=bg)
        else:
            o = PointsRenderer(PointsRasterizer(raster_settings=PointsRasterizationSettings(image_size=5, radius=0.7)), CO[how](background_color=bg or None))(P, cameras=C, raster_settings=S)
        e["o"] = q(o, 1000)
    tr.append(guard(e, go))
    tr.append({"op": "same", "what": "the point clouds are not modified", "same": torch.equal(ref[0], P.points_padded()) and torch.equal(ref[1], P.features_padded())})


def traces(ctx):
    ix, a, f = torch.zeros(1, 2, 2, 2, dtype=torch.int64) - 1, torch.zeros(1, 2, 2, 2), torch.zeros(3, 4)
    tr = []
    for k, fn in {
        "background with too few channels": lambda: AlphaCompositor(background_color=(1.0,))(ix, a, f),
        "background with too many channels": lambda: NormWeightedCompositor(background_color=(1.0,) * 5)(ix, a, f),
        "batched background": lambda: AlphaCompositor(background_color=torch.zeros(1, 3))(ix, a, f),
    }.items():
        tr.append({"op": "rejects", "what": k, "rejected": not attempt(fn)[0]})
    yield tr
    for k in range(ctx.n(350, 12000)):
        tr = []
        comp(ctx, ctx.rng, tr)
        comp(ctx, ctx.rng, tr)
        render(ctx, ctx.rng, tr)
        yield tr
