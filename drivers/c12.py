import torch
from harness import q, guard, attempt
from pytorch3d.structures import Pointclouds
from pytorch3d.renderer import PointsRasterizer, PointsRasterizationSettings, rasterize_points, PerspectiveCameras
from pytorch3d.renderer.points.rasterize_points import rasterize_points_python
from pointlib import sizes, cams, cloud, radius_arg
MODULE = "Points"
ASSUMPTIONS = ["integer point grids relative to the pixel grid; points exactly at distance radius are decided only where float32 arithmetic is exact",
               "the camera plane itself (view depth 0) is not exercised for perspective cameras"]


def out(r):
    i, z, d = r
    t = torch.stack([i.double(), torch.round(z.double() * 1e4), torch.round(d.double().clamp(max=2e5) * 1e4)], -1)
    if not torch.isfinite(t).all():
        raise AssertionError("non-finite output")
    return t.long().tolist()


def raw(ctx, rng, tr):
    H, W = sizes(rng)
    m = min(H, W)
    ex = rng.choice([1, 1.3])
    pts = [[[rng.randint(-int(2 * W * ex), int(2 * W * ex)), rng.randint(-int(2 * H * ex), int(2 * H * ex)), rng.choice([8, 8, rng.randint(-2, 30)])]
            for _ in range(rng.choice([0, 1, 3, 6, 9]))] for _ in range(rng.choice([1, 1, 2, 3]))]
    K = rng.choice([1, 2, 3, 8])
    rs, r = radius_arg(rng, pts, m)
    e = {"op": "praster", "mode": "raw", "H": H, "W": W, "K": K, "pts": pts, "radius": rs}
    P = cloud(pts, scale=(1 / (2 * m), 1 / (2 * m), 1 / 4))
    before = P.points_padded().clone()
    size = rng.choice([(H, W), [H, W]] + ([H] if H == W else []))

    def go(e):
        e["o"] = out(rasterize_points(P, image_size=size, radius=r, points_per_pixel=K, bin_size=rng.choice([None, 0])))
    tr.append(guard(dict(e), go))
    if any(pts) and rng.random() < 0.2 and H * W <= 20 and isinstance(r, float):
        def py(e):
            e["o"] = out(rasterize_points_python(P, image_size=(H, W), radius=r, points_per_pixel=K))
        tr.append(guard(dict(e), py))
    tr.append({"op": "same", "what": "the point clouds are not modified", "same": torch.equal(before, P.points_padded())})


def cam(ctx, rng, tr):
    H, W = sizes(rng)
    m = min(H, W)
    N = rng.choice([1, 1, 2, 3])
    nc = rng.choice([1, N])
    cs, C, kind = cams(rng, nc, H, W)
    pts = []
    for n in range(N):
        c = cs[min(n, nc - 1)]
        p = []
        for _ in range(rng.choice([0, 1, 3, 6, 9])):
            x = [rng.randint(-3, 3) for _ in range(3)]
            if not c["persp"] or sum(x[i] * c["R"][i][2] for i in range(3)) + c["T"][2] != 0:
                p.append(x)
        pts.append(p)
    K = rng.choice([1, 2, 4])
    rs, r = radius_arg(rng, pts, m)
    e = {"op": "praster", "mode": "cam", "H": H, "W": W, "K": K, "pts": pts, "radius": rs, "cams": cs, "kind": kind}
    P = cloud(pts)
    before = P.points_padded().clone()
    how = rng.choice(["init", "cam kwarg", "settings kwarg"])
    S = PointsRasterizationSettings(image_size=(H, W), radius=r, points_per_pixel=K)

    def go(e):
        if how == "init":
            f = PointsRasterizer(cameras=C, raster_settings=S)(P)
        elif how == "cam kwarg":
            f = PointsRasterizer(raster_settings=S)(P, cameras=C)
        else:
            f = PointsRasterizer(cameras=C, raster_settings=PointsRasterizationSettings(image_size=7))(P, raster_settings=S)
        e["o"] = out((f.idx, f.zbuf, f.dists))
    tr.append(guard(e, go))
    tr.append({"op": "same", "what": "the point clouds are not modified", "same": torch.equal(before, P.points_padded())})


def grad(ctx, rng, tr):
    H, W = sizes(rng)
    m = min(H, W)
    pts = [[[rng.randint(-2 * W, 2 * W), rng.randint(-2 * H, 2 * H), rng.randint(1, 30)] for _ in range(rng.choice([1, 3, 5]))] for _ in range(rng.choice([1, 2]))]
    K = rng.choice([1, 2, 3])
    rs, r = radius_arg(rng, pts, m, lo=3, hi=9)
    ps = [(torch.tensor(p).float() * torch.tensor([1 / (2 * m), 1 / (2 * m), 1 / 4])).requires_grad_() for p in pts]
    e = {"op": "pgrad", "mode": "raw", "H": H, "W": W, "K": K, "pts": pts, "radius": rs}

    def go(e):
        i, z, d = rasterize_points(Pointclouds(ps), image_size=(H, W), radius=r, points_per_pixel=K)
        gz, gd = ctx.ints(tuple(z.shape), -3, 3), ctx.ints(tuple(z.shape), -3, 3)
        g = torch.autograd.grad((z * gz + d * gd).sum(), ps, allow_unused=True)
        e["idx"], e["gz"], e["gd"] = i.tolist(), q(gz, 1), q(gd, 1)
        e["g"] = [q(x, 1000) if x is not None else [[0, 0, 0]] * len(p) for x, p in zip(g, pts)]
    tr.append(guard(e, go))


def traces(ctx):
    P = Pointclouds([torch.rand(3, 3), torch.rand(2, 3)])
    cs3 = PerspectiveCameras(R=torch.eye(3)[None].expand(3, 3, 3), T=torch.ones(3, 3))
    tr = []
    for k, f in {
        "image size 0": lambda: rasterize_points(P, 0),
        "image size with three entries": lambda: rasterize_points(P, (4, 4, 4)),
        "fractional image size": lambda: rasterize_points(P, (4.0, 4.0)),
        "shape of the radii": lambda: rasterize_points(P, 4, radius=torch.ones(2, 4)),
        "packed radii": lambda: rasterize_points(P, 4, radius=torch.ones(5)),
        "radius type": lambda: rasterize_points(P, 4, radius="big"),
        "bin size": lambda: rasterize_points(P, 64, bin_size=2),
        "number of points per pixel": lambda: rasterize_points(P, 4, points_per_pixel=-1),
        "number of cameras": lambda: PointsRasterizer(cameras=cs3)(P),
        "missing cameras": lambda: PointsRasterizer()(P),
    }.items():
        tr.append({"op": "rejects", "what": k, "rejected": not attempt(f)[0]})
    yield tr
    for k in range(ctx.n(250, 8000)):
        tr = []
        raw(ctx, ctx.rng, tr)
        cam(ctx, ctx.rng, tr)
        grad(ctx, ctx.rng, tr)
        yield tr
