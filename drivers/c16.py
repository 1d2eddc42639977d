import torch
from harness import q, enc, guard, attempt
from c11 import PERMS
from pytorch3d.structures import Volumes
from pytorch3d.renderer import (PerspectiveCameras, OrthographicCameras, FoVPerspectiveCameras, MultinomialRaysampler, NDCMultinomialRaysampler, MonteCarloRaysampler,
    EmissionAbsorptionRaymarcher, AbsorptionOnlyRaymarcher, ImplicitRenderer, VolumeRenderer, VolumeSampler, RayBundle, ray_bundle_to_ray_points)
from pytorch3d.renderer.implicit.utils import HeterogeneousRayBundle
from pytorch3d.implicitron.models.renderer.base import EvaluationMode, ImplicitronRayBundle
from pytorch3d.implicitron.models.renderer.ray_sampler import NearFarRaySampler, AdaptiveRaySampler
MODULE = "Rays"
ASSUMPTIONS = ["cameras with signed permutation rotations and power-of-two focal lengths; densities in quarters",
               "random sampling is checked for support, distinctness, counts and coverage, not for exact frequencies"]


def cameras(rng, n, ortho=None):
    persp = (rng.random() < 0.6) if ortho is None else not ortho
    cs = []
    for _ in range(n):
        p, s = rng.choice(PERMS)
        R = [[s[i] if j == p[i] else 0 for j in range(3)] for i in range(3)]
        cs.append({"persp": persp, "f2": rng.choice([1, 2, 4]) if ortho is None else 2, "p4": [rng.randint(-2, 2) if ortho is None else 0 for _ in range(2)], "R": R,
                   "T": [rng.randint(-3, 3) for _ in range(3)]})
    R, T = torch.tensor([c["R"] for c in cs]).float(), torch.tensor([c["T"] for c in cs]).float()
    if persp and all(c["f2"] == 2 and c["p4"] == [0, 0] for c in cs):
        return FoVPerspectiveCameras(R=R, T=T, fov=90.0), cs
    cls = PerspectiveCameras if persp else OrthographicCameras
    return cls(R=R, T=T, focal_length=torch.tensor([c["f2"] / 2 for c in cs]), principal_point=torch.tensor([c["p4"] for c in cs]) / 4), cs


def record(e, b, cs, spatial, P, het):
    """ray bundle -> rows"""
    N = len(cs)
    if het:
        e["cid"], e["cnt"] = enc(b.camera_ids), enc(b.camera_counts)
        e["ids"] = [c + 1 for c, k in zip(e["cid"], e["cnt"]) for _ in range(k)]
        shp = (e["total"],) + spatial
    else:
        R = 1
        for x in spatial:
            R *= x
        e["ids"] = [n + 1 for n in range(N) for _ in range(R)]
        shp = (N,) + spatial
    e["shape"] = bool(tuple(b.origins.shape) == shp + (3,) and tuple(b.directions.shape) == shp + (3,) and tuple(b.lengths.shape) == shp + (P,) and tuple(b.xys.shape) == shp + (2,))
    f = lambda x: q(x.flatten(0, -2), 10000)  # noqa: E731
    e.update(xy=f(b.xys), org=f(b.origins), dir=f(b.directions), len=f(b.lengths), o=0)


def grid(ctx, rng, tr):
    N, H, W = rng.choice([1, 2, 3]), rng.randint(1, 5), rng.randint(1, 5)
    cam, cs = cameras(rng, N)
    ndc = rng.random() < 0.6
    unit, strat, P = rng.random() < 0.4, rng.random() < 0.4, rng.randint(1, 5)
    mn, mx = rng.randint(1, 4), rng.randint(4, 9)
    box = [rng.choice([-2, -1]), rng.choice([1, 3]), rng.choice([-3, 2]), rng.choice([0, 1])]
    e = {"op": "rays", "cams": cs, "ndc": ndc, "H": H, "W": W, "box": [10000 * x for x in box], "unit": unit, "strat": strat, "P": P, "mn": 10000 * mn, "mx": 10000 * mx, "cover": False, "het": False}
    mode = rng.choice(["full", "full", "n", "mask", "mask", "maskn", "total", "totalmask", "totaln"])
    kw, call = {}, {}
    over = rng.random() < 0.4
    if over and rng.random() < 0.4:
        mn = e["mn"] = 0
    if over and rng.random() < 0.2:
        P = e["P"] = 0
    put = lambda k, v: (call if rng.random() < 0.5 else kw).update({k: v})  # noqa: E731
    allow = [[[i, j] for i in range(H) for j in range(W)] for _ in range(N)]
    if "mask" in mode:
        m = torch.zeros(N, H, W)
        for n in range(N):
            for i, j in rng.sample(allow[n], rng.randint(1, H * W)):
                m[n, i, j] = 1
        allow = [[[i, j] for i in range(H) for j in range(W) if m[n, i, j] > 0] for n in range(N)]
        if mode == "maskn" and rng.random() < 0.5:
            m = m * ctx.ints((N, H, W), 1, 9)
        call["mask"] = m
    e["allow"], e["distinct"] = allow, True
    if mode in ("n", "maskn"):
        k = rng.choice([1, 2, rng.randint(1, H * W), H * W, H * W + 2])
        if rng.random() < 0.2:
            k, e["cover"] = 60 * H * W if "mask" not in mode else 600 * H * W, True
        put("n_rays_per_image", k)
        spatial, per = (k, 1), k
    elif mode == "mask":
        k = min(len(a) for a in allow)
        spatial, per = (k, 1), k
    elif mode.startswith("total"):
        e["het"], e["total"], e["distinct"] = True, rng.choice([1, 3, 7]), False  # drawn as if one ray per sampled camera
        put("n_rays_total", e["total"])
        spatial, per = (1, 1), 0
    else:
        spatial, per = (H, W), H * W
    e["grid"], e["per"] = ("full" if mode == "full" else "mask"), per
    base = dict(image_height=H, image_width=W, n_pts_per_ray=P, min_depth=float(mn), max_depth=float(mx), unit_directions=unit)
    if over:
        base.update(n_pts_per_ray=P + 2, min_depth=0.5, max_depth=77.0)
        call.update(n_pts_per_ray=P, min_depth=float(mn), max_depth=float(mx))
    if rng.random() < 0.5:
        base["stratified_sampling"] = strat
    else:
        base["stratified_sampling"] = not strat
        call["stratified_sampling"] = strat

    def go(e):
        S = NDCMultinomialRaysampler(**base, **kw) if ndc else MultinomialRaysampler(min_x=float(box[0]), max_x=float(box[1]), min_y=float(box[2]), max_y=float(box[3]), **base, **kw)
        record(e, S(cam, **call), cs, spatial, P, e["het"])
    tr.append(guard(e, go))


def monte(ctx, rng, tr):
    N, P, n = rng.choice([1, 2]), rng.randint(1, 4), rng.choice([1, 2, 5, 200])
    cam, cs = cameras(rng, N)
    unit, strat = rng.random() < 0.4, rng.random() < 0.4
    box = [rng.choice([-2, -1]), rng.choice([1, 3]), rng.choice([-3, 2]), rng.choice([0, 1])]
    het = rng.random() < 0.4
    e = {"op": "rays", "cams": cs, "box": [10000 * x for x in box], "unit": unit, "strat": strat, "P": P, "mn": 20000, "mx": 70000, "cover": n == 200, "grid": "box", "het": het, "per": n, "total": n}

    def go(e):
        S = MonteCarloRaysampler(float(box[0]), float(box[1]), float(box[2]), float(box[3]), None if het else n, P, 2.0, 7.0, n_rays_total=n if het else None,
                                 unit_directions=unit, stratified_sampling=strat if rng.random() < 0.5 else not strat)
        record(e, S(cam, stratified_sampling=strat), cs, (1,) if het else (n,), P, het)
    tr.append(guard(e, go))


def implicitron(ctx, rng, tr):
    N, H, W = rng.choice([1, 2]), rng.randint(2, 5), rng.randint(2, 5)
    cam, cs = cameras(rng, N)
    cone, P = rng.random() < 0.4, rng.randint(1, 4)
    mode = rng.choice([EvaluationMode.TRAINING, EvaluationMode.EVALUATION])
    sampling = rng.choice(["mask_sample", "full_grid"])
    tot = rng.random() < 0.3 and not cone and mode == EvaluationMode.TRAINING and sampling == "mask_sample"
    k = rng.randint(1, H * W)
    other = {"sampling_mode_training": "full_grid", "sampling_mode_evaluation": "full_grid", "n_pts_per_ray_training": P + 1, "n_pts_per_ray_evaluation": P + 1,
             "stratified_point_sampling_training": True, "stratified_point_sampling_evaluation": True}
    s = mode.value
    strat = rng.random() < 0.5
    other.update({"sampling_mode_" + s: sampling, "n_pts_per_ray_" + s: P, "stratified_point_sampling_" + s: strat})
    m = torch.zeros(N, 1, H, W)
    allow = []
    for n in range(N):
        a = rng.sample([[i, j] for i in range(H) for j in range(W)], rng.randint(1, H * W))
        for i, j in a:
            m[n, 0, i, j] = 1
        allow.append(sorted(a))
    Pr = P + 1 if cone else P
    e = {"op": "rays", "cams": cs, "ndc": True, "H": H, "W": W, "unit": True, "strat": strat, "P": Pr, "mn": 20000, "mx": 60000, "cover": False, "het": tot, "total": 5,
         "allow": allow, "distinct": not tot, "grid": "mask" if sampling == "mask_sample" else "full", "per": k if sampling == "mask_sample" else H * W}
    keep = []

    def go(e):
        S = NearFarRaySampler(image_width=W, image_height=H, min_depth=2.0, max_depth=6.0, n_rays_per_image_sampled_from_mask=None if tot else k, n_rays_total_training=5 if tot else None,
                              cast_ray_bundle_as_cone=cone, **other)
        up = rng.choice([1, 2])
        b = S(cam, mode, mask=m.repeat_interleave(up, 2).repeat_interleave(up, 3))
        keep.append(b)
        r = RayBundle(b.origins, b.directions, b.bins if cone else b.lengths, b.xys)
        if tot:
            r = HeterogeneousRayBundle(*r, camera_ids=b.camera_ids, camera_counts=b.camera_counts)
        if cone:
            if tuple(b.pixel_radii_2d.shape) != tuple(b.origins.shape[:-1]) + (1,):
                raise AssertionError("shape of the radii")
            e["rad"], e["mhw"] = q(b.pixel_radii_2d.reshape(-1), 10000), min(H, W)
        record(e, r, cs, (1, 1) if tot else (k, 1) if sampling == "mask_sample" else (H, W), Pr, tot)
    tr.append(guard(e, go))
    bins = ctx.ints((2, 3, rng.randint(2, 5)), 0, 9)
    f = lambda x, s: enc(x.reshape(-1, x.shape[-1]), s)  # noqa: E731

    def bu(e):
        b = ImplicitronRayBundle(torch.zeros(2, 3, 3), torch.zeros(2, 3, 3), rng.choice([None, torch.zeros(2, 3, 7)]), torch.zeros(2, 3, 2), bins=bins)
        e.update(lens=f(b.lengths, 2), o=0)
    tr.append(guard({"op": "bundle", "bins": f(bins, 1)}, bu))


def bounds(ctx, rng, tr):
    """cameras outside the scene"""
    c = [[rng.choice([-1, 1]) * rng.randint(4, 9) for _ in range(3)] for _ in range(rng.choice([1, 1, 2]))]
    s = [rng.randint(-1, 1) for _ in range(3)]
    cam = PerspectiveCameras(T=-torch.tensor(c).float())

    def go(e):
        S = AdaptiveRaySampler(image_width=3, image_height=2, scene_extent=3.0, scene_center=tuple(float(x) for x in s), n_pts_per_ray_evaluation=3)
        l = S(cam, EvaluationMode.EVALUATION).lengths
        e.update(lo=q(l[:, 0, 0, 0], 100), hi=q(l[:, 0, 0, -1], 100), o=0)
    tr.append(guard({"op": "bounds", "c": c, "s": s, "ext": 3, "kf": "adaptive-batch" if len(c) > 1 else ""}, go))


def march(ctx, rng, tr):
    lead, P, C = rng.choice([(1,), (2, 3), (2, 2, 1), ()]), rng.randint(1, 5), rng.randint(1, 4)
    d, f = ctx.ints(lead + (P, 1), 0, 4), ctx.ints(lead + (P, C), -3, 3)
    sh = rng.choice([1, 1, 0, 2, 7])
    for ea in (True, False):
        def go(e):
            o = EmissionAbsorptionRaymarcher(surface_thickness=sh)(d / 4, f) if ea else AbsorptionOnlyRaymarcher()(d / 4)
            e["o"] = q(o.reshape(-1, o.shape[-1]) if tuple(o.shape) == lead + (C + 1 if ea else 1,) else [[]] * d.reshape(-1, P).shape[0], 10000)
        tr.append(guard({"op": "march", "ea": ea, "sh": sh, "d": enc(d.reshape(-1, P)), "f": enc(f.reshape(-1, P, C))}, go))
    p, v, l = ctx.ints(lead + (3,), -5, 5), ctx.ints(lead + (3,), -5, 5), ctx.ints(lead + (P,), 0, 9)
    cls = rng.choice([RayBundle, HeterogeneousRayBundle, ImplicitronRayBundle])
    tr.append(guard({"op": "points", "p": enc(p.reshape(-1, 3)), "v": enc(v.reshape(-1, 3)), "l": enc(l.reshape(-1, P))},
                    lambda e: e.update(o=enc(ray_bundle_to_ray_points(cls(p, v, l, p[..., :2])).reshape(-1, P, 3)))))


def volumes(ctx, rng, N, C=None, quarter=False):
    D, H, W = (rng.choice([2, 3] if quarter else [2, 3, 5]) for _ in range(3))
    hasf = quarter or rng.random() < 0.8
    d = ctx.ints((N, 1 if quarter else rng.choice([1, 2]), D, H, W), 0, 4)
    f = ctx.ints((N, C or rng.randint(1, 3), D, H, W), -3, 3)
    v = [[rng.choice([4, 8] if quarter else [1, 2, 4, 8]) for _ in range(3)] for _ in range(N)]
    t = [[rng.randint(-4, 4) for _ in range(3)] for _ in range(N)]
    al = rng.random() < 0.5
    V = Volumes(d / 4, f if hasf else None, voxel_size=torch.tensor(v) / 4, volume_translation=torch.tensor(t) / 4, align_corners=al)
    return V, [{"d": enc(d[n]), "f": enc(f[n]), "v": v[n], "t": t[n]} for n in range(N)], al, hasf, (W, H, D)


def volsample(ctx, rng, tr):
    N = rng.choice([1, 2])
    V, vol, al, hasf, sz = volumes(ctx, rng, N)
    lead, P = rng.choice([(2,), (2, 3)]), rng.randint(1, 4)
    R = 2 if len(lead) == 1 else 6
    m, k, l = ctx.ints((N, R, 3), -10, 10), ctx.ints((N, R, 3), -2, 2), ctx.ints((N, R, P), 0, 5)
    unit = torch.tensor([[vol[n]["v"][a] / 4 * (sz[a] - 1) / 16 for a in range(3)] for n in range(N)])[:, None]
    t = torch.tensor([g["t"] for g in vol])[:, None] / 4
    o, dr = m * unit - t, k * unit
    mode, pad = rng.choice(["bilinear", "bilinear", "nearest"]), rng.choice(["zeros", "border"])
    if rng.random() < 0.3:
        o = o.transpose(0, 1).contiguous().transpose(0, 1)
    keep = [x.clone() for x in (o, dr, V.densities())]

    def go(e):
        kw = {} if (mode, pad) == ("bilinear", "zeros") else {"sample_mode": mode, "padding_mode": pad}
        rd, rf = VolumeSampler(V, **kw)(RayBundle(o.reshape(N, *lead, 3), dr.reshape(N, *lead, 3), l.reshape(N, *lead, P), None))
        e.update(od=enc(rd.reshape(N, R, P, -1), 16384), of=enc(rf.reshape(N, R, P, rf.shape[-1]), 4096), o=0)
    tr.append(guard({"op": "vol", "vol": vol, "al": al, "hasf": hasf, "m": enc(m), "k": enc(k), "l": enc(l), "mode": mode, "pad": pad}, go))
    tr.append({"op": "same", "what": "sampling does not modify rays and volumes", "same": all(torch.equal(a, b) for a, b in zip(keep, (o, dr, V.densities())))})


def render(ctx, rng, tr):
    N = rng.choice([1, 2])
    V, vol, al, _, _ = volumes(ctx, rng, N, quarter=True)
    H, W = rng.choice([(1, 1), (2, 2), (4, 4), (2, 3), (4, 5), (3, 1)])
    cam, cs = cameras(rng, N, ortho=True)
    P, z0, dz = rng.randint(2, 4), rng.randint(-4, 4), rng.choice([1, 2, 4])

    def go(e):
        S = NDCMultinomialRaysampler(image_width=W, image_height=H, n_pts_per_ray=P, min_depth=z0 / 4, max_depth=(z0 + (P - 1) * dz) / 4)
        mr = EmissionAbsorptionRaymarcher()
        if rng.random() < 0.5:
            o, _ = VolumeRenderer(S, mr)(cameras=cam, volumes=V)
        else:
            o, _ = ImplicitRenderer(S, mr)(cameras=cam, volumetric_function=VolumeSampler(V))
        e["o"] = q(o.reshape(N * H * W, -1), 10000)
    tr.append(guard({"op": "render", "cams": cs, "vol": vol, "al": al, "H": H, "W": W, "P": P, "z0": z0, "dz": dz, "ids": [n + 1 for n in range(N) for _ in range(H * W)]}, go))


def traces(ctx):
    c2 = PerspectiveCameras(R=torch.eye(3)[None].repeat(2, 1, 1))
    S = lambda **k: NDCMultinomialRaysampler(image_width=3, image_height=2, n_pts_per_ray=2, min_depth=1.0, max_depth=2.0, **k)  # noqa: E731
    M = lambda **k: MonteCarloRaysampler(-1.0, 1.0, -1.0, 1.0, k.get("n"), 2, 1.0, 2.0, n_rays_total=k.get("t"))  # noqa: E731
    V = Volumes(torch.zeros(2, 1, 2, 2, 2))
    rb = lambda a, b, c: RayBundle(torch.zeros(*a), torch.zeros(*b), torch.zeros(*c), None)  # noqa: E731
    tr = []
    for k, f in {
        "combination of ray counts": lambda: S(n_rays_per_image=2, n_rays_total=3)(c2),
        "combination of ray counts at call time": lambda: S(n_rays_per_image=2)(c2, n_rays_total=3),
        "Monte Carlo ray counts (none)": lambda: M()(c2),
        "Monte Carlo ray counts (both)": lambda: M(n=1, t=2)(c2),
        "mask size": lambda: S(n_rays_per_image=2)(c2, mask=torch.ones(2, 3, 2)),
        "ray sampler": lambda: ImplicitRenderer(3, lambda: 0),
        "ray marcher": lambda: ImplicitRenderer(lambda: 0, 3),
        "volumetric function": lambda: ImplicitRenderer(lambda: 0, lambda: 0)(c2, 3),
        "volumes": lambda: VolumeSampler(torch.zeros(1, 1, 2, 2, 2)),
        "number of volumes": lambda: VolumeSampler(V)(rb((1, 2, 3), (1, 2, 3), (1, 2, 4))),
        "rank of rays": lambda: VolumeSampler(V)(rb((2, 3), (2, 3), (2, 4))),
        "ranks of rays": lambda: VolumeSampler(V)(rb((2, 2, 3), (2, 2, 1, 3), (2, 2, 4))),
        "sizes of rays": lambda: VolumeSampler(V)(rb((2, 2, 3), (2, 3, 3), (2, 2, 4))),
        "dimension of directions": lambda: VolumeSampler(V)(rb((2, 2, 3), (2, 2, 2), (2, 2, 4))),
        "density dimension": lambda: EmissionAbsorptionRaymarcher()(torch.zeros(2, 3, 2), torch.zeros(2, 3, 2)),
        "features": lambda: EmissionAbsorptionRaymarcher()(torch.zeros(2, 3, 1), None),
        "shape of features": lambda: EmissionAbsorptionRaymarcher()(torch.zeros(2, 3, 1), torch.zeros(2, 2, 2)),
        "densities": lambda: AbsorptionOnlyRaymarcher()([1.0]),
        "bundle without lengths and bins": lambda: ImplicitronRayBundle(torch.zeros(1, 3), torch.zeros(1, 3), None, torch.zeros(1, 2)),
        "single bin edge": lambda: ImplicitronRayBundle(torch.zeros(1, 3), torch.zeros(1, 3), None, torch.zeros(1, 2), bins=torch.zeros(1, 1)),
        "setting lengths of binned rays": lambda: setattr(ImplicitronRayBundle(torch.zeros(1, 3), torch.zeros(1, 3), None, torch.zeros(1, 2), bins=torch.zeros(1, 2)), "lengths", torch.zeros(1, 1)),
        "scene extent": lambda: AdaptiveRaySampler(scene_extent=0.0),
        "ray counts of the sampler": lambda: NearFarRaySampler(n_rays_per_image_sampled_from_mask=2, n_rays_total_training=3),
    }.items():
        tr.append({"op": "rejects", "what": k, "rejected": not attempt(f)[0]})
    yield tr
    for k in range(ctx.n(250, 8000)):
        tr = []
        for f in (grid, grid, monte, implicitron, bounds, march, volsample, render):
            f(ctx, ctx.rng, tr)
        yield tr
