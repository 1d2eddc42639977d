import torch
from harness import enc, q, guard, attempt
from pytorch3d.structures import Volumes, Pointclouds
from pytorch3d.ops import add_pointclouds_to_volumes, add_points_features_to_volume_densities_features
MODULE = "PointVol"
ASSUMPTIONS = ["integer initial grids and features; point locations multiples of 1/8 voxel (not exactly half way for nearest, not on voxel centres for location gradients)",
               "results compared to 2e-3"]


def case(ctx, api):
    rng, rp = ctx.rng, ctx.np
    n = rng.choice([1, 2, 3])
    mode = rng.choice(["trilinear", "trilinear", "nearest"])
    align = rng.random() < 0.5
    hetero = rng.random() < 0.5
    lo = 2 if (align or api == "clouds") else 1
    sz = [[rng.randint(lo, 4) for _ in range(3)] for _ in range(n)]
    if not hetero:
        sz = [sz[0]] * n
    P = [rng.choice([0, 1, 2, 4, 6]) for _ in range(n)]
    if max(P) == 0:
        P[0] = 3
    C = rng.randint(1, 2)
    wide = rng.random() < 0.5

    def coord(s):
        while True:
            if rng.random() < 0.3:
                l = 8 * rng.randint(0, s - 1)
            else:
                l = rng.randint(-12, 8 * s + 4) if wide else rng.randint(0 if align else -4, 8 * (s - 1) + (0 if align else 4))
            if mode == "trilinear" or l % 8 != 4:
                return l
    res = [max(s[a] for s in sz) for a in range(3)]
    loc = [[[coord(s[2]), coord(s[1]), coord(s[0])] for _ in range(p)] for s, p in zip(sz, P)]
    hasf = not (api == "raw" and rng.random() < 0.3)
    ev = {"mode": mode, "align": align, "sz": sz, "C": C, "hasf": hasf,
          "loc": loc, "feat": [rp.randint(-3, 6, size=(p, C)).tolist() for p in P],
          "d": rp.randint(0, 3, size=(n, 1, *res)).tolist(),
          "f": rp.randint(-3, 4, size=(n, C, *res)).tolist() if hasf else []}
    if rng.random() < 0.4:
        ev["d"] = (0 * rp.randint(0, 3, size=(n, 1, *res))).tolist()
        if hasf:
            ev["f"] = (0 * rp.randint(-3, 4, size=(n, C, *res))).tolist()
    if api == "clouds":  # voxels outside a grid's own size are padding
        for i, s in enumerate(sz):
            for arr in (ev["d"], ev["f"]):
                t = torch.tensor(arr[i])
                m = torch.zeros_like(t)
                m[:, : s[0], : s[1], : s[2]] = 1
                arr[i] = (t * m).tolist()
    return ev


def local_points(ev):
    off = 0.0 if ev["align"] else 0.5
    so = 1 if ev["align"] else 0
    out = []
    for s, ls in zip(ev["sz"], ev["loc"]):
        dims = torch.tensor([s[2], s[1], s[0]], dtype=torch.float64)
        l = torch.tensor(ls, dtype=torch.float64).reshape(-1, 3) / 8
        out.append((l + off) * 2 / (dims - so).clamp(min=1) - 1)
    return out


def run_clouds(ctx, ev):
    rng = ctx.rng
    ev["op"] = "add"
    ev["valid"] = [[True] * len(x) for x in ev["loc"]]
    ev["rescale"] = rng.random() < 0.6
    mw = rng.choice([None, 256, 128, 1024])
    ev["mw"] = mw or 0

    def go(e):
        vs, tr = rng.choice([1.0, 0.5, 2.0]), [float(rng.randint(-2, 2)) for _ in range(3)]
        dl = [torch.tensor(d)[:, : s[0], : s[1], : s[2]].float() for d, s in zip(e["d"], e["sz"])]
        fl = [torch.tensor(d)[:, : s[0], : s[1], : s[2]].float() for d, s in zip(e["f"], e["sz"])]
        if all(s == e["sz"][0] for s in e["sz"]) and rng.random() < 0.5:
            dl, fl = torch.stack(dl), torch.stack(fl)
        v = Volumes(densities=dl, features=fl, voxel_size=vs, volume_translation=tr, align_corners=e["align"])
        pts = []
        for p, s in zip(local_points(e), e["sz"]):
            dims = torch.tensor([s[2], s[1], s[0]], dtype=torch.float64)
            pts.append((p * (dims - 1) * 0.5 * vs - torch.tensor(tr, dtype=torch.float64)).float())
        feats = [torch.tensor(x).float().reshape(-1, e["C"]) for x in e["feat"]]
        pc = Pointclouds(points=pts, features=feats)
        d0, f0, p0 = v.densities().clone(), v.features().clone(), pc.points_padded().clone()
        kw = {} if e["mw"] == 0 else {"min_weight": e["mw"] / 512}
        r = add_pointclouds_to_volumes(pc, v, mode=e["mode"], rescale_features=e["rescale"], **kw)
        same = torch.equal(v.densities(), d0) and torch.equal(v.features(), f0) and torch.equal(pc.points_padded(), p0)
        kept = (torch.equal(r.get_grid_sizes(), torch.tensor(e["sz"])) and r.get_align_corners() == e["align"]
                and torch.equal(r.get_coord_grid(), v.get_coord_grid()))
        e["o"] = {"d": q(r.densities(), 1000), "f": q(r.features(), 1000), "same": same, "kept": kept}
    return guard(ev, go)


def raw_args(ctx, ev):
    rng = ctx.rng
    lp = local_points(ev)
    P = max(len(x) for x in lp)
    pts = torch.full((len(lp), P, 3), 0.1)
    feats = torch.full((len(lp), P, ev["C"]), 7.0)
    mask = torch.zeros(len(lp), P)
    for i, x in enumerate(lp):
        pts[i, : len(x)] = x.float()
        feats[i, : len(x)] = torch.tensor(ev["feat"][i]).float().reshape(-1, ev["C"])
        mask[i, : len(x)] = 1
        for k in range(len(x)):
            if not ev["valid"][i][k]:
                mask[i, k] = 0
    usemask = bool((mask == 0).any()) or rng.random() < 0.5
    D = torch.tensor(ev["d"]).float()
    F = torch.tensor(ev["f"]).float() if ev["hasf"] else None
    gs = torch.tensor(ev["sz"])
    full = torch.equal(gs, torch.tensor(D.shape[2:]).expand_as(gs))
    if full and rng.random() < 0.5:
        gs = None
    return pts, feats, mask if usemask else None, D, F, gs


def run_raw(ctx, ev):
    rng = ctx.rng
    ev["op"] = "add"
    ev["valid"] = [[rng.random() < 0.8 for _ in x] for x in ev["loc"]]
    ev["rescale"] = rng.random() < 0.6
    ev["mw"] = rng.choice([0, 256, 128])

    def go(e):
        pts, feats, mask, D, F, gs = raw_args(ctx, e)
        keep = [x.clone() for x in (pts, feats, D)] + ([F.clone()] if F is not None else [])
        kw = {} if e["mw"] == 0 else {"min_weight": e["mw"] / 512}
        f, d = add_points_features_to_volume_densities_features(
            points_3d=pts, points_features=feats, volume_densities=D, volume_features=F, mode=e["mode"], mask=mask, grid_sizes=gs,
            rescale_features=e["rescale"], align_corners=e["align"], **kw)
        now = [pts, feats, D] + ([F] if F is not None else [])
        e["o"] = {"d": q(d, 1000), "f": q(f, 1000), "same": all(torch.equal(a, b) for a, b in zip(keep, now)), "kept": f.shape[2:] == D.shape[2:]}
    return guard(ev, go)


def run_grad(ctx, ev):
    rng, rp = ctx.rng, ctx.np
    ev["op"] = "grad"
    ev["hasf"] = True
    n, res = len(ev["sz"]), torch.tensor(ev["d"]).shape[2:]
    ev["f"] = rp.randint(-3, 4, size=(n, ev["C"], *res)).tolist()
    ev["loc"] = [[[c + (1 if c % 8 == 0 else 0) for c in p] for p in ls] for ls in ev["loc"]] if ev["mode"] == "trilinear" else ev["loc"]
    ev["valid"] = [[rng.random() < 0.8 for _ in x] for x in ev["loc"]]
    ev["gd"] = rp.randint(-3, 4, size=(n, 1, *res)).tolist()
    ev["gf"] = rp.randint(-3, 4, size=(n, ev["C"], *res)).tolist()

    def go(e):
        pts, feats, mask, D, F, gs = raw_args(ctx, e)
        for t in (pts, feats, D, F):
            t.requires_grad_(True)
        f, d = add_points_features_to_volume_densities_features(
            points_3d=pts, points_features=feats, volume_densities=D, volume_features=F, mode=e["mode"], mask=mask, grid_sizes=gs,
            rescale_features=False, align_corners=e["align"])
        ((torch.tensor(e["gd"]).float() * d).sum() + (torch.tensor(e["gf"]).float() * f).sum()).backward()
        z = lambda t: torch.zeros_like(t) if t.grad is None else t.grad
        cut = lambda t: [t[i, : len(x)].tolist() for i, x in enumerate(e["loc"])]
        e["o"] = {"pts": q(cut(z(pts)), 1000), "feat": q(cut(z(feats)), 1000), "d": enc(z(D)), "f": enc(z(F))}
    return guard(ev, go)


def rejects():
    t = torch.zeros
    pc = lambda n, f=True: Pointclouds(points=t(n, 2, 3), features=t(n, 2, 2) if f else None)
    v = lambda n=2, c=2: Volumes(densities=t(n, 1, 3, 3, 3), features=t(n, c, 3, 3, 3))
    raw = lambda p, f=None, v=None, m=None, g=None: add_points_features_to_volume_densities_features(
        p, t(2, 3, 2) if f is None else f, t(2, 1, 3, 3, 3), t(2, 2, 3, 3, 3) if v is None else v, mode=ctxmode, mask=m, grid_sizes=torch.full((2, 3), 3) if g is None else g)
    ctxmode = "trilinear"
    cases = {
        "batch size": lambda: add_pointclouds_to_volumes(pc(1), v()),
        "cloud without features": lambda: add_pointclouds_to_volumes(pc(2, False), v()),
        "feature channels": lambda: add_pointclouds_to_volumes(pc(2), v(2, 3)),
        "points of two coordinates": lambda: raw(t(2, 3, 2)),
        "features of another batch size": lambda: raw(t(2, 3, 3), f=t(1, 3, 2)),
        "features of another number of points": lambda: raw(t(2, 3, 3), f=t(2, 4, 2)),
        "mask of another number of points": lambda: raw(t(2, 3, 3), m=torch.ones(2, 4)),
        "mask of another batch size": lambda: raw(t(2, 3, 3), m=torch.ones(1, 3)),
        "feature volume of another size": lambda: raw(t(2, 3, 3), v=t(2, 2, 3, 3, 4)),
        "grid sizes of another batch size": lambda: raw(t(2, 3, 3), g=torch.full((1, 3), 3)),
        "mode": lambda: add_pointclouds_to_volumes(pc(2), v(), mode="cubic"),
        "density channels": lambda: add_pointclouds_to_volumes(pc(2), Volumes(densities=t(2, 2, 3, 3, 3), features=t(2, 2, 3, 3, 3))),
    }
    return [{"op": "rejects", "what": k, "rejected": not attempt(f)[0]} for k, f in cases.items()]


def traces(ctx):
    yield rejects()
    for i in range(ctx.n(120, 4000)):
        tr = [run_clouds(ctx, case(ctx, "clouds")), run_raw(ctx, case(ctx, "raw"))]
        if i % 2 == 0:
            tr.append(run_grad(ctx, case(ctx, "grad")))
        for ev in tr:
            yield [ev]
