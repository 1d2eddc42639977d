import torch
from harness import enc, q, guard
from pytorch3d.ops import cubify
from pytorch3d.ops.marching_cubes import marching_cubes, marching_cubes_naive
MODULE = "Grid"
ASSUMPTIONS = ["integer fields and half-integer or integer levels, volumes up to 4x4x4 plus one large volume; cubify with values away from the threshold", "CPU kernel and the Python reference"]
SIGN = 1


def as_list(x):
    return x if isinstance(x, list) else x.tolist()


def mc_events(tr, fn, name, vol, iso, iso2, local):
    evs = [{"op": "mc", "fn": name, "vol": enc(v), "iso2": i2, "local": local, "sign": SIGN} for v, i2 in zip(vol, iso2)]
    keep = []

    def go(e):
        vs, fs = fn(vol, iso, local) if iso is not None or not local else (fn(vol) if local else fn(vol, return_local_coords=False))
        if len(vs) != len(vol) or len(fs) != len(vol):
            raise AssertionError("not one mesh per volume")
        for e, v, f in zip(evs, vs, fs):
            e.update(v=q(v, 10000) if len(v) else [], f=enc(f) if len(f) else [])
        keep.append(1)
    g = guard({"op": name}, go)
    if keep:
        tr.extend(evs)
    else:
        tr.append(g)


def mc(ctx, rng, tr):
    N, D, H, W = rng.choice([1, 1, 2]), rng.randint(1, 4), rng.randint(2, 4), rng.randint(2, 4)
    r = rng.choice([1, 1, 3, 5])
    vol = ctx.ints((N, D, H, W), -r, r)
    if rng.random() < 0.2:
        vol = vol.permute(0, 3, 2, 1).contiguous().permute(0, 3, 2, 1)
    mode = rng.choice(["half", "half", "int", "none", "default"])
    local = rng.random() < 0.6
    if mode == "half":
        iso = rng.randint(-r, r - 1) + 0.5
    elif mode == "int":
        iso = float(rng.randint(-r, r))
    else:
        iso = None
    iso2 = [int(2 * iso) if iso is not None else int(v.max() + v.min()) for v in vol]
    snap = vol.clone()
    for fn, name in ((marching_cubes, "fast"), (marching_cubes_naive, "naive")):
        mc_events(tr, fn, name, vol, iso, iso2, local)
    tr.append({"op": "same", "what": "marching cubes does not modify the volume", "same": torch.equal(vol, snap)})


def big(ctx, rng, tr):
    """a small surface in the far corner of a volume with more than 2^24 cells"""
    n, c = 4200, 5
    vol = torch.zeros(1, 2, n, n)
    small = ctx.ints((2, c, c), 0, 1)
    small[:, 0], small[:, :, 0] = 0, 0
    vol[0, :, -c:, -c:] = small
    e = {"op": "mc", "fn": "fast", "vol": enc(small), "iso2": 1, "local": False, "sign": SIGN}

    def go(e):
        v, f = marching_cubes(vol, 0.5, return_local_coords=False)
        v = v[0] - torch.tensor([n - c, n - c, 0.0])
        e.update(v=q(v, 10000), f=enc(f[0]))
    tr.append(guard(e, go))


def cub(ctx, rng, tr):
    align = rng.choice(["topleft", "corner", "center", None])
    lo = 1 if align == "corner" else 2
    N, D, H, W = rng.choice([1, 2, 3]), rng.randint(lo, 3), rng.randint(lo, 3), rng.randint(lo, 4)
    thr = rng.choice([0, 1, 2])
    vol = ctx.ints((N, D, H, W), -2, 3) * 2 + 1
    if rng.random() < 0.3:
        vol[rng.randrange(N)] = rng.choice([-9, 9])
    if rng.random() < 0.08:
        vol[:] = -9
    K = rng.choice([0, 0, 1, 3]) if align == "center" else 0
    x = ctx.ints((N, K, D, H, W), -9, 9) if K else None
    if rng.random() < 0.2:
        vol = vol.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
    evs = [{"op": "cubify", "vol": enc(vol[n]), "thr": 2 * thr, "align": align or "topleft", "hasx": K > 0, "x": enc(x[n]) if K else []} for n in range(N)]
    snap = vol.clone()
    keep = []

    def go(e):
        kw = {} if align is None else {"align": align}
        if K:
            kw["feats"] = x
        if rng.random() < 0.2:
            kw["device"] = rng.choice(["cpu", torch.device("cpu")])
        m = cubify(vol / 2, float(thr), **kw)
        if len(m) != N:
            raise AssertionError("not one mesh per grid")
        fl = m.faces_list()
        for n in range(N):
            v = m.verts_list()[n]
            if v.dim() != 2 or v.shape[1] != 3 or fl[n].dim() != 2 or fl[n].shape[1] != 3:
                raise AssertionError("mesh of shape %s, %s" % (tuple(v.shape), tuple(fl[n].shape)))
            evs[n].update(v=q(v, 10000), f=enc(fl[n]), ox=[])
            if K and m.textures is not None:
                evs[n]["ox"] = enc(m.textures.atlas_list()[n].reshape(-1, K))
        keep.append(1)
    g = guard({"op": "cubify of a batch"}, go)
    if keep:
        tr.extend(evs)
    else:
        tr.append(g)
    tr.append({"op": "same", "what": "cubify does not modify the voxels", "same": torch.equal(vol, snap)})


def misc(tr):
    try:
        cubify(torch.ones(1, 2, 2, 2), 0.5, align="bottom")
        ok = False
    except ValueError:
        ok = True
    tr.append({"op": "rejects", "what": "align mode", "rejected": ok})
    tr.append({"op": "same", "what": "cubify of no grid is no mesh", "same": len(cubify(torch.ones(0, 2, 2, 2), 0.5)) == 0})


def traces(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(200, 2500)):
        tr = []
        mc(ctx, rng, tr)
        cub(ctx, rng, tr)
        cub(ctx, rng, tr)
        yield tr
    tr = []
    misc(tr)
    for _ in range(ctx.n(1, 5)):
        big(ctx, rng, tr)
    yield tr
