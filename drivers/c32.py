"""View pooling: projection and sampling of image features, aggregation over views, embeddings for implicit functions."""
import itertools

import numpy as np
import torch
from harness import guard
from pytorch3d.implicitron.models.implicit_function.utils import create_embeddings_for_implicit_function
from pytorch3d.implicitron.models.view_pooler.feature_aggregator import (
    AngleWeightedIdentityFeatureAggregator,
    AngleWeightedReductionFeatureAggregator,
    IdentityFeatureAggregator,
    ReductionFeatureAggregator,
    ReductionFunction,
)
from pytorch3d.implicitron.models.view_pooler.view_pooler import ViewPooler
from pytorch3d.implicitron.models.view_pooler.view_sampler import ViewSampler
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args
from pytorch3d.renderer.cameras import PerspectiveCameras

MODULE = "Views"
ASSUMPTIONS = ["cameras with axis-permuting rotations, points in quarters; feature values in [-1.5, 1.5]",
               "the maximum over views is judged for binary weights only",
               "nearest sampling within 1e-3 pixel of a tie may take either pixel"]
AGG = [IdentityFeatureAggregator, ReductionFeatureAggregator, AngleWeightedIdentityFeatureAggregator, AngleWeightedReductionFeatureAggregator]
for c_ in AGG + [ViewPooler, ViewSampler]:
    expand_args_fields(c_)
ROTS = []
for perm in itertools.permutations(range(3)):
    for sg in itertools.product([1, -1], repeat=3):
        m = np.zeros((3, 3), int)
        for i in range(3):
            m[i, perm[i]] = sg[i]
        if round(np.linalg.det(m)) == 1:
            ROTS.append(m)


def iv(t, scale=10000):
    return np.rint(t.detach().double().numpy() * scale).astype(np.int64).tolist()


def cams(g, n, avoid=()):
    out = []
    while len(out) < n:
        R, t = ROTS[int(g.integers(len(ROTS)))], g.integers(-6, 7, 3)
        ctr = -(R @ t)
        if any((np.asarray(p) == ctr).all() for p in avoid):
            continue
        out.append({"R": R.tolist(), "T": [int(v) for v in t], "f": [int(v) * 2500 for v in g.integers(2, 9, 2)], "pp": [int(v) * 1250 for v in g.integers(-3, 4, 2)]})
    return out


def camera(cs):
    return PerspectiveCameras(R=torch.tensor([c["R"] for c in cs], dtype=torch.float32), T=torch.tensor([c["T"] for c in cs], dtype=torch.float32) / 4,
                              focal_length=torch.tensor([c["f"] for c in cs], dtype=torch.float32) / 1e4, principal_point=torch.tensor([c["pp"] for c in cs], dtype=torch.float32) / 1e4)


def points(g, B, P):
    return g.integers(-8, 9, (B, P, 3)).tolist()


def ids(g, n, kind):
    x = g.integers(0, 2, n).tolist()
    conv = {"int": lambda: x, "str": lambda: [("scene_a", "b")[i] for i in x], "tensor": lambda: torch.tensor(x)}[kind]()
    return x, conv


def sampler_inputs(g, square=False):
    V = int(g.integers(1, 5))
    B = int(g.integers(1, V + 1)) if square else int(g.integers(1, 5))
    P, K = int(g.integers(1, 5)), int(g.integers(1, 3))
    pts, cs = points(g, B, P), cams(g, V)
    if square:
        cs = cams(g, V, [p for b in pts for p in b])
    feats = [g.integers(-3, 4, (V, int(g.integers(1, 4)), int(g.integers(1, 6)), int(g.integers(1, 6)))).tolist() for _ in range(K)]
    masks = g.integers(0, 2, (V, 1, int(g.integers(1, 6)), int(g.integers(1, 6)))).tolist()
    kind = ["int", "str", "tensor"][int(g.integers(3))]
    sp, csp = ids(g, B, kind)
    sc, csc = ids(g, V, kind)
    e = {"pts": pts, "cams": cs, "feats": feats, "masks": [m[0] for m in masks], "sp": sp, "sc": sc,
         "masked": bool(g.integers(2)), "mode": ["bilinear", "bilinear", "nearest"][int(g.integers(3))]}
    kw = dict(pts=torch.tensor(pts, dtype=torch.float32) / 4, seq_id_pts=csp, camera=camera(cs), seq_id_camera=csc,
              feats={f"f{i}": torch.tensor(f, dtype=torch.float32) for i, f in enumerate(feats)}, masks=torch.tensor(masks, dtype=torch.float32))
    return e, kw


def sample(ctx):
    g = ctx.g
    e, kw = sampler_inputs(g)
    e.update(op="sample", what="ok", rejected=False)
    if g.random() < 0.08:
        e["what"], e["masked"] = "nomask", True
    if e["what"] == "nomask" or (not e["masked"] and g.random() < 0.5):
        kw["masks"] = None

    def go(_e):
        s = ViewSampler(masked_sampling=e["masked"], sampling_mode=e["mode"])
        try:
            f, m = s(**kw)
        except ValueError:
            if e["what"] == "ok":
                raise
            e["rejected"] = True
            return
        e["out"] = [iv(f[f"f{i}"]) for i in range(len(e["feats"]))]
        e["mout"] = iv(m[..., 0])
    guard(e, go)
    return e


def make_agg(g):
    k = int(g.integers(4))
    red = []
    kw = {"exclude_target_view": bool(g.integers(2)), "exclude_target_view_mask_features": bool(g.integers(2)), "concatenate_output": bool(g.integers(2))}
    if k in (1, 3):
        names = ["AVG", "STD", "STD_AVG", "MAX"]
        red = [n for n in names if g.random() < 0.5] or ["AVG"]
        if k == 3 and "MAX" in red:
            red = [n for n in red if n != "MAX"] or ["STD"]
        g.shuffle(red)
        kw["reduction_functions"] = tuple(ReductionFunction[n] for n in red)
    gamma, minw = 1, 0
    if k >= 2:
        gamma, minw = int(g.integers(1, 3)), int(g.integers(1, 5)) * 1000
        kw.update(weight_by_ray_angle_gamma=float(gamma), min_ray_angle_weight=minw / 1e4)
    return k, AGG[k](**kw), {"angle": k >= 2, "red": red, "gamma": gamma, "minw": minw, "excl": kw["exclude_target_view"], "exclf": kw["exclude_target_view_mask_features"], "cat": kw["concatenate_output"]}


def agg(ctx):
    g = ctx.g
    V = int(g.integers(1, 5))
    B, P, K = int(g.integers(1, V + 1)), int(g.integers(1, 4)), int(g.integers(1, 4))
    k, a, o = make_agg(g)
    pts = points(g, B, P)
    cs = cams(g, V, [p for b in pts for p in b])
    lo, hi = [(-3, 4), (0, 4), (-3, 0)][int(g.integers(3))]
    x = [(g.integers(lo, hi, (B, V, P, int(g.integers(1, 4)))) * 5000).tolist() for _ in range(K)]
    m = (g.choice([0, 1] if "MAX" in o["red"] and g.random() < 0.8 else [0, 0.5, 1], (B, V, P)) * 10000).astype(int).tolist()
    e = {"op": "agg", "x": x, "m": m, "pts": pts, "cams": cs, **o}

    def go(_e):
        f = {f"f{i}": torch.tensor(v, dtype=torch.float32) / 1e4 for i, v in enumerate(x)}
        r = a(f, torch.tensor(m, dtype=torch.float32)[..., None] / 1e4, camera=camera(cs), pts=torch.tensor(pts, dtype=torch.float32) / 4)
        e["out"] = [iv(r)] if e["cat"] else [iv(r[n]) for n in f]
        e["has"], e["dim"], e["idim"] = a.has_aggregation(), a.get_aggregated_feature_dim(f), a.get_aggregated_feature_dim(sum(v.shape[-1] for v in f.values()))
    guard(e, go)
    return e


def pool(ctx):
    g = ctx.g
    d, kw = sampler_inputs(g, square=True)
    k, a, o = make_agg(g)
    e = {"op": "pool"}

    def go(_e):
        args = get_default_args(ViewPooler)
        args.view_sampler_args.masked_sampling = d["masked"]
        args.view_sampler_args.sampling_mode = d["mode"]
        name = AGG[k].__name__
        args.feature_aggregator_class_type = name
        sub = args[f"feature_aggregator_{name}_args"]
        sub.exclude_target_view, sub.exclude_target_view_mask_features, sub.concatenate_output = o["excl"], o["exclf"], o["cat"]
        if o["red"]:
            sub.reduction_functions = list(a.reduction_functions)
        if o["angle"]:
            sub.weight_by_ray_angle_gamma, sub.min_ray_angle_weight = a.weight_by_ray_angle_gamma, a.min_ray_angle_weight
        vp = ViewPooler(**args)
        r = vp(**kw)
        f, m = ViewSampler(masked_sampling=d["masked"], sampling_mode=d["mode"])(**kw)
        c = a(f, m, camera=kw["camera"], pts=kw["pts"])
        flat = lambda z: iv(z) if o["cat"] else [iv(z[n]) for n in f]
        e["out"], e["comp"] = flat(r), flat(c)
        e["has"], e["chas"], e["dim"], e["cdim"] = vp.has_aggregation(), len(o["red"]) > 0, vp.get_aggregated_feature_dim(f), a.get_aggregated_feature_dim(f)
    guard(e, go)
    return e


def emb(ctx):
    g = ctx.g
    B, P = int(g.integers(1, 4)), int(g.integers(1, 4))
    grid = [int(g.integers(1, 4)) for _ in range(int(g.integers(1, 3)))]
    n = int(np.prod(grid))
    pts = g.integers(-8, 9, (B, n, P, 3))
    cs = cams(g, B)
    e = {"op": "emb", "what": "ok", "rejected": False, "pts": pts.tolist(), "cams": cs, "incam": bool(g.integers(2)), "fn": ["none", "id", "double"][int(g.integers(3))],
         "pool": bool(g.integers(2)), "code": bool(g.integers(2)), "pooled": [], "codes": [], "seen": []}
    if e["fn"] == "none" and not e["pool"] and not e["code"]:
        e["code"] = True
    S = int(g.integers(1, 4))
    pooled = g.integers(-9, 10, (B, S, n * P, int(g.integers(1, 4))))
    codes = g.integers(-9, 10, (B, int(g.integers(1, 4))))
    if e["pool"]:
        e["pooled"] = pooled.tolist()
    if e["code"]:
        e["codes"] = codes.tolist()
    if e["incam"] and g.random() < 0.1:
        e["what"] = "nocam"

    def go(_e):
        def fp(p):
            e["seen"] = iv(p, 4)
            return torch.tensor(pooled, dtype=torch.float32) / 4

        def fn(x, diag_cov=None):
            return x if e["fn"] == "id" else torch.cat([x, 2 * x], -1)
        try:
            r = create_embeddings_for_implicit_function(
                torch.tensor(pts, dtype=torch.float32).reshape(B, *grid, P, 3) / 4, e["incam"], torch.tensor(codes, dtype=torch.float32) / 4 if e["code"] else None,
                camera(cs) if e["what"] == "ok" else None, fp if e["pool"] else None, None if e["fn"] == "none" else fn)
        except ValueError:
            if e["what"] == "ok":
                raise
            e["rejected"] = True
            return
        e["out"] = iv(r, 4)
    guard(e, go)
    return e


def traces(ctx):
    ctx.g = np.random.default_rng(ctx.np.randint(1 << 30))
    for _ in range(ctx.n(130, 900)):
        yield [sample(ctx), agg(ctx), agg(ctx), agg(ctx), pool(ctx), emb(ctx)]
