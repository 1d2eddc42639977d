"""Losses, evaluation metrics, aggregation, evaluator, depth clouds, ray splatting, modes of the generic model."""
import copy
import json
import math
import os
import shutil
import sys
import tempfile
import warnings
from types import SimpleNamespace

import numpy as np
import torch
from c32 import ROTS, camera, cams
from harness import guard
from pytorch3d.implicitron.dataset.frame_data import FrameData
from pytorch3d.implicitron.evaluation.evaluate_new_view_synthesis import aggregate_nvs_results, eval_batch, summarize_nvs_eval_results
from pytorch3d.implicitron.evaluation.evaluator import ImplicitronEvaluator
from pytorch3d.implicitron.models.base_model import ImplicitronRender
from pytorch3d.implicitron.models.feature_extractor import FeatureExtractorBase
from pytorch3d.implicitron.models.generic_model import GenericModel
from pytorch3d.implicitron.models.metrics import RegularizationMetrics, ViewMetrics
from pytorch3d.implicitron.models.renderer.base import EvaluationMode, ImplicitronRayBundle, RendererOutput
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args, registry
from pytorch3d.implicitron.tools.depth_cleanup import cleanup_eval_depth
from pytorch3d.implicitron.tools.image_utils import mask_background
from pytorch3d.implicitron.tools.metric_utils import beta_prior, calc_bce, calc_mse, calc_psnr, eval_depth, huber, iou, neg_iou_loss, rgb_l1
from pytorch3d.implicitron.tools.point_cloud_utils import get_rgbd_point_cloud
from pytorch3d.implicitron.tools.rasterize_mc import rasterize_sparse_ray_bundle
from pytorch3d.renderer.cameras import PerspectiveCameras
from pytorch3d.structures import Pointclouds

sys.modules["lpips"] = None  # its weights would be downloaded
MODULE = "Metrics"
ASSUMPTIONS = ["pixel values, masks and probabilities are quarters; rays near pixel centres", "depth and IoU of packed rays are not judged (every ray counts as an image)", "the perceptual metric (LPIPS, downloaded weights) is switched off"]


@registry.register
class VerifPlainFeatures(FeatureExtractorBase):
    """The images themselves."""

    def get_feat_dims(self):
        return 3

    def forward(self, imgs, masks=None, **kwargs):
        return {"rgb": imgs}


for c_ in [GenericModel, ViewMetrics, RegularizationMetrics, ImplicitronEvaluator]:
    expand_args_fields(c_)


def ints(g, lo, hi, *shape):
    return g.integers(lo, hi + 1, shape).tolist()


def ft(x, k=4.0):
    return torch.tensor(x, dtype=torch.float32) / k


def q(x, k=10000):
    return int(round(float(x) * k))


def qs(t, k=10000):
    return np.rint(t.detach().double().numpy() * k).astype(int).tolist()


def unpsnr(x):
    return q(10 ** (-float(x) / 10))


def masks(g, *shape):
    r = g.random()
    return ints(g, 0, 4, *shape) if r < 0.3 else (4 * g.integers(0, 2, shape)).tolist() if r < 0.9 else np.zeros(shape, int).tolist()


def simple(ctx):
    g = ctx.g
    B, C, H, W = int(g.integers(1, 4)), int(g.integers(1, 4)), int(g.integers(1, 4)), int(g.integers(1, 4))
    x, y, m = ints(g, 0, 4, B, C, H * W), ints(g, 0, 4, B, C, H * W), masks(g, B, H * W)
    sh = lambda v, c: ft(v).reshape(B, c, H, W)
    out = []
    has = bool(g.integers(4))
    one = np.full((B, H * W), 4).tolist()
    e = {"op": "mse", "x": x, "y": y, "m": m if has else one}

    def mse(_e):
        mk = sh(m, 1) if has else None
        e["out"], e["psnr"] = q(calc_mse(sh(x, C), sh(y, C), mask=mk)), unpsnr(calc_psnr(sh(x, C), sh(y, C), mask=mk))
    guard(e, mse)
    f = {"op": "l1", "x": x, "y": y, "m": e["m"]}
    guard(f, lambda _e: f.update(out=qs(rgb_l1(sh(x, C), sh(y, C), mask=sh(m, 1) if has else None))))
    p, t = ints(g, 0, 4, B, H * W), masks(g, B, H * W)
    h = {"op": "iou", "p": p, "t": t, "m": e["m"]}

    def io(_e):
        a = (sh(p, 1), sh(t, 1))
        mk = sh(m, 1) if has else None
        h["out"], h["neg"] = q(iou(*a, mask=mk)), q(neg_iou_loss(*a, mask=mk))
    guard(h, io)
    n = int(g.integers(1, 12))
    lerp = int(g.integers(0, 3))
    eps = bool(g.integers(3)) or lerp == 0
    b = {"op": "bce", "p": ints(g, 0 if eps or lerp else 1, 4 if eps or lerp else 3, n), "t": ints(g, 0, 4, n) if g.integers(2) else (4 * g.integers(0, 2, n)).tolist(),
         "m": ints(g, 0, 1, n), "equal": bool(g.integers(2)), "lerp": lerp, "eps": eps}
    logits = eps and bool(g.integers(3) == 0)

    def bce(_e):
        pr = ft(b["p"]).reshape(1, 1, n, 1)
        if logits:
            pr = torch.logit(pr, eps=1e-6)
        kw = {} if eps else {"pred_eps": 0.0}
        if lerp:
            kw["lerp_bound"] = lerp / 4
        b["out"] = q(calc_bce(pr, ft(b["t"]).reshape(1, 1, n, 1), equal_w=b["equal"], mask=ft(b["m"], 1).reshape(1, 1, n, 1), pred_logits=logits, **kw))
    if not (lerp and not b["equal"] and not any(b["m"])):
        guard(b, bce)
        out.append(b)
    crop = int(g.integers(0, 2))
    H, W = int(g.integers(1 + 2 * crop, 6)), int(g.integers(1 + 2 * crop, 6))
    disp = bool(g.integers(4) == 0)
    d = {"op": "depth", "h": H, "w": W, "crop": crop, "disp": disp, "best": not disp and bool(g.integers(3)), "p": ints(g, 1 if disp else 0, 4, B, H * W), "g": ints(g, 0, 4, B, H * W)}
    mm = ints(g, 0, 4, B, H * W)
    thr = int(g.integers(1, 4))
    hm = bool(g.integers(3))
    d["m"] = [[(v > thr) or not hm for v in r] for r in mm]

    def dep(_e):
        im = lambda v: torch.tensor(v, dtype=torch.float32).reshape(B, 1, H, W)
        gt = im(d["g"])
        keep = gt.clone()
        a, c = eval_depth(im(d["p"]), gt, crop=crop, mask=im(mm) / 4 if hm else None, get_best_scale=d["best"], mask_thr=thr / 4, use_disparity=disp)
        assert (gt == keep).all()
        d["mse"], d["abs"] = qs(a), qs(c)
    guard(d, dep)
    u = {"op": "huber", "d": ints(g, 0, 16, 3)}
    guard(u, lambda _e: u.update(out=qs(huber(ft(u["d"], 16)))))
    v = {"op": "prior", "p": ints(g, 0, 4, 5)}
    guard(v, lambda _e: v.update(out=q(beta_prior(ft(v["p"])))))
    return out + [e, f, h, d, u, v]


def ndc(h, w, i, j):
    s = min(h, w)
    return [(w - 2 * j - 1) / s, (h - 2 * i - 1) / s]


def view(ctx):
    g = ctx.g
    B, H, W = int(g.integers(1, 4)), int(g.integers(1, 5)), int(g.integers(1, 5))
    packed = bool(g.integers(3) == 0)
    if packed:
        ids = sorted(g.permutation(B)[:int(g.integers(1, B + 1))].tolist())
        if g.integers(2):
            ids = ids[::-1]
        counts = ints(g, 1, 4, len(ids))
        R, per = sum(counts), 0
    else:
        ids, counts, per = [], [], int(g.integers(1, 6))
        R = B * per
    off = lambda: int(g.integers(-1, 2))
    e = {"op": "view", "h": H, "w": W, "packed": packed, "ids": ids, "counts": counts, "per": per, "rays": [[int(g.integers(H)), int(g.integers(W)), off(), off()] for _ in range(R)],
         "img": ints(g, 0, 4, B, 3, H * W), "hasimg": bool(g.integers(8)), "crop": ints(g, 0, 1, B, H * W) if g.integers(2) else [],
         "fg": ints(g, 0, 4, B, H * W) if g.integers(4) else [], "dep": ints(g, 0, 4, B, 9 * H * W) if g.integers(3) else []}
    stages = []
    for k in range(int(g.integers(1, 4))):
        stages.append({"rgb": ints(g, -1, 5, R, 3), "mask": ints(g, 0, 4, R), "dep": ints(g, -2, 4, R) if not e["dep"] or packed else ints(g, 0, 4, R),
                       "grad": [], "grid": []})
        if g.integers(3) == 0:
            vs = [[1, 2, 2], [3, 4, 0], [0, 0, 1], [0, 0, 0], [2, -1, 2], [0, -2, 0]]
            n = int(g.integers(1, 6))
            stages[-1]["grad"] = [vs[int(i)] for i in g.integers(0, 6, n)]
        if g.integers(3) == 0:
            stages[-1]["grid"] = ints(g, -3, 3, int(g.integers(1, 3)), *[int(x) for x in g.integers(2, 4, 3)])
    gdim, tdim = bool(g.integers(2)), bool(g.integers(2))

    def go(_e):
        two = not packed and per % 2 == 0 and g.integers(2)
        lead = (R, 1) if packed else (B, 2, per // 2) if two else (B, per)
        xy = []
        for i, j, a, b in e["rays"]:
            xy.append(ndc(H, W, i + a / 4, j + b / 4))
        xys = torch.tensor(xy, dtype=torch.float32).reshape(*lead, 2)
        z3 = torch.zeros(*lead, 3)
        kw = dict(camera_ids=torch.tensor(ids), camera_counts=torch.tensor(counts)) if packed else {}
        bundle = ImplicitronRayBundle(origins=z3, directions=z3, lengths=torch.zeros(*lead, 2), xys=xys, **kw)
        prev = None
        for s in stages[::-1]:
            aux = {}
            if s["grad"]:
                aux["grad_theta"] = ft(s["grad"], 1)[None] if gdim else ft(s["grad"], 1)
            if s["grid"]:
                gr = torch.exp(ft(s["grid"], 1)) - 1e-5
                aux["density_grid"] = gr[..., None] if tdim else gr[:, None]
            prev = RendererOutput(features=ft(s["rgb"]).reshape(*lead, 3), depths=ft(s["dep"], 1).reshape(*lead, 1), masks=ft(s["mask"]).reshape(*lead, 1), prev_stage=prev, aux=aux)
        im = lambda v, k, h, w, c: ft(v, k).reshape(B, c, h, w) if v else None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = ViewMetrics()(raymarched=prev, ray_bundle=bundle, image_rgb=im(e["img"], 4, H, W, 3) if e["hasimg"] else None, depth_map=im(e["dep"], 1, 3 * H, 3 * W, 1),
                              fg_probability=im(e["fg"], 4, H, W, 1), mask_crop=im(e["crop"], 1, H, W, 1), keys_prefix="loss_")
        left = dict(o)
        for k, s in enumerate(stages):
            pre = "loss_" + "prev_stage_" * k
            got = {n[len(pre):]: v for n, v in o.items() if n.startswith(pre) and not n[len(pre):].startswith("prev_stage_")}
            for n in got:
                left.pop(pre + n)
            s["keys"] = sorted(got)
            s["out"] = {n: unpsnr(v) if "psnr" in n else q(v) for n, v in got.items()}
        e["other"] = sorted(left)
        e["stages"] = stages
    guard(e, go)
    return e


TYPES = ["train_known", "train_unseen", "test_known", "test_unseen"]


def frames(nb, types, img, fg=None, crop=None, dep=None, dmask=None, cam=None):
    return FrameData(frame_number=torch.arange(nb), frame_timestamp=torch.arange(nb).float(), sequence_name=["s"] * nb, sequence_category=["c"] * nb, camera=cam, image_rgb=img,
                     fg_probability=fg, mask_crop=crop, depth_map=dep, depth_mask=dmask, frame_type=types)


def evalb(ctx):
    g = ctx.g
    H, W = int(g.integers(10, 14)), int(g.integers(10, 14))
    nb, z = int(g.integers(1, 4)), int(g.integers(1, 3))
    n = H * W
    what = ["ok"] * 9 + ["mix", "noimage", "nocamera", "notype", "norender"]
    what = what[int(g.integers(len(what)))]
    tr = bool(g.integers(2))
    types = [TYPES[int(g.integers(4))]] + [TYPES[int(g.integers(2)) + 2 * tr] for _ in range(nb - 1)]
    if what == "mix":
        types = ["test_unseen", "train_known", "test_known"]
        nb = 3
    bgs = [("black", [0, 0, 0]), ("white", [4, 4, 4]), (0.5, [2, 2, 2]), ((0.25, 0.5, 1.0), [1, 2, 4])][int(g.integers(4))]
    opt = lambda v: v if g.integers(3) else []
    ones = lambda v: [4 * x for x in v]
    e = {"op": "eval", "what": what, "rejected": False, "h": H, "w": W, "nb": nb, "z": z, "types": types, "bg": bgs[1], "thr": int(g.integers(1, 4)), "img": ints(g, 0, 4, 3, n),
         "fg": opt(ints(g, 0, 4, n)), "crop": opt(ints(g, 0, 1, n)), "dep": opt(ints(g, 0, 3, n)), "dmask": [], "ren": ints(g, -1, 5, 3, z * z * n), "mren": ints(g, 0, 4, z * z * n), "dren": ints(g, 0, 3, z * z * n)}
    if e["dep"] and g.integers(2):
        e["dmask"] = ints(g, 0, 1, n)

    def go(_e):
        full = lambda v, k, c: torch.cat([ft(v, k).reshape(1, c, H, W)] + [torch.rand(1, c, H, W) for _ in range(nb - 1)]) if v else None
        fd = frames(nb, None if what == "notype" else list(types), None if what == "noimage" else full(e["img"], 4, 3), full(e["fg"], 4, 1), full(e["crop"], 1, 1), full(e["dep"], 1, 1), full(e["dmask"], 1, 1),
                    None if what == "nocamera" else PerspectiveCameras(R=torch.eye(3)[None].repeat(nb, 1, 1)))
        nr = int(g.integers(1, nb + 1))
        grow = lambda t: torch.cat([t] + [torch.rand_like(t) for _ in range(nr - 1)])
        ren = ImplicitronRender(image_render=grow(ft(e["ren"]).reshape(1, 3, z * H, z * W)), depth_render=None if what == "norender" else grow(ft(e["dren"], 1).reshape(1, 1, z * H, z * W)),
                                mask_render=grow(ft(e["mren"]).reshape(1, 1, z * H, z * W)))
        keep, kr = copy.deepcopy(fd), copy.deepcopy(ren)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = eval_batch(fd, ren, bg_color=bgs[0], mask_thr=e["thr"] / 4)
        except ValueError:
            e["rejected"] = True
            return
        same = lambda a, b: (a is None and b is None) or torch.equal(a, b)
        e["kept"] = all(same(getattr(fd, k), getattr(keep, k)) for k in ("image_rgb", "fg_probability", "mask_crop", "depth_map", "depth_mask")) and \
            all(same(getattr(ren, k), getattr(kr, k)) for k in ("image_render", "depth_render", "mask_render"))
        e["hasdepth"] = "depth_abs_fg" in o
        e["size"], e["type"] = o["meta"]["batch_size"], o["meta"]["frame_type"]
        e["out"] = {k: unpsnr(v) if "psnr" in k else q(v) for k, v in o.items() if k != "meta"}
    guard(e, go)
    return e


def num(x):
    return [] if math.isnan(x) else [q(x)]


def summ(ctx):
    g = ctx.g
    names = ["iou", "psnr", "rgb"][:int(g.integers(1, 4))]
    e = {"op": "summ", "multi": bool(g.integers(2)), "names": names,
         "batches": [{"type": TYPES[int(g.integers(4))], "size": int(g.integers(1, 12)), "vals": ints(g, 0, 40, len(names))} for _ in range(int(g.integers(1, 12)))]}

    def go(_e):
        flat, aux = summarize_nvs_eval_results([{**{k: v / 4 for k, v in zip(names, b["vals"])}, "meta": {"batch_size": b["size"], "frame_type": b["type"]}} for b in e["batches"]], e["multi"])
        e["out"] = [{"subset": r["subset"], "subsubset": r["subsubset"], "vals": [num(r["metrics"][k]) for k in names]} for r in aux["results"]]
        e["flat"] = [[k, num(v)] for k, v in flat.items()]
    guard(e, go)
    f = {"op": "agg", "names": names, "tasks": []}
    groups = [[a, b] for a in ["train", "test"][:int(g.integers(1, 3))] for b in ["diff=all", "n_src=1", "n_src=3"][:int(g.integers(1, 4))]]
    for _ in range(int(g.integers(1, 5))):
        f["tasks"].append([{"subset": a, "subsubset": b, "vals": [[int(g.integers(0, 40))] if g.integers(3) else [] for _ in names]} for a, b in groups])

    def agg(_e):
        ts = [[{"subset": r["subset"], "subsubset": r["subsubset"], "metrics": {k: v[0] / 4 if v else float("nan") for k, v in zip(names, r["vals"])}} for r in t] for t in f["tasks"]]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = aggregate_nvs_results(ts)
        f["out"] = [{"subset": r["subset"], "subsubset": r["subsubset"], "vals": [num(r["metrics"][k]) for k in names]} for r in o]
    guard(f, agg)
    return [e, f]


def run(ctx):
    g = ctx.g
    H, W = 11, 11
    n = int(g.integers(1, 6))
    dump = bool(g.integers(2))
    e = {"op": "run", "multi": bool(g.integers(2)), "names": ["rgb_l1_full_image"], "dump": dump, "want": int(g.integers(0, 30)),
         "batches": [{"type": TYPES[int(g.integers(4))], "size": int(g.integers(1, 5)), "a": int(g.integers(0, 5)), "r": int(g.integers(0, 5))} for _ in range(n)]}
    d = tempfile.mkdtemp()

    def go(_e):
        data = []
        for b in e["batches"]:
            k = b["size"]
            data.append(frames(k, [b["type"]] + ["train_known"] * (k - 1), torch.full((k, 3, H, W), b["a"] / 4), torch.ones(k, 1, H, W), torch.ones(k, 1, H, W), torch.ones(k, 1, H, W),
                               cam=PerspectiveCameras(R=torch.eye(3)[None].repeat(k, 1, 1))))
        keep = copy.deepcopy(data)
        seen = {"zeros": True, "sources": True, "nograd": True, "evalmode": True}

        class Fake(torch.nn.Module):
            step = 0

            def forward(self, image_rgb, depth_map, fg_probability, mask_crop, evaluation_mode, **kw):
                b = e["batches"][self.step]
                self.step += 1
                seen["zeros"] &= all(not bool(t[0].any()) for t in (image_rgb, depth_map, fg_probability, mask_crop))
                seen["sources"] &= bool((image_rgb[1:] == b["a"] / 4).all()) and all(bool((t[1:] == 1).all()) for t in (depth_map, fg_probability, mask_crop))
                seen["nograd"] &= not torch.is_grad_enabled()
                seen["evalmode"] &= not self.training and evaluation_mode == EvaluationMode.EVALUATION
                return {"implicitron_render": ImplicitronRender(image_render=torch.full((1, 3, H, W), b["r"] / 4), depth_render=torch.ones(1, 1, H, W), mask_render=torch.ones(1, 1, H, W))}
        ev = ImplicitronEvaluator(is_multisequence=e["multi"])
        import contextlib
        import io as _io
        with warnings.catch_warnings(), contextlib.redirect_stdout(_io.StringIO()), contextlib.redirect_stderr(_io.StringIO()):
            warnings.simplefilter("ignore")
            o = ev.run(Fake().train(), data, torch.device("cpu"), dump_to_json=dump, exp_dir=d, epoch=e["want"])
        e.update(seen)
        e["kept"] = all(torch.equal(getattr(a, k), getattr(b, k)) for a, b in zip(data, keep) for k in ("image_rgb", "fg_probability", "mask_crop", "depth_map"))
        e["out"] = [{"subset": r["subset"], "subsubset": r["subsubset"], "vals": [num(r["metrics"]["rgb_l1_full_image"])]} for r in o]
        f = os.path.join(d, "results_test.json")
        e["wrote"] = os.path.exists(f)
        if e["wrote"]:
            js = json.load(open(f))
            e["epoch"] = js[0]["eval_epoch"]
            e["same"] = [num(r["metrics"]["rgb_l1_full_image"]) for r in js] == [r["vals"][0] for r in e["out"]] and all(r["eval_epoch"] == e["want"] for r in js)
    guard(e, go)
    shutil.rmtree(d, ignore_errors=True)
    return e


def rcams(g, n):
    out = []
    for _ in range(n):
        out.append({"R": ROTS[int(g.integers(len(ROTS)))].tolist(), "T": ints(g, -3, 3, 3), "f": int(g.integers(1, 4)), "pp": ints(g, -1, 1, 2)})
    return out


def rcamera(cs):
    return PerspectiveCameras(R=ft([c["R"] for c in cs], 1), T=ft([c["T"] for c in cs], 1), focal_length=ft([c["f"] for c in cs], 1), principal_point=ft([c["pp"] for c in cs], 1))


def cloud(ctx):
    g = ctx.g
    B, H, W, C = int(g.integers(1, 4)), int(g.integers(1, 5)), int(g.integers(1, 5)), int(g.integers(1, 5))
    e = {"op": "cloud", "h": H, "w": W, "eucl": bool(g.integers(2)), "cams": rcams(g, B), "dep": ints(g, -1, 3, B, H * W), "mask": ints(g, 0, 4, B, H * W) if g.integers(2) else [], "thr": int(g.integers(0, 4)),
         "img": ints(g, 0, 9, B, C, H * W)}

    def go(_e):
        im = lambda v, c, k=1: ft(v, k).reshape(B, c, H, W)
        p = get_rgbd_point_cloud(rcamera(e["cams"]), im(e["img"], C), im(e["dep"], 1), im(e["mask"], 1, 4) if e["mask"] else None, e["thr"] / 4, euclidean=e["eucl"])
        assert len(p) == 1
        e["pts"], e["col"] = qs(p.points_list()[0]), qs(p.features_list()[0], 1)
    if any((v > 0) and (not e["mask"] or m > e["thr"]) for r, s in zip(e["dep"], e["mask"] or e["dep"]) for v, m in zip(r, s)):
        guard(e, go)
        return [e]
    return []


def clean(ctx):
    g = ctx.g
    B, H, W = int(g.integers(1, 3)), int(g.integers(1, 6)), int(g.integers(1, 6))
    dep = ints(g, 2, 6, B, H * W)
    e = {"op": "clean", "h": H, "w": W, "hits": []}
    cs = rcams(g, B)
    pts = []
    for b in range(B):
        c = cs[b]
        R, t = np.array(c["R"], float), np.array(c["T"], float)
        hits, ps = [], []
        for _ in range(int(g.integers(1, 6))):
            p = int(g.integers(H * W))
            z = dep[b][p]
            good = bool(g.integers(2))
            zz = z if good else z + [-1.5, 1, 2][int(g.integers(3))]
            x, y = ndc(H, W, p // W + (g.random() - 0.5) * 0.8, p % W + (g.random() - 0.5) * 0.8)
            v = np.array([(x - c["pp"][0]) / c["f"] * zz, (y - c["pp"][1]) / c["f"] * zz, zz])
            ps.append((v - t) @ R.T)
            hits.append([p + 1, good])
        e["hits"].append(hits)
        pts.append(torch.tensor(np.array(ps), dtype=torch.float32))

    def go(_e):
        im = lambda v: ft(v, 1).reshape(B, 1, H, W)
        o = cleanup_eval_depth(Pointclouds(points=pts), rcamera(cs), im(dep), torch.ones(B, 1, H, W), sigma=0.05)
        e["out"] = qs(o.reshape(B, -1), 1)
    guard(e, go)
    return e


def splat(ctx):
    g = ctx.g
    B, H, W, nc = int(g.integers(1, 4)), int(g.integers(3, 9)), int(g.integers(3, 9)), int(g.integers(1, 4))
    kind = ["grid", "list", "packed"][int(g.integers(3))]
    n = int(g.integers(2, 6))
    e = {"op": "splat", "h": H, "w": W, "nc": nc, "positive": True, "rays": [], "feat": [], "mask": [], "d": []}
    if kind == "grid":
        a, b2 = int(g.integers(1, 4)), int(g.integers(1, 4))
        n = a * b2
    n = min(n, 5)
    counts = [int(g.integers(1, n + 1)) for _ in range(B)] if kind == "packed" else [n] * B
    if kind == "grid" and n != a * b2:
        kind = "list"
    hasmask = bool(g.integers(2))
    for k in counts:
        sel = g.permutation(H * W)[:k]
        e["rays"].append([[int(p) // W, int(p) % W] for p in sel])
        e["feat"].append(ints(g, 1, 5, k, nc))
        e["d"].append(ints(g, 1, 5, k))
        e["mask"].append(ints(g, 0, 4, k) if hasmask else [4] * k)

    def go(_e):
        lead = {"grid": lambda: (B, a, b2), "list": lambda: (B, n), "packed": lambda: (sum(counts), 1)}[kind]()
        cat = lambda v: [x for r in v for x in r]
        xys = torch.tensor([ndc(H, W, i, j) for i, j in cat(e["rays"])], dtype=torch.float32).reshape(*lead, 2)
        z = torch.zeros(*lead, 3)
        kw = dict(camera_ids=torch.arange(B), camera_counts=torch.tensor(counts)) if kind == "packed" else {}
        bundle = ImplicitronRayBundle(origins=z, directions=z, lengths=torch.zeros(*lead, 2), xys=xys, **kw)
        o = rasterize_sparse_ray_bundle(bundle, ft(cat(e["feat"]), 1).reshape(*lead, nc), (H, W), ft(cat(e["d"]), 1).reshape(*lead, 1), masks=ft(cat(e["mask"])).reshape(*lead, 1) if hasmask else None)
        e["shapes"] = [list(t.shape) for t in o]
        e["img"], e["dep"], e["out"] = qs(o[0]), qs(o[1][:, 0]), qs(o[2][:, 0])
    guard(e, go)
    e["n"] = max(counts)
    return e


def background(ctx):
    g = ctx.g
    B, H, W, dim = int(g.integers(1, 3)), int(g.integers(1, 4)), int(g.integers(1, 4)), int(g.integers(0, 4)) if g.random() < 0.6 else 1
    x, m, c = ints(g, 0, 4, B, H, W, 3), ints(g, 0, 4, B, H, W) if g.random() < 0.5 else (4 * g.integers(0, 2, (B, H, W))).tolist(), ints(g, 0, 4, 3)
    kind = ["tensor", "list", "float", "white", "black", "default"][int(g.integers(6))]
    c = {"float": [c[0]] * 3, "white": [4] * 3, "black": [0] * 3, "default": [0] * 3}.get(kind, c)
    binary = all(v in (0, 4) for a in m for b in a for v in b)
    e = {"op": "bg", "x": x, "m": m, "c": c}

    def go(_e):
        col = {"tensor": ft(c), "list": [v / 4 for v in c], "float": c[0] / 4}.get(kind, kind)
        img, mask = torch.movedim(ft(x), 3, dim), torch.movedim(ft(m)[..., None], 3, dim)
        if binary and g.random() < 0.5:
            mask = mask > 0
        snap = img.clone(), mask.clone()
        kw = {} if kind == "default" else {"bg_color": col}
        if dim != 1 or g.random() < 0.5:
            kw["dim_color"] = dim
        o = mask_background(img, mask, **kw)
        if not torch.equal(img, snap[0]) or not torch.equal(mask, snap[1]):
            raise AssertionError("inputs modified")
        e["out"] = qs(torch.movedim(o, dim, 3))
    guard(e, go)
    return e


def modes(ctx):
    g = ctx.g
    H, W, P = int(g.integers(2, 6)), int(g.integers(2, 6)), 4
    nb, nt = int(g.integers(1, 4)), int(g.integers(0, 4))
    train = bool(g.integers(2))
    mt, me = bool(g.integers(3)), bool(g.integers(2))
    enc = ["ad", "none", "time"][int(g.integers(3))]
    pooled = bool(g.integers(2))
    mask = ints(g, 0, 1, nb, H * W)
    for m in mask:
        m[int(g.integers(H * W))] = 1
    seq = [f"s{i}" for i in ints(g, 0, 1, nb)]
    e = {"op": "modes", "train": train, "nb": nb, "nt": nt, "h": H, "w": W, "mtrain": mt, "meval": me, "nrays": int(g.integers(1, 5)), "hasmask": bool(g.integers(4)), "mask": mask, "output": bool(g.integers(2)),
         "enc": enc, "pooled": pooled, "seq": seq, "img": ints(g, 0, 4, nb, 3, H * W), "passes": int(g.integers(1, 3))}
    if pooled:
        e["hasmask"] = True

    def go(_e):
        args = get_default_args(GenericModel)
        args.render_image_width, args.render_image_height = W, H
        args.n_train_target_views, args.num_passes, args.chunk_size_grid = nt, e["passes"], 4 * 1000
        args.sampling_mode_training, args.sampling_mode_evaluation = ["full_grid", "mask_sample"][mt], ["full_grid", "mask_sample"][me]
        args.output_rasterized_mc = e["output"]
        args.implicit_function_class_type = "NeuralRadianceFieldImplicitFunction"
        f = args.implicit_function_NeuralRadianceFieldImplicitFunction_args
        f.n_harmonic_functions_xyz, f.n_hidden_neurons_xyz, f.n_layers_xyz, f.append_xyz, f.n_hidden_neurons_dir = 1, 4, 2, [1], 4
        s = args.raysampler_AdaptiveRaySampler_args
        s.n_pts_per_ray_training = s.n_pts_per_ray_evaluation = P
        s.n_rays_per_image_sampled_from_mask = e["nrays"]
        r = args.renderer_MultiPassEmissionAbsorptionRenderer_args
        r.n_pts_per_ray_fine_training = r.n_pts_per_ray_fine_evaluation = 2
        if enc == "ad":
            args.global_encoder_class_type = "SequenceAutodecoder"
            args.global_encoder_SequenceAutodecoder_args.autodecoder_args.n_instances = 4
            args.global_encoder_SequenceAutodecoder_args.autodecoder_args.encoding_dim = 3
        elif enc == "time":
            args.global_encoder_class_type = "HarmonicTimeEncoder"
        if pooled:
            args.view_pooler_enabled = True
            args.image_feature_extractor_class_type = "VerifPlainFeatures"
        args.loss_weights = {"loss_rgb_mse": 1.0}
        m = GenericModel(**args)
        seen = {}
        inner = m.raysampler.forward

        def spy(*a, **kw):
            seen["rays"] = inner(*a, **kw)
            return seen["rays"]
        m.raysampler.forward = spy
        if pooled:
            vp = m.view_pooler.forward

            def spy2(**kw):
                e["seqp"], e["seqc"], e["ncam"] = list(kw["seq_id_pts"]), list(kw["seq_id_camera"]), int(kw["camera"].R.shape[0])
                e["masks"] = qs(kw["masks"].reshape(nb, -1), 1)
                e["feats"] = qs(kw["feats"]["rgb"].reshape(nb, 3, -1), 4)
                return vp(**kw)
            m.view_pooler.forward = spy2
        cam = camera(cams(g, nb))
        cam.T = torch.tensor([[0.0, 0.0, 15.0]]).repeat(nb, 1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = m(image_rgb=ft(e["img"]).reshape(nb, 3, H, W), camera=cam, fg_probability=torch.ones(nb, 1, H, W), mask_crop=ft(mask, 1).reshape(nb, 1, H, W) if e["hasmask"] else None,
                  sequence_name=list(seq), frame_timestamp=torch.arange(nb).float(), evaluation_mode=EvaluationMode.TRAINING if train else EvaluationMode.EVALUATION)
        xy = seen["rays"].xys
        e["shape"] = list(xy.shape[:-1])
        side = min(H, W)
        e["rays"] = [[b + 1, int(round((H - 1 - float(v[1]) * side) / 2)), int(round((W - 1 - float(v[0]) * side) / 2))] for b in range(len(xy)) for v in xy[b].reshape(-1, 2)]
        e["hasrender"], e["hasimp"] = p.get("images_render") is not None, "implicitron_render" in p
        e["rshape"] = list(p["images_render"].shape) if e["hasrender"] else []
        e["haspen"] = "loss_autodecoder_norm" in p
        if e["haspen"]:
            e["pen"], e["pwant"] = q(p["loss_autodecoder_norm"]), q((m.global_encoder.autodecoder._autodecoder_codes.weight ** 2).mean())
        e["stages"] = 1 + max(k.count("prev_stage_") for k in p)
    guard(e, go)
    return e


def traces(ctx):
    ctx.g = np.random.default_rng(ctx.np.randint(1 << 30))
    for k in range(ctx.n(90, 500)):
        ev = simple(ctx) + [view(ctx), view(ctx)] + summ(ctx) + cloud(ctx) + [clean(ctx), splat(ctx), background(ctx)]
        if k % 3 == 0:
            ev += [modes(ctx)]
        if k % 6 == 0:
            ev += [evalb(ctx), run(ctx)]
        yield ev
