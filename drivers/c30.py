"""Sampling along rays, marching, multi-pass rendering, frustums, embeddings, ray bundles."""
import math

import numpy as np
import torch
from harness import guard
from pytorch3d import _C
from pytorch3d.implicitron.models.renderer.base import (
    conical_frustum_to_gaussian,
    EvaluationMode,
    ImplicitFunctionWrapper,
    ImplicitronRayBundle,
)
from pytorch3d.implicitron.models.renderer.multipass_ea import MultiPassEmissionAbsorptionRenderer
from pytorch3d.implicitron.models.renderer.ray_point_refiner import RayPointRefiner
from pytorch3d.implicitron.models.renderer.raymarcher import CumsumRaymarcher, EmissionAbsorptionRaymarcher
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.renderer.implicit.harmonic_embedding import HarmonicEmbedding
from pytorch3d.renderer.implicit.sample_pdf import sample_pdf, sample_pdf_python

MODULE = "March"
ASSUMPTIONS = ["bins strictly increasing, in eighths; integer weights with positive sum", "optical depths are multiples of log 2 (exact powers of two) or of 1/64"]
LN2 = math.log(2.0)
expand_args_fields(MultiPassEmissionAbsorptionRenderer)


def edges(g, n, step=1, lo=-20):
    x = np.cumsum(g.integers(1, 6, n)) * step + int(g.integers(lo, 5)) * step
    return [int(v) for v in x]


def weights(g, n, interior=False):
    while True:
        w = [int(x) for x in g.integers(0, 7, n) * (g.random(n) < 0.75)]
        if sum(w[1:-1] if interior else w) > 0:
            return w


def iv(t, scale):
    return np.rint(t.detach().double().numpy() * scale).astype(int).tolist()


def pdf(ctx):
    g = ctx.g
    B, nb, n = int(g.choice([1, 2, 3, 5, 6, 7, 9, 10])), int(g.integers(1, 7)), int(g.integers(1, 9))
    mode = ["det", "rand", "own", "own"][int(g.integers(4))]
    e = {"op": "pdf", "what": "ok", "mode": mode, "n": n, "bins": [edges(g, nb + 1) for _ in range(B)], "w": [weights(g, nb) for _ in range(B)],
         "u": [], "guard": True, "rejected": False, "impl": "c" if mode == "own" else ["c", "py"][int(g.integers(2))]}
    r = g.random()
    if r < 0.08:
        e["what"] = ["grad", "negative", "shapes", "batch"][int(g.integers(4))]
    threads = int(g.integers(1, 7))

    def go(_e):
        b = torch.tensor(e["bins"], dtype=torch.float32) / 8
        w = torch.tensor(e["w"], dtype=torch.float32)
        f = sample_pdf if e["impl"] == "c" else sample_pdf_python
        old = torch.get_num_threads()
        torch.set_num_threads(threads)
        try:
            if e["what"] != "ok":
                err = (ValueError, RuntimeError)
                if e["what"] == "grad":
                    w.requires_grad_(True)
                    f, err = sample_pdf, (NotImplementedError,)
                elif e["what"] == "negative":
                    w[0, 0] = -1
                    err = (ValueError,)
                elif e["what"] == "shapes":
                    w = torch.cat([w, w[:, :1]], 1)
                    f, err = sample_pdf, (ValueError,)
                else:
                    w = torch.cat([w, w[:1]], 0)
                    f, err = sample_pdf, (ValueError,)
                try:
                    f(b, w, n)
                except err:
                    e["rejected"] = True
                return
            if mode == "own":
                # batch inside larger tensors: rows beyond it have to stay as they are
                e["u"] = [[int(x) for x in g.choice([0, 1024, int(g.integers(0, 1025)), int(g.integers(0, 1025)), int(g.integers(0, 1025))], n)] for _ in range(B)]
                pad = 8
                big = torch.full((B + pad, n), 0.5)
                big[:B] = torch.tensor(e["u"], dtype=torch.float32) / 1024
                bb = torch.cat([b, torch.arange(nb + 1.0).expand(pad, -1)])
                ww = torch.cat([w, torch.ones(pad, nb)])
                _C.sample_pdf(bb[:B], ww[:B], big[:B], 1e-5)
                v = big[:B]
                e["guard"] = bool((big[B:] == 0.5).all())
            else:
                shape = [[B], [B, 1], [1, B]][int(g.integers(3))]
                v = f(b.reshape(*shape, -1), w.reshape(*shape, -1), n, det=mode == "det")
                if list(v.shape) != [*shape, n]:
                    e["guard"] = False
                v = v.reshape(B, n)
            e["v"] = iv(v, 8000)
        finally:
            torch.set_num_threads(old)

    guard(e, go)
    return e


def bundle(R, lengths=None, bins=None, radii=None):
    return ImplicitronRayBundle(origins=torch.zeros(R, 3), directions=torch.ones(R, 3), lengths=lengths, xys=torch.zeros(R, 2), bins=bins, pixel_radii_2d=radii)


def refine(ctx):
    g = ctx.g
    R, n0 = int(g.integers(1, 4)), int(g.integers(3, 8))
    o = {"bins": bool(g.random() < 0.4), "blur": bool(g.random() < 0.4), "n": int(g.integers(1, 7)), "add": bool(g.random() < 0.5), "random": bool(g.random() < 0.3), "slack": 0}
    z0 = [edges(g, n0 + 1 if o["bins"] else n0, 2, 1) for _ in range(R)]
    w = [weights(g, n0, not o["bins"]) for _ in range(R)]
    e = {"op": "refine", "o": o, "z0": z0, "w": w, "intact": False, "kept": False}

    def go(_e):
        z = torch.tensor(z0, dtype=torch.float32) / 8
        b = bundle(R, None if o["bins"] else z, z if o["bins"] else None)
        b.camera_ids = torch.arange(R)
        ref = RayPointRefiner(n_pts_per_ray=o["n"], random_sampling=o["random"], add_input_samples=o["add"], blurpool_weights=o["blur"])
        W = torch.tensor(w, dtype=torch.float32)
        W0, z1 = W.clone(), z.clone()
        out = ref(b, W)
        e["z"] = iv(out.bins if o["bins"] else out.lengths, 8000)
        cur = b.bins if o["bins"] else b.lengths
        e["intact"] = bool((cur == z1).all() and cur.shape == z1.shape and (W == W0).all() and (z == z1).all())
        e["kept"] = bool(out.origins is b.origins and out.directions is b.directions and out.xys is b.xys and out.camera_ids is b.camera_ids)

    guard(e, go)
    return e


def march(ctx):
    g = ctx.g
    R, n, D = int(g.integers(1, 4)), int(g.integers(2, 7)), int(g.integers(1, 4))
    kind = ["ea", "cum"][int(g.integers(2))]
    o = {"kind": kind, "thick": int(g.choice([1, 1, 2, 3])), "repl": bool(g.random() < 0.3), "relu": bool(g.random() < 0.7), "blend": bool(g.random() < 0.4),
         "bgop": int(g.choice([100, 0, 2]) if kind == "ea" else g.choice([0, 3])), "deltas": bool(g.random() < 0.3), "bg": [int(x) for x in g.integers(-4, 5, [1, D][int(g.integers(2))])]}
    length = [edges(g, n, 1, 0) for _ in range(R)]
    hi = 3 if kind == "ea" else 16
    dens = g.integers(-1 if o["relu"] else 0, hi, (R, n)) * (g.random((R, n)) < 0.7)
    e = {"op": "march", "what": "ok", "o": o, "len": length, "del": g.integers(0, 4, (R, n)).tolist(), "dens": dens.tolist(), "feat": g.integers(-6, 7, (R, n, D)).tolist(), "rejected": False, "aux": False}
    if g.random() < 0.06:
        e["what"] = "background of another number of channels"
        o["bg"] = [1] * (D + 1) if D + 1 > 1 else [1, 1]

    def go(_e):
        cls = EmissionAbsorptionRaymarcher if kind == "ea" else CumsumRaymarcher
        kw = {}
        if o["bgop"] == 100:
            if g.random() < 0.5:
                kw["background_opacity"] = 1e10
        elif kind == "cum" and o["bgop"] == 0 and g.random() < 0.5:
            pass                                       # the default
        else:
            kw["background_opacity"] = o["bgop"] * 1.0 / (8 if kind == "cum" else 1)
        expand_args_fields(cls)
        m = cls(surface_thickness=o["thick"], bg_color=tuple(float(x) for x in o["bg"]), replicate_last_interval=o["repl"], density_relu=o["relu"], blend_output=o["blend"], **kw)
        u = 1.0 if kind == "ea" else 1.0 / 8
        a = torch.tensor(e["dens"], dtype=torch.float32) * (LN2 if kind == "ea" else 1.0 / 8)
        l = torch.tensor(length, dtype=torch.float32) * u
        d = torch.tensor(e["del"], dtype=torch.float32) * u
        f = torch.tensor(e["feat"], dtype=torch.float32)
        shape = [[R], [R, 1], [1, R]][int(g.integers(3))]
        aux = {"x": 1}
        try:
            out = m(a.reshape(*shape, n, 1), f.reshape(*shape, n, D), aux, l.reshape(*shape, n), ray_deltas=d.reshape(*shape, n) if o["deltas"] else None)
        except ValueError:
            if e["what"] == "ok":
                raise
            e["rejected"] = True
            return
        e["w"] = iv(out.weights.reshape(R, n), 16384)
        e["mask"] = iv(out.masks.reshape(R), 16384)
        e["out"] = iv(out.features.reshape(R, D), 1024)
        e["depth"] = iv(out.depths.reshape(R) / u, 16384)
        e["aux"] = out.aux is aux

    guard(e, go)
    return e


class Function(torch.nn.Module):
    def __init__(self, k, log, last):
        super().__init__()
        self.k, self.log, self.last = k, log, last

    def on_bind_args(self):
        pass

    def forward(self, ray_bundle, **kw):
        z = ray_bundle.lengths
        n = z.shape[-1]
        if ray_bundle.bins is not None:
            d = torch.diff(ray_bundle.bins, dim=-1)
        else:
            d = torch.cat([torch.diff(z, dim=-1), torch.full_like(z[..., :1], 1.0)], -1)
        k = torch.tensor([self.k(i) for i in range(n)], dtype=torch.float32).expand_as(d).clone()
        k[d < 1e-3] = 0
        kk = k[0].tolist()
        if ray_bundle.bins is None and kk[-1]:
            kk[-1] = 100
        total = 0
        for i in range(n):                       # keep the weights exact
            if kk[i] != 100 and total + kk[i] > 9:
                kk[i] = 0
            total += 0 if kk[i] == 100 else kk[i]
        dens = torch.tensor([min(x, 1) if x == 100 else x for x in kk]) * LN2 / d.clamp(min=1e-3)
        dens = torch.where(torch.tensor(kk) == 0, torch.zeros(()), dens)
        bz = ray_bundle.bins if ray_bundle.bins is not None else z
        self.log.append({"z": iv(bz[0], 8000), "len": iv(z[0], 8000), "k": [int(x) for x in kk], "mode": kw})
        return dens[..., None].float(), torch.zeros(*z.shape, 1), {}


def multi(ctx):
    g = ctx.g
    m, n0 = int(g.integers(1, 4)), int(g.integers(3, 7))
    o = {"bins": bool(g.random() < 0.4), "blur": bool(g.random() < 0.3), "add": bool(g.random() < 0.5), "retw": bool(g.random() < 0.5), "slack": 12}
    train = bool(g.random() < 0.5)
    nt, ne = [int(x) for x in g.choice(range(3, 8), 2, replace=False)]
    rt, re = bool(g.random() < 0.3), bool(g.random() < 0.3)
    o["n"], o["random"] = (nt, rt) if train else (ne, re)
    z0 = edges(g, n0 + 1 if o["bins"] else n0, 2, 1)
    e = {"op": "multi", "what": "ok" if g.random() < 0.95 else "no function", "m": m, "o": o, "z0": z0, "rejected": False}
    ks = g.integers(0, 4, (m, 64)) * (g.random((m, 64)) < 0.6)
    ks[:, 1] = np.maximum(ks[:, 1], 1)

    def go(_e):
        r = MultiPassEmissionAbsorptionRenderer(
            n_pts_per_ray_fine_training=nt, n_pts_per_ray_fine_evaluation=ne, stratified_sampling_coarse_training=rt, stratified_sampling_coarse_evaluation=re,
            append_coarse_samples_to_fine=o["add"], density_noise_std_train=0.0 if train else 5.0, return_weights=o["retw"], blurpool_weights=o["blur"])
        log = []
        fns = [ImplicitFunctionWrapper(Function(lambda i, s=s: int(ks[s][i]), log, s == m - 1)) for s in range(m)]
        z = torch.tensor([z0], dtype=torch.float32) / 8
        b = bundle(1, None if o["bins"] else z, z if o["bins"] else None)
        if e["what"] != "ok":
            try:
                r(b, [])
            except ValueError:
                e["rejected"] = True
            return
        out = r(b, fns, EvaluationMode.TRAINING if train else EvaluationMode.EVALUATION)
        outs = []
        while out is not None:
            outs.insert(0, out)
            out = out.prev_stage
        e["chain"] = len(outs)
        e["st"] = []
        for l, x in zip(log, outs):
            e["st"].append({"z": l["z"], "len": l["len"], "k": l["k"], "hasw": x.weights is not None, "w": [] if x.weights is None else iv(x.weights[0], 16384),
                            "mask": iv(x.masks[0, 0], 16384), "depth": iv(x.depths[0, 0], 1000 * 8)})

    guard(e, go)
    return e


def cone(ctx):
    g = ctx.g
    n = int(g.integers(1, 5))
    e = {"op": "cone", "what": "ok", "bins": sorted(int(x) for x in g.choice(7, n + 1, replace=False)), "r": int(g.integers(1, 7)), "org": [int(x) for x in g.integers(-3, 4, 3)],
         "d": [int(x) for x in g.integers(-2, 3, 3)], "rejected": False}
    if not any(e["d"]):
        e["d"] = [0, 0, 1]
    if g.random() < 0.1:
        e["what"] = ["no bins", "no radii"][int(g.integers(2))]

    def go(_e):
        b = bundle(1, torch.ones(1, n) if e["what"] == "no bins" else None, None if e["what"] == "no bins" else torch.tensor([e["bins"]], dtype=torch.float32), None if e["what"] == "no radii" else torch.tensor([[e["r"] / 4]]))
        b.origins, b.directions = torch.tensor([e["org"]], dtype=torch.float32), torch.tensor([e["d"]], dtype=torch.float32)
        try:
            mean, cov = conical_frustum_to_gaussian(b)
        except ValueError:
            if e["what"] == "ok":
                raise
            e["rejected"] = True
            return
        e["mean"], e["cov"] = iv(mean[0], 1000), iv(cov[0], 1000)

    guard(e, go)
    return e


def harm(ctx):
    g = ctx.g
    n, d = int(g.integers(1, 5)), int(g.integers(1, 4))
    o = {"n": n, "log": bool(g.random() < 0.5), "app": bool(g.random() < 0.5), "om": int(g.choice([4, 1, 2, 8]))}
    e = {"op": "harm", "o": o, "x": [int(x) for x in g.integers(-3000, 3001, d)], "cov": []}
    if o["log"] and g.random() < 0.5:
        e["cov"] = [int(x) * {4: 1, 8: 1, 2: 4, 1: 16}[o["om"]] for x in g.integers(0, 4, d)]

    def go(_e):
        h = HarmonicEmbedding(n_harmonic_functions=n, omega_0=o["om"] / 4, logspace=o["log"], append_input=o["app"])
        x = torch.tensor(e["x"], dtype=torch.float32) / 1000
        cov = torch.tensor(e["cov"], dtype=torch.float32) * 2 * LN2 if e["cov"] else None
        lead = [[], [1], [2, 1]][int(g.integers(3))]
        out = h(x.expand(*lead, d), diag_cov=None if cov is None else cov.expand(*lead, d))
        e["dim"] = h.get_output_dim(d)
        e["dims"] = HarmonicEmbedding.get_output_dim_static(d, n, o["app"])
        if list(out.shape[:-1]) != lead:
            raise AssertionError("shape of the embedding")
        e["out"] = iv(out.reshape(-1, out.shape[-1])[-1], 10000)

    guard(e, go)
    return e


def bundles(ctx):
    g = ctx.g
    what = ["lengths", "set", "padded", "bind", "neither bins nor lengths", "one bin edge", "padding of unpacked rays"][int(g.choice(7, p=[0.2, 0.1, 0.3, 0.25, 0.05, 0.05, 0.05]))]
    e = {"op": "bundle", "what": what, "rejected": False}
    if what == "lengths":
        e["bins"], e["setrej"] = edges(g, int(g.integers(2, 6))), False
    elif what == "set":
        e["new"] = edges(g, int(g.integers(1, 6)))
    elif what == "padded":
        e["counts"] = [int(x) for x in g.integers(1, 5, int(g.integers(1, 5)))]
        e["xys"] = g.integers(-9, 10, (sum(e["counts"]), 2)).tolist()
    elif what == "bind":
        names = "abcd"
        call = {k: int(g.integers(9)) for k in names if g.random() < 0.5}
        bound = {k: 10 + int(g.integers(9)) for k in names if g.random() < 0.5}
        e["mode"] = ["bound", "rebound", "unbound"][int(g.integers(3))]
        final = {**call, **(bound if e["mode"] != "unbound" else {})}
        e["want"] = [[k, final[k]] for k in sorted(final)]
        e["binds"] = 2 if e["mode"] == "rebound" else 1

    def go(_e):
        rej = None
        if what == "lengths":
            b = bundle(1, torch.zeros(1, 2), torch.tensor([e["bins"]], dtype=torch.float32))
            e["len"] = iv(b.lengths[0], 2)
            try:
                b.lengths = torch.zeros(1, 2)
            except ValueError:
                e["setrej"] = True
        elif what == "set":
            b = bundle(1, torch.zeros(1, 2))
            b.lengths = torch.tensor([e["new"]], dtype=torch.float32)
            b.float_()
            e["len"] = iv(b.lengths[0], 1)
        elif what == "padded":
            N = len(e["xys"])
            xy = torch.tensor(e["xys"], dtype=torch.float32)
            b = ImplicitronRayBundle(torch.zeros(N, 3), torch.zeros(N, 3), torch.zeros(N, 2), xy, camera_ids=torch.arange(len(e["counts"])), camera_counts=torch.tensor(e["counts"]))
            p, f, num = b.get_padded_xys()
            e["pad"], e["first"], e["num"] = iv(p, 1), f.tolist(), num
        elif what == "bind":
            heard, seen = [], {}

            class F(torch.nn.Module):
                def on_bind_args(self):
                    heard.append(1)

                def forward(self, **kw):
                    seen.update(kw)

            w = ImplicitFunctionWrapper(F())
            if e["mode"] == "rebound":
                w.bind_args(a=77, z=3)
            w.bind_args(**bound)
            if e["mode"] == "unbound":
                w.unbind_args()
            w(**call)
            e["seen"], e["heard"] = [[k, seen[k]] for k in sorted(seen)], len(heard)
        elif what == "neither bins nor lengths":
            rej = lambda: bundle(1)
        elif what == "one bin edge":
            rej = lambda: bundle(1, None, torch.zeros(1, 1))
        else:
            rej = lambda: bundle(1, torch.zeros(1, 2)).get_padded_xys()
        if rej is not None:
            try:
                rej()
            except ValueError:
                e["rejected"] = True

    guard(e, go)
    return e


def traces(ctx):
    ctx.g = np.random.default_rng(ctx.np.randint(1 << 30))
    for _ in range(ctx.n(120, 2500)):
        yield [pdf(ctx), pdf(ctx), refine(ctx), march(ctx), march(ctx), multi(ctx), cone(ctx), harm(ctx), bundles(ctx)]
