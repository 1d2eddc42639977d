"""Implicit functions, decoders, encoders, and the glue of the generic model."""
import copy
import math
import warnings

import numpy as np
import torch
from c32 import camera, cams, iv
from harness import guard
from pytorch3d.common.linear_with_repeat import LinearWithRepeat
from pytorch3d.implicitron.models.generic_model import GenericModel
from pytorch3d.implicitron.models.global_encoder.autodecoder import Autodecoder
from pytorch3d.implicitron.models.global_encoder.global_encoder import HarmonicTimeEncoder, SequenceAutodecoder
from pytorch3d.implicitron.models.implicit_function.decoding_functions import DecoderActivation, ElementwiseDecoder, MLPWithInputSkips
from pytorch3d.implicitron.models.implicit_function.idr_feature_field import IdrFeatureField
from pytorch3d.implicitron.models.implicit_function.neural_radiance_field import NeuralRadianceFieldImplicitFunction
from pytorch3d.implicitron.models.implicit_function.scene_representation_networks import SRNHyperNetImplicitFunction, SRNImplicitFunction
from pytorch3d.implicitron.models.renderer.base import EvaluationMode, ImplicitronRayBundle, RendererOutput
from pytorch3d.implicitron.models.utils import apply_chunked, chunk_generator, preprocess_input, weighted_sum_losses
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args

MODULE = "Nets"
ASSUMPTIONS = ["networks with small integer weights; normalization layers and final sigmoids of the radiance fields replaced by identities",
               "skip layers have positive indices", "ray directions in the Pythagorean directions of two coordinate axes"]
for c_ in [MLPWithInputSkips, ElementwiseDecoder, IdrFeatureField, NeuralRadianceFieldImplicitFunction, SRNImplicitFunction, SRNHyperNetImplicitFunction, Autodecoder,
           SequenceAutodecoder, HarmonicTimeEncoder, GenericModel]:
    expand_args_fields(c_)


def ints(g, lo, hi, *shape):
    return g.integers(lo, hi + 1, shape).tolist()


def setlin(lin, g, lo=-2, hi=2, bias=2, wn=False):
    w, b = ints(g, lo, hi, *lin.weight.shape), ints(g, -bias, bias, lin.weight.shape[0])
    with torch.no_grad():
        if wn:
            w = [[1 if not any(r) and i == 0 else x for i, x in enumerate(r)] for r in w]
            v = torch.tensor(w, dtype=torch.float32)
            lin.weight_v.copy_(v)
            lin.weight_g.copy_(v.norm(dim=1, keepdim=True))
        else:
            lin.weight.copy_(torch.tensor(w, dtype=torch.float32))
        lin.bias.copy_(torch.tensor(b, dtype=torch.float32))
    return {"w": w, "b": b}


def mlp_rec(m, g, skips, act, affine):
    layers = [setlin(l[0], g) for l in m.mlp]
    aff = []
    if affine:
        for a in m.skip_affines:
            l1, l2 = setlin(a[0], g), setlin(a[2], g)
            h = len(l2["w"]) // 2
            with torch.no_grad():
                for d in range(h, 2 * h):   # scale beyond the threshold of softplus
                    l2["w"][d] = [0] * len(l2["w"][d])
                    l2["b"][d] = int(g.integers(21, 24))
                a[2].weight.copy_(torch.tensor(l2["w"], dtype=torch.float32))
                a[2].bias.copy_(torch.tensor(l2["b"], dtype=torch.float32))
            aff.append({"l1": l1, "l2": l2})
    return {"layers": layers, "aff": aff, "skips": skips, "act": act, "affine": affine}


def mlp(ctx):
    g = ctx.g
    n, din, h, dout = (int(v) for v in g.integers(1, 4, 4))
    n = int(g.integers(1, 5))
    skips = [i for i in range(1, 5) if g.random() < 0.4]
    affine = bool(g.random() < 0.3)
    ownz = bool(g.integers(2))
    dz = int(g.integers(1, 4)) if ownz else din
    act = ["relu", "identity"][int(g.integers(2))]
    m = MLPWithInputSkips(n_layers=n, input_dim=din, output_dim=dout, skip_dim=dz, hidden_dim=h, input_skips=tuple(skips), skip_affine_trans=affine,
                          last_activation=DecoderActivation(act), last_layer_bias_init=0.0 if g.integers(2) else None, use_xavier_init=bool(g.integers(2)))
    e = {"op": "mlp", "ownz": ownz, "x": ints(g, -3, 3, 3, din), "z": ints(g, -3, 3, 3, dz), **mlp_rec(m, g, skips, act, affine)}

    def go(_e):
        x, z = torch.tensor(e["x"], dtype=torch.float32), torch.tensor(e["z"], dtype=torch.float32)
        x0, z0 = x.clone(), z.clone()
        e["out"] = iv(m(x, z) if ownz else m(x), 1)
        e["kept"] = bool((x == x0).all() and (z == z0).all())
    guard(e, go)
    return e


def elem(ctx):
    g = ctx.g
    act = ["relu", "identity", "sigmoid", "softplus"][int(g.integers(4))]
    e = {"op": "elem", "x": ints(g, -4, 4, 6), "scale": int(g.integers(-3, 4)), "shift": int(g.integers(-3, 4)), "act": act}
    guard(e, lambda _e: e.update(out=iv(ElementwiseDecoder(scale=e["scale"], shift=e["shift"], operation=DecoderActivation(act))(torch.tensor(e["x"], dtype=torch.float32)))))
    return e


def rep(ctx):
    g = ctx.g
    n1, n2, R, K = (int(v) for v in g.integers(1, 4, 4))
    l = LinearWithRepeat(n1 + n2, int(g.integers(1, 4)))
    e = {"op": "rep", "l": setlin(l, g), "x": ints(g, -3, 3, R, K, n1), "y": ints(g, -3, 3, R, n2)}
    guard(e, lambda _e: e.update(out=iv(l((torch.tensor(e["x"], dtype=torch.float32), torch.tensor(e["y"], dtype=torch.float32))), 1)))
    return e


def bundle(g, pyth=True):
    B, K = int(g.integers(1, 4)), int(g.integers(1, 4))
    grid = [int(g.integers(1, 4)) for _ in range(int(g.integers(1, 3)))]
    R = int(np.prod(grid))
    D = []
    for _ in range(B * R):
        v = np.zeros(3, int)
        i, j = g.permutation(3)[:2]
        a, b = [(3, 4), (4, 3), (1, 0), (2, 0)][int(g.integers(4))]
        v[i], v[j] = a * g.choice([-1, 1]), b * g.choice([-1, 1])
        D.append(v.tolist())
    D = np.array(D).reshape(B, R, 3).tolist()
    org, ln = ints(g, -2, 2, B, R, 3), ints(g, 0, 2, B, R, K)
    t = lambda x, *s: torch.tensor(x, dtype=torch.float32).reshape(B, *grid, *s)
    rb = ImplicitronRayBundle(origins=t(org, 3), directions=t(D, 3), lengths=t(ln, K), xys=torch.zeros(B, *grid, 2))
    return B, grid, R, K, {"org": org, "dir": D, "len": ln}, rb


def icams(g, n):
    cs = cams(g, n)
    cam = camera(cs)
    cam.T = cam.T * 4     # whole units
    return cs, cam


def nerf(ctx):
    g = ctx.g
    B, grid, R, K, d, rb = bundle(g)
    lat, h, n = int(g.integers(0, 3)), int(g.integers(1, 4)), int(g.integers(1, 4))
    skips = [i for i in range(1, 4) if g.random() < 0.4]
    incam = bool(g.integers(2))
    f = NeuralRadianceFieldImplicitFunction(n_harmonic_functions_xyz=0, n_harmonic_functions_dir=0, n_hidden_neurons_dir=2, n_hidden_neurons_xyz=h, n_layers_xyz=n, latent_dim=lat,
                                            append_xyz=tuple(skips), xyz_ray_dir_in_camera_coords=incam, color_dim=int(g.integers(1, 4)))
    f.color_layer[3] = torch.nn.Identity()
    cs, cam = icams(g, B)
    code = ints(g, -2, 2, B, lat) if lat else []
    e = {"op": "nerf", "what": "ok", "rejected": False, "inter": True, "incam": incam, "cams": cs, "code": code, **d, **mlp_rec(f.xyz_encoder, g, skips, "relu", False),
         "i1": setlin(f.intermediate_linear, g), "d1": setlin(f.density_layer, g), "c1": setlin(f.color_layer[0], g), "c2": setlin(f.color_layer[2], g)}
    if incam and g.random() < 0.1:
        e["what"] = "nocam"

    def go(_e):
        try:
            den, col, aux = f(ray_bundle=rb, camera=cam if e["what"] == "ok" else None, global_code=torch.tensor(code, dtype=torch.float32) if lat else None)
        except ValueError:
            if e["what"] == "ok":
                raise
            e["rejected"] = True
            return
        assert den.shape == (B, *grid, K, 1) and col.shape[:-1] == (B, *grid, K)
        e["den"], e["col"] = iv(den.reshape(B, R, K, 1), 1), iv(col.reshape(B, R, K, -1))
    guard(e, go)
    return e


class Net(torch.nn.Module):
    """perceptron with integer weights in place of a block with normalization layers"""
    def __init__(self, din, dout):
        super().__init__()
        self.l = torch.nn.Linear(din, dout)

    def forward(self, x):
        return torch.relu(self.l(x))


def srn(ctx):
    g = ctx.g
    B, grid, R, K, d, rb = bundle(g)
    lat, h = int(g.integers(0, 3)), int(g.integers(1, 4))
    incam = bool(g.integers(2))
    f = SRNImplicitFunction(latent_dim=lat, raymarch_function_args={"n_harmonic_functions": 0, "out_features": h, "xyz_in_camera_coords": incam, "n_hidden_units": 5},
                            pixel_generator_args={"n_harmonic_functions": 0, "in_features": h, "n_hidden_units": h, "n_hidden_units_color": 2, "ray_dir_in_camera_coords": incam})
    a, b = Net(3 + lat, h), Net(h, h)
    f.raymarch_function._net, f.pixel_generator._net = a, b
    f.pixel_generator._color_layer[1] = torch.nn.Identity()
    cs, cam = icams(g, B)
    code = ints(g, -2, 2, B, lat) if lat else []
    la, lb = setlin(a.l, g), setlin(b.l, g)
    pg = f.pixel_generator
    base = {"op": "nerf", "what": "ok", "rejected": False, "incam": incam, "cams": cs, "code": code, **d, "aff": [], "affine": False, "skips": [], "act": "relu"}
    d1, c1, c2 = setlin(pg._density_layer, g), setlin(pg._color_layer[0], g), setlin(pg._color_layer[3], g)
    # the pixel generator sees the features of the ray marching network after another layer
    ident = {"w": np.eye(h, dtype=int).tolist(), "b": [0] * h}
    e = {**base, "inter": True, "i1": ident, "layers": [la, lb], "d1": d1, "c1": c1, "c2": c2}
    if incam and g.random() < 0.1:
        e["what"] = "nocam"

    def go(_e):
        c = cam if e["what"] == "ok" else None
        gc = torch.tensor(code, dtype=torch.float32) if lat else None
        try:
            feat, none = f(ray_bundle=rb, camera=cam, global_code=gc)
            den, col = f(ray_bundle=rb, camera=c, global_code=gc, raymarch_features=feat)
        except ValueError:
            if e["what"] == "ok":
                raise
            e["rejected"] = True
            return
        assert none is None and feat.shape == (B, *grid, K, h) and den.shape == (B, *grid, K, 1)
        e["den"], e["col"] = iv(den.reshape(B, R, K, 1), 1), iv(col.reshape(B, R, K, -1))
    guard(e, go)
    return e


def hyper(ctx):
    g = ctx.g
    h, outf, lat = int(g.integers(1, 4)), int(g.integers(1, 6)), int(g.integers(1, 3))
    f = SRNHyperNetImplicitFunction(latent_dim_hypernet=lat, hypernet_args={"n_harmonic_functions": 0, "n_hidden_units": h, "n_hidden_units_hypernet": 3, "out_features": outf, "n_layers": 1})
    hn = f.hypernet._hypernet
    seen = []

    class Spy(torch.nn.Module):
        def forward(self, code):
            seen.append(code)
            return hn(code)
    f.hypernet._hypernet = Spy()
    ev = []
    last = None
    B, grid, R, K, d, rb = bundle(g)
    for _ in range(int(g.integers(2, 6))):
        if g.random() < 0.4:
            e = {"op": "bind"}
            guard(e, lambda _e: f.on_bind_args())
            ev.append(e)
            continue
        code = ints(g, -3, 3, B, lat)
        e = {"op": "hyper", "code": code, "outf": outf}

        def go(_e):
            nonlocal last
            k = len(seen)
            y, none = f(ray_bundle=rb, global_code=torch.tensor(code, dtype=torch.float32))
            e["ran"] = len(seen) > k
            e["used"] = iv(seen[-1], 1)
            e["nout"] = y.shape[-1]
            pts = (rb.origins[..., None, :] + rb.directions[..., None, :] * rb.lengths[..., None]).reshape(B, -1, 3)
            ref = hn(seen[-1])(pts).reshape(B, *grid, K, -1)
            e["same"] = bool(y.shape == ref.shape and torch.allclose(y, ref, atol=1e-4))
        guard(e, go)
        ev.append(e)
    return ev


def idr(ctx):
    g = ctx.g
    nl, h = int(g.integers(1, 4)), int(g.integers(4, 7))
    enc = int(g.integers(0, 3))
    h = 3 + enc + int(g.integers(1, 3))
    skips = [i for i in range(1, nl + 1) if g.random() < 0.4]
    wn = bool(g.integers(2))
    dout, fv = 1, int(g.integers(0, 3))
    f = IdrFeatureField(feature_vector_size=fv, d_in=3, d_out=dout, dims=(h,) * nl, geometric_init=bool(g.integers(2)), skip_in=tuple(skips), weight_norm=wn, n_harmonic_functions_xyz=0, encoding_dim=enc)
    layers = [setlin(l, g, -1, 1, 2, wn) for l in f.linear_layers]
    # softplus with beta 100 exceeds the ramp by at most log(2)/100
    tol = 20.0
    err = 0.0
    for l in layers[:-1]:
        err = err * max(sum(abs(x) for x in r) for r in l["w"]) + 70
    tol += err * max(sum(abs(x) for x in r) for r in layers[-1]["w"])
    what = ["ok"] * 8 + ["both", "none", "empty"]
    what = what[int(g.integers(len(what)))]
    P = int(g.integers(1, 5))
    e = {"op": "idr", "what": what, "rejected": False, "pts": ints(g, -2, 2, P, 3), "code": ints(g, -2, 2, enc), "skips": skips, "layers": layers, "tol": int(tol), "dim": dout + fv}

    def go(_e):
        p = torch.tensor(e["pts"], dtype=torch.float32)
        kw = {"rays_points_world": p[:0] if what == "empty" else p}
        if what == "both":
            kw["ray_bundle"] = bundle(g)[-1]
        if what == "none":
            kw = {}
        try:
            o = f(**kw, global_code=torch.tensor([e["code"]], dtype=torch.float32) if enc else None)
        except ValueError:
            if what not in ("both", "none"):
                raise
            e["rejected"] = True
            return
        e["out"], e["odim"] = iv(o), o.shape[-1]
    guard(e, go)
    return e


def autodec(ctx):
    g = ctx.g
    mx, dim = int(g.integers(1, 5)), int(g.integers(1, 4))
    ignore = bool(g.random() < 0.25)
    seq = bool(g.integers(2))

    def make():
        m = SequenceAutodecoder(autodecoder_args={"encoding_dim": dim, "n_instances": mx, "ignore_input": ignore, "init_scale": 2.0}) if seq else Autodecoder(encoding_dim=dim, n_instances=mx, ignore_input=ignore)
        return m, (m.autodecoder if seq else m)
    m, a = make()
    w = ints(g, -4, 4, mx, dim)
    with torch.no_grad():
        a._autodecoder_codes.weight.copy_(torch.tensor(w, dtype=torch.float32))
    call = lambda x: m(sequence_name=x) if seq else m(x)
    ev = []
    for _ in range(int(g.integers(3, 8))):
        r = g.random()
        if r < 0.55:
            e = {"op": "code", "names": [f"s{int(i)}" for i in g.integers(0, 5, int(g.integers(1, 4)))], "max": mx, "ignore": ignore, "w": w, "rejected": False, "out": []}

            def go(_e, e=e):
                try:
                    e["out"] = iv(call(e["names"]), 1)
                except ValueError:
                    e["rejected"] = True
        elif r < 0.7:
            e = {"op": "ids", "ids": ints(g, 0, mx - 1, int(g.integers(1, 4))), "max": mx, "ignore": ignore, "w": w}

            def go(_e, e=e):
                e["out"] = iv(call(torch.tensor(e["ids"])), 1)
        elif r < 0.8:
            e = {"op": "norm", "w": w}

            def go(_e, e=e):
                e["out"] = int(round(float(m.calculate_squared_encoding_norm()) * 10000))
        else:
            e = {"op": "reload", "w": w}

            def go(_e, e=e):
                nonlocal m, a
                old, sd = m, copy.deepcopy(m.state_dict())
                m, a = make()
                if g.integers(2):   # a module that has seen other names
                    call(["other"])
                if g.integers(2):   # as a part of another module
                    torch.nn.ModuleDict({"x": m}).load_state_dict({k: v for k, v in torch.nn.ModuleDict({"x": old}).state_dict().items()})
                else:
                    m.load_state_dict(sd)
                e["got"] = iv(a._autodecoder_codes.weight, 1)
        guard(e, go)
        ev.append(e)
    return ev


def time(ctx):
    g = ctx.g
    n, app, div = int(g.integers(0, 4)), bool(g.integers(2)), int(g.choice([1, 2, 4]))
    if n == 0:
        app = True
    e = {"op": "time", "what": "ok", "rejected": False, "t": ints(g, 0, 8, int(g.integers(1, 5))), "div": div, "n": n, "app": app}
    if g.random() < 0.1:
        e["what"] = ["missing", "shape"][int(g.integers(2))]
    flat = bool(g.integers(2))

    def go(_e):
        f = HarmonicTimeEncoder(n_harmonic_functions=n, append_input=app, time_divisor=float(div))
        t = torch.tensor(e["t"], dtype=torch.float32)
        t = t if flat else t[:, None]
        if e["what"] == "shape":
            t = torch.zeros(2, 3)
        try:
            o = f(frame_timestamp=None if e["what"] == "missing" else t)
        except ValueError:
            if e["what"] == "ok":
                raise
            e["rejected"] = True
            return
        e["out"], e["dim"] = iv(o), f.get_encoding_dim()
        assert f.calculate_squared_encoding_norm() is None
    guard(e, go)
    return e


def chunk(ctx):
    g = ctx.g
    B, H, W, P = int(g.integers(1, 4)), int(g.integers(1, 5)), int(g.integers(1, 5)), int(g.integers(0, 4))
    n = H * W
    ch = int(g.integers(1, 3 * n + 2)) * (max(P, 1) if g.random() < 0.9 else 1)
    bins, radii, mask, nrm = (bool(g.integers(2)) for _ in range(4))
    bins = bins and P > 0
    t = lambda *s: torch.tensor(g.integers(-9, 10, s), dtype=torch.float32)
    rb = ImplicitronRayBundle(origins=t(B, H, W, 3), directions=t(B, H, W, 3), lengths=None if bins else t(B, H, W, P), xys=t(B, H, W, 2),
                              bins=t(B, H, W, P + 1) if bins else None, pixel_radii_2d=t(B, H, W, 1) if radii else None)
    om = t(B, 2, H, W)
    e = {"op": "chunk", "n": n, "npts": P, "chunk": ch, "rejected": False, "sizes": [], "follow": True}

    def f(b, *args, object_mask=None, tag=None, ignored=None):
        e["follow"] = e["follow"] and args == ("arg",) and tag == "kw" and (b.bins is not None) == bins and (b.pixel_radii_2d is not None) == radii and (object_mask is not None) == mask
        e["sizes"].append(b.origins.shape[1])
        parts = [b.origins, b.directions, b.lengths, b.xys] + ([b.bins] if bins else []) + ([b.pixel_radii_2d] if radii else []) + ([object_mask.permute(0, 2, 1)] if mask else [])
        x = torch.cat([p.reshape(*b.origins.shape[:2], -1) for p in parts], -1)
        prev = RendererOutput(features=x + 1, depths=b.origins[..., :1], masks=b.origins[..., 1:2])
        return RendererOutput(features=x, depths=b.directions[..., :1], masks=b.directions[..., 1:2], prev_stage=prev if nrm else None, normals=b.origins if nrm else None, aux={"q": b.xys, "none": None})

    def go(_e):
        kw = {"object_mask": om} if mask else {}
        try:
            r = apply_chunked(f, chunk_generator(ch, rb, kw, 10 ** 9, "arg", tag="kw"), lambda b: torch.cat(b, dim=1).reshape(B, H, W, -1))
        except ValueError:
            e["rejected"] = True
            return
        out = [r.features, r.depths, r.masks, r.aux["q"]] + ([r.prev_stage.features, r.prev_stage.depths, r.prev_stage.masks, r.normals] if nrm else [])
        parts = [rb.origins, rb.directions, rb.lengths, rb.xys] + ([rb.bins] if bins else []) + ([rb.pixel_radii_2d] if radii else []) + ([om.permute(0, 2, 3, 1)] if mask else [])
        x = torch.cat(parts, -1)
        want = [x, rb.directions[..., :1], rb.directions[..., 1:2], rb.xys] + ([x + 1, rb.origins[..., :1], rb.origins[..., 1:2], rb.origins] if nrm else [])
        e["got"], e["whole"] = iv(torch.cat(out, -1), 1), iv(torch.cat(want, -1), 1)
        e["follow"] = e["follow"] and r.aux["none"] is None and r.weights is None
    guard(e, go)
    return e


def pre(ctx):
    g = ctx.g
    n = int(g.integers(1, 5))
    hasfg, himg, hdep = (bool(g.random() < 0.8) for _ in range(3))
    mimg, mdep = bool(g.integers(2)), bool(g.integers(2))
    thr = int(g.integers(0, 8)) if not mdep else int(g.integers(1, 8))
    e = {"op": "pre", "hasfg": hasfg, "fg": ints(g, 0, 8, n), "thr": thr, "mimg": mimg, "mdep": mdep, "bg": ints(g, 0, 5, 3), "img": ints(g, 0, 5, 3, n) if himg else [], "dep": ints(g, 0, 9, n) if hdep else []}

    def go(_e):
        fg = torch.tensor(e["fg"], dtype=torch.float32)[None, None, None] / 8
        img = torch.tensor(e["img"], dtype=torch.float32)[None, :, None] if himg else None
        dep = torch.tensor(e["dep"], dtype=torch.float32)[None, None, None] if hdep else None
        keep = [None if x is None else x.clone() for x in (img, fg, dep)]
        i, f, d = preprocess_input(img, fg if hasfg else None, dep, mimg, mdep, thr / 8, tuple(float(b) for b in e["bg"]))
        e["oimg"] = iv(i[0, :, 0], 8) if i is not None else []
        e["ofg"] = iv(f[0, 0, 0], 8) if f is not None else []
        e["odep"] = iv(d[0, 0, 0], 8) if d is not None else []
        assert all(a is None or (a == b).all() for a, b in zip(keep, (img, fg, dep)))
    guard(e, go)
    return e


def loss(ctx):
    g = ctx.g
    n = int(g.integers(1, 6))
    e = {"op": "loss", "keys": [f"l{i}" for i in range(n)], "has": [bool(x) for x in g.integers(0, 2, n)], "w": ints(g, -1, 2, n), "v": ints(g, -9, 9, n), "any": True, "out": 0}

    def go(_e):
        preds = {k: torch.tensor(float(v)) for k, h, v in zip(e["keys"], e["has"], e["v"]) if h}
        preds["other"] = torch.tensor(100.0)
        r = weighted_sum_losses(preds, dict(zip(e["keys"], (float(w) for w in e["w"]))))
        e["any"] = r is not None
        e["out"] = int(round(float(r))) if r is not None else 0
    guard(e, go)
    return e


def model(ctx):
    g = ctx.g
    H, W, P = int(g.integers(2, 6)), int(g.integers(2, 6)), int(g.integers(2, 5))
    train = bool(g.integers(2))
    nb, nt = int(g.integers(1, 4)), int(g.integers(0, 4))
    two = bool(g.integers(2))
    e = {"op": "model", "train": train, "nb": nb, "nt": nt}
    seed = int(g.integers(1 << 30))
    chunks = [P * int(g.integers(1, H * W + 3)), 0 if g.integers(2) else P * 10 ** 4]

    def go(_e):
        outs, extra = [], None
        for ch in chunks:
            torch.manual_seed(seed)
            args = get_default_args(GenericModel)
            args.render_image_width, args.render_image_height = W, H
            args.chunk_size_grid = ch
            args.n_train_target_views = nt
            args.num_passes = 1
            args.sampling_mode_training = "full_grid"
            args.implicit_function_class_type = "NeuralRadianceFieldImplicitFunction"
            q = args.implicit_function_NeuralRadianceFieldImplicitFunction_args
            q.n_harmonic_functions_xyz, q.n_hidden_neurons_xyz, q.n_layers_xyz, q.append_xyz, q.n_hidden_neurons_dir = 2, 8, 2, [1], 8
            s = args.raysampler_AdaptiveRaySampler_args
            s.n_pts_per_ray_training = s.n_pts_per_ray_evaluation = P
            s.stratified_point_sampling_training = False
            if two:
                args.global_encoder_class_type = "SequenceAutodecoder"
                a = args.global_encoder_SequenceAutodecoder_args.autodecoder_args
                a.n_instances, a.encoding_dim = 5, 2
            r = args.renderer_MultiPassEmissionAbsorptionRenderer_args
            r.append_coarse_samples_to_fine = False
            r.density_noise_std_train = 0.0
            r.n_pts_per_ray_fine_training = r.n_pts_per_ray_fine_evaluation = P
            args.loss_weights = {"loss_rgb_mse": 2.0, "loss_mask_bce": 1.0, "loss_depth_abs": 0.0, "loss_no_such": 5.0}
            mdl = GenericModel(**args)
            gg = np.random.default_rng(seed)
            cs = cams(gg, nb)
            cam = camera(cs)
            cam.T = torch.tensor([[0.0, 0.0, 15.0]]).repeat(nb, 1)
            seen = []
            inner = mdl.raysampler.forward

            def spy(cameras, mode, mask=None):
                seen.append(cameras)
                return inner(cameras, mode, mask)
            mdl.raysampler.forward = spy
            img = torch.tensor(gg.random((nb, 3, H, W)), dtype=torch.float32)
            fg = torch.tensor(gg.integers(0, 2, (nb, 1, H, W)), dtype=torch.float32)
            fg[:, :, 0, 0] = 1
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                p = mdl(image_rgb=img, camera=cam, fg_probability=fg, depth_map=torch.tensor(gg.random((nb, 1, H, W)) + 14, dtype=torch.float32), sequence_name=[f"a{i % 2}" for i in range(nb)],
                        evaluation_mode=EvaluationMode.TRAINING if train else EvaluationMode.EVALUATION)
            ren = p["implicitron_render"]
            outs.append(iv(torch.cat([ren.image_render, ren.depth_render, ren.mask_render], 1), 200))
            n = ren.image_render.shape[0]
            extra = dict(ntarget=n, obj=int(round(float(p["objective"]) * 10000)), sum=int(round((2 * float(p["loss_rgb_mse"]) + float(p["loss_mask_bce"])) * 10000)),
                         unbound=all(not f_.bound_args for f_ in mdl._implicit_functions), cams=bool(len(seen) == 1 and len(seen[0].R) == n and (seen[0].R == cam.R[:n]).all()))
        a, b = (np.array(o) for o in outs)
        if a.shape == b.shape and np.abs(a - b).max() <= 1:   # rounding
            b = a
        e["a"], e["b"] = a.tolist(), b.tolist()
        e.update(extra)
    guard(e, go)
    return e


def traces(ctx):
    ctx.g = np.random.default_rng(ctx.np.randint(1 << 30))
    for i in range(ctx.n(60, 600)):
        yield [mlp(ctx), elem(ctx), rep(ctx), idr(ctx), nerf(ctx), nerf(ctx), srn(ctx), time(ctx), chunk(ctx), chunk(ctx), pre(ctx), loss(ctx)]
        yield autodec(ctx)
        yield hyper(ctx)
        if i % 3 == 0:
            yield [model(ctx)]
