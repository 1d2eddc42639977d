"""Voxel grids: interpolation, placement, resolution changes, cropping, reloading, scaffolds."""
import numpy as np
import torch
from omegaconf import DictConfig, OmegaConf
from harness import guard
from pytorch3d.implicitron.models.implicit_function.voxel_grid import (
    CPFactorizedVoxelGrid,
    FullResolutionVoxelGrid,
    VMFactorizedVoxelGrid,
    VoxelGridModule,
)
from pytorch3d.implicitron.models.implicit_function.voxel_grid_implicit_function import VoxelGridImplicitFunction
from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args
from pytorch3d.renderer import PerspectiveCameras

MODULE = "Voxel"
ASSUMPTIONS = ["grids up to 5 voxels per axis", "crop points, extents and translations are dyadic before cropping"]
CLS = {"full": FullResolutionVoxelGrid, "cp": CPFactorizedVoxelGrid, "vm": VMFactorizedVoxelGrid}
NAMES = {"voxel_grid": "vol", "vector_components_x": "vx", "vector_components_y": "vy", "vector_components_z": "vz", "matrix_components_xy": "mxy",
         "matrix_components_yz": "myz", "matrix_components_xz": "mxz", "basis_matrix": "basis"}
for c in (VoxelGridModule, VoxelGridImplicitFunction, *CLS.values()):
    expand_args_fields(c)


def iv(t, s=10000):
    return np.rint(t.detach().double().numpy() * s).astype(int).tolist()


def parsnap(d, b=0):
    out = {NAMES[k]: iv(v[b]) for k, v in d.items() if v is not None}
    if "vol" not in out:
        out.setdefault("basis", [])
    return out


def snap(m, kind, o):
    return {"kind": kind, "ac": o["ac"], "pad": o["pad"], "mode": "nearest" if o["mode"] == "nearest" else "linear", "par": parsnap({k: m.params[k] for k in m.params}),
            "ext": [int(round(float(x) * 10000)) for x in m.extents], "tr": [int(round(float(x) * 10000)) for x in m.translation]}


def options(g, kind=None):
    kind = kind or ["full", "cp", "vm"][int(g.integers(3))]
    o = {"ac": bool(g.random() < 0.6), "pad": ["zeros", "border", "reflection"][int(g.integers(3))], "mode": ["bilinear", "trilinear", "nearest"][int(g.choice(3, p=[0.6, 0.2, 0.2]))]}
    args = {"align_corners": o["ac"], "padding": o["pad"], "mode": o["mode"]}
    nf = int(g.integers(1, 4))
    hasb = True
    if kind == "full":
        comp = [0]
    elif kind == "cp":
        comp = [int(g.integers(1, 4))]
        args["n_components"] = comp[0]
    elif g.random() < 0.5:
        comp = [int(x) for x in g.integers(1, 3, 3)]
        args["distribution_of_components"] = tuple(comp)
    else:
        comp = [int(g.integers(1, 3))] * 3
        args["n_components"] = 3 * comp[0]
    if kind != "full" and g.random() < 0.4:
        hasb, nf = False, 1
        args["basis_matrix"] = False
    args["n_features"] = nf
    return kind, o, args, comp, nf, hasb


def table(g, lo=2, hi=6):
    eps = [0] + sorted(int(x) for x in g.choice(range(1, 8), int(g.integers(0, 3)), replace=False))
    out = [[e, [int(x) for x in g.integers(lo, hi, 3)]] for e in eps]
    return [out[i] for i in g.permutation(len(out))]  # in any order


def fill(g, shapes, n=1):
    return {k: torch.tensor(g.integers(-1 if k == "basis_matrix" else -2, 2 if k == "basis_matrix" else 3, (n, *s)), dtype=torch.float32) for k, s in shapes.items()}


def place(g):
    return tuple(float(x) for x in g.choice([1, 2, 4], 3)), tuple(float(x) / 2 for x in g.integers(-3, 4, 3))


def make(g, kind, args, tab, ext, tr, hold=True):
    name = CLS[kind].__name__
    m = VoxelGridModule(voxel_grid_class_type=name, extents=ext, translation=tr, hold_voxel_grid_as_parameters=hold, **{f"voxel_grid_{name}_args": DictConfig({**args, "resolution_changes": {k: v for k, v in tab}})})
    return m


def points(g, m, n):
    out = []
    for _ in range(n):
        out.append([int(round((t + e * (g.random() - 0.5) * 1.4) * 1000)) for t, e in zip(map(float, m.translation), map(float, m.extents))])
    return out


def evaluate(ctx, m, kind, o):
    g = ctx.g
    e = {"op": "eval", "local": False, "gs": [snap(m, kind, o)], "pts": [points(g, m, 6)]}

    def go(_e):
        p = torch.tensor(e["pts"][0], dtype=torch.float32) / 1000
        shape = [[6], [2, 3], [3, 1, 2]][int(g.integers(3))]
        out = m(p.reshape(*shape, 3))
        if list(out.shape[:-1]) != shape:
            raise AssertionError("shape")
        e["out"] = [iv(out.reshape(6, -1))]

    guard(e, go)
    return e


def isparam(m):
    return len(list(m.parameters())) > 0


def resize(ctx, m, kind, o, tab, hold):
    g = ctx.g
    ep = int(g.choice([t[0] for t in tab])) if g.random() < 0.7 else int(g.integers(0, 9))
    e = {"op": "resize", "tab": tab, "epoch": ep, "hold": hold, "g": snap(m, kind, o)}

    def go(_e):
        eps, f = m.subscribe_to_epochs()
        e["epochs"] = list(eps)
        e["change"] = bool(f(ep))
        e["resnow"] = list(m.voxel_grid.get_resolution(ep))
        e["h"] = snap(m, kind, o)
        e["isparam"] = isparam(m)

    guard(e, go)
    return e


def eighths(g, lo, hi):
    """increasing pair of multiples of 1/8, both mostly inside [lo, hi]"""
    a, b = sorted(g.choice(np.arange(int(lo * 8) - 1, int(hi * 8) + 2), 2, replace=False))
    return int(a) * 125, int(b) * 125


def crop(ctx, m, kind, o, hold):
    g = ctx.g
    e = {"op": "crop", "hold": hold, "g": snap(m, kind, o), "min": [], "max": []}
    for t, x in zip(m.translation, m.extents):
        while True:
            a, b = eighths(g, float(t) - float(x) / 2, float(t) + float(x) / 2)
            if a / 1000 < float(t) + float(x) / 2 and b / 1000 > float(t) - float(x) / 2:
                break
        e["min"].append(a)
        e["max"].append(b)

    def go(_e):
        m.crop_self(torch.tensor(e["min"]) / 1000.0, torch.tensor(e["max"]) / 1000.0)
        e["h"] = snap(m, kind, o)
        e["isparam"] = isparam(m)

    guard(e, go)
    return e


def gridpts(ctx, m, kind, o, tab):
    ep = int(ctx.g.integers(0, 9))
    e = {"op": "gridpts", "g": snap(m, kind, o), "res": m.voxel_grid.get_resolution(ep)}
    e["res"] = [int(x) for x in e["res"]]

    def go(_e):
        e["pts"] = iv(m.get_grid_points(ep))

    guard(e, go)
    return e


def module_trace(ctx):
    g = ctx.g
    kind, o, args, comp, nf, hasb = options(g)
    tab = table(g, lo=int(g.choice([1, 2, 2])))
    ext, tr = place(g)
    hold = bool(g.random() < 0.6)
    m = make(g, kind, args, tab, ext, tr, hold)
    m.set_voxel_grid_parameters(m.voxel_grid.values_type(**fill(g, m.voxel_grid.get_shapes(0))))
    yield evaluate(ctx, m, kind, o)
    yield gridpts(ctx, m, kind, o, tab)
    cropped = False
    for _ in range(int(g.integers(2, 6))):
        r = g.random()
        if r < 0.4:
            yield resize(ctx, m, kind, o, tab, hold)
        elif r < 0.7 and not cropped:
            cropped = True
            yield crop(ctx, m, kind, o, hold)
            yield gridpts(ctx, m, kind, o, tab)
        yield evaluate(ctx, m, kind, o)
    e = {"op": "reload", "g": snap(m, kind, o)}
    if cropped:
        e["kf"] = "crop-not-in-state-dict"

    def go(_e):
        n = make(g, kind, args, tab, ext, tr, hold)
        n.load_state_dict({k: v.clone() for k, v in m.state_dict().items()})
        e["h"] = snap(n, kind, o)

    guard(e, go)
    yield e


def local_trace(ctx):
    g = ctx.g
    kind, o, args, comp, nf, hasb = options(g)
    res = [int(x) for x in g.integers(1, 6, 3)]
    grid = CLS[kind](**args, resolution_changes={0: res})
    what = "ok"
    bad = dict(args)
    r = g.random()
    if r < 0.12:
        what = "table without epoch 0"
    elif r < 0.3 and kind != "full":
        what = ["several features without basis", "components twice", "no components", "components not divisible"][int(g.integers(1 if kind == "cp" else 4))]
        bad = {k: v for k, v in args.items() if k not in ("n_components", "distribution_of_components")} if kind == "vm" else bad
        if what == "several features without basis":
            bad.update(basis_matrix=False, n_features=2, **({"n_components": 3} if kind == "vm" else {}))
        elif what == "components twice":
            bad.update(n_components=3, distribution_of_components=(1, 1, 1))
        elif what == "components not divisible":
            bad.update(n_components=4)
    e = {"op": "shapes", "what": what, "kind": kind, "res": res, "comp": comp, "nf": nf, "hasb": hasb, "rejected": False}

    def go(_e):
        if what != "ok":
            try:
                CLS[kind](**bad, resolution_changes={1 if what[0] == "t" else 0: res}).get_shapes(0)
            except ValueError:
                e["rejected"] = True
            return
        e["shapes"] = {NAMES[k]: list(v) for k, v in grid.get_shapes(int(g.integers(0, 5))).items()}
        if kind != "full":
            e["shapes"].setdefault("basis", [])
        e["odim"] = CLS[kind].get_output_dim(DictConfig({"n_features": nf}))

    guard(e, go)
    yield e
    n = int(g.integers(1, 3))
    vals = fill(g, grid.get_shapes(0), n)
    pts = g.integers(-1300, 1301, (n, 4, 3))
    gs = [{"kind": kind, "ac": o["ac"], "pad": o["pad"], "mode": "nearest" if o["mode"] == "nearest" else "linear", "par": parsnap(vals, b), "ext": [20000] * 3, "tr": [0] * 3} for b in range(n)]
    e2 = {"op": "eval", "local": True, "gs": gs, "pts": pts.tolist()}

    def go2(_e):
        out = grid.evaluate_local(torch.tensor(pts, dtype=torch.float32).reshape(n, 2, 2, 3) / 1000, grid.values_type(**vals))
        if list(out.shape[:3]) != [n, 2, 2]:
            raise AssertionError("shape")
        e2["out"] = iv(out.reshape(n, 4, -1))

    guard(e2, go2)
    yield e2
    if kind == "full":
        new = [int(x) for x in g.integers(1, 7, 3)]
        e3 = {"op": "mode", "g": gs[0], "n": new}

        def go3(_e):
            want = grid.values_type(voxel_grid=torch.zeros(n, nf, *new))
            out, ch = grid.change_resolution(grid.values_type(**vals), grid_values_with_wanted_resolution=want, mode="nearest")
            e3["h"] = {"par": parsnap(vars(out))}

        guard(e3, go3)
        yield e3


def impl_trace(ctx):
    g = ctx.g
    ext, tr = place(g)
    sres = [int(x) for x in g.choice([2, 3, 5], 3)]
    relu, scale, shift = bool(g.random() < 0.5), int(g.integers(1, 3)), int(g.integers(-1, 2))
    cam = bool(g.random() < 0.35)
    pool = int(g.choice([1, 3]))
    filt = bool(g.random() < 0.8)
    do = {"ac": bool(g.random() < 0.7), "pad": "zeros", "mode": "bilinear"}
    co = {"ac": bool(g.random() < 0.7), "pad": ["zeros", "border"][int(g.integers(2))], "mode": "bilinear"}
    thr = int(g.choice([3000, 8000, 15000]))
    none = {"n_harmonic_functions": 0, "append_input": True}
    cfg = {"voxel_grid_density_args": {"extents": ext, "translation": tr, "voxel_grid_FullResolutionVoxelGrid_args": {"n_features": 1, "align_corners": do["ac"], "resolution_changes": {0: [int(x) for x in g.integers(2, 5, 3)]}}},
           "voxel_grid_color_args": {"extents": ext, "translation": tr, "voxel_grid_FullResolutionVoxelGrid_args": {"n_features": 2, "align_corners": co["ac"], "padding": co["pad"], "resolution_changes": {0: [int(x) for x in g.integers(2, 5, 3)]}}},
           "harmonic_embedder_xyz_density_args": none, "harmonic_embedder_xyz_color_args": none, "harmonic_embedder_dir_color_args": none,
           "decoder_density_class_type": "ElementwiseDecoder", "decoder_density_ElementwiseDecoder_args": {"scale": scale, "shift": shift, "operation": "RELU" if relu else "IDENTITY"},
           "decoder_color_class_type": "ElementwiseDecoder", "scaffold_resolution": sres, "scaffold_empty_space_threshold": thr / 10000, "scaffold_max_pool_kernel_size": pool,
           "scaffold_filter_points": filt, "scaffold_calculating_epochs": (1, 3), "volume_cropping_epochs": (2,), "xyz_ray_dir_in_camera_coords": cam,
           "scaffold_occupancy_chunk_size": int(g.choice([-1, 0, 1, 2, 3]))}
    f = VoxelGridImplicitFunction(**OmegaConf.merge(get_default_args(VoxelGridImplicitFunction), DictConfig(cfg)))
    for m in (f.voxel_grid_density, f.voxel_grid_color):
        m.set_voxel_grid_parameters(m.voxel_grid.values_type(**fill(g, m.voxel_grid.get_shapes(0))))
    so = {"ac": True, "pad": "zeros", "mode": "trilinear"}
    base = lambda: {"dg": snap(f.voxel_grid_density, "full", do), "cg": snap(f.voxel_grid_color, "full", co), "sg": snap(f.voxel_grid_scaffold, "full", so),
                    "relu": relu, "scale": scale, "shift": shift, "pool": pool, "thr": thr}
    state = {"ready": False}

    def forward():
        B, R, n = int(g.integers(1, 3)), int(g.integers(1, 4)), int(g.integers(1, 4))
        # everything dyadic: eighths of the world
        org = (np.array(tr) * 1000 + g.integers(-6, 7, (B * R, 3)) * 125).astype(int).tolist()
        d = g.integers(-2, 3, (B * R, 3))
        d[(d == 0).all(1)] = [0, 0, 1]
        length = (g.integers(0, 6, (B * R, n))).tolist()      # eighths, integer steps of 125
        e = {"op": "impl", **base(), "ready": state["ready"], "filter": filt, "cam": cam, "R": [], "camof": [1 + i // R for i in range(B * R)], "org": org, "len": [[125 * x for x in l] for l in length], "dir": d.tolist()}
        nc = B if g.random() < 0.7 else 1
        if nc == 1:
            e["camof"] = [1] * (B * R)
        Rs = []
        for _ in range(nc):
            M = np.zeros((3, 3), int)
            M[range(3), g.permutation(3)] = g.choice([-1, 1], 3)
            if np.linalg.det(M) < 0:
                M[0] *= -1
            Rs.append(M)
        e["R"] = [M.tolist() for M in Rs]

        def go(_e):
            camera = PerspectiveCameras(R=torch.tensor(np.array(Rs), dtype=torch.float32)) if cam else None
            b = ImplicitronRayBundle(origins=torch.tensor(org).float().reshape(B, R, 1, 3) / 1000, directions=torch.tensor(d).float().reshape(B, R, 1, 3),
                                     lengths=torch.tensor(length).float().reshape(B, R, 1, n) / 8, xys=torch.zeros(B, R, 1, 2))
            dd, cc, aux = f(b, camera=camera)
            if list(dd.shape) != [B, R, 1, n, 1] or list(cc.shape[:-1]) != [B, R, 1, n]:
                raise AssertionError("shape")
            e["d"], e["c"] = iv(dd.reshape(-1)), iv(cc.reshape(B * R * n, -1))

        guard(e, go)
        return e

    def epoch(k):
        e = {"op": "scaffold" if k in (1, 3) else "implcrop", **base()}

        def go(_e):
            eps, cb = f.subscribe_to_epochs()
            if sorted(eps) != [1, 2, 3]:
                raise AssertionError("epochs")
            e["change"] = bool(cb(k))
            e["dh"], e["ch"] = snap(f.voxel_grid_density, "full", do), snap(f.voxel_grid_color, "full", co)
            e["after"] = snap(f.voxel_grid_scaffold, "full", so)["par"]["vol"]
            state["ready"] = True

        guard(e, go)
        return e

    yield forward()
    yield epoch(1)
    yield forward()
    if g.random() < 0.6:
        u = f.voxel_grid_scaffold.params["voxel_grid"][0, 0]
        nz = torch.nonzero(u > 0)
        if len(nz) == 0 or bool((nz.max(0)[0] > nz.min(0)[0]).all()):
            yield epoch(2)
            # the crop is usually no longer dyadic: points between voxels would be undecided
            if not filt:
                yield forward()
            yield epoch(3)


def init_trace(ctx):
    """initial values: all equal to the mean when the standard deviation is zero, spread around it otherwise"""
    g = ctx.g
    kind, o, args, comp, nf, hasb = options(g)
    tab = table(g)
    ext, tr = place(g)
    std, mean = float(g.choice([0, 0, 0.25, 1])), int(g.integers(-3, 4))
    name = CLS[kind].__name__
    e = {"op": "init", "std": int(std * 100), "mean": mean * 100}

    def go(_e):
        vals = []
        for _ in range(1 if std == 0 else 12):
            m = VoxelGridModule(voxel_grid_class_type=name, extents=ext, translation=tr, init_mean=mean, init_std=std, hold_voxel_grid_as_parameters=bool(g.random() < 0.5),
                                **{f"voxel_grid_{name}_args": DictConfig({**args, "resolution_changes": {k: v for k, v in tab}})})
            vals += [v.detach().flatten() for v in vars(m.voxel_grid.values_type(**m.params)).values() if v is not None]
        v = torch.cat(vals)
        e.update(n=len(v), lo=iv(v.min(), 100), hi=iv(v.max(), 100), avg=iv(v.mean(), 100), dev=iv(v.std(unbiased=False), 100))

    guard(e, go)
    yield e


def traces(ctx):
    ctx.g = np.random.default_rng(ctx.np.randint(1 << 30))
    for _ in range(ctx.n(60, 1200)):
        yield list(module_trace(ctx))
        yield list(local_trace(ctx))
        yield list(local_trace(ctx))
        yield list(impl_trace(ctx))
        yield list(init_trace(ctx))
