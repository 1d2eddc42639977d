import torch
import sharelib
from harness import enc, q, guard, attempt
from pytorch3d.structures import Volumes
from pytorch3d.structures.volumes import VolumeLocator
MODULE = "Volumes"
ASSUMPTIONS = ["integer grid values and translations, voxel sizes multiples of 1/4 (also negative); coordinates compared to 1e-4 (local) and 3e-3 (world)",
               "world-to-local only for grids without one-voxel axes (the documented map is singular there)", "voxels outside a grid's own size are only constrained in value, not in coordinate"]


class R:
    def __init__(self, ctx):
        self.ctx, self.objs, self.tr, self.inputs = ctx, [], [], []

    def step(self, ev, fn):
        new = []
        def go(e):
            new.append(fn(e))
            e["res"] = "ok"
        guard(ev, go)
        self.tr.append(ev)
        self.objs += new
        return "exc" not in ev

    def rnd(self, *shape):
        return self.ctx.np.randint(-4, 10, size=shape).tolist()

    def keep(self, *ts):
        for t in ts:
            self.inputs.append((t, t.clone()))
        return ts[0]

    def place(self, n, what):
        rng = self.ctx.rng
        vals = [-4, -2, 1, 2, 3, 4, 6, 8] if what == "vs" else list(range(-3, 4))
        forms = ["scalar_py", "scalar_t", "vec_py", "vec_list", "vec_t", "row", "mat"] + (["col", "one"] if what == "vs" else [])
        if what == "t":
            forms = ["vec_py", "vec_list", "vec_t", "row", "mat"]
        form = rng.choice(forms)
        s = 4.0 if what == "vs" else 1.0
        v3 = [rng.choice(vals) for _ in range(3)]
        ft = lambda x: self.keep(torch.tensor(x, dtype=torch.float32) / s)
        if form == "scalar_py":
            return "scalar", v3[:1], v3[0] / s
        if form == "scalar_t":
            return "scalar", v3[:1], ft(v3[0])
        if form == "one":
            return "scalar", v3[:1], ft(v3[:1])
        if form == "vec_py":
            return "vec", v3, tuple(x / s for x in v3)
        if form == "vec_list":
            return "vec", v3, [x / s for x in v3]
        if form == "vec_t":
            return "vec", v3, ft(v3)
        if form == "row":
            return "vec", v3, ft([v3])
        if form == "col":
            m = [[rng.choice(vals)] for _ in range(n)]
            return "col", m, ft(m)
        m = [[rng.choice(vals) for _ in range(3)] for _ in range(n)]
        return "mat", m, ft(m)

    def new(self):
        rng = self.ctx.rng
        n = rng.choice([1, 2, 2, 3, 3])
        padded = rng.random() < 0.4
        hasf = rng.random() < 0.7
        small = rng.random() < 0.2
        sz = [[rng.choice([1, 2, 3, 4] if small else [2, 3, 4]) for _ in range(3)] for _ in range(n)]
        if padded or rng.random() < 0.2:
            sz = [sz[0]] * n
        cd, cf = rng.randint(1, 2), rng.randint(1, 3)
        d = [self.rnd(cd, *s) for s in sz]
        f = [self.rnd(cf, *s) for s in sz] if hasf else []
        vsform, vs, vsarg = self.place(n, "vs")
        tform, t, targ = self.place(n, "t")
        align = rng.random() < 0.5
        ev = {"op": "new", "d": d, "f": f, "hasf": hasf, "align": align, "vsform": vsform, "vs": vs, "tform": tform, "t": t, "_padded": padded}
        dt = [torch.tensor(x).float() for x in d]
        ft = [torch.tensor(x).float() for x in f]
        if padded:
            darg, farg = torch.stack(dt), torch.stack(ft) if hasf else None
            self.keep(*[x for x in (darg, farg) if x is not None])
        else:
            darg, farg = dt, ft if hasf else None
            self.keep(*dt, *ft)
            if rng.random() < 0.3:
                darg = tuple(darg)
        return self.step(ev, lambda e: Volumes(densities=darg, features=farg, voxel_size=vsarg, volume_translation=targ, align_corners=align))

    def obs_all(self, a, accs=None):
        rng = self.ctx.rng
        v = self.objs[a - 1]
        allacc = ["densities", "features", "densities_list", "features_list", "grid_sizes", "len", "align", "grid_local", "grid_world", "to_world", "to_local", "samples"]
        accs = accs or allacc
        if not accs == allacc:
            accs = [x for x in accs]
        for acc in accs:
            ev = {"op": "obs", "a": a, "acc": acc}
            n = len(v)
            if acc == "to_local" and bool((v.get_grid_sizes() == 1).any()):
                continue
            if acc in ("to_world", "to_local"):
                k = rng.choice([1, 2, 4])
                ev["p"] = [[[rng.randint(-8, 8) for _ in range(3)] for _ in range(k)] for _ in range(n)]
            def go(e, acc=acc):
                if acc == "densities":
                    e["o"] = enc(v.densities())
                elif acc in ("features", "features_list"):
                    x = getattr(v, acc)()
                    e["none"] = x is None
                    e["o"] = [] if x is None else enc(x)
                elif acc == "densities_list":
                    e["o"] = enc(v.densities_list())
                elif acc == "grid_sizes":
                    e["o"] = enc(v.get_grid_sizes())
                elif acc == "len":
                    e["o"] = len(v)
                elif acc == "align":
                    e["o"] = bool(v.get_align_corners())
                elif acc == "grid_local":
                    e["o"] = q(v.get_coord_grid(world_coordinates=False), 10000)
                elif acc == "grid_world":
                    e["o"] = q(v.get_coord_grid() if rng.random() < 0.5 else v.get_coord_grid(world_coordinates=True), 1000)
                elif acc == "samples":
                    g = v.get_coord_grid(world_coordinates=False)
                    out = []
                    for i, d in enumerate(v.densities_list()):
                        s = d.shape[1:]
                        gi = g[i, : s[0], : s[1], : s[2]]
                        o = torch.nn.functional.grid_sample(d[None], gi[None], align_corners=v.get_align_corners())[0]
                        out.append(enc(o))
                    e["o"] = out
                elif acc == "to_world":
                    p = torch.tensor(e["p"]).float() / 8
                    r = self.shaped(p, lambda x: v.local_to_world_coords(x), lambda x: v.get_local_to_world_coords_transform().transform_points(x))
                    e["o"] = q(r, 1000)
                else:
                    p = torch.tensor(e["p"]).float()
                    r = self.shaped(p, lambda x: v.world_to_local_coords(x), lambda x: v.get_world_to_local_coords_transform().transform_points(x))
                    e["o"] = q(r, 10000)
            self.tr.append(guard(ev, go))

    def shaped(self, p, fn, tf):
        u = self.ctx.rng.random()
        n, k = p.shape[:2]
        if u < 0.25:
            return tf(p)
        if u < 0.5 and k % 2 == 0:
            return fn(p.reshape(n, 2, k // 2, 3)).reshape(n, k, 3)
        return fn(p)

    def op(self):
        rng = self.ctx.rng
        a = rng.randrange(len(self.objs)) + 1
        v = self.objs[a - 1]
        n = len(v)
        kind = rng.choice(["clone", "to", "to_copy", "getitem", "getitem", "getitem", "update_padded", "new"])
        if kind == "new":
            return self.new()
        ev = {"op": kind, "a": a}
        if kind == "clone":
            return self.step(ev, lambda e: v.clone())
        if kind == "to":
            return self.step(ev, lambda e: v.to("cpu") if rng.random() < 0.5 else v.cpu())
        if kind == "to_copy":
            return self.step(ev, lambda e: v.to(torch.device("cpu"), copy=True))
        if kind == "getitem":
            form = rng.choice(["int", "neg", "slice", "list", "bool", "long"])
            if form == "int":
                i = rng.randrange(n); idx, arg = [i], i
            elif form == "neg":
                i = rng.randrange(n); idx, arg = [i], i - n
            elif form == "slice":
                lo = rng.randrange(n); hi = rng.randint(lo + 1, n)
                arg = slice(lo, hi, rng.choice([None, 1, 2])); idx = list(range(n))[arg]
            elif form == "list":
                idx = [rng.randrange(n) for _ in range(rng.randint(1, 3))]; arg = list(idx)
            elif form == "bool":
                m = [rng.random() < 0.6 for _ in range(n)]
                m[rng.randrange(n)] = True
                idx, arg = [i for i in range(n) if m[i]], torch.tensor(m)
            else:
                idx = [rng.randrange(n) for _ in range(rng.randint(1, 3))]; arg = torch.tensor(idx)
            ev["idx"] = idx
            return self.step(ev, lambda e: v[arg])
        D, H, W = v.densities().shape[2:]
        ev["hasf"] = rng.random() < 0.6
        ev["d"] = self.rnd(n, rng.randint(1, 2), D, H, W)
        ev["f"] = self.rnd(n, rng.randint(1, 2), D, H, W) if ev["hasf"] else []
        d, f = torch.tensor(ev["d"]).float(), torch.tensor(ev["f"]).float() if ev["hasf"] else None
        self.keep(*[x for x in (d, f) if x is not None])
        return self.step(ev, lambda e: v.update_padded(d, f) if ev["hasf"] else v.update_padded(d))

    def rejects(self):
        t = lambda *s: torch.zeros(*s)
        v = lambda: Volumes(densities=t(2, 1, 3, 3, 3))
        cases = {
            "densities of different channel counts": lambda: Volumes(densities=[t(1, 2, 2, 2), t(2, 2, 2, 2)]),
            "4-dim densities tensor": lambda: Volumes(densities=t(2, 3, 3, 3)),
            "list of 3-dim densities": lambda: Volumes(densities=[t(3, 3, 3), t(3, 3, 3)]),
            "features of another resolution": lambda: Volumes(densities=t(2, 1, 3, 3, 3), features=t(2, 1, 3, 3, 2)),
            "features of another batch size": lambda: Volumes(densities=t(2, 1, 3, 3, 3), features=t(1, 1, 3, 3, 3)),
            "feature sizes per element": lambda: Volumes(densities=[t(1, 2, 2, 2), t(1, 3, 3, 3)], features=[t(1, 3, 3, 3), t(1, 2, 2, 2)]),
            "voxel size of 2 numbers": lambda: Volumes(densities=t(2, 1, 3, 3, 3), voxel_size=(1.0, 2.0)),
            "translation of 2 numbers": lambda: Volumes(densities=t(2, 1, 3, 3, 3), volume_translation=[1.0, 2.0]),
            "voxel size of a wrong batch": lambda: Volumes(densities=t(2, 1, 3, 3, 3), voxel_size=t(4, 3)),
            "update with another resolution": lambda: v().update_padded(t(2, 1, 3, 3, 4)),
            "update with another batch size": lambda: v().update_padded(t(1, 1, 3, 3, 3)),
            "update with features of another resolution": lambda: v().update_padded(t(2, 1, 3, 3, 3), t(2, 1, 2, 3, 3)),
            "float index": lambda: v()[torch.tensor([0.0, 1.0])],
            "two-dimensional index": lambda: v()[torch.tensor([[0, 1]])],
            "string index": lambda: v()["a"],
            "out of range index": lambda: v()[5],
        }
        for k, fn in cases.items():
            ok, _ = attempt(fn)
            self.tr.append({"op": "rejects", "what": k, "rejected": not ok})

    def locator(self):
        rng = self.ctx.rng
        n = rng.randint(1, 3)
        form = rng.choice(["tuple", "list", "tensor", "listlong"])
        sz = [[rng.choice([2, 3, 4, 5]) for _ in range(3)] for _ in range(n)]
        if form == "tuple":
            sz = [sz[0]] * n
        vsform, vs, vsarg = self.place(n, "vs")
        tform, t, targ = self.place(n, "t")
        align = rng.random() < 0.5
        arg = {"tuple": tuple(sz[0]), "list": [tuple(x) for x in sz], "tensor": torch.tensor(sz), "listlong": [torch.LongTensor(x) for x in sz]}[form]
        def go(e):
            l = VolumeLocator(batch_size=n, grid_sizes=arg, device=torch.device("cpu"), voxel_size=vsarg, volume_translation=targ, align_corners=align)
            e["o"] = {"local": q(l.get_coord_grid(False), 10000), "world": q(l.get_coord_grid(True), 1000), "sz": enc(l.get_grid_sizes())}
        self.tr.append(guard({"op": "locator", "sz": sz, "align": align, "vsform": vsform, "vs": vs, "tform": tform, "t": t, "_form": form}, go))

    def finish(self):
        self.tr.append({"op": "input", "same": all(torch.equal(a, b) for a, b in self.inputs)})
        return self.tr


def traces(ctx):
    r = R(ctx)
    r.rejects()
    yield r.finish()
    for _ in range(ctx.n(90, 3000)):
        r = R(ctx)
        if r.new():
            for _ in range(ctx.rng.randint(0, 5)):
                r.op()
            for a in range(1, len(r.objs) + 1):
                r.obs_all(a)
        r.locator()
        yield r.finish()
    yield from sharelib.share(ctx, [sharelib.VolK], ctx.n(60, 900))
