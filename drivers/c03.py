import torch
from harness import enc, q, guard, attempt
from meshlib import rand_faces
from pytorch3d.structures import Meshes, join_meshes_as_batch, join_meshes_as_scene
from pytorch3d.renderer import TexturesVertex, TexturesAtlas, TexturesUV
from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.renderer.mesh.utils import pack_unique_rectangles, Rectangle
import c01
MODULE = "Textures"
ASSUMPTIONS = ["integer texel values, uv coordinates multiples of 1/64 inside [0,1]; barycentrics multiples of 1/8",
               "uv maps whose sizes refine each other (1,2,3,5 texels with aligned corners; equal sizes otherwise), so that padding maps by interpolation is exact",
               "background pixels of uv textures are unconstrained"]


class R:
    def __init__(self, ctx, kind):
        self.ctx, self.kind, self.objs, self.tr, self.inputs = ctx, kind, [], [], []
        rng = ctx.rng
        self.C = rng.randint(1, 3)
        self.Rr = rng.randint(1, 4)
        self.align = rng.random() < 0.6
        self.zeros = rng.random() < 0.25
        self.nearest = kind == "uv" and rng.random() < 0.2
        self.multi = kind == "uv" and rng.random() < 0.3
        self.dim = (rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4]))

    def step(self, ev, fn):
        new = []
        def go(e):
            new.extend(fn(e) or [])
            e["res"] = "ok"
        guard(ev, go)
        self.tr.append(ev)
        self.objs += new
        return "exc" not in ev

    def rnd(self, *shape):
        return self.ctx.np.randint(-4, 10, size=shape).tolist()

    def new(self, born):
        rng, C = self.ctx.rng, self.C
        n = rng.choice([1, 2, 2, 3])
        padded = born == "padded"
        nv = [rng.randint(3, 5) for _ in range(n)]
        if padded:
            nv = [nv[0]] * n
        f = [rand_faces(self.ctx, v, rng.randint(1, 4)) for v in nv]
        nfm = max(map(len, f))
        ev = {"op": "new", "kind": self.kind, "nv": nv, "f": f, "C": C, "align": self.align, "zeros": self.zeros, "nearest": self.nearest, "multi": self.multi}
        ft = lambda x: torch.tensor(x).float()
        if self.kind == "vertex":
            ev["t"] = [self.rnd(v, C) for v in nv]
        elif self.kind == "atlas":
            ev["t"] = [self.rnd(len(g), self.Rr, self.Rr, C) for g in f]
        else:
            nu = [rng.randint(3, 6) for _ in range(n)]
            if padded:
                nu = [nu[0]] * n
            step = 16 if self.align else 8
            if self.nearest:
                ev["vu"] = None
            ev["vu"] = [[[step * rng.randint(0, 64 // step) for _ in range(2)] for _ in range(k)] for k in nu]
            ev["fu"] = [[[rng.randrange(k) for _ in range(3)] for _ in g] for k, g in zip(nu, f)]
            dims = [
                (((1, 1) if rng.random() < 0.2 else (rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 5])))
                 if self.align else self.dim)
                for _ in range(n)
            ]
            if self.nearest:  # no ties, no resampling: dimensions for which the uvs are texel centres or off the midpoints
                dims = [(3, 5) if self.align else (2, 4)] * n
                ev["vu"] = [[[16 * rng.randint(0, 4) if self.align else 0, 32 * rng.randint(0, 2) if self.align else 0] for _ in range(k)] for k in nu]
                if not self.align:
                    ev["vu"] = [[[8 + 16 * rng.randint(0, 3), 16 + 32 * rng.randint(0, 1)] for _ in range(k)] for k in nu]
            if padded:
                dims = [dims[0]] * n
            if self.multi:
                M = [rng.randint(1, 4) for _ in range(n)]
                if padded:
                    M = [M[0]] * n
                ev["maps"] = [self.rnd(m, h, w, C) for m, (h, w) in zip(M, dims)]
                ev["ids"] = [[rng.randrange(m) for _ in g] for m, g in zip(M, f)]
            else:
                ev["maps"] = [self.rnd(h, w, C) for h, w in dims]
                if not padded and n > 1 and rng.random() < 0.2 and dims[0] == dims[1]:
                    ev["maps"][1] = ev["maps"][0]

        def go(e):
            ft2 = lambda x: x.float()
            if self.kind == "vertex":
                t = [ft(x) for x in e["t"]]
                src = torch.stack(t) if padded else t
                tex = TexturesVertex(src)
            elif self.kind == "atlas":
                t = [ft(x) for x in e["t"]]
                if padded:
                    src = torch.zeros(n, nfm, self.Rr, self.Rr, C)
                    for i, x in enumerate(t):
                        src[i, :len(x)] = x
                else:
                    src = t
                tex = TexturesAtlas(src)
            else:
                vu = [ft(x) / 64 for x in e["vu"]]
                fu = [torch.tensor(x).reshape(-1, 3) for x in e["fu"]]
                maps = [ft(x) for x in e["maps"]]
                if n > 1 and e["maps"][1] is e["maps"][0]:
                    maps[1] = maps[0]
                ids = [torch.tensor(x) for x in e["ids"]] if self.multi else None
                if padded:
                    vu, maps = torch.stack(vu), torch.stack(maps)
                    P = torch.zeros(n, nfm, 3, dtype=torch.int64)
                    for i, x in enumerate(fu):
                        P[i, :len(x)] = x
                    fu = P
                    if ids is not None:
                        I = torch.zeros(n, nfm, dtype=torch.int64)
                        for i, x in enumerate(ids):
                            I[i, :len(x)] = x
                        ids = I
                src = maps
                tex = TexturesUV(maps=maps, faces_uvs=fu, verts_uvs=vu, maps_ids=ids, align_corners=self.align,
                                 padding_mode="zeros" if self.zeros else "border", sampling_mode="nearest" if self.nearest else "bilinear")
            for x in (src if isinstance(src, list) else [src]):
                self.inputs.append((x, x.clone()))
            verts = [torch.tensor(self.rnd(v, 3)).float() for v in nv]
            return [Meshes(verts, [torch.tensor(g) for g in f], textures=tex)]
        return self.step(ev, go)

    def obs(self, a, acc):
        rng = self.ctx.rng
        m = self.objs[a - 1]
        ev = {"op": "obs", "a": a, "acc": acc}
        def go(e):
            t = m.textures
            if acc == "corners":
                x = t.faces_verts_textures_packed(m.faces_packed()) if self.kind == "vertex" else t.faces_verts_textures_packed()
                e["o"] = q(x, 1000)
            elif acc == "faces":
                e["o"] = [enc(x) for x in m.faces_list()]
            elif acc == "sample":
                nf = [len(x) for x in m.faces_list()]
                first = [sum(nf[:i]) for i in range(len(nf))]
                P = 6
                pix = []
                for i in range(len(m)):
                    row = []
                    for _ in range(P):
                        if self.nearest:
                            b = [0, 0, 0]; b[rng.randrange(3)] = 8
                        else:
                            x, y = sorted([rng.randint(0, 8), rng.randint(0, 8)])
                            b = [x, y - x, 8 - y]
                        row.append({"f": -1 if nf[i] == 0 or rng.random() < 0.1 else rng.randrange(nf[i]), "b": b})
                    pix.append(row)
                e["pix"] = pix
                pf = torch.tensor([[(first[i] + g["f"]) if g["f"] >= 0 else -1 for g in r] for i, r in enumerate(pix)]).reshape(len(m), 2, 1, 3)
                bc = (torch.tensor([[g["b"] for g in r] for r in pix]).float() / 8).reshape(len(m), 2, 1, 3, 3)
                fr = Fragments(pix_to_face=pf, zbuf=bc[..., 0], bary_coords=bc, dists=bc[..., 0])
                e["o"] = q(m.sample_textures(fr).reshape(len(m), P, -1), 1000)
            else:
                nm = {"vertex": "verts_features_", "atlas": "atlas_"}[self.kind] + acc
                x = getattr(t, nm)()
                e["o"] = [enc(y) for y in x] if acc == "list" else enc(x)
        guard(ev, go)
        self.tr.append(ev)
        return "exc" not in ev

    def obs_all(self, a):
        todo = ["corners", "sample", "faces"] + ([] if self.kind == "uv" else ["list", "packed", "padded"])
        self.ctx.rng.shuffle(todo)
        return all(self.obs(a, t) for t in todo)

    def run(self, beh):
        for b in beh:
            act = b["act"]
            if act == "new":
                if len(self.objs) < 3 and not self.new(b["born"]):
                    return
                continue
            ai = 1 + (b["a"] - 1) % len(self.objs)
            if not self.act(act, ai, self.objs[ai - 1], b):
                return
        for a in range(1, len(self.objs) + 1):
            if not self.obs_all(a):
                return
        self.tr.append({"op": "input", "same": all(torch.equal(x, y) for x, y in self.inputs)})

    def act(self, act, a, m, b):
        rng = self.ctx.rng
        if sum(len(x) for x in self.objs) > 14 and act in ("extend", "join_batch"):
            return True
        if act == "touch":
            return self.obs(a, rng.choice(["corners", "sample"] + ([] if self.kind == "uv" else ["list", "packed", "padded"])))
        if act in ("offset_", "shift_", "scale_"):
            return True
        if act in ("offset_new", "scale_new", "clone", "detach", "to_copy", "update_padded"):
            fn = {"offset_new": lambda e: [m.offset_verts(torch.ones(3))], "scale_new": lambda e: [m.scale_verts(2.0)], "clone": lambda e: [m.clone()],
                  "detach": lambda e: [m.detach()], "to_copy": lambda e: [m.to("cpu", copy=True)],
                  "update_padded": lambda e: [m.update_padded(m.verts_padded() + 1)]}[act]
            return self.step({"op": act, "a": a}, fn)
        if act == "getitem":
            n = len(m)
            kind = rng.choice(["int", "slice", "slice2", "list", "bool", "long"])
            if kind == "int":
                i = rng.randrange(-n, n); idx, arg = [i], i
            elif kind == "slice":
                x = rng.randrange(n); y = rng.randint(x + 1, n); arg = slice(x, y); idx = list(range(n))[arg]
            elif kind == "slice2":
                arg = rng.choice([slice(None, None, 2), slice(None, None, -1), slice(-2, None)]); idx = list(range(n))[arg]
            elif kind == "list":
                idx = arg = [rng.randrange(-n, n) for _ in range(rng.randint(1, 4))]
            elif kind == "bool":
                mask = [rng.random() < 0.6 for _ in range(n)]; mask[rng.randrange(n)] = True
                arg = torch.tensor(mask); idx = [i for i in range(n) if mask[i]]
            else:
                idx = [rng.randrange(n) for _ in range(rng.randint(1, 4))]; arg = torch.tensor(idx)
            return self.step({"op": act, "a": a, "idx": idx, "kind": kind}, lambda e: [m[arg]])
        if act == "extend":
            n = rng.randint(1, 3)
            return self.step({"op": act, "a": a, "n": n}, lambda e: [m.extend(n)])
        if self.multi and act in ("submeshes", "join_batch", "join_scene"):
            return True  # documented as not supported for several maps per mesh
        if act == "submeshes":
            fidx = [[[rng.randrange(len(f)) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(0, 2))] for f in m.faces_list()]
            if not any(fidx):
                fidx[0] = [[0]]
            return self.step({"op": act, "a": a, "fidx": fidx}, lambda e: [m.submeshes([[torch.tensor(x) for x in s] for s in fidx])])
        if act == "join_batch":
            bi = 1 + (b["b"] - 1) % len(self.objs)
            if self.kind == "uv":  # joining maps of incommensurable sizes resamples them
                sz = {tuple(x.shape[:2]) for o in (m, self.objs[bi - 1]) for x in o.textures.maps_list()}
                if len(sz) > 1 and not (self.align and not self.nearest and all(h in (1, 2, 3, 5) and w in (1, 2, 3, 5) for h, w in sz)):
                    return True
            return self.step({"op": act, "as": [a, bi]}, lambda e: [join_meshes_as_batch([m, self.objs[bi - 1]])])
        if act == "join_scene":
            if len(m) == 1:
                return self.step({"op": act, "as": [a, a]}, lambda e: [join_meshes_as_scene([m, m])])
            return self.step({"op": act, "as": [a]}, lambda e: [join_meshes_as_scene(m)])
        raise KeyError(act)


def packing(ctx):
    tr = []
    for _ in range(ctx.n(60, 1000)):
        n = ctx.rng.randint(2, 9)
        big = ctx.rng.choice([3, 6, 12])
        ids = [ctx.rng.randint(0, n + 2) for _ in range(n)]
        size = {i: [ctx.rng.randint(1, big), ctx.rng.randint(1, big)] for i in set(ids)}
        sizes = [size[i] for i in ids]
        def go(e):
            r = pack_unique_rectangles([Rectangle(s[0], s[1], i) for s, i in zip(sizes, ids)])
            e["o"] = {"total": list(map(int, r.total_size)), "loc": [{"x": int(l.x), "y": int(l.y), "fl": bool(l.flipped), "first": bool(l.is_first)} for l in r.locations]}
        tr.append(guard({"op": "pack", "sizes": sizes, "ids": ids}, go))
    return tr


def rejects(ctx):
    V, F = torch.zeros(3, 3), torch.tensor([[0, 1, 2]])
    mk = lambda tex: Meshes([V], [F], textures=tex)
    two = lambda t1, t2: join_meshes_as_batch([mk(t1), mk(t2)])
    at = lambda r: TexturesAtlas([torch.zeros(1, r, r, 3)])
    uv = lambda **k: TexturesUV(maps=[torch.zeros(2, 2, 3)], faces_uvs=[F], verts_uvs=[torch.zeros(3, 2)], **k)
    vt = lambda n=3: TexturesVertex([torch.zeros(n, 3)])
    bad = [("number of vertex features", lambda: mk(vt(2)).sample_textures(None)), ("mixed texture types", lambda: two(vt(), uv())),
           ("join of textured and untextured meshes", lambda: join_meshes_as_batch([mk(vt()), Meshes([V], [F])])),
           ("mixed align_corners", lambda: two(uv(), uv(align_corners=False))), ("mixed padding", lambda: two(uv(), uv(padding_mode="zeros"))),
           ("mixed sampling", lambda: two(uv(), uv(sampling_mode="nearest"))), ("3-d atlas", lambda: TexturesAtlas(torch.zeros(1, 2, 2))),
           ("atlas resolutions", lambda: TexturesAtlas([torch.zeros(1, 2, 2, 3), torch.zeros(1, 3, 3, 3)])),
           ("maps per mesh", lambda: TexturesUV(maps=[torch.zeros(2, 2, 3)] * 2, faces_uvs=[F], verts_uvs=[torch.zeros(3, 2)])),
           ("extend(0)", lambda: mk(vt()).extend(0)), ("number of atlas faces", lambda: mk(TexturesAtlas([torch.zeros(2, 2, 2, 3)])).sample_textures(None)),
           ("packing of a single rectangle", lambda: pack_unique_rectangles([Rectangle(1, 1, 0)]))]
    return [{"op": "rejects", "what": w, "rejected": not attempt(fn)[0]} for w, fn in bad]


def traces(ctx):
    behs = ctx.behaviours("MeshCache simulated histories", "MeshCache",
                          c01.CFG.format(mo=4, d=8, me=3, multi="TRUE", view="", emit="INVARIANT Emit"), simulate=ctx.n(330, 5000), depth=9)
    for i, b in enumerate(behs):
        r = R(ctx, ["vertex", "atlas", "uv", "uv"][i % 4])
        r.run(b)
        yield r.tr
    yield packing(ctx)
    yield rejects(ctx)
