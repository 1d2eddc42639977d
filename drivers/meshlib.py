"""Shared by the mesh-structure drivers: random batches, the replay of model behaviours into
pytorch3d.structures.Meshes, and the accessors' projections."""
import torch
from harness import enc, q, guard
from pytorch3d.structures import Meshes, join_meshes_as_batch, join_meshes_as_scene


def rand_faces(ctx, nv, nf, degenerate=False):
    out = []
    for _ in range(nf):
        if nv >= 3 and not (degenerate and ctx.rng.random() < 0.15):
            out.append(ctx.rng.sample(range(nv), 3))
        else:
            out.append([ctx.rng.randrange(nv) for _ in range(3)])
    return out


def rand_lists(ctx, n=None, empty_ok=True, maxv=6, maxf=6, lo=-3, hi=3):
    n = n if n is not None else ctx.rng.choice([1, 2, 2, 3, 3, 4])
    vs, fs = [], []
    same = ctx.rng.random() < 0.25
    nv0, nf0 = ctx.rng.randint(3, maxv), ctx.rng.randint(1, maxf)
    for i in range(n):
        r = ctx.rng.random()
        nv, nf = (nv0, nf0) if same else (ctx.rng.randint(3, maxv), ctx.rng.randint(1, maxf))
        if empty_ok and n > 1 and not same and r < 0.15:
            nv, nf = 0, 0
        elif empty_ok and n > 1 and not same and r < 0.22:
            nf = 0
        vs.append([[ctx.rng.randint(lo, hi) for _ in range(3)] for _ in range(nv)])
        fs.append(rand_faces(ctx, nv, nf, True) if nv else [])
    if all(not v or not f for v, f in zip(vs, fs)):
        return rand_lists(ctx, n, empty_ok, maxv, maxf, lo, hi)
    return vs, fs


def T3(x, dtype=torch.float32):
    return torch.tensor(x, dtype=dtype).reshape(-1, 3)


ACC = {
    "list": ["verts_list", "faces_list", "get_mesh_verts_faces"],
    "packed": ["verts_packed", "faces_packed", "verts_packed_to_mesh_idx", "faces_packed_to_mesh_idx",
               "mesh_to_verts_packed_first_idx", "mesh_to_faces_packed_first_idx"],
    "padded": ["verts_padded", "faces_padded"],
    "edges": ["edges_packed", "edges_packed_to_mesh_idx", "num_edges_per_mesh", "mesh_to_edges_packed_first_idx",
              "faces_packed_to_edges_packed"],
    "areas": ["faces_areas_packed", "faces_normals_packed", "faces_normals_padded", "faces_normals_list"],
    "vnormals": ["verts_normals_packed", "verts_normals_list", "verts_normals_padded"],
    "lap": ["laplacian_packed"],
    "padidx": ["verts_padded_to_packed_idx"],
    "cheap": ["len", "isempty", "num_verts_per_mesh", "num_faces_per_mesh", "valid"],
    "bb": ["bounding_boxes"],
}
ALLACC = [a for k in ACC for a in ACC[k]]


def observe(m, acc, i=None):
    if acc == "len":
        return len(m)
    if acc == "isempty":
        return bool(m.isempty())
    if acc == "valid":
        return [bool(x) for x in m.valid]
    if acc == "bounding_boxes":
        return enc(m.get_bounding_boxes())
    if acc == "get_mesh_verts_faces":
        v, f = m.get_mesh_verts_faces(i)
        return [enc(v), enc(f)]
    fresh = acc in ("faces_normals_packed", "faces_normals_list", "verts_normals_packed", "verts_normals_list") and not m.has_verts_normals()
    r = getattr(m, acc)()
    if fresh:  # directions do not depend on the unit of length
        k = 2.0 ** -7
        t = getattr(Meshes([v * k for v in m.verts_list()], m.faces_list()), acc)()
        s = list(r) if isinstance(r, (tuple, list)) else [r]
        t = list(t) if isinstance(t, (tuple, list)) else [t]
        if len(s) != len(t) or any(x.shape != y.shape or not torch.allclose(x, y.to(x), atol=1e-3) for x, y in zip(s, t)):
            return [[[99999, 0, 0]]]
    if acc == "faces_areas_packed":
        return enc(4 * r.double() ** 2, exact=0.3)
    if "normals" in acc:
        return q(list(r) if isinstance(r, (tuple, list)) else r, 1000)
    if acc == "laplacian_packed":
        return enc(r.to_dense().double() * 2520, exact=0.01)
    if isinstance(r, (list, tuple)):
        return [enc(x) for x in r]
    return enc(r)


class Replay:
    """Executes one model behaviour on the real container, recording the trace."""

    def __init__(self, ctx, float64=False):
        self.ctx, self.objs, self.tr, self.inputs = ctx, [], [], []
        self.dtype = torch.float32

    def keep(self, *ts):
        """Remember tensors handed to the library: operations must not modify them."""
        for t in ts:
            for x in (t if isinstance(t, list) else [t]):
                self.inputs.append((x, x.clone()))
        return ts

    def step(self, ev, fn):
        """fn() performs the operation and returns the new objects."""
        new = []

        def go(e):
            new.extend(fn())
            e["res"] = "ok"
        guard(ev, go)
        self.tr.append(ev)
        if "exc" in ev:
            return False
        self.objs += new
        return True

    def obs(self, a, acc, i=None):
        m = self.objs[a - 1]
        ev = {"op": "obs", "a": a, "acc": acc}
        if acc == "get_mesh_verts_faces":
            ev["i"] = i = self.ctx.rng.randrange(len(m)) if i is None else i
        def go(e):
            e["o"] = observe(m, acc, i)
        guard(ev, go)
        self.tr.append(ev)
        return "exc" not in ev

    def usable(self, a):
        m = self.objs[a - 1]
        return len(m) > 0 and not bool(m.isempty())

    def obs_all(self, a, accs=None, frac=1.0):
        accs = list(accs or ALLACC)
        self.ctx.rng.shuffle(accs)
        if not self.usable(a):
            accs = ["len", "isempty", "verts_list", "faces_list", "valid"]
        for acc in accs:
            if acc == "bounding_boxes" and any(len(v) == 0 for v in self.objs[a - 1].verts_list()):
                continue
            if self.ctx.rng.random() <= frac and not self.obs(a, acc):
                return

    def new_list(self, vs=None, fs=None):
        ctx = self.ctx
        if vs is None:
            vs, fs = rand_lists(ctx)
        fs2 = [list(f) for f in fs]
        if ctx.rng.random() < 0.2:  # padding rows in list faces are dropped
            k = ctx.rng.randrange(len(fs2))
            if len(fs2[k]):
                fs2[k] = fs2[k] + [[-1, -1, -1]]
        fdt = ctx.rng.choice([torch.int64, torch.int64, torch.int32])
        return self.step({"op": "list", "v": vs, "f": fs2},
                         lambda: [Meshes(*self.keep([T3(v, self.dtype) for v in vs], [T3(f, fdt if f else torch.int64) for f in fs2]))])

    def new_padded(self):
        ctx = self.ctx
        n = ctx.rng.choice([1, 2, 3])
        nv = ctx.rng.randint(3, 6)
        vs = [[[ctx.rng.randint(-3, 3) for _ in range(3)] for _ in range(nv)] for _ in range(n)]
        nf = [ctx.rng.randint(0, 5) for _ in range(n)]
        nf[ctx.rng.randrange(n)] = ctx.rng.randint(1, 5)
        width = max(nf) + (1 if ctx.rng.random() < 0.25 else 0)
        fs = [rand_faces(ctx, nv, k) + [[-1, -1, -1]] * (width - k) for k in nf]
        return self.step({"op": "padded", "v": vs, "f": fs},
                         lambda: [Meshes(*self.keep(torch.tensor(vs, dtype=self.dtype), torch.tensor(fs)))])

    def bound(self, a):
        vl = self.objs[a - 1].verts_list()
        return max([float(v.abs().max()) for v in vl if len(v)] + [0])

    def delta(self, a):
        n = int(sum(len(v) for v in self.objs[a - 1].verts_list()))
        return [[self.ctx.rng.randint(-2, 2) for _ in range(3)] for _ in range(n)]

    def factor(self, a):
        m = self.objs[a - 1]
        big = self.bound(a) * 2 > 12
        per = self.ctx.rng.random() < 0.6
        ch = [-1, 1] if big else [2, -1, 2, -2, 1]
        if per:
            s = [self.ctx.rng.choice(ch) for _ in range(len(m))]
            arg = torch.tensor(s, dtype=torch.float32)
        else:
            x = self.ctx.rng.choice(ch)
            s = [x] * len(m)
            arg = float(x)
        return s, arg

    def run(self, beh):
        ctx = self.ctx
        for b in beh:
            act = b["act"]
            if act == "new":
                ok = self.new_list() if b["born"] == "list" else self.new_padded()
            else:
                b = dict(b)
                for k in ("a", "b"):  # skipped steps shift the model's numbering
                    if k in b:
                        b[k] = 1 + (b[k] - 1) % len(self.objs)
                a = b["a"]
                m = self.objs[a - 1]
                if not self.usable(a) and act != "touch":
                    return  # derived batch holds nothing valid: outside this model
                ok = self.act(act, a, m, b)
            if not ok:
                return
        for a in range(1, len(self.objs) + 1):
            self.obs_all(a)
            if self.tr and "exc" in self.tr[-1]:
                return
        self.tr.append({"op": "input", "same": all(torch.equal(x, y) for x, y in self.inputs)})

    def act(self, act, a, m, b):
        ctx = self.ctx
        if act == "touch":
            if not self.usable(a):
                return True
            return self.obs(a, ctx.rng.choice(ACC[b["c"]]))
        if act == "offset_":
            d = self.delta(a)
            return self.step({"op": "offset_", "a": a, "d": d}, lambda: self._none(m.offset_verts_(T3(d)), m))
        if act == "offset_new":
            d = self.delta(a)
            return self.step({"op": "offset_new", "a": a, "d": d}, lambda: [m.offset_verts(T3(d))])
        if act == "shift_":
            d = [ctx.rng.randint(-2, 2) for _ in range(3)]
            return self.step({"op": "shift_", "a": a, "d": d}, lambda: self._none(m.offset_verts_(torch.tensor(d).float()), m))
        if act == "scale_":
            s, arg = self.factor(a)
            return self.step({"op": "scale_", "a": a, "s": s}, lambda: self._none(m.scale_verts_(arg), m))
        if act == "scale_new":
            s, arg = self.factor(a)
            return self.step({"op": "scale_new", "a": a, "s": s}, lambda: [m.scale_verts(arg)])
        if act == "clone":
            return self.step({"op": "clone", "a": a}, lambda: [m.clone()])
        if act == "to_copy":
            return self.step({"op": "to_copy", "a": a}, lambda: [m.to("cpu", copy=True)])
        if act == "detach":
            return self.step({"op": "detach", "a": a}, lambda: [m.detach()])
        if act == "extend":
            n = ctx.rng.randint(1, 3)
            return self.step({"op": "extend", "a": a, "n": n}, lambda: [m.extend(n)])
        if act == "update_padded":
            vl = m.verts_list()
            V = max(len(v) for v in vl)
            nv = [[[ctx.rng.randint(-3, 3) for _ in range(3)] for _ in range(len(v))] for v in vl]
            pad = torch.tensor([v + [[0, 0, 0]] * (V - len(v)) for v in nv], dtype=torch.float32).reshape(len(nv), V, 3)
            nvp = [v + [[0, 0, 0]] * (V - len(v)) for v in nv]
            return self.step({"op": "update_padded", "a": a, "v": nvp}, lambda: [m.update_padded(*self.keep(pad))])
        if act == "getitem":
            n = len(m)
            kind = ctx.rng.choice(["int", "negint", "slice", "slice2", "list", "bool", "long"])
            if kind == "int":
                i = ctx.rng.randrange(n); idx, arg = [i], i
            elif kind == "negint":
                i = -ctx.rng.randint(1, n); idx, arg = [i], i
            elif kind == "slice":
                x = ctx.rng.randrange(n); y = ctx.rng.randint(x + 1, n); arg = slice(x, y); idx = list(range(n))[arg]
            elif kind == "slice2":
                arg = ctx.rng.choice([slice(None, None, 2), slice(None, None, -1), slice(-2, None)]); idx = list(range(n))[arg]
            elif kind == "list":
                arg = [ctx.rng.randrange(-n, n) for _ in range(ctx.rng.randint(1, 4))]; idx = arg
            elif kind == "bool":
                mask = [ctx.rng.random() < 0.6 for _ in range(n)]; mask[ctx.rng.randrange(n)] = True
                arg = torch.tensor(mask); idx = [i for i in range(n) if mask[i]]
            else:
                idx = [ctx.rng.randrange(n) for _ in range(ctx.rng.randint(1, 4))]; arg = torch.tensor(idx)
            return self.step({"op": "getitem", "a": a, "idx": idx, "kind": kind}, lambda: [m[arg]])
        if act == "split":
            n = len(m)
            sizes, left = [], n
            while left:
                k = ctx.rng.randint(1, left); sizes.append(k); left -= k
            return self.step({"op": "split", "a": a, "sizes": sizes}, lambda: m.split(sizes))
        if act == "submeshes":
            fidx = []
            for f in m.faces_list():
                subs = []
                for _ in range(ctx.rng.randint(0, 2)):
                    if len(f):
                        subs.append([ctx.rng.randrange(len(f)) for _ in range(ctx.rng.randint(1, min(3, len(f))))])
                fidx.append(subs)
            if not any(fidx):
                k = [i for i, f in enumerate(m.faces_list()) if len(f)][0]
                fidx[k] = [[0]]
            return self.step({"op": "submeshes", "a": a, "fidx": fidx},
                             lambda: [m.submeshes([[torch.tensor(x) for x in s] for s in fidx])])
        if act == "join_batch":
            as_ = [a, b["b"]]
            if not self.usable(b["b"]):
                return True
            return self.step({"op": "join_batch", "as": as_}, lambda: [join_meshes_as_batch([self.objs[k - 1] for k in as_])])
        if act == "join_scene":
            if ctx.rng.random() < 0.5 and len(m) > 1:  # of a single mesh the scene is that very object
                return self.step({"op": "join_scene", "as": [a]}, lambda: [join_meshes_as_scene(m)])
            return self.step({"op": "join_scene", "as": [a, a]}, lambda: [join_meshes_as_scene([m, m])])
        raise KeyError(act)

    def _none(self, ret, m):
        assert ret is m, "in-place operation must return self"
        return []
