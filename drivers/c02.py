import torch
import sharelib
from harness import enc, q, guard, attempt
from pytorch3d.structures import Pointclouds
from pytorch3d.structures.pointclouds import join_pointclouds_as_batch, join_pointclouds_as_scene
MODULE = "Clouds"
ASSUMPTIONS = ["integer coordinates, normals and features (exact in float32)", "batches holding at least one point (all-empty batches are only queried for len/isempty/valid/list)",
               "the values of the padding rows of estimated normals are not constrained"]
CFG = """SPECIFICATION Spec
CONSTANTS MaxObjs = {mo} Depth = {d} MaxEdits = {me} Multi = {multi} Old = FALSE
{view}
INVARIANT AccOk
{emit}
"""
ACC = ["num_points_per_cloud", "packed_to_cloud_idx", "cloud_to_packed_first_idx", "padded_to_packed_idx", "len", "isempty",
       "valid", "get_bounding_boxes", "get_cloud", "inside_box"]
FLD = {"P": "points", "N": "normals", "F": "features"}


def E(x, fld):
    if x is None:
        return []
    if isinstance(x, (list, tuple)):
        return [E(y, fld) for y in x]
    return q(x, 1000) if fld == "normals" else enc(x)


class R:
    def __init__(self, ctx):
        self.ctx, self.objs, self.tr, self.inputs = ctx, [], [], []

    def keep(self, *ts):
        for t in ts:
            if t is not None:
                for x in (t if isinstance(t, list) else [t]):
                    self.inputs.append((x, x.clone()))

    def step(self, ev, fn):
        new = []
        def go(e):
            new.extend(fn(e) or [])
            e["res"] = "ok"
        guard(ev, go)
        self.tr.append(ev)
        self.objs += new
        return "exc" not in ev

    def usable(self, m):
        return len(m) > 0 and not bool(m.isempty())

    def obs(self, a, kind, fld="", acc=None):
        rng = self.ctx.rng
        m = self.objs[a - 1]
        ev = {"op": "obs", "a": a, "kind": kind, "fld": fld, "acc": acc or f"{fld}_{kind}"}
        def go(e):
            if kind:
                x = getattr(m, f"{fld}_{kind}")()
                e["none"], e["o"] = x is None, E(x, fld)
            elif acc == "len":
                e["o"] = len(m)
            elif acc == "isempty":
                e["o"] = bool(m.isempty())
            elif acc == "valid":
                e["o"] = [bool(x) for x in m.valid]
            elif acc == "get_cloud":
                e["i"] = i = rng.randrange(len(m))
                p, n, f = m.get_cloud(i)
                e["o"] = {"p": E(p, "points"), "n": E(n, "normals"), "f": E(f, "features"),
                          "nn": n is None, "nf": f is None}
            elif acc == "inside_box":
                nb = rng.choice([1, len(m)])
                box = [[[rng.randint(-3, 0) for _ in range(3)], [rng.randint(0, 3) for _ in range(3)]] for _ in range(nb)]
                e["box"] = box
                t = torch.tensor(box).float()
                if nb == 1 and rng.random() < 0.5:
                    t = t[0]
                e["o"] = [bool(x) for x in m.inside_box(t)]
            else:
                e["o"] = enc(getattr(m, acc)())
        guard(ev, go)
        self.tr.append(ev)
        return "exc" not in ev

    def obs_all(self, a):
        m = self.objs[a - 1]
        if not self.usable(m):
            todo = [("", "", x) for x in ["len", "isempty", "valid"]] + [("list", "points", None)]
        else:
            todo = [(k, f, None) for k in ["list", "packed", "padded"] for f in FLD.values()] + [("", "", x) for x in ACC]
        self.ctx.rng.shuffle(todo)
        for k, f, acc in todo:
            if acc == "get_bounding_boxes" and any(len(x) == 0 for x in m.points_list()):
                continue
            if not self.obs(a, k, f, acc):
                return False
        return True

    def lists(self, lens, w):
        return [[[self.ctx.rng.randint(-3, 3) for _ in range(w)] for _ in range(n)] for n in lens]

    def new(self, born, n, f, lens=None, C=None):
        rng = self.ctx.rng
        if lens is None:
            k = rng.choice([1, 2, 2, 3, 4])
            lens = [rng.randint(1, 5)] * k if born == "padded" or rng.random() < 0.2 else [rng.choice([0, 1, 2, 3, 5]) for _ in range(k)]
            if not any(lens):
                lens[0] = 2
        C = C or rng.randint(1, 4)
        p = self.lists(lens, 3)
        nn = self.lists(lens, 3) if n else []
        ff = self.lists(lens, C) if f else []
        ev = {"op": "new", "born": born, "p": p, "n": [[[1000 * z for z in y] for y in x] for x in nn], "f": ff, "C": C}
        T = lambda x, w: torch.tensor(x).float().reshape(-1, w)
        def go(e):
            P = [T(x, 3) for x in p]
            N = [T(x, 3) for x in nn] if n else None
            F = [T(x, C) for x in ff] if f else None
            if born == "padded":
                P, N, F = [None if x is None else torch.stack(x) for x in (P, N, F)]
            self.keep(P, N, F)
            return [Pointclouds(P, N, F)]
        return self.step(ev, go)

    def run(self, beh):
        for b in beh:
            act = b["act"]
            if act == "new":
                ok = self.new(b["born"], b["n"], b["f"])
            else:
                b = dict(b)
                for k in ("a", "b"):  # skipped or multi-result steps shift the model's numbering
                    if k in b:
                        b[k] = 1 + (b[k] - 1) % len(self.objs)
                m = self.objs[b["a"] - 1]
                if not self.usable(m):
                    break
                ok = self.act(act, b["a"], m, b)
            if not ok:
                return
        for a in range(1, len(self.objs) + 1):
            if not self.obs_all(a):
                return
        self.tr.append({"op": "input", "same": all(torch.equal(x, y) for x, y in self.inputs)})

    def padded_of(self, lens, w):
        mx = max(lens)
        return [x + [[0] * w] * (mx - len(x)) for x in self.lists(lens, w)]

    def act(self, act, a, m, b):
        rng = self.ctx.rng
        tot = lambda: int(m.num_points_per_cloud().sum())
        if act == "touch":
            return self.obs(a, b["r"], FLD[b["f"]])
        if act in ("offset_", "offset_new"):
            d = [[rng.randint(-2, 2) for _ in range(3)] for _ in range(tot())]
            t = torch.tensor(d).float()
            return self.step({"op": act, "a": a, "d": d}, lambda e: self.inpl(m, m.offset_(t)) if act == "offset_" else [m.offset(t)])
        if act == "shift_":
            d = [rng.randint(-2, 2) for _ in range(3)]
            return self.step({"op": act, "a": a, "d": d}, lambda e: self.inpl(m, m.offset_(torch.tensor(d).float())))
        if act in ("scale_", "scale_new"):
            if rng.random() < 0.6:
                s = [rng.choice([-1, 1, 2]) for _ in range(len(m))]
                arg = torch.tensor(s).float()
            else:
                x = rng.choice([-1, 2])
                s, arg = [x] * len(m), float(x)
            return self.step({"op": act, "a": a, "s": s}, lambda e: self.inpl(m, m.scale_(arg)) if act == "scale_" else [m.scale(arg)])
        if act == "estimate_":
            lens = m.num_points_per_cloud()
            if int(lens.min()) < 3:
                return True
            def go(e):
                r = m.estimate_normals(neighborhood_size=2, assign_to_self=True, disambiguate_directions=rng.random() < 0.5)
                e["o"] = q(r, 1000)
            return self.step({"op": act, "a": a}, go)
        if act == "update_padded":
            lens = [int(x) for x in m.num_points_per_cloud()]
            C = m._C or rng.randint(1, 3) if not b["f"] else (m.features_list()[0].shape[1] if m.features_list() is not None else None)
            f = b["f"] and C is not None  # features can only be replaced, not introduced
            p = self.padded_of(lens, 3)
            n = self.padded_of(lens, 3) if b["n"] else []
            ff = self.padded_of(lens, C) if f else []
            T = lambda x: torch.tensor(x).float() if x else None
            def go(e):
                tp, tn, tf = T(p), T(n), T(ff)
                self.keep(tp, tn, tf)
                return [m.update_padded(tp, tn, tf)]
            return self.step({"op": act, "a": a, "p": p, "n": [[[1000 * z for z in y] for y in x] for x in n], "f": ff, "C": C or 0}, go)
        if act == "clone":
            return self.step({"op": act, "a": a}, lambda e: [m.clone()])
        if act == "to_copy":
            return self.step({"op": act, "a": a}, lambda e: [m.to("cpu", copy=True)])
        if act == "detach":
            return self.step({"op": act, "a": a}, lambda e: [m.detach()])
        if act == "extend":
            n = rng.randint(1, 3)
            return self.step({"op": act, "a": a, "n": n}, lambda e: [m.extend(n)])
        if act == "split":
            sizes, left = [], len(m)
            while left:
                k = rng.randint(1, left); sizes.append(k); left -= k
            return self.step({"op": act, "a": a, "sizes": sizes}, lambda e: m.split(sizes))
        if act == "getitem":
            n = len(m)
            kind = rng.choice(["int", "negint", "slice", "slice2", "list", "bool", "long"])
            if kind == "int":
                i = rng.randrange(n); idx, arg = [i], i
            elif kind == "negint":
                i = -rng.randint(1, n); idx, arg = [i], i
            elif kind == "slice":
                x = rng.randrange(n); y = rng.randint(x + 1, n); arg = slice(x, y); idx = list(range(n))[arg]
            elif kind == "slice2":
                arg = rng.choice([slice(None, None, 2), slice(None, None, -1), slice(-2, None)]); idx = list(range(n))[arg]
            elif kind == "list":
                idx = arg = [rng.randrange(-n, n) for _ in range(rng.randint(1, 4))]
            elif kind == "bool":
                mask = [rng.random() < 0.6 for _ in range(n)]; mask[rng.randrange(n)] = True
                arg = torch.tensor(mask); idx = [i for i in range(n) if mask[i]]
            else:
                idx = [rng.randrange(n) for _ in range(rng.randint(1, 4))]; arg = torch.tensor(idx)
            return self.step({"op": act, "a": a, "idx": idx, "kind": kind}, lambda e: [m[arg]])
        if act == "subsample":
            mx = [rng.randint(0, 5) for _ in range(len(m))]
            if not any(min(int(x), y) for x, y in zip(m.num_points_per_cloud(), mx)):
                mx[int(m.num_points_per_cloud().argmax())] = 1
            arg = mx
            if rng.random() < 0.4:
                arg = rng.randint(1, 4); mx = [arg] * len(m)
            ev = {"op": "subsample", "a": a, "max": mx}
            def go(e):
                r = m.subsample(arg)
                if r is m:
                    e["op"] = "subsample_self"
                    return []
                e["o"] = {"p": E(r.points_list(), "points"), "n": E(r.normals_list() or [], "normals"), "f": E(r.features_list() or [], "features")}
                return [r]
            return self.step(ev, go)
        if act == "join_batch":
            o = self.objs[b["b"] - 1]
            h = lambda x: [None if y is None else y[0].shape[1] for y in (x.normals_list(), x.features_list())]
            if not self.usable(o) or h(o) != h(m):
                return True
            return self.step({"op": act, "as": [a, b["b"]]}, lambda e: [join_pointclouds_as_batch([m, o])])
        if act == "join_scene":
            if len(m) > 1 and rng.random() < 0.5:
                return self.step({"op": act, "as": [a]}, lambda e: [join_pointclouds_as_scene(m)])
            return self.step({"op": act, "as": [a, a]}, lambda e: [join_pointclouds_as_scene([m, m])])
        raise KeyError(act)

    def inpl(self, m, r):
        assert r is m
        return []


def rejects(ctx):
    r = R(ctx)
    T = lambda n, w: torch.zeros(n, w)
    bad = [("cloud of shape Px2", lambda: Pointclouds([T(2, 2)])), ("padded tensor of shape NxPx2", lambda: Pointclouds(torch.zeros(1, 2, 2))),
           ("number of normals", lambda: Pointclouds([T(2, 3)], normals=[T(3, 3)])), ("number of features", lambda: Pointclouds([T(2, 3)], features=[T(1, 4)])),
           ("channel mix", lambda: Pointclouds([T(2, 3), T(1, 3)], features=[T(2, 4), T(1, 3)])), ("4-channel normals", lambda: Pointclouds([T(2, 3)], normals=[T(2, 4)])),
           ("padded features of another batch size", lambda: Pointclouds(torch.zeros(2, 2, 3), features=torch.zeros(1, 2, 4))),
           ("padded features of another width", lambda: Pointclouds(torch.zeros(2, 2, 3), features=torch.zeros(2, 3, 4))),
           ("2-d padded features", lambda: Pointclouds(torch.zeros(2, 2, 3), features=torch.zeros(2, 2))),
           ("padded normals of another batch size", lambda: Pointclouds(torch.zeros(2, 2, 3), normals=torch.zeros(3, 2, 3))),
           ("features list length", lambda: Pointclouds([T(2, 3), T(1, 3)], features=[T(2, 4)])),
           ("offset shape", lambda: Pointclouds([T(2, 3)]).offset_(T(3, 3))), ("update_padded width", lambda: Pointclouds([T(2, 3)]).update_padded(torch.zeros(1, 3, 3))),
           ("join of batches with and without features", lambda: join_pointclouds_as_batch([Pointclouds([T(2, 3)]), Pointclouds([T(2, 3)], features=[T(2, 1)])])),
           ("inverted box", lambda: Pointclouds([T(2, 3)]).inside_box(torch.tensor([[1., 1, 1], [0, 0, 0]])))]
    for what, fn in bad:
        r.tr.append({"op": "rejects", "what": what, "rejected": not attempt(fn)[0]})
    return r.tr


def traces(ctx):
    ctx.design("CloudCache (2 objects: every accessor returns the current version)", "CloudCache",
               CFG.format(mo=2, d=ctx.n(5, 7), me=2, multi="TRUE", view="VIEW View", emit=""))
    behs = ctx.behaviours("CloudCache exhaustive histories", "CloudCache", CFG.format(mo=2, d=3, me=2, multi="FALSE", view="", emit="INVARIANT Emit"))
    if not ctx.thorough:
        behs = ctx.rng.sample(behs, 350)
    behs += ctx.behaviours("CloudCache simulated histories", "CloudCache", CFG.format(mo=4, d=10, me=3, multi="TRUE", view="", emit="INVARIANT Emit"),
                           simulate=ctx.n(250, 3000), depth=11)
    for b in behs:
        r = R(ctx)
        r.run(b)
        yield r.tr
    yield rejects(ctx)
    for _ in range(6):
        r = R(ctx)
        n = ctx.rng.randint(0, 3)
        if r.step({"op": "new", "born": "list", "p": [[]] * n, "n": [], "f": [], "C": 0}, lambda e: [Pointclouds([torch.zeros(0, 3)] * n)]):
            r.obs_all(1)
        yield r.tr
    yield from sharelib.share(ctx, [sharelib.CloudK], ctx.n(100, 1500))
