import sys
import types
import warnings
from typing import Dict, List, Optional

from harness import guard
from omegaconf import DictConfig, ListConfig, OmegaConf
from pytorch3d.implicitron.tools import config as cf
MODULE = "Config"
ASSUMPTIONS = ["hierarchies of classes without multiple inheritance; no class contains itself", "implementation names are distinct between base classes"]
NAMES = ["Aa", "B", "Ba_x", "C_1", "Dd", "Zeta", "alpha", "m_x"]
MOD = types.ModuleType("vp_cfg_functions")
sys.modules["vp_cfg_functions"] = MOD


def leaf(x):
    t = "none" if x is None else "bool" if isinstance(x, bool) else "int" if isinstance(x, int) else "str" if isinstance(x, str) else "list"
    return {"t": t, "i": int(x) if t in ("int", "bool") else 0, "s": x if t == "str" else "", "v": [int(y) for y in x] if t == "list" else [], "ch": []}


def tree(x):
    if isinstance(x, (dict, DictConfig)):
        return {"t": "node", "i": 0, "s": "", "v": [], "ch": [{"n": k, "x": tree(x[k])} for k in x]}
    if isinstance(x, (list, tuple, ListConfig)):
        return leaf(list(x))
    return leaf(x)


class World:
    def __init__(self):
        self.defs, self.py, self.log = [], [], []

    def root(self, c):
        return c if self.defs[c - 1]["par"] == 0 else self.root(self.defs[c - 1]["par"])

    def define(self, name, kind, par, own):
        d = {"name": name, "rk": sorted(NAMES + ["x"]).index(name) if name in NAMES else 0, "kind": kind, "par": par, "own": own}
        self.defs.append(d)
        i = len(self.defs)
        base = self.py[par - 1] if par else (cf.ReplaceableBase if kind == "base" else cf.Configurable)
        ann, ns = {}, {"__module__": __name__}
        for m in own:
            n, k = m["n"], m["k"]
            if k == "int":
                ann[n] = int
                ns[n] = m["d"]
            elif k == "setct":
                ann[n + "_class_type"] = Optional[str]
                ns[n + "_class_type"] = m["ct"] or None
            elif k == "seten":
                ann[n + "_enabled"] = bool
                ns[n + "_enabled"] = bool(m["d"])
            else:
                ty = self.py[m["ty"] - 1]
                ann[n] = Optional[ty] if k.startswith("opt") else ty
                if k == "optconf":
                    ann[n + "_enabled"] = bool
                    ns[n + "_enabled"] = bool(m["d"])
                if m["hasct"]:
                    ann[n + "_class_type"] = Optional[str] if k == "optrep" else str
                    ns[n + "_class_type"] = m["ct"] or None
                if m["tw"]:
                    def tweak(cls, member_type, args, m=m):
                        if member_type.__name__ == m["twn"]:
                            args["n"] = m["tw"]
                    ns[n + "_tweak_args"] = classmethod(tweak)
                if m["cust"]:
                    def create(self, n=n):
                        setattr(self, n, "custom")
                    ns["create_" + n] = create
        ns["__annotations__"] = ann
        w = self

        if par == 0:
            def post(self):
                w.log.append(type(self)._vp)
                cf.run_auto_creation(self)
            ns["__post_init__"] = post
        ns["_vp"] = i
        cls = types.new_class(name, (base,), {}, lambda x: x.update(ns))
        self.py.append(cls)
        if kind == "impl":
            cf.registry.register(cls)
        return {"op": "define", "c": d}

    def mems(self, c):
        d = self.defs[c - 1]
        return (self.mems(d["par"]) if d["par"] else []) + d["own"]

    def obj(self, x):
        if x is None:
            return leaf(None)
        if x == "custom":
            return {"t": "custom", "i": 0, "s": "", "v": [], "ch": []}
        c = type(x)._vp
        ch, seen = [], set()
        for m in self.mems(c):
            if m["k"] in ("setct", "seten") or m["n"] in seen:
                continue
            seen.add(m["n"])
            v = getattr(x, m["n"])
            ch.append({"n": m["n"], "x": leaf(v) if m["k"] == "int" else self.obj(v)})
        return {"t": "obj", "i": c, "s": type(x).__name__, "v": [], "ch": ch}


def member(rng, n, k, **kw):
    m = {"n": n, "k": k, "d": 0, "ty": 0, "hasct": False, "ct": "", "tw": 0, "twn": "", "cust": False}
    m.update(kw)
    return m


def trace(ctx):
    rng = ctx.rng
    w = World()
    tr = []
    pool = {}  # base class -> names

    def names(level):
        return [NAMES[i] for i in range(len(NAMES)) if i % 3 == level]

    def members(level, own_names):
        out = []
        if rng.random() < 0.4:
            out.append(member(rng, "q", "int", d=rng.randint(0, 9)))
        avail = [i + 1 for i, d in enumerate(w.defs) if lev[i] < level and d["kind"] != "impl"]
        for n in rng.sample(own_names, rng.randint(0, len(own_names))):
            if not avail:
                break
            ty = rng.choice(avail)
            if w.defs[ty - 1]["kind"] == "conf":
                k = rng.choice(["conf", "optconf"])
                m = member(rng, n, k, ty=ty, d=rng.randint(0, 1) if k == "optconf" else 0)
                tn = [w.defs[ty - 1]["name"]]
            else:
                k = rng.choice(["rep", "rep", "optrep"])
                tn = pool.get(ty, [])
                hasct = bool(tn) and rng.random() < 0.8
                m = member(rng, n, k, ty=ty, hasct=hasct, ct=rng.choice(tn + ([""] if k == "optrep" else [])) if hasct else "")
            if tn and rng.random() < 0.3:
                m["tw"], m["twn"] = rng.randint(10, 99), rng.choice(tn)
            m["cust"] = rng.random() < 0.1
            out.append(m)
        return out
    lev = []
    ROOTN = [["a", "a_b", "q_x"], ["a", "renderer", "renderer_2"], ["z", "z_y", "b"]]

    def define(name, kind, par, level, own):
        tr.append(w.define(name, kind, par, own))
        lev.append(level)
        if kind == "impl":
            pool.setdefault(w.root(len(w.defs)), [])
            if name not in pool[w.root(len(w.defs))]:
                pool[w.root(len(w.defs))].append(name)
        return len(w.defs)

    def clash(ms, par):
        have = [m["n"] for m in (w.mems(par) if par else [])]
        return [m for m in ms if m["n"] not in have or m["k"] == "int"]

    def impl(b, level, name=None):
        par = rng.choice([b] + [i + 1 for i, d in enumerate(w.defs) if d["kind"] == "impl" and w.root(i + 1) == b][:2])
        own = clash(members(level, ["u", "u_v"]), par)
        if rng.random() < 0.5:
            own.append(member(rng, "n", "int", d=rng.randint(0, 9)))
        for m in w.mems(par):
            if m["k"] in ("rep", "optrep") and pool.get(m["ty"]) and rng.random() < 0.4:
                own.append(member(rng, m["n"], "setct", ct=rng.choice(pool[m["ty"]])))
            if m["k"] == "optconf" and rng.random() < 0.4:
                own.append(member(rng, m["n"], "seten", d=rng.randint(0, 1)))
        return define(name or rng.choice(names(level)), "impl", par, level, own)
    for level in range(3):
        if rng.random() < 0.8 or level == 0:
            c = define("P%d" % level, "conf", 0, level, [member(rng, "n", "int", d=rng.randint(0, 9))] + clash(members(level, ROOTN[level]), 0))
            for depth in range(rng.choice([0, 0, 1, 2])):
                own = clash(members(level, ["k%d" % depth, "a_%d" % depth]), c)
                if rng.random() < 0.5:
                    own.append(member(rng, "n", "int", d=rng.randint(0, 9)))
                c = define("P%d%s" % (level, "s" * (depth + 1)), "conf", c, level, own)
        if rng.random() < 0.85 or level == 0:
            b = define("Base%d" % level, "base", 0, level, [member(rng, "n", "int", d=rng.randint(0, 9))] + clash(members(level, ["c", "c_d"]), 0))
            for _ in range(rng.randint(0 if level else 1, 3)):
                impl(b, level)

    def node(cfg, c):
        return cfg
    for step in range(rng.randint(4, 7)):
        r = rng.random()
        c = rng.randint(1, len(w.defs))
        bases = [i + 1 for i, d in enumerate(w.defs) if d["kind"] == "base"]
        if r < 0.15:
            e = {"op": "get", "c": rng.choice([i + 1 for i, d in enumerate(w.defs) if d["kind"] != "conf"]), "name": rng.choice(NAMES), "i": 0}

            def go(e):
                try:
                    e["i"] = cf.registry.get(w.py[e["c"] - 1], e["name"])._vp
                    e["rejected"] = False
                except ValueError:
                    e["rejected"] = True
            tr.append(guard(e, go))
        elif r < 0.25:
            e = {"op": "getall", "c": rng.choice([i + 1 for i, d in enumerate(w.defs) if d["kind"] != "conf"])}
            tr.append(guard(e, lambda e: e.update({"is": [x._vp for x in cf.registry.get_all(w.py[e["c"] - 1])]})))
        elif r < 0.35:
            e = {"op": "expand", "c": c}
            tr.append(guard(e, lambda e: e.update({"same": cf.expand_args_fields(w.py[c - 1]) is w.py[c - 1]})))
        elif r < 0.5:
            b = rng.choice(bases)
            impl(b, lev[b - 1])
        else:
            if rng.random() < 0.7:
                c = rng.choice([i + 1 for i in range(len(w.defs)) if lev[i] == max(lev)])
            e = {"op": "defaults", "c": c}
            store = {}

            def go(e):
                store["cfg"] = cf.get_default_args(w.py[c - 1])
                e["cfg"] = tree(store["cfg"])
            tr.append(guard(e, go))
            if "cfg" not in store:
                return tr
            cfg = store["cfg"]
            for _ in range(rng.choice([1, 2])):
                os = []
                merged = OmegaConf.create(OmegaConf.to_container(cfg))
                typed = cf.get_default_args(w.py[c - 1])

                def pick(cls, node, path):
                    for m in w.mems(cls):
                        if m["k"] == "int" and rng.random() < 0.2:
                            os.append((path + [m["n"]], rng.randint(100, 199)))
                        elif m["k"] == "optconf" and rng.random() < 0.4:
                            os.append((path + [m["n"] + "_enabled"], rng.random() < 0.6))
                        elif m["k"] in ("rep", "optrep"):
                            cand = [None] if m["k"] == "optrep" else []
                            cand += pool.get(m["ty"], []) * 4 + (["Nope"] if rng.random() < 0.1 else [])
                            if cand and (rng.random() < 0.5 or node[m["n"] + "_class_type"] == "UNDEFAULTED"):
                                os.append((path + [m["n"] + "_class_type"], rng.choice(cand)))
                        if m["k"] in ("conf", "optconf") and rng.random() < 0.7:
                            pick(m["ty"], node[m["n"] + "_args"], path + [m["n"] + "_args"])
                        if m["k"] in ("rep", "optrep"):
                            for nm in pool.get(m["ty"], []):
                                key = m["n"] + "_" + nm + "_args"
                                if key in node and rng.random() < 0.7:
                                    pick(cf.registry.get(w.py[m["ty"] - 1], nm)._vp, node[key], path + [key])
                pick(c, merged, [])
                # one value per path
                os = list({tuple(p): (p, v) for p, v in os}.values())
                e = {"op": "create", "c": c, "os": [{"path": p, "x": dict(leaf(v))} for p, v in os], "kind": rng.choice(["typed", "plain", "dict"])}

                def make(cfg):
                    w.log.clear()
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter("always")
                        o = w.py[c - 1](**cfg)
                    return w.obj(o), list(w.log), any("New implementation" in str(x.message) for x in ws)

                def go(e):
                    if e["kind"] == "typed":
                        full = typed
                        for p, v in os:
                            OmegaConf.update(full, ".".join(p), v)
                    else:
                        full = merged
                        for p, v in os:
                            OmegaConf.update(full, ".".join(p), v)
                    try:
                        e["obj"], e["log"], e["warned"] = make(OmegaConf.to_container(full) if e["kind"] == "dict" else full)
                        e["rejected"] = False
                    except (ValueError, TypeError):
                        e["rejected"] = True
                        return
                    red = typed
                    if e["kind"] != "typed":
                        for p, v in os:
                            OmegaConf.update(red, ".".join(p), v)
                    cf.remove_unused_components(red)
                    e["red"] = tree(red)
                    e["obj2"] = make(red)[0]
                tr.append(guard(e, go))
            # whatever the user does to the configuration, the next one is fresh

            def spoil(x):
                for k in list(x):
                    if isinstance(x[k], DictConfig):
                        spoil(x[k])
                    elif isinstance(x[k], int) and not isinstance(x[k], bool):
                        x[k] = 999
            spoil(cfg)
    return tr


COUNT = [0]


def functions(ctx):
    rng = ctx.rng
    tr = []
    for _ in range(2):
        ps = []
        for i in range(rng.randint(0, 5)):
            k = rng.choice(["int", "str", "none", "list", "bool", "tuple", "set", "obj"])
            d = {"int": 3 + i, "str": "x%d" % i, "none": None, "list": [i, 2], "bool": True, "tuple": (4, i), "set": {7}, "obj": 0}[k]
            ps.append({"n": "p%d" % i, "has": rng.random() < 0.8, "typed": rng.random() < 0.93, "k": k, "prim": k != "obj", "d": tree(list(d) if k in ("set", "tuple") else d), "_v": d})
        ps.sort(key=lambda p: p["has"])
        COUNT[0] += 1
        name = "fun%d" % COUNT[0]
        T = {"int": "int", "str": "str", "none": "Optional[int]", "list": "List[int]", "bool": "bool", "tuple": "Tuple[int, ...]", "set": "Tuple[int, ...]", "obj": "object"}
        args = []
        env = {"Optional": Optional, "List": List, "Dict": Dict}
        from typing import Tuple
        env["Tuple"] = Tuple
        for i, p in enumerate(ps):
            env["d%d" % i] = p["_v"] if p["k"] != "obj" else object()
            args.append(p["n"] + (": " + T[p["k"]] if p["typed"] else "") + (" = d%d" % i if p["has"] else ""))
        klass = rng.random() < 0.4
        if klass:
            exec("class %s:\n def __init__(self%s):\n  pass\n" % (name, "".join(", " + a for a in args)), env)
        else:
            exec("def %s(%s):\n pass\n" % (name, ", ".join(args)), env)
        f = env[name]
        f.__module__ = "vp_cfg_functions"
        e = {"op": "fn", "ps": [{k: v for k, v in p.items() if k != "_v"} for p in ps]}
        store = {}

        def go(e):
            try:
                cf.enable_get_default_args(f)
                e["rejected"] = False
            except ValueError:
                e["rejected"] = True
                return
            cfg = cf.get_default_args(f)
            for k in cfg:
                if isinstance(cfg[k], ListConfig):
                    cfg[k].append(5)
                elif isinstance(cfg[k], int) and not isinstance(cfg[k], bool):
                    cfg[k] = 77
            e["cfg"] = tree(cf.get_default_args(f))
        tr.append(guard(e, go))
    return tr




def traces(ctx):
    for _ in range(ctx.n(120, 1200)):
        yield trace(ctx)
    for _ in range(ctx.n(30, 200)):
        yield functions(ctx)
