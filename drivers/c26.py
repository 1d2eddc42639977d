import contextlib
import logging
import os
import random
import shutil
import sys
import tempfile

import numpy as np
import torch
from harness import guard
from omegaconf import OmegaConf
from pytorch3d.implicitron.dataset.data_loader_map_provider import DataLoaderMap
from pytorch3d.implicitron.dataset.data_source import DataSourceBase
from pytorch3d.implicitron.dataset.dataset_map_provider import DatasetMap
from pytorch3d.implicitron.models.base_model import ImplicitronModelBase
from pytorch3d.implicitron.models.generic_model import EvaluationMode
from pytorch3d.implicitron.tools import model_io, stats as stats_mod, vis_utils
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args, registry
MODULE = "Train"
ASSUMPTIONS = ["toy model and data source registered with the real Experiment, model factory, optimizer factory, training loop, Stats and model_io",
               "plotting replaced by a stand-in", "SGD: exact dyadic arithmetic in float64; Adam: only reproducibility"]
logging.disable(logging.CRITICAL)
ONE = 1 << 22
stats_mod.Stats.plot_stats = lambda self, *a, **k: None
vis_utils.get_visdom_connection = lambda *a, **k: None


class Crash(BaseException):
    pass


class Batch(dict):
    def to(self, device):
        return self


LOG = []
EXACT = [None]


@registry.register
class VpDataSource(DataSourceBase):
    val: bool = True
    n_train: int = 2

    def get_datasets_and_dataloaders(self):
        train = [Batch(x=torch.tensor(float(i + 1), dtype=torch.float64)) for i in range(self.n_train)]
        val = [Batch(x=torch.tensor(float(i + 3), dtype=torch.float64)) for i in range(2)]
        return DatasetMap(None, None, None), DataLoaderMap(train=train, val=val if self.val else None, test=None)


class Sub(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.v = torch.nn.Parameter(torch.tensor(2.0, dtype=torch.float64))
        self.param_groups = {"v": "slow"}


@registry.register
class VpModel(ImplicitronModelBase):
    grouped: bool = False

    def __post_init__(self):
        self.w = torch.nn.Parameter(torch.tensor(1.0, dtype=torch.float64))
        self.sub = Sub()
        if not self.grouped:
            self.sub.param_groups = {}

    def forward(self, *, x, evaluation_mode, **kwargs):
        train = evaluation_mode == EvaluationMode.TRAINING
        assert train == self.training
        d = [int(torch.randint(0, 3, (1,))), int(np.random.randint(0, 3)), random.randint(0, 2)] if train else [0, 0, 0]
        obj = self.w * (x + d[0]) + self.sub.v * (d[1] - d[2])
        LOG.append({"train": train, "x": int(x), "d": d, "obj": EXACT[0](obj)})
        return {"objective": obj}


import projects.implicitron_trainer.experiment as ex  # noqa: E402  after the registrations
expand_args_fields(ImplicitronModelBase)
expand_args_fields(VpModel)
BASE = None


def fix(x):
    y = float(x) * ONE
    assert y == y and abs(y) < 2 ** 31 and y == round(y), x
    return int(y)


def rough(x):
    return int(round(float(x) * 1e6))


@contextlib.contextmanager
def crashing(at, folder, counter):
    """the n-th operation on files of the folder, or of the temporary copies, does not happen: the process is gone"""
    real = {"save": torch.save, "copyfile": shutil.copyfile}
    state = {"on": True}

    def hit():
        counter[0] += 1
        if counter[0] == at:
            state["on"] = False
            raise Crash()

    def save(obj, f, *a, **k):
        if state["on"]:
            counter[0] += 1
            if counter[0] == at:
                state["on"] = False
                with open(f, "wb") as o:
                    o.write(b"PK\x03\x04 torn")
                raise Crash()
        return real["save"](obj, f, *a, **k)

    def copyfile(src, dst, **k):
        if state["on"] and os.path.abspath(dst).startswith(folder):
            counter[0] += 1
            if counter[0] == at:
                state["on"] = False
                with open(src, "rb") as i, open(dst, "wb") as o:
                    o.write(i.read()[: os.path.getsize(src) // 2])
                raise Crash()
        return real["copyfile"](src, dst, **k)

    def hook(event, args):
        if not state["on"] or HOOK[0] is not hook:
            return
        if event in ("os.rename", "os.remove", "shutil.move") and any(isinstance(a, str) and os.path.abspath(a).startswith(folder) for a in args):
            hit()
        elif event == "open" and isinstance(args[0], str) and os.path.abspath(args[0]).startswith(folder) and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR):
            hit()
    HOOK[0] = hook
    torch.save = save
    shutil.copyfile = copyfile
    try:
        yield
    finally:
        HOOK[0] = None
        torch.save = real["save"]
        shutil.copyfile = real["copyfile"]


HOOK = [None]
sys.addaudithook(lambda event, args: HOOK[0](event, args) if HOOK[0] is not None else None)


def history(m, value):
    return [[value(y) for y in x] for x in m.history] if m is not None else []


def val0(x):
    return {"nan": True, "x": 0} if x != x else {"nan": False, "x": fix(x)}


def listing(folder, cfg):
    out = []
    names = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
    for n in names:
        if not (n.startswith("model_epoch_") and n.endswith(".pth") and "_opt" not in n):
            continue
        fl = os.path.join(folder, n)
        e = model_io.parse_epoch_from_model_path(fl)
        r = {"epoch": e, "ok": False, "w": 0, "v": 0, "bw": 0, "bv": 0, "hist": [], "vhist": [], "sepoch": -9}
        value = fix if cfg["breed"] == "SGD" else rough
        vv = val0 if cfg["breed"] == "SGD" else (lambda x: {"nan": x != x, "x": 0 if x != x else rough(x)})
        try:
            model, stats, opt = model_io.load_model(fl, None)
            where = {p: i for i, p in enumerate(["w", "v"])}  # the groups list w before v
            st = [opt["state"].get(where[n], {}) for n in ("w", "v")]
            bufs = [x.get("momentum_buffer", x.get("exp_avg")) for x in st]
            bufs = [0.0 if x is None else x for x in bufs]
            r.update(w=value(model["w"]), v=value(model["sub.v"]), bw=value(bufs[0]), bv=value(bufs[1]), sepoch=stats.epoch,
                     hist=history(stats.stats["train"].get("objective"), vv), vhist=history(stats.stats.get("val", {}).get("objective"), vv), ok=True)
        except Exception as err:  # torn or missing files
            r["_why"] = repr(err)
        out.append(r)
    last = model_io.find_last_checkpoint(folder)
    allc = model_io.find_last_checkpoint(folder, all_checkpoints=True)
    return out, -1 if last is None else model_io.parse_epoch_from_model_path(last), [] if allc is None else [model_io.parse_epoch_from_model_path(x) for x in allc]


def config(rng):
    breed = rng.choice(["SGD", "SGD", "SGD", "Adam"])
    policy = rng.choice(["MultiStepLR", "MultiStepLR", "Exponential", "LinearExponential"])
    return {"breed": breed, "policy": policy, "k0": rng.choice([2, 3]), "slow": rng.choice([2, 3]), "grouped": rng.random() < 0.5,
            "mom": rng.choice([0, 1]), "miles": sorted(rng.sample([1, 2, 3], rng.randint(0, 2))), "purge": rng.choice([0, 1, 1, 2]),
            "vint": rng.choice([1, 2]), "val": rng.random() < 0.7, "seed": rng.randint(0, 50), "n": rng.choice([1, 2]), "store": rng.random() < 0.95}


def run(cfg, e, folder):
    global BASE
    if BASE is None:
        BASE = get_default_args(ex.Experiment)
    c = BASE.copy()
    c.data_source_class_type = "VpDataSource"
    c.data_source_VpDataSource_args.val = cfg["val"]
    c.data_source_VpDataSource_args.n_train = cfg["n"]
    mf = c.model_factory_ImplicitronModelFactory_args
    mf.model_class_type = "VpModel"
    mf.model_VpModel_args.grouped = cfg["grouped"]
    mf.resume, mf.resume_epoch, mf.force_resume = e["resume"], e["repoch"], e["force"]
    of = c.optimizer_factory_ImplicitronOptimizerFactory_args
    of.breed, of.lr_policy, of.lr, of.gamma = cfg["breed"], cfg["policy"], 2.0 ** -cfg["k0"], 0.5
    of.momentum = 0.5 if cfg["mom"] else 0.0
    of.multistep_lr_milestones = cfg["miles"]
    of.exponential_lr_step_size = 1
    of.linear_exponential_lr_milestone, of.linear_exponential_start_gamma = 2, 0.5
    of.group_learning_rates = {"slow": 2.0 ** -cfg["slow"]}
    tl = c.training_loop_ImplicitronTrainingLoop_args
    tl.max_epochs, tl.store_checkpoints, tl.store_checkpoints_purge, tl.validation_interval = e["max"], cfg["store"], cfg["purge"], cfg["vint"]
    tl.visualize_interval = 0
    c.seed, c.exp_dir = cfg["seed"], folder
    exp = ex.Experiment(**c)
    LOG.clear()
    eps = e["eps"]
    loop = exp.training_loop
    inner = type(loop)._training_or_validation_epoch
    value = fix if cfg["breed"] == "SGD" else rough
    EXACT[0] = value

    def watched(*a, **k):
        k_lr = [fix(g["lr"]) for g in k["optimizer"].param_groups]
        n = len(LOG)
        inner(loop, *a, **k)
        g = k["optimizer"].param_groups
        m = k["model"]
        eps.append({"epoch": k["epoch"], "train": not k["validation"], "lr": k_lr, "names": [["w" if p is m.w else "v" for p in x["params"]] for x in g],
                    "its": [{"x": x["x"], "d": x["d"], "obj": x["obj"]} for x in LOG[n:]], "w": value(m.w), "v": value(m.sub.v), "mode": all(x["train"] == (not k["validation"]) for x in LOG[n:])})
    loop._training_or_validation_epoch = watched
    exp.run()


def trace(ctx):
    rng = ctx.rng
    cfg = config(rng)
    top = tempfile.mkdtemp(prefix="vp26", dir="/tmp")
    tr = [{"op": "config", "cfg": cfg}]
    cross = rng.random() < 0.3 and os.path.isdir("/dev/shm")
    old = tempfile.tempdir
    tempfile.tempdir = "/dev/shm" if cross else None
    try:
        for d in range(rng.choice([1, 2])):
            folder = os.path.join(top, "exp%d" % d)
            mx = 0
            for step in range(rng.choice([1, 2, 3])):
                mx = min(6, mx + rng.randint(0, 3))
                crash = rng.random() < 0.5
                files, last, allc = listing(folder, cfg)
                e = {"op": "run", "dir": d + 1, "max": mx, "resume": rng.random() < 0.9, "force": False, "repoch": -1, "eps": [], "crashed": False, "rejected": False}
                e["force"] = e["resume"] and rng.random() < 0.1
                if last > 0 and rng.random() < 0.2:
                    e["repoch"] = rng.choice([last, rng.randint(1, 5)])
                at = rng.randint(1, 25) if crash else 0

                def go(e):
                    try:
                        with crashing(at, folder, [0]):
                            run(cfg, e, folder)
                    except Crash:
                        e["crashed"] = True
                    except (ValueError, FileNotFoundError) as err:
                        e["rejected"] = True
                        e["_why"] = repr(err)
                    e["files"], e["last"], e["all"] = listing(folder, cfg)
                tr.append(guard(e, go))
    finally:
        tempfile.tempdir = old
        shutil.rmtree(top, ignore_errors=True)
    return tr


def num(x):
    return {"nan": bool(x != x), "x": 0 if x != x else int(round(x * 1000))}


def stats_trace(ctx):
    rng = ctx.rng
    names = ["a", "b", "loss", "d"]
    vs = rng.sample(names, rng.randint(1, 3))
    st = stats_mod.Stats(list(vs), do_plot=False)
    tr = [{"op": "start", "vars": vs}]
    saved = [None]
    top = tempfile.mkdtemp(prefix="vp26", dir="/tmp")
    try:
        for _ in range(rng.randint(6, 14)):
            op = rng.choice(["epoch", "update", "update", "update", "addvars", "sync", "save", "load", "reset", "averages", "averages", "status"])
            sets = list(st.stats)
            if op == "reset" and rng.random() < 0.7 or op == "load" and saved[0] is None or op == "averages" and st.epoch < 0 or op == "status" and not sets:
                op = "update"
            e = {"op": op}

            def go(e):
                nonlocal st
                if op == "epoch":
                    if rng.random() < 0.5:
                        st.new_epoch()
                    else:
                        with st:
                            pass
                elif op == "update":
                    preds = {n: rng.randint(-9, 9) for n in rng.sample(names, rng.randint(0, 4))}
                    e.update(set=rng.choice(["train", "val"]), freeze=rng.random() < 0.2, preds=[{"n": n, "x": x} for n, x in preds.items()])
                    raw = {n: rng.choice([x, float(x), torch.tensor(x), torch.tensor([float(x), 1.0, -1.0])]) for n, x in preds.items()}
                    st.update(raw, freeze_iter=e["freeze"], stat_set=e["set"])
                elif op in ("addvars", "sync"):
                    e["new"] = rng.sample(names, rng.randint(1, 3))
                    (st.add_log_vars if op == "addvars" else st.synchronize_logged_vars)(list(e["new"]))
                elif op == "save":
                    saved[0] = os.path.join(top, rng.choice(["s", "s.jgz", "t.x"]))
                    st.save(saved[0])
                elif op == "load":
                    st = stats_mod.Stats.load(saved[0])
                elif op == "reset":
                    st.hard_reset()
                elif op == "averages":
                    e["all"] = rng.random() < 0.4
                    arg = -1 if e["all"] else rng.choice([None, rng.randint(0, st.epoch)])
                    e["epoch"] = st.epoch if arg is None else arg
                    o = st.get_epoch_averages(arg)
                    e["out"] = [{"set": k, "it": v["it"], "max": v["epoch_max"], "vals": [{"n": n, "avg": [num(y) for y in (x if e["all"] else [x])]} for n, x in v.items() if n not in ("it", "epoch", "epoch_max")]}
                                for k, v in o.items()]
                elif op == "status":
                    e["set"], e["skip"] = rng.choice(sets), rng.random() < 0.3
                    line = st.get_status_string(stat_set=e["set"], skip_nan=e["skip"], stat_format=lambda x: x)
                    parts = [x.strip() for x in line.split("|")]
                    assert parts[0] == "[" + e["set"] + "]"
                    e["epoch"], e["it"] = int(parts[1].split()[1]), int(parts[2].split()[1])
                    e["vals"] = [{"n": x.split(": ")[0], "avg": num(float(x.split(": ")[1]))} for x in parts[3:] if x]
            tr.append(guard(e, go))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return tr


def groups_trace(ctx):
    rng = ctx.rng
    from projects.implicitron_trainer.impl.optimizer_factory import ImplicitronOptimizerFactory
    expand_args_fields(ImplicitronOptimizerFactory)
    gs = ["default", "g", "h"]

    def paths(n):
        out = [["self"]] + [[p["n"]] for p in n["params"]]
        for c in n["ch"]:
            out += [[c["name"]]] + [[c["name"]] + p for p in paths(c)]
        return out

    def build(depth, name):
        n = {"name": name, "params": [{"n": x, "rg": rng.random() < 0.85} for x in rng.sample(["p", "q", "m"], rng.randint(0, 2))], "pg": [], "ch": []}
        if depth:
            n["ch"] = [build(depth - 1, x) for x in rng.sample(["a", "b", "aa"], rng.randint(0, 2))]
        has = rng.random() < 0.6
        ps = paths(n)
        n["pg"] = [{"k": k, "g": rng.choice(gs)} for k in rng.sample(ps, rng.randint(0, min(3, len(ps))))] if has else []
        return n

    def module(n):
        m = torch.nn.Module()
        for p in n["params"]:
            m.register_parameter(p["n"], torch.nn.Parameter(torch.zeros(1), requires_grad=p["rg"]))
        for c in n["ch"]:
            m.add_module(c["name"], module(c))
        if n["pg"] or rng.random() < 0.3:
            m.param_groups = {".".join(x["k"]): x["g"] for x in n["pg"]}
        return m
    tr = [{"op": "start", "vars": []}]
    for _ in range(3):
        root = build(3, "")
        while not any(True for p in module(root).parameters() if p.requires_grad):
            root = build(3, "")
        rates = {g: float(i + 2) for i, g in enumerate(gs) if g != "default" and rng.random() < 0.85}
        e = {"op": "groups", "root": root, "lr": 1, "rates": [{"g": g, "lr": int(r)} for g, r in rates.items()], "got": []}
        m = module(root)
        names = {p: n.split(".") for n, p in m.named_parameters()}

        def go(e):
            try:
                opt, _ = ImplicitronOptimizerFactory(breed="SGD", lr=1.0, group_learning_rates=rates)(0, m)
                e["rejected"] = False
            except ValueError:
                e["rejected"] = True
                return
            e["got"] = [{"p": names[p], "lr": int(g["lr"])} for g in opt.param_groups for p in g["params"]]
        tr.append(guard(e, go))
    return tr


def traces(ctx):
    torch.set_num_threads(1)
    for _ in range(ctx.n(100, 800)):
        yield ("StatLog", stats_trace(ctx))
    for _ in range(ctx.n(80, 800)):
        yield ("StatLog", groups_trace(ctx))
    for _ in range(ctx.n(40, 400)):
        yield trace(ctx)
