"""Batches: samplers, data loaders, providers of dataset maps."""
import json
import os
import shutil
import tempfile

import numpy as np
import torch
import c27
from harness import guard
from datalib import *
from pytorch3d.implicitron.dataset.data_loader_map_provider import BatchConditioningType, DoublePoolBatchSampler, SequenceDataLoaderMapProvider, SimpleDataLoaderMapProvider
from pytorch3d.implicitron.dataset.dataset_map_provider import DatasetMap
from pytorch3d.implicitron.dataset.json_index_dataset_map_provider import JsonIndexDatasetMapProvider
from pytorch3d.implicitron.dataset.json_index_dataset_map_provider_v2 import JsonIndexDatasetMapProviderV2
from pytorch3d.implicitron.dataset.scene_batch_sampler import SceneBatchSampler
from pytorch3d.implicitron.dataset.single_sequence_dataset import SingleSceneDataset, SingleSceneDatasetMapProviderBase
from pytorch3d.implicitron.dataset.sql_dataset_provider import SqlIndexDatasetMapProvider
from pytorch3d.implicitron.dataset.train_eval_data_loader_provider import TrainEvalDataLoaderMapProvider
from pytorch3d.renderer import PerspectiveCameras

MODULE = "Data"
ASSUMPTIONS = ["frames without blobs; single process loaders", "every frame is in at most one subset"]
for k in (SimpleDataLoaderMapProvider, SequenceDataLoaderMapProvider, TrainEvalDataLoaderMapProvider, JsonIndexDatasetMapProvider, JsonIndexDatasetMapProviderV2, SqlIndexDatasetMapProvider, SingleSceneDataset):
    expand_args_fields(k)


def seedall(rng):
    s = int(rng.integers(0, 1 << 30))
    np.random.seed(s)
    torch.manual_seed(s)


def sampling(rng):
    n = int(rng.integers(0, 3))
    opts = sorted(set(int(x) for x in rng.integers(1, 6, n)))
    cons = bool(rng.random() < 0.6)
    gap = int(rng.choice([0, 1, 2, 4]))
    gaps = int(rng.choice([0, 0, 2, 6, 12]))
    return opts, cons, gap, gaps


def sampler_event(rng, ds, k, fr):
    opts, cons, gap, gaps = sampling(rng)
    opts = opts or [int(rng.integers(1, 6))]
    bs = int(rng.integers(1, 9))
    nb = int(rng.integers(1, 6))
    aware = bool(rng.random() < 0.5)
    e = {"op": "scene", "d": k + 1, "bs": bs, "opts": opts, "cons": cons, "gap": gap, "gaps": gaps, "cataware": aware, "nb": nb, "len": 0, "b": []}

    def go(e):
        seedall(rng)
        s = SceneBatchSampler(ds, batch_size=bs, num_batches=nb, images_per_seq_options=tuple(opts), sample_consecutive_frames=cons,
                              consecutive_frames_max_gap=gap, consecutive_frames_max_gap_seconds=gaps / 8, category_aware=aware)
        e["len"] = len(s)
        e["b"] = [[int(i) for i in b] for b in s]
    return guard(e, go)


def double_event(rng):
    n = int(rng.integers(1, 8))
    ids = [int(x) for x in rng.permutation(30)]
    first, rest = ids[:n], ids[n : n + int(rng.integers(0, 6))]
    if rng.random() < 0.3:
        rest = rest + first[:2]
    bs, nb, repl = int(rng.integers(1, 5)), int(rng.integers(0, 20)), bool(rng.random() < 0.5)
    e = {"op": "double", "first": first, "rest": rest, "bs": bs, "repl": repl, "nb": nb, "len": 0, "b": [], "rejected": False}

    def go(e):
        seedall(rng)
        try:
            s = DoublePoolBatchSampler(first, rest, bs, repl, nb if nb or rng.random() < 0.5 else None)
        except ValueError:
            e["rejected"] = True
            return
        e["len"] = len(s)
        e["b"] = [[int(i) for i in b] for b in s]
        again = [[int(i) for i in b] for b in s]
        e["b"] = e["b"] if rng.random() < 0.5 else again
    return guard(e, go)


def loader_event(rng, dss, k, t, multi):
    ds, tr = dss[k], dss[t]
    kind = str(rng.choice(["simple", "seq", "seq", "tve", "tve"]))
    split = str(rng.choice(["train", "val", "test"]))
    if split == "train":
        t, tr = k, ds
    opts, cons, gap, gaps = sampling(rng) if rng.random() < 0.5 else ([], False, 0, 0)
    cond = str(rng.choice(["same", "train", "known"]))
    bs, nb = int(rng.integers(1, 5)), int(rng.integers(0, 5))
    if cond == "known" and all(ds[i].frame_type in (LAB[1], LAB[3]) for i in range(len(ds))):
        cond = "same"   # nothing to predict
    e = {"op": "loader", "d": k + 1, "t": t + 1, "kind": kind, "split": split, "cond": cond, "bs": bs, "nb": nb, "opts": opts, "cons": cons, "gap": gap, "gaps": gaps,
         "cataware": True, "len": 0, "b": [], "rejected": False}

    def go(e):
        seedall(rng)
        m = DatasetMap(**{"train": tr, "val": None, "test": None, split: ds})
        x = {"batch_size": bs, "dataset_length_" + split: nb}
        if kind == "simple":
            p = SimpleDataLoaderMapProvider(**x)
        else:
            x.update(images_per_seq_options=tuple(opts), sample_consecutive_frames=cons, consecutive_frames_max_gap=gap, consecutive_frames_max_gap_seconds=gaps / 8)
            if kind == "seq":
                for s in ("train", "val", "test"):   # the other loaders are not looked at
                    x[s + "_conditioning_type"] = BatchConditioningType(cond) if s == split else BatchConditioningType.SAME
                p = SequenceDataLoaderMapProvider(**x)
            else:
                p = TrainEvalDataLoaderMapProvider(**x)
        if split != "train":
            try:   # only the loader asked for
                x0 = p.get_data_loader_map(DatasetMap(train=tr, val=None, test=None))
            except ValueError:
                e["skip"] = True
                return
        try:
            dl = p.get_data_loader_map(m)[split]
        except (ValueError, AssertionError):   # AssertionError: frames without type
            e["rejected"] = True
            return
        e["len"] = len(dl)
        e["b"] = [[[int(s[1:]), int(n)] for s, n in zip(b.sequence_name, b.frame_number)] for b in dl]
    e = guard(e, go)
    return None if e.pop("skip", False) else e


def trace_loaders(ctx):
    rng = ctx.g
    sql = bool(rng.random() < 0.3)
    fr, sq = tables(rng, sql)
    d = tempfile.mkdtemp(prefix="c28")
    try:
        (write_sql(d, fr, sq, rng) if sql else write_json(d, fr, sq))
        write_lists(d, fr)
        tr = [{"op": "tables", "fr": fr, "sq": sq}, double_event(rng)]
        dss = []
        for _ in range(2):
            for _ in range(4):
                n = len(dss)
                e, ds = c27.make(ctx, d, fr, sq, sql)
                if ds is not None and len(ds) > 1:
                    break
            if ds is not None and len(ds) and not (sql and e["c"]["hasev"]):
                tr.append(e)
                dss.append(ds)
        for _ in range(6 if dss else 0):
            k, t = int(rng.integers(0, len(dss))), int(rng.integers(0, len(dss)))
            e = sampler_event(rng, dss[k], k, fr) if rng.random() < 0.4 else loader_event(rng, dss, k, t, False)
            if e:
                tr.append(e)
        return tr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fid(ds):
    return [] if ds is None else index(ds)


def lists_for(rng, fr, dis=True):
    """disjoint lists of frames: train, val, test"""
    ids = [[f["seq"], f["no"]] for f in fr]
    ids = [ids[i] for i in rng.permutation(len(ids))]
    a, b = sorted(int(x) for x in rng.integers(0, len(ids) + 1, 2))
    return ids[:a], ids[a:b], ids[b:]


def dargs(c):
    return {"remove_empty_masks": c["rem"], "limit_to": c["lim"], "limit_sequences_to": c["lseq"], "pick_sequence": tuple(map(sn, c["pick"])), "exclude_sequence": tuple(map(sn, c["excl"])),
            "sort_frames": c["sort"], **NOBLOB}


def v2(ctx):
    rng = ctx.g
    fr, sq = tables(rng, False, nseq=int(rng.integers(2, 8)))
    cats_ = sorted({x["cat"] for x in sq})
    if len(cats_) > 1 and not rng.random() < 0.12 or len(cats_) == 1:   # several categories start processes
        cats_ = [cats_[0]]
    c = config(rng, fr, sq, False)
    c.update(subsets=[], lists=False, cats=[], nf=-1)
    known = int(rng.integers(1, 4)) if rng.random() < 0.4 else 0
    if known:
        c.update(rem=False, lim=0, lseq=0, pick=[], excl=[])
    onlytest, ontrain = [(False, False), (False, False), (True, False), (False, True)][int(rng.integers(0, 4))]
    loadev = bool(rng.random() < 0.8) or bool(known)
    d = tempfile.mkdtemp(prefix="c28")
    try:
        parts, why = [], False
        for k in cats_:
            mine = [x for x in sq if x["cat"] == k]
            mfr = [f for f in fr if f["seq"] in [x["name"] for x in mine]]
            write_json(os.path.join(d, cn(k)), mfr, mine)
            tra, va, te = lists_for(rng, mfr)
            if known:   # every sequence has training frames
                have = {q[0] for q in tra}
                move = [q for q in va + te if q[0] not in have]
                seen = set()
                for q in move:
                    if q[0] not in seen:
                        seen.add(q[0])
                        tra = tra + [q]
                        va = [x for x in va if x != q]
                        te = [x for x in te if x != q]
            ev = batches(rng, mfr, te) if te else []
            parts.append({"cat": k, "train": tra, "val": va, "test": te, "ev": ev})
            wp = rng.random() < 0.6
            for sub, obj in (("set_lists", {"train": tra, "val": va, "test": te}), ("eval_batches", ev)):
                os.makedirs(os.path.join(d, cn(k), sub), exist_ok=True)
                i = (lambda q: ident(fr, q, wp))
                o = {a: [i(q) for q in b] for a, b in obj.items()} if sub == "set_lists" else [[i(q) for q in b] for b in obj]
                with open(os.path.join(d, cn(k), sub, "%s_x.json" % sub), "w") as g:
                    json.dump(o, g)
        e = {"op": "v2", "c": c, "parts": parts, "onlytest": onlytest, "ontrain": ontrain, "known": known, "loadev": loadev, "hastrain": False, "train": [], "val": [], "test": [],
             "hasev": False, "ev": [], "types": []}

        def go(e):
            p = JsonIndexDatasetMapProviderV2(category=",".join(map(cn, cats_)), subset_name="x", dataset_root=d, test_on_train=ontrain, only_test_set=onlytest, load_eval_batches=loadev,
                                              n_known_frames_for_test=known, num_load_workers=2, dataset_JsonIndexDataset_args=dargs(c))
            m = p.get_dataset_map()
            e["hastrain"] = m.train is not None
            e["train"], e["val"], e["test"] = fid(m.train), fid(m.val), fid(m.test)
            b = m.test.get_eval_batches()
            e["hasev"] = b is not None
            e["ev"] = [[e["test"][i] for i in x] for x in b or []]
            e["types"] = [{"id": [int(f.sequence_name[1:]), int(f.frame_number)], "ft": COD[f.frame_type]} for f in (m.test[i] for i in range(len(m.test)))]
        return [{"op": "tables", "fr": fr, "sq": sq}, guard(e, go)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def v1(ctx):
    rng = ctx.g
    fr, sq = tables(rng, False, nseq=int(rng.integers(2, 6)))
    for x in sq:
        x["cat"] = 1
    c = config(rng, fr, sq, False)
    c.update(cats=[], lists=True, subsets=[], pick=[], lim=0, lseq=0, excl=[], rem=bool(rng.random() < 0.3))
    single = bool(rng.random() < 0.5)
    onlytest, ontrain = [(False, False), (False, False), (True, False), (False, True)][int(rng.integers(0, 4))]
    nf = int(rng.integers(1, 4)) if rng.random() < 0.3 else -1
    test = [[f["seq"], f["no"]] for f in fr if f["sub"] in ((3, 4) if single else (1, 2, 3, 4)) and not (c["rem"] and f["mass"] <= 1)]
    if not test:
        return None
    ev = batches(rng, fr, test)
    sid = int(rng.integers(0, len({b[0][0] for b in ev}))) if single else -1
    pick = [] if single else [x["name"] for x in sq if rng.random() < 0.5] if rng.random() < 0.5 else []
    assert_single = bool(rng.random() < 0.3)
    d = tempfile.mkdtemp(prefix="c28")
    try:
        root = os.path.join(d, cn(1))
        write_json(root, fr, sq)
        write_lists(root, fr)
        task = "singlesequence" if single else "multisequence"
        with open(os.path.join(root, "eval_batches_%s.json" % task), "w") as g:
            json.dump([[ident(fr, q, True) for q in b] for b in ev], g)
        e = {"op": "v1", "c": c, "task": task, "sid": sid, "pick": pick, "nf": nf, "onlytest": onlytest, "ontrain": ontrain, "evall": ev, "train": [], "val": [], "test": [],
             "hastrain": not onlytest, "hasev": False, "ev": [], "rejected": False, "single": assert_single}

        def go(e):
            try:
                p = JsonIndexDatasetMapProvider(category=cn(1), task_str=task, dataset_root=d, n_frames_per_sequence=nf, test_on_train=ontrain, only_test_set=onlytest,
                                                restrict_sequence_name=tuple(map(sn, pick)), test_restrict_sequence_id=sid, assert_single_seq=assert_single,
                                                dataset_JsonIndexDataset_args={"remove_empty_masks": c["rem"], "sort_frames": c["sort"], "seed": c["seed"], **NOBLOB})
            except ValueError as x:
                e["rejected"] = True
                e["_x"] = str(x)
                return
            m = p.get_dataset_map()
            e["train"], e["val"], e["test"] = fid(m.train), fid(m.val), fid(m.test)
            b = m.test.get_eval_batches()
            e["hasev"] = b is not None
            e["ev"] = [[e["test"][i] for i in x] for x in b or []]
        return [{"op": "tables", "fr": fr, "sq": sq}, guard(e, go)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sqlprov(ctx):
    rng = ctx.g
    fr, sq = tables(rng, True, nseq=int(rng.integers(2, 6)))
    c = config(rng, fr, sq, True)
    c.update(subsets=[], lseq=0, per=0, lim=0, nf=-1, sclause=[], fclause=[])
    onlytest, ontrain, ignore = [(False, False, False), (False, False, False), (True, False, False), (False, True, False), (False, False, True)][int(rng.integers(0, 5))]
    known = int(rng.integers(1, 4)) if rng.random() < 0.4 else 0
    perm = [int(x) for x in rng.permutation(4) + 1]
    trs, vas, tes = [perm[0]], [perm[1]], perm[2 : 2 + int(rng.integers(1, 3))]
    if rng.random() < 0.3:
        vas = tes
    d = tempfile.mkdtemp(prefix="c28")
    try:
        write_sql(d, fr, sq, rng)
        one = len(c["cats"]) == 1
        rel = os.path.join(cn(c["cats"][0]) if one else "", "set_lists")
        os.makedirs(os.path.join(d, rel), exist_ok=True)
        byname = bool(rng.random() < 0.5)
        if rng.random() < 0.5:
            shutil.copy(os.path.join(d, "set_lists.sqlite"), os.path.join(d, rel, "set_lists_x.sqlite"))
        else:
            write_lists(os.path.join(d, rel), fr, "set_lists_x.json")
        test = [[f["seq"], f["no"]] for f in fr if f["sub"] in tes and not (c["rem"] and known and f["mass"] == 0)]
        hasev = bool(test) and rng.random() < 0.7 and not byname
        ev = batches(rng, fr, test) if hasev else []
        evrel = os.path.join("eval_batches", "eval_batches_x.json")
        os.makedirs(os.path.join(d, "eval_batches"), exist_ok=True)
        with open(os.path.join(d, evrel), "w") as g:
            json.dump([[ident(fr, q, True) for q in b] for b in ev], g)
        hasev = hasev and not ontrain and not ignore
        e = {"op": "sqlprov", "c": c, "trs": trs, "vas": vas, "tes": tes, "ignore": ignore, "known": known, "onlytest": onlytest, "ontrain": ontrain, "evall": ev, "train": [], "val": [],
             "test": [], "hasev": bool(hasev), "ev": [], "rejected": False}

        def go(e):
            x = {"subset_list_name": "x"} if byname else {"subset_lists_path": os.path.join(rel, "set_lists_x"), "eval_batches_path": evrel if hasev else None}
            try:
                p = SqlIndexDatasetMapProvider(category=",".join(map(cn, c["cats"])) or None, dataset_root=d, test_on_train=ontrain, only_test_set=onlytest, ignore_subsets=ignore,
                                           train_subsets=tuple(LAB[k] for k in trs), val_subsets=tuple(LAB[k] for k in vas), test_subsets=tuple(LAB[k] for k in tes),
                                           eval_batch_num_training_frames=known,
                                           dataset_SqlIndexDataset_args={"remove_empty_masks": c["rem"], "pick_sequences": tuple(map(sn, c["pick"])), "exclude_sequences": tuple(map(sn, c["excl"])),
                                                                         "frame_data_builder_FrameDataBuilder_args": NOBLOB}, **x)
            except ValueError as x:
                e["rejected"] = True
                e["_x"] = str(x)
                return
            m = p.get_dataset_map()
            e["train"], e["val"], e["test"] = fid(m.train), fid(m.val), fid(m.test)
            b = m.test.get_eval_batches()
            e["ev"] = [[[int(q[0][1:]), int(q[1])] for q in x] for x in b or []]
        e = guard(e, go)
        return [{"op": "tables", "fr": fr, "sq": sq}, e]
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Scene(SingleSceneDatasetMapProviderBase):
    payload: int = 0
    data = None

    def _load_data(self):
        n, split, hasfg = Scene.data
        v = torch.arange(n, dtype=torch.float32)[:, None, None, None]
        self.images = v.expand(n, 3, 2, 2).clone()
        self.fg_probabilities = v.expand(n, 1, 2, 2).clone() if hasfg else None
        self.poses = [PerspectiveCameras(T=torch.tensor([[float(i), 0, 0]])) for i in range(n)]
        self.i_split = [np.array(s, dtype=np.int64) for s in split]


expand_args_fields(Scene)


def single(ctx):
    rng = ctx.g
    tr = []
    for _ in range(3):
        n = int(rng.integers(3, 10))
        ids = [int(x) for x in rng.permutation(n)]
        a, b = sorted(int(x) for x in rng.integers(1, n, 2))
        split = [ids[:a], ids[a : b + 1] if rng.random() < 0.8 else ids[b:], ids[b:]]
        hask = bool(rng.random() < 0.6)
        nk = int(rng.integers(0, 5)) if hask else 0
        hasfg = bool(rng.random() < 0.6)
        for k in range(3):
            e = {"op": "single", "split": split, "k": k, "hask": hask, "nk": nk, "hasfg": hasfg, "got": [], "hasev": False, "ev": [], "order": [], "cams": []}

            def go(e):
                Scene.data = (n, split, hasfg)
                p = Scene(base_dir="", object_name="o", n_known_frames_for_test=nk if hask else None)
                m = p.get_dataset_map()
                ds = [m.train, m.val, m.test][k]
                for i in range(len(ds)):
                    f = ds[i]
                    e["got"].append({"img": int(f.image_rgb[0, 0, 0]), "cam": int(f.camera.T[0, 0]), "fg": -1 if f.fg_probability is None else int(f.fg_probability.reshape(-1)[0]),
                                     "known": str(f.frame_type).endswith("known") and not str(f.frame_type).endswith("unknown") or f.frame_type == "known", "no": int(f.frame_number)})
                b = ds.get_eval_batches()
                e["hasev"] = b is not None
                e["ev"] = [[int(i) for i in x] for x in b or []]
                e["order"] = [int(x[2]) for x in ds.sequence_frames_in_order(list(ds.sequence_names())[0])]
                e["cams"] = [int(x) for x in p.get_all_train_cameras().T[:, 0]]
            tr.append(guard(e, go))
    return tr


def mapjoin(ctx):
    rng = ctx.g
    dirs, maps, want = [], [], [[], [], []]
    share = bool(rng.random() < 0.5)
    hast = bool(rng.random() < 0.7) or share
    base = 0
    try:
        for k in range(int(rng.integers(2, 4))):
            fr, sq = tables(rng, False, nseq=2)
            for f in fr:
                f["seq"] += 20 * k
            for x in sq:
                x["name"] += 20 * k
            d = tempfile.mkdtemp(prefix="c28")
            dirs.append(d)
            write_json(d, fr, sq)
            mk = lambda: build(d, json.loads(json.dumps(BASE)), False, rng)
            a = mk() if hast else None
            v, t = (a, a) if share else (mk(), mk())
            maps.append(DatasetMap(train=a, val=v, test=t))
            for w, x in zip(want, (a, v, t)):
                if x is not None:
                    w += index(x)
        e = {"op": "mapjoin", "got": [], "want": want}

        def go(e):
            maps[0].join(maps[1:])
            e["got"] = [fid(maps[0].train), fid(maps[0].val), fid(maps[0].test)]
        return [guard(e, go)]
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


def traces(ctx):
    ctx.g = np.random.default_rng(ctx.np.randint(1 << 30))
    for fn, q, t in ((trace_loaders, 130, 1500), (v2, 50, 500), (v1, 40, 400), (sqlprov, 50, 500), (single, 12, 150), (mapjoin, 10, 100)):
        for _ in range(ctx.n(q, t)):
            x = fn(ctx)
            if x:
                yield x
