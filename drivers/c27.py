"""Datasets: filters, order, lookup, subsets, joins, evaluation batches."""
import copy
import dataclasses
import io
import json
import os
import shutil
import tempfile

from typing import Any, Dict, List, NamedTuple, Optional, Tuple

from harness import guard
from datalib import *

MODULE = "Data"
ASSUMPTIONS = ["annotation tables without blobs; time stamps multiples of 1/8 s", "every frame is in at most one subset"]


def make(ctx, d, fr, sq, sql):
    rng = ctx.g
    c = config(rng, fr, sq, sql)
    e = {"op": "sql" if sql else "json", "c": c, "rejected": False, "evmiss": False, "ix": [], "n": 0, "names": [], "cats": [], "flt": False, "again": [], "ev": [], "evn": []}
    box = {}

    def go(e):
        x = {}
        try:
            ds = build(d, c, sql, rng)
        except ValueError:
            e["rejected"] = True
            return
        if len(ds) and rng.random() < 0.4:
            ix = index(ds)
            miss = rng.random() < (0.6 if sql else 0.2)
            c["hasev"] = True
            c["ev"] = batches(rng, fr, ix, miss)
            if sql:
                f = os.path.join(d, "ev.json")
                with open(f, "w") as g:
                    json.dump([[ident(fr, q, True) for q in b] for b in c["ev"]], g)
                x = {"eval_batches_file": f}
            else:
                wp = rng.random() < 0.5
                x = {"eval_batch_index": [[tuple(ident(fr, q, wp)) for q in b] for b in c["ev"]]}
                e["evmiss"] = any(q not in ix for b in c["ev"] for q in b)
            try:
                ds = build(d, c, sql, rng, x)
            except IndexError:
                e["rejected"] = True
                return
        e["ix"] = index(ds)
        e["n"] = len(ds)
        e["names"] = names(ds)
        e["cats"] = cats(ds)
        e["flt"] = bool(ds.is_filtered())
        e["again"] = index(build(d, c, sql, rng, x))
        if c["hasev"]:
            g = ds.get_eval_batches()
            if sql:
                e["evn"] = [[[int(q[0][1:]), int(q[1])] for q in b] for b in g]
            else:
                e["ev"] = [[int(i) for i in b] for b in g]
        elif ds.get_eval_batches() is not None:
            e["ev"] = [[-7]]
        box["ds"] = ds
    e = guard(e, go)
    return e, box.get("ds")


def query(ctx, tr, dss, k, sql, fr, joined):
    rng = ctx.g
    ds = dss[k]
    ix = index(ds)
    kind = rng.choice(["order", "order", "nos", "get", "seqidx", "sub"])
    if kind == "order" and ix:
        q = ix[int(rng.integers(0, len(ix)))][0]
        hasf = bool(rng.random() < 0.4)
        flt = sorted(int(v) for v in rng.permutation(4)[:2] + 1)
        e = {"op": "order", "d": k + 1, "q": q, "hasf": hasf, "flt": flt, "out": [], "idx": []}

        def go(e):
            a = [LAB[v] for v in flt] if hasf else None
            e["out"] = [[int(round(float(t) * 8)), int(n), int(i)] for t, n, i in ds.sequence_frames_in_order(sn(q), a)]
            e["idx"] = [int(i) for i in ds.sequence_indices_in_order(sn(q), a)]
        tr.append(guard(e, go))
    elif kind == "nos" and ix:
        if rng.random() < 0.7:
            q = ix[int(rng.integers(0, len(ix)))][0]
            pool = [i for i in range(len(ix)) if ix[i][0] == q]
        else:
            pool = list(range(len(ix)))
        i = [pool[j] for j in rng.permutation(len(pool))[: int(rng.integers(1, 5))]]
        hasf = bool(not sql and rng.random() < 0.4)
        flt = sorted(int(v) for v in rng.permutation(4)[: int(rng.choice([0, 1, 2, 2]))] + 1)
        e = {"op": "nos", "d": k + 1, "i": i, "hasf": hasf, "flt": flt, "out": [], "rejected": False}

        def go(e):
            try:
                r = ds.get_frame_numbers_and_timestamps(i, [LAB[v] for v in flt] if hasf else None)
            except ValueError:
                e["rejected"] = True
                return
            e["out"] = [[int(n), int(round(float(t) * 8))] for n, t in r]
        tr.append(guard(e, go))
    elif kind == "get":
        byname = bool(sql and rng.random() < 0.6)
        e = {"op": "get", "d": k + 1, "i": int(rng.integers(0, len(ix) + 3)), "byname": byname, "q": [0, 0], "haspath": False, "rightpath": False, "out": [], "path": False, "rejected": False}
        if byname:
            f = fr[int(rng.integers(0, len(fr)))]
            e["q"] = [f["seq"], f["no"]] if rng.random() < 0.85 else [77, 1]
            e["haspath"] = bool(rng.random() < 0.5)
            e["rightpath"] = bool(rng.random() < 0.7)

        def go(e):
            if byname:
                key = (sn(e["q"][0]), e["q"][1]) + ((path({"seq": e["q"][0], "no": e["q"][1]}) if e["rightpath"] else "x.png",) if e["haspath"] else ())
            else:
                key = e["i"]
            try:
                f = ds.meta[key] if sql and rng.random() < 0.3 else ds[key]
            except IndexError:
                e["rejected"] = True
                return
            e["out"] = frame(f)
            e["path"] = True
        tr.append(guard(e, go))
    elif kind == "seqidx" and not sql and ix:
        e = {"op": "seqidx", "d": k + 1, "b": batches(rng, fr, ix, rng.random() < 0.5), "allow": bool(rng.random() < 0.6), "remove": bool(rng.random() < 0.5), "out": [], "rejected": False}
        if len(set(map(tuple, ix))) < len(ix):
            return

        def go(e):
            try:
                r = ds.seq_frame_index_to_dataset_index([[tuple(ident(fr, q, rng.random() < 0.5)) for q in b] for b in e["b"]],
                                                        allow_missing_indices=e["allow"], remove_missing_indices=e["remove"])
            except IndexError:
                e["rejected"] = True
                return
            e["out"] = [[-1 if i is None else int(i) for i in b] for b in r]
        tr.append(guard(e, go))
    elif kind == "sub" and not sql and ix and len(set(map(tuple, ix))) == len(ix) and not tr[0].get("nosub"):
        pool = [[f["seq"], f["no"]] for f in fr] if rng.random() < 0.4 else ix
        fi = [pool[i] for i in rng.permutation(len(pool))[: int(rng.integers(1, 8))]]
        e = {"op": "sub", "d": k + 1, "fi": fi, "allow": bool(rng.random() < 0.7), "ix": [], "names": [], "cats": [], "orig": [], "rejected": False}

        def go(e):
            try:
                n = ds.subset_from_frame_index([tuple(ident(fr, q, rng.random() < 0.5)) for q in fi], allow_missing_indices=e["allow"])
            except IndexError:
                e["rejected"] = True
                return
            e["ix"] = index(n)
            e["names"] = names(n)
            e["cats"] = cats(n)
            e["orig"] = index(ds)
            n.eval_batches = None
            dss.append(n)
        tr.append(guard(e, go))


def trace(ctx):
    rng = ctx.g
    sql = bool(rng.random() < 0.5)
    fr, sq = tables(rng, sql)
    d = tempfile.mkdtemp(prefix="c27")
    try:
        if sql:
            write_sql(d, fr, sq, rng)
        else:
            write_json(d, fr, sq)
        write_lists(d, fr)
        tr = [{"op": "tables", "fr": fr, "sq": sq}]
        dss = []
        for _ in range(3):
            e, ds = make(ctx, d, fr, sq, sql)
            tr.append(e)
            if ds is not None:
                dss.append(ds)
                for _ in range(int(rng.integers(1, 5))):
                    query(ctx, tr, dss, int(rng.integers(0, len(dss))), sql, fr, False)
        if not sql and len(dss) > 1:
            order = [int(x) for x in rng.permutation(len(dss))]
            k, others = order[0], order[1 : int(rng.integers(2, len(order) + 1))]
            e = {"op": "join", "d": k + 1, "others": [o + 1 for o in others], "ix": [], "ev": [], "names": [], "cats": [], "rejected": False}

            def go(e):
                try:
                    dss[k].join([copy.deepcopy(dss[o]) for o in others])
                except ValueError:
                    e["rejected"] = True
                    return
                e["ix"] = index(dss[k])
                e["ev"] = [[int(i) for i in b] for b in (dss[k].get_eval_batches() or [])]
                e["names"] = names(dss[k])
                e["cats"] = cats(dss[k])
            tr.append(guard(e, go))
            if not tr[-1]["rejected"]:
                for _ in range(2):
                    query(ctx, tr, dss, k, sql, fr, True)
        return tr
    finally:
        shutil.rmtree(d, ignore_errors=True)


@dataclasses.dataclass
class Inner:
    a: int
    b: Optional[str] = None


class Pair(NamedTuple):
    x: int
    y: Optional[Inner]


@dataclasses.dataclass
class Outer:
    n: int
    l: List[int]
    i: Optional[Inner]
    ll: List[List[Inner]]
    t: Tuple[int, Optional[float]]
    d: Dict[str, Inner]
    p: Pair
    any: Any = None


def dump_trace(ctx):
    rng = ctx.g
    k = lambda n=5: int(rng.integers(0, n))
    inner = lambda: Inner(k(), None if rng.random() < 0.4 else "b%d" % k())
    outer = lambda: Outer(k(), [k() for _ in range(k())], None if rng.random() < 0.4 else inner(), [[inner() for _ in range(k(3))] for _ in range(k(3))],
                          (k(), None if rng.random() < 0.3 else k() / 4), {"k%d" % j: inner() for j in range(k(3))}, Pair(k(), None if rng.random() < 0.4 else inner()), rng.choice([None, 1, 2]))
    tr = [{"op": "tables", "fr": [], "sq": []}]
    for many in (True, True, False):
        def go(e):
            obj = [outer() for _ in range(1 + k())] if many else outer()
            for o in obj if many else [obj]:
                o.any = None if o.any is None else int(o.any)
            f = io.StringIO()
            jt.dump_dataclass(obj, f)
            f.seek(0)
            e["same"] = jt.load_dataclass(f, List[Outer] if many else Outer) == obj
        tr.append(guard({"op": "dump", "same": False}, go))
    return tr


def seeds_trace(ctx, sql):
    """the random frames of a sequence depend on the seed and on the sequence"""
    rng = ctx.g
    n, k = int(rng.integers(5, 8)), int(rng.integers(2, 4))
    fr = [{"seq": q, "no": j, "hasts": True, "ts": j, "mass": 5, "sub": 1, "ft": 1} for q in range(10) for j in range(n)]
    sq = [{"name": q, "cat": q % 2} for q in range(10)]
    d = tempfile.mkdtemp()

    def go(e):
        (write_sql(d, fr, sq, rng) if sql else write_json(d, fr, sq))
        for seed in rng.permutation(1000)[:8]:
            c = dict(BASE, nf=k, seed=int(seed))
            for _ in range(2):
                ix = index(build(d, c, sql, rng))
                e["sel"].append([sorted(no for s, no in ix if s == q) for q in range(10)])
    try:
        return [{"op": "tables", "fr": [], "sq": []}, guard({"op": "seeds", "n": n, "k": k, "sel": []}, go)]
    finally:
        shutil.rmtree(d)


def traces(ctx):
    ctx.g = np.random.default_rng(ctx.np.randint(1 << 30))
    for _ in range(ctx.n(120, 1500)):
        yield trace(ctx)
    for _ in range(ctx.n(30, 300)):
        yield dump_trace(ctx)
    for i in range(ctx.n(4, 40)):
        yield seeds_trace(ctx, i % 2 == 1)
