"""Shared machinery of the checks: case generation context, value encoding, trace validation with
TLC, known findings, evidence, verdict."""
import importlib, json, math, os, random, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "drivers")]
import tlc  # noqa: E402

NAN, PINF, NINF, BIG, NONINT = 1999999999, 1999999998, -1999999998, 1999999997, 1999999996
_SENT = {NAN, PINF, NINF, BIG, -BIG, NONINT}


def _flat(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from _flat(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from _flat(x)
    else:
        yield v


def _enc1(x, s, lim, exact):
    if isinstance(x, bool):
        return x
    if isinstance(x, int) and s == 1:
        return x if abs(x) <= lim else (BIG if x > 0 else -BIG)
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    y = x * s
    if abs(y) > lim:
        return BIG if y > 0 else -BIG
    r = int(math.floor(y + 0.5))
    if exact and abs(y - r) > exact:
        return NONINT
    return r


def enc(v, s=1, lim=10**8, exact=1e-3):
    """Tensor / nested list -> nested list of ints, value*s rounded; with exact>0 a value that is not
    within `exact` of an integer (after scaling) becomes a sentinel, which the spec rejects."""
    if hasattr(v, "detach"):
        if getattr(v, "is_sparse", False):
            v = v.to_dense()
        v = v.detach().cpu().tolist()
    elif hasattr(v, "tolist"):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [enc(x, s, lim, exact) for x in v]
    return _enc1(v, s, lim, exact)


def q(v, s, lim=2 * 10**8):
    """Fixed point with scale s (rounded; compared with a tolerance by the spec)."""
    return enc(v, s, lim, 0)


class Ctx:
    def __init__(self, prop, tier, seed):
        import numpy as np
        import torch
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(seed * 7919 + 13)
        self.np = np.random.RandomState((seed * 104729 + 7) % 2**31)
        torch.manual_seed(seed)
        np.random.seed(seed)
        random.seed(seed)
        self.torch = torch
        self.thorough = tier == "thorough"
        self.model = []  # design-model runs
        self.schedules = 0

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def ints(self, shape, lo, hi, dtype=None):
        return self.torch.tensor(self.np.randint(lo, hi + 1, size=shape), dtype=dtype or self.torch.float32)

    def design(self, name, module, cfg, expect_states=None, timeout=600, extra=()):
        """Model check a design specification (properties of the model itself)."""
        r = tlc.run(module, None, cfg, timeout=timeout, extra=extra)
        if not r["ok"]:
            print(r["out"][-6000:])
            raise MachineryError(f"design model {name} is not verified by TLC")
        self.model.append({"model": name, "states": r["states"], "transitions": r["generated"], "depth": r["depth"]})
        return r

    def behaviours(self, name, module, cfg, tag="BEH ", simulate=None, depth=None, timeout=600):
        """Behaviours of the specification, printed by TLC as JSON: exhaustive, or -simulate num=."""
        extra = []
        if simulate:
            extra = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(self.seed)]
        r = tlc.run(module, None, cfg, timeout=timeout, extra=extra, workers=1 if simulate else None)
        res = tlc.prints(r["out"], tag)
        if not res or ("Error:" in r["out"]):
            print(r["out"][-6000:])
            raise MachineryError(f"no behaviours from {module}")
        self.model.append({"model": name, "states": r["states"] or len(res), "transitions": r["generated"], "behaviours": len(res)})
        res.sort(key=json.dumps)  # worker scheduling must not influence the sample
        if simulate:  # TLC prints every last-step alternative of each simulated run: keep a sample
            self.rng.shuffle(res)
            res = res[:simulate]
        return res


class MachineryError(Exception):
    pass


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def guard(ev, fn):
    """Fill event `ev` by calling fn(ev); an exception of the code under test becomes an observation."""
    try:
        fn(ev)
    except Exception as e:  # noqa: BLE001
        ev["exc"] = f"{type(e).__name__}: {str(e)[:200]}"
        ev["tb"] = traceback.format_exc()[-1500:]
    return ev


def attempt(fn):
    """-> (True, value) or (False, exception type name)."""
    try:
        return True, fn()
    except Exception as e:  # noqa: BLE001
        return False, type(e).__name__


def validate(prop, module, traces, timeout=800, sub=""):
    """Trace validation with TLC.  Returns (list of failures, stats)."""
    import tempfile
    root = f"TV_{module}"
    text = f"---- MODULE {root} ----\nEXTENDS {module}, TraceDriver\n====\n"
    cfg = ("SPECIFICATION TraceSpec\nINVARIANT Report\nCONSTANTS\n  TInit <- S0\n  TApply <- Apply\n  TConf <- Conf\n")
    fd, path = tempfile.mkstemp(prefix="verif_trace_", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for i, t in enumerate(traces):
                evs = []
                for e in t:
                    e2 = {k: v for k, v in e.items() if not k.startswith("_") and k != "tb"}
                    if "exc" not in e2 and any(isinstance(x, int) and not isinstance(x, bool) and x in _SENT
                                              for x in _flat(e2.get("o", 0))):
                        e2["bad"] = True
                        if "o" in e2:
                            del e2["o"]
                    evs.append(e2)
                f.write(json.dumps({"id": i + 1, "ev": evs}) + "\n")
        r = tlc.run(root, text, cfg, env={"TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    fails = tlc.prints(r["out"], "TRACEFAIL ")
    seen, uniq = set(), []
    for f in fails:
        k = (f["tid"], f["l"])
        if k not in seen:
            seen.add(k)
            uniq.append(f)
    if not r["ok"]:
        m = tlc.EVAL_ERR.search(r["out"])
        i = r["out"].find("Error:")
        if m and "TRACEFAIL" not in r["out"][:0]:
            import re
            mt, ml = re.findall(r"/\\ tid = (\d+)", r["out"]), re.findall(r"/\\ l = (\d+)", r["out"])
            if mt and ml:
                uniq.append({"tid": int(mt[-1]), "l": int(ml[-1]) + 1,
                             "fails": ["observation outside the specification's domain: " + r["out"][i:i + 1500]],
                             "evalerr": True})
                return uniq, r
        print("\n".join(x for x in r["out"].splitlines() if not x.startswith(("Parsing file", "Semantic")))[:3000])
        raise MachineryError("TLC failed")
    failed_at = {f["tid"]: f["l"] for f in uniq}
    expect = sum((failed_at[i + 1] if i + 1 in failed_at else len(t)) + 1 for i, t in enumerate(traces))
    if r["states"] != expect:
        raise MachineryError(f"trace not consumed: {r['states']} states, expected {expect}")
    return uniq, r


def _short(v, n=1200):
    s = json.dumps(v, default=str)
    return s if len(s) <= n else s[:n] + "..."


def main(prop, tier=None, progress=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if os.environ.get("VERIF_NOEXT") != "1":
        import extbuild
        extbuild.install()
    import warnings
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(4)
    drv = importlib.import_module(prop.lower())
    ctx = Ctx(prop, tier, seed)
    traces = []
    groups = {}
    crash = None
    try:
        for item in drv.traces(ctx):
            mod, tr = item if isinstance(item, tuple) else (drv.MODULE, item)
            groups.setdefault(mod, []).append(tr)
    except (MachineryError, tlc.TLCError):
        raise
    except Exception as e:  # an exception of the code under test outside a guarded call
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        repo = os.path.realpath(os.environ.get("VERIF_REPO") or "/repo")
        # either the library raised, or the driver choked on what the library returned; anything else is our own trouble
        if isinstance(e, (MemoryError, OSError, ImportError, AttributeError, NameError)) and not any(
                os.path.realpath(f).startswith(repo + os.sep) for f in files):
            raise
        crash = traceback.format_exc()
    t1 = time.time()
    if progress is not None:
        os.write(progress, b"d")
    known = known_findings(prop)
    violations, known_hit = [], {}
    states = trans = 0
    for mod, trs in groups.items():
        fails, r = validate(prop, mod, trs, timeout=850 if tier == "quick" else 7200)
        states += r["states"]
        trans += r["generated"]
        for f in fails:
            ev = trs[f["tid"] - 1][f["l"] - 1]
            hit = None
            for k in known:
                if ev.get("kf") == k["key"] and set(f["fails"]) <= set(k["clauses"]):
                    hit = k
            if hit:
                known_hit[hit["key"]] = hit
            else:
                violations.append({"module": mod, "trace": trs[f["tid"] - 1][: f["l"]], "event": ev, "fails": f["fails"]})
        traces += trs
    if crash:
        violations.append({"module": drv.MODULE if hasattr(drv, "MODULE") else "", "trace": [], "fails": ["the library raised or returned malformed results where the driver relies on it"],
                           "event": {"op": "driver", "exc": crash[-1500:]}})
    nev = sum(len(t) for t in traces)
    ops = {}
    distinct = set()
    for t in traces:
        for e in t:
            ops[e.get("op", "?")] = ops.get(e.get("op", "?"), 0) + 1
            distinct.add(hash(json.dumps({k: v for k, v in e.items() if k != "tb"}, sort_keys=True, default=str)))
    samples = []
    for o in list(ops)[:6]:
        for t in traces:
            e = next((e for e in t if e.get("op") == o), None)
            if e is not None:
                samples.append(_short({"op": o, "trace_len": len(t), "event": {k: v for k, v in e.items() if k != "tb"}}))
                break
    for m in ctx.model:
        states += m["states"]
        trans += m["transitions"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(drv, "LEVEL", "model_checking"),
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": len(traces),
            "evaluations": nev, "distinct_nontrivial": len(distinct),
            "rule": getattr(drv, "RULE", "one evaluation = one recorded call of the real code judged by the TLA+ specification; "
                            "distinct = events with different arguments or observations"),
            "events_per_action": ops, "design_models": ctx.model, "samples": samples,
            "spec_modules": list(groups), "driver_s": round(t1 - t0, 2),
        },
        "assumptions": getattr(drv, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rp = os.path.join(HERE, "evidence", f"replay_{prop}.json")
    if os.path.exists(rp):
        os.unlink(rp)
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        rp = os.path.join(HERE, "evidence", f"replay_{prop}.json")
        json.dump({"property": prop, "seed": seed, "tier": tier, "violations": violations[:20]}, open(rp, "w"), default=str, indent=1)
        ev["coverage"]["violation_samples"] = [_short(v["fails"]) for v in violations[:5]]
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"[{prop}/{tier}] {len(traces)} traces, {nev} events, {states} states, {len(violations)} violations, "
          f"driver {t1 - t0:.1f}s total {time.time() - t0:.1f}s")
    if violations:
        for v in violations[:8]:
            print("  broken:", v["fails"], _short({k: x for k, x in v["event"].items() if k != "o"}, 400))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0


def supervised(prop, tier):
    """Runs the check in a child, so that a crash or a hang of native code is a verdict, not an accident."""
    import select
    import signal
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    limit = 600 if tier == "quick" else 6 * 3600
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            rc = main(prop, tier, w)
        except (MachineryError, tlc.TLCError) as e:
            print("MACHINERY ERROR:", e)
            rc = 2
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            rc = 3
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    os.close(w)
    why = None
    ready, _, _ = select.select([r], [], [], limit)
    if not ready:
        why = f"the executions did not terminate within {limit} s"
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if why is None and os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == signal.SIGKILL:
            print("MACHINERY ERROR: killed")
            return 2
        why = f"the process was ended by signal {sig} while executing the library"
    if why is None:
        return os.WEXITSTATUS(st)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, f"replay_{prop}.json")
    json.dump({"property": prop, "violations": [{"fails": [why]}]}, open(rp, "w"))
    json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED") or "1"), "level": "other",
               "coverage": {"explanation": why}, "wall_s": 0.0, "violations": 1}, open(os.path.join(d, f"{prop}.json"), "w"))
    print(f"VIOLATION property={prop} replay={rp}")
    return 1


if __name__ == "__main__":
    sys.exit(supervised(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
