"""Runs TLC."""
import json, os, re, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(HERE, "specs")


class TLCError(Exception):
    pass


EVAL_ERR = re.compile(
    r"(Attempted to|Overflow when|overflow|out of the domain|not in the domain|is not a function|"
    r"cannot be evaluated|The first argument of|was not an integer|evaluating)", re.S)


def run(root, text, cfg, env=None, extra=(), timeout=800, workers=None, xmx="10g"):
    """Write module `root` with the given text (or use specs/<root>.tla if text is None), run TLC.
    Returns dict(out, rc, states, generated, depth)."""
    d = tempfile.mkdtemp(prefix="verif_tlc_")
    try:
        if text is not None:
            open(os.path.join(d, root + ".tla"), "w").write(text)
            mod = os.path.join(d, root + ".tla")
        else:
            mod = os.path.join(SPECS, root + ".tla")
        open(os.path.join(d, root + ".cfg"), "w").write(cfg)
        cmd = ["java", f"-Xmx{xmx}", "-Xss64m", "-XX:+UseParallelGC", f"-DTLA-Library={SPECS}", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers or os.cpu_count() or 4), "-deadlock", "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "meta"), "-config", os.path.join(d, root + ".cfg"), *extra, mod]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise TLCError(f"TLC timed out after {timeout}s on {root}") from ex
        out = p.stdout
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        g, s = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        md = re.findall(r"depth of the complete state graph search is (\d+)", out)
        return {"out": out, "rc": p.returncode, "generated": g, "states": s,
                "depth": int(md[-1]) if md else 0,
                "ok": "No error has been found" in out, "cmd": " ".join(cmd)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def prints(out, tag):
    """Decode lines printed with PrintT(tag \\o ToJson(v)): a quoted TLA+ string per line."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag):
            body = line[1 + len(tag):]
            body = body[: body.rindex('"')]
            body = body.replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(body))
    return res
