"""Provides pytorch3d._C compiled from /repo's *current* csrc, without writing into /repo.

Everything is decided by content, never by time stamps:
 * a translation unit is identified by the hash of its comment/whitespace-normalised text
   together with that of every csrc header it includes (transitively);
 * lib/ext_known.json records, for the tree this was written on, which object file
   (sha256 of the debug-stripped object) each translation unit compiles to and which
   extension (sha256 of its code and data sections) the whole tree links to.
If the normalised csrc equals the recorded one and /repo's _C*.so has the recorded code,
that .so is used as it is.  Otherwise objects of unchanged translation units are taken from
/repo/build when their content is the recorded one, everything else is recompiled."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, sysconfig, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "lib", "ext_known.json")
CSRC = os.path.join(REPO, "pytorch3d/csrc")
SUF = sysconfig.get_config_var("EXT_SUFFIX")

_tok = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', re.S)


def _norm(path):
    with open(path, encoding="utf-8", errors="surrogateescape") as f:
        t = f.read()
    if 'R"' not in t:
        t = t.replace("\\\n", " ")
        t = _tok.sub(lambda m: " " if m.group(0)[0] == "/" else m.group(0), t)
        t = "\n".join(l for l in (re.sub(r"[ \t]+", " ", x).strip() for x in t.split("\n")) if l)
    return t


_nc = {}


def _info(path):
    path = os.path.realpath(path)
    if path not in _nc:
        t = _norm(path)
        incs = []
        for m in re.finditer(r'#\s*include\s*["<]([^">]+)[">]', t):
            for b in (os.path.dirname(path), CSRC):
                p = os.path.realpath(os.path.join(b, m.group(1)))
                if os.path.isfile(p) and p.startswith(os.path.realpath(CSRC)):
                    incs.append(p)
                    break
        _nc[path] = (hashlib.sha256(t.encode("utf-8", "surrogateescape")).hexdigest(), incs)
    return _nc[path]


def tu_hash(path):
    seen, stack = set(), [os.path.realpath(path)]
    while stack:
        p = stack.pop()
        if p not in seen:
            seen.add(p)
            stack += _info(p)[1]
    h = hashlib.sha256()
    for p in sorted(seen):
        h.update(os.path.relpath(p, os.path.realpath(CSRC)).encode() + _info(p)[0].encode())
    return h.hexdigest()[:24]


def sources():
    return sorted(glob.glob(os.path.join(CSRC, "**", "*.cpp"), recursive=True))


def tree():
    return {os.path.relpath(s, CSRC): tu_hash(s) for s in sources()}


def tree_hash(tr):
    return hashlib.sha256(json.dumps(tr, sort_keys=True).encode()).hexdigest()[:20]


def so_code_hash(so):
    h = hashlib.sha256()
    with tempfile.TemporaryDirectory() as d:
        for s in (".text", ".rodata", ".data.rel.ro", ".data"):
            o = os.path.join(d, "o")
            subprocess.run(["objcopy", "-O", "binary", "--only-section=" + s, so, o], check=True)
            h.update(open(o, "rb").read() if os.path.exists(o) else b"-")
    return h.hexdigest()[:24]


def obj_hash(o):
    with tempfile.TemporaryDirectory() as d:
        t = os.path.join(d, "o.o")
        subprocess.run(["objcopy", "--strip-debug", o, t], check=True)
        return hashlib.sha256(open(t, "rb").read()).hexdigest()[:24]


def repo_obj(rel):
    c = glob.glob(os.path.join(REPO, "build", "temp.*", "repo", "pytorch3d", "csrc", rel[:-4] + ".o"))
    return c[0] if c else None


def _flags():
    import importlib.util
    td = os.path.dirname(importlib.util.find_spec("torch").origin)
    inc = [
        f"-I{CSRC}", f"-I{td}/include", f"-I{td}/include/torch/csrc/api/include",
        f"-I{td}/include/TH", f"-I{td}/include/THC", f"-I{sys.prefix}/include",
        f"-I{sysconfig.get_paths()['include']}",
    ]
    cflags = ["-fno-strict-overflow", "-DNDEBUG", "-O2", "-w", "-fPIC"] + inc + ["-c"]
    post = ["-std=c++17", "-DTORCH_API_INCLUDE_EXTENSION_H", '-DPYBIND11_COMPILER_TYPE="_gcc"',
            '-DPYBIND11_STDLIB="_libstdcpp"', '-DPYBIND11_BUILD_ABI="_cxxabi1011"',
            "-DTORCH_EXTENSION_NAME=_C", "-D_GLIBCXX_USE_CXX11_ABI=0"]
    return cflags, post, td


def ensure(verbose=True):
    tr = tree()
    th = tree_hash(tr)
    known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else {"tree": "", "so": "", "tus": {}}
    if known["tree"] == th:
        for so in glob.glob(os.path.join(REPO, "pytorch3d", "_C*" + SUF)):
            if so_code_hash(so) == known["so"]:
                return so
    base = os.path.join(HERE, ".build")
    try:
        os.makedirs(base, exist_ok=True)
        t = os.path.join(base, f".w{os.getpid()}")
        open(t, "w").close()
        os.unlink(t)
    except OSError:
        base = tempfile.mkdtemp(prefix="verif_ext_")
    dst = os.path.join(base, f"ext-{th}")
    so = os.path.join(dst, "_C" + SUF)
    if os.path.exists(so):
        return so
    lock = open(os.path.join(base, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(so):
        return so
    os.makedirs(dst, exist_ok=True)
    cflags, post, td = _flags()
    tmp = tempfile.mkdtemp(dir=dst)
    objs, todo = [], []
    for i, (rel, h) in enumerate(tr.items()):
        k = known["tus"].get(rel)
        ro = repo_obj(rel)
        if k and k[0] == h and ro and obj_hash(ro) == k[1]:
            objs.append(ro)
        else:
            o = os.path.join(tmp, f"{i}.o")
            objs.append(o)
            todo.append((os.path.join(CSRC, rel), o))
    if verbose:
        print(f"[verif] building pytorch3d._C for csrc {th}: {len(todo)} of {len(tr)} units to compile", flush=True)

    def one(so_):
        s, o = so_
        p = subprocess.run(["/usr/bin/c++"] + cflags + [s, "-o", o] + post,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return s, p.returncode, p.stdout

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for s, rc, out in ex.map(one, todo):
            if rc:
                print(out[-4000:])
                raise SystemExit(f"compilation of {s} failed")
    so_tmp = os.path.join(tmp, "out.so")
    p = subprocess.run(["/usr/bin/c++", "-shared"] + objs +
                       [f"-L{td}/lib", "-lc10", "-ltorch", "-ltorch_cpu", "-ltorch_python", "-o", so_tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        raise SystemExit("link failed")
    os.replace(so_tmp, so)
    shutil.rmtree(tmp)
    for o in sorted(glob.glob(os.path.join(base, "ext-*")), key=os.path.getmtime)[:-6]:
        if o != dst:
            shutil.rmtree(o, ignore_errors=True)
    return so


def install():
    """Make `import pytorch3d._C` use the extension compiled from the current csrc."""
    import importlib.machinery, importlib.util
    so = ensure()
    import torch  # noqa: F401  (brings libc10.so)
    loader = importlib.machinery.ExtensionFileLoader("pytorch3d._C", so)
    spec = importlib.util.spec_from_file_location("pytorch3d._C", so, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    import pytorch3d
    assert os.path.realpath(pytorch3d.__file__).startswith(os.path.realpath(REPO) + "/"), pytorch3d.__file__
    sys.modules["pytorch3d._C"] = mod
    pytorch3d._C = mod
    return so


def record():
    """Run once, on the unmodified tree just built by the project's build: writes ext_known.json."""
    tr = tree()
    so = glob.glob(os.path.join(REPO, "pytorch3d", "_C*" + SUF))[0]
    json.dump({"tree": tree_hash(tr), "so": so_code_hash(so),
               "tus": {r: [h, obj_hash(repo_obj(r))] for r, h in tr.items()}}, open(KNOWN, "w"), indent=1)


if __name__ == "__main__":
    if sys.argv[1:] == ["record"]:
        record()
    else:
        print(ensure())
