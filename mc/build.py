"""Builds the WLA DX tools from /repo's current working tree, with content-addressed caching.

Variants:
  opt   gcc -O1 (what the checks run by default)
  pattern, zero  with automatic variables that start with a pattern (-O1) or with zeros (-O0)
  asan  gcc -O1 -fsanitize=address,undefined, no recovery
The instruction tables are regenerated from the current i*.c with a freshly built generator, so a
change in any source file is always seen.  Nothing is written in /repo.
"""
import hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

ARCH = {"gb": "GB", "65c02": "WDC65C02", "65ce02": "CSG65CE02", "6502": "MCS6502", "65816": "W65816",
        "huc6280": "HUC6280", "spc700": "SPC700", "z80": "Z80", "z80n": "Z80N", "68000": "MC68000",
        "6800": "MC6800", "6801": "MC6801", "6809": "MC6809", "8008": "I8008", "8080": "I8080",
        "superfx": "SUPERFX"}
ALL = list(ARCH)

VARIANTS = {
    # automatic variables start with a pattern or with zeros: what depends on uninitialised ones differs
    "pattern": (["-O1", "-w", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"], []),
    "zero": (["-O0", "-w", "-DNDEBUG", "-ftrivial-auto-var-init=zero"], []),
    "opt": (["-O1", "-w", "-DNDEBUG"], []),
    "asan": (["-O1", "-g1", "-w", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=signed-integer-overflow,shift",
              "-fno-omit-frame-pointer", "-fno-pie"], ["-fsanitize=address,undefined", "-static-libasan", "-static-libubsan", "-no-pie"]),   # linked this way it starts a third faster
}

class BuildError(Exception):
    pass

def _cmake_list(path, var):
    """The .c files of a CMake set(VAR ...) or add_executable(VAR ...)."""
    import re
    t = open(path, encoding="utf-8").read()
    m = re.search(r"(?:set|add_executable)\s*\(\s*" + re.escape(var) + r"\s+([^)]*)\)", t)
    if not m:
        raise BuildError("no source list %s in %s" % (var, path))
    return [x for x in m.group(1).split() if x.endswith(".c")]

_hash_cache = {}
def _read(p):
    with open(p, "rb") as f:
        return f.read()

def _headers_digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for n in sorted(os.listdir(d)):
            if n.endswith(".h"):
                h.update(n.encode() + b"\0" + _read(os.path.join(d, n)) + b"\0")
    return h.hexdigest()

def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("build failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-3000:]))

def _obj(src, defs, flags, incs, hdig, pool_dir):
    key = hashlib.sha256(b"\0".join([_read(src), src.encode(), " ".join(defs + flags).encode(), hdig.encode()])).hexdigest()[:32]
    out = os.path.join(pool_dir, key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.%s.tmp" % (os.getpid(), os.urandom(4).hex())
        _run(["gcc", "-std=gnu90", "-DUNIX"] + ["-D" + d for d in defs] + flags + ["-I" + i for i in incs] + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out

def _link(objs, out_name, ldflags, bindir, libs=("-lm",)):
    key = hashlib.sha256((" ".join(objs) + " ".join(ldflags)).encode()).hexdigest()[:32]
    out = os.path.join(bindir, key + "-" + out_name)
    if not os.path.exists(out):
        tmp = out + ".%d.%s.tmp" % (os.getpid(), os.urandom(4).hex())
        _run(["gcc"] + ldflags + objs + ["-o", tmp] + list(libs))
        os.rename(tmp, out)
    return out

def build(tools, variant="opt"):
    """tools: names of CPUs (ALL for every one), 'wlalink', 'wlab'.  Returns {name: path}."""
    global BUILD
    try:
        os.makedirs(BUILD, exist_ok=True)
    except OSError:
        BUILD = tempfile.mkdtemp(prefix="verif-build-")
    objd = os.path.join(BUILD, "obj"); bind = os.path.join(BUILD, "bin"); tbld = os.path.join(BUILD, "tbl")
    for d in (objd, bind, tbld):
        os.makedirs(d, exist_ok=True)
    cflags, ldflags = VARIANTS[variant]
    hd_main = _headers_digest([REPO])
    hd_link = _headers_digest([REPO, os.path.join(REPO, "wlalink")])
    hd_wlab = _headers_digest([REPO, os.path.join(REPO, "wlab")])
    wla_srcs = _cmake_list(os.path.join(REPO, "CMakeLists.txt"), "WLA_SRCS")
    jobs = []   # (tool, kind, src, defs, flags, hdig)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        def gen_table(cpu):
            d = [ARCH[cpu]]
            o1 = _obj(os.path.join(REPO, "instruction_table_generator/main.c"), d, ["-O1", "-w"], [REPO], hd_main, objd)
            o2 = _obj(os.path.join(REPO, "i%s.c" % cpu), d, ["-O1", "-w"], [REPO], hd_main, objd)
            gen = _link([o1, o2], "gen-" + cpu, [], bind)
            key = os.path.basename(gen)[:32]
            t = os.path.join(tbld, key + "-t%s.c" % cpu)
            if not os.path.exists(t):
                tmp = t + ".%d.%s.tmp" % (os.getpid(), os.urandom(4).hex())
                _run([gen, tmp])
                os.rename(tmp, t)
            return t
        tbl_f = {c: ex.submit(gen_table, c) for c in tools if c in ARCH}
        futs = {}
        # big files first
        order = sorted(wla_srcs, key=lambda s: -os.path.getsize(os.path.join(REPO, s)))
        for s in order:
            for c in tools:
                if c in ARCH:
                    futs.setdefault(c, []).append(ex.submit(_obj, os.path.join(REPO, s), [ARCH[c]], cflags, [REPO], hd_main, objd))
        for c in tools:
            if c in ARCH:
                futs[c].append(ex.submit(_obj, os.path.join(REPO, "i%s.c" % c), [ARCH[c]], cflags, [REPO], hd_main, objd))
        if "wlalink" in tools:
            base = os.path.join(REPO, "wlalink")
            for s in _exe_sources(os.path.join(base, "CMakeLists.txt"), "wlalink"):
                futs.setdefault("wlalink", []).append(ex.submit(_obj, os.path.normpath(os.path.join(base, s)), [], cflags, [REPO, base], hd_link, objd))
        if "wlab" in tools:
            base = os.path.join(REPO, "wlab")
            for s in _exe_sources(os.path.join(base, "CMakeLists.txt"), "wlab"):
                futs.setdefault("wlab", []).append(ex.submit(_obj, os.path.normpath(os.path.join(base, s)), [], cflags, [REPO, base], hd_wlab, objd))
        tobj = {c: ex.submit(lambda c=c: _obj(tbl_f[c].result(), [ARCH[c]], cflags, [REPO], hd_main, objd)) for c in tbl_f}
        res = {}
        for t in tools:
            objs = [f.result() for f in futs[t]]
            if t in ARCH:
                objs.append(tobj[t].result())
            name = ("wla-" + t) if t in ARCH else t
            res[t] = ex.submit(_link, objs, name, ldflags, bind)
        return {t: f.result() for t, f in res.items()}

def _exe_sources(cm, name):
    import re
    t = open(cm, encoding="utf-8").read()
    m = re.search(r"add_executable\s*\(\s*" + re.escape(name) + r"\s+([^)]*)\)", t)
    toks = m.group(1).split()
    out = []
    for x in toks:
        v = re.match(r"\$\{(\w+)\}$", x)
        if v:
            mm = re.search(r"set\s*\(\s*" + v.group(1) + r"\s+([^)]*)\)", t)
            out += mm.group(1).split()
        else:
            out.append(x)
    out = [x.strip('"') for x in out]
    out = [x.replace("${PROJECT_SOURCE_DIR}", REPO).replace("${CMAKE_SOURCE_DIR}", REPO) for x in out]
    return [x for x in out if x.endswith(".c")]

if __name__ == "__main__":
    import time
    t0 = time.time()
    v = sys.argv[1] if len(sys.argv) > 1 else "opt"
    tools = sys.argv[2:] or (ALL + ["wlalink", "wlab"])
    for k, p in build(tools, v).items():
        print(k, p)
    print("%.1fs" % (time.time() - t0))

def shared(src):
    """A small shared library of this framework's own (fault injector, clock), built once."""
    p = os.path.join(VERIF, "mc", src)
    key = hashlib.sha256(_read(p)).hexdigest()[:24]
    d = os.path.join(BUILD, "so"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key + ".so")
    if not os.path.exists(out):
        tmp = out + ".%d.%s.tmp" % (os.getpid(), os.urandom(4).hex())
        _run(["gcc", "-O1", "-w", "-fPIC", "-shared", p, "-o", tmp, "-ldl"])
        os.rename(tmp, out)
    return out
