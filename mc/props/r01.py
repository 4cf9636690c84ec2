"""R01: feature-covering programs and all pairs of feature fragments are assembled and linked again under every variation that must not matter
(verbosity, diagnostics, listing and symbol options, environment, memory contents, clock, working directory, output names, leftovers of earlier
runs) and all pairs of variations; objects, ROMs and symbol files must be byte-identical to those of the plain run."""
import os
from .. import build, corpus, frags, run
from ..check import Case

ID = "R01"
LEVEL = "model_checking"
RULE = "distinct (program, pair of variations)"
BOUNDS = {"quick": "24 feature-covering programs under every variation and every pair of variations of different kinds (options of the assembler, of the linker, environment, files, build); all ordered pairs of 59 feature fragments under five bundles of variations",
          "thorough": "as quick, also every triple of variations on the programs, and all ordered triples of fragments with two bundles"}
TOOLS = corpus.CPUS + ["wlalink"]
MORE_TOOLS = {"pattern": TOOLS, "zero": TOOLS}
ASSUMPTIONS = ["programs that ask for the date (.SDSCTAG, -x) or for random numbers without .SEED are left out", "the time printed in list files is not compared"]

def env(**kw): return dict(run.ENV, **kw)

def variations():
    """kind -> {name: change of the run}"""
    so = build.shared("env_shim.c")
    long = "x" * 1500
    return {
    "asm": {"-v": ["-v"], "-v1": ["-v1"], "-v2": ["-v2"], "-q": ["-q"], "-i": ["-i"], "-M -MF": ["-M", "-MF", "x.d"], "-M -MP -MF": ["-M", "-MP", "-MF", "x.d"],
            "-SX -SY": ["-SX", "40", "-SY", "5"], "-v -i": ["-v", "-i"], "-p": ["-p", "-v"]},
    "link": {"-v": ["-v"], "-v1": ["-v1"], "-v2": ["-v2"], "-i": ["-i"], "-s": ["-s"], "-S": ["-S"], "-sE": ["-sE"], "-S -A": ["-S", "-A"],
             "-v -S -A -i": ["-v", "-S", "-A", "-i"], "-SX -SY": ["-SX", "40", "-SY", "5"]},
    "env": {"no environment": {}, "big environment": env(**{"V%d" % i: long for i in range(60)}), "other locale": env(LC_ALL="tr_TR.UTF-8", LANG="de_DE", LANGUAGE="de", TZ="Asia/Tokyo", HOME="/tmp", USER="u"),
            "freed memory 85": env(MALLOC_PERTURB_="85"), "freed memory 255": env(MALLOC_PERTURB_="255"),
            "fresh memory 170": env(LD_PRELOAD=so, SHIM_FILL="170", SHIM_TIME="1", SHIM_PID="77"), "fresh memory 1": env(LD_PRELOAD=so, SHIM_FILL="1", SHIM_TIME="1700000000"),
            "fresh memory 0": env(LD_PRELOAD=so, SHIM_FILL="0", SHIM_TIME="2000000000", SHIM_PID="3")},
    "files": {"older outputs": "older", "second run": "twice", "other names": "names", "names without dots": "nodots", "outputs in a directory": "outdir", "deep directory": "deep", "long name": "long", "absolute names": "abs"},
    "build": {"pattern": "pattern", "zero": "zero"},
    }

def here():
    return run.World.here(10.0)

def assemble(p, ch):
    """(files, steps, {name in the plain run: name in this run}) of program p with changes ch: {kind: value}"""
    f = corpus.files(p)
    units = [u for u, k, s in p["units"]]
    obj = {u + ".o": u + ".o" for u in units}; rom = "o.bin"; fl = ch.get("files"); pre = ""
    if fl == "names": obj = {a: a[:-2] + "_2.obj" for a in obj}; rom = "result.xyz"
    if fl == "nodots": obj = {a: a[:-2] + "obj" for a in obj}; rom = "rom"
    if fl == "outdir": obj = {a: "out/" + a for a in obj}; rom = "out/o.bin"; f["out/x"] = b""
    if fl == "long": obj = {a: a[:-2] + "n" * 100 + ".o" for a in obj}; rom = "r" * 120 + ".bin"
    if fl == "abs": obj = {a: os.getcwd() + "/" + a for a in obj}; rom = os.getcwd() + "/o.bin"
    for a, b in obj.items(): f["l"] = f["l"].replace(a.encode(), b.encode()) if a != b else f["l"]
    if fl == "older":
        for x in list(obj.values()) + ["o.bin"] + ["o.sym"] * bool(set(ch.get("link", [])) & {"-s", "-S", "-sE"}): f[x] = bytes(range(256)) * 500
    if fl == "deep": pre = "d e/deep.er/" + "q" * 60 + "/"; f = {pre + a: b for a, b in f.items()}
    e = ch.get("env"); var = "@" + ch["build"] if "build" in ch else ""
    st = [(p["cpu"] + var, ch.get("asm", []) + ["-" + k, obj[u + ".o"], u + ".s"]) for u, k, s in p["units"]]
    st.append(("wlalink" + var, ch.get("link", []) + p["lflags"] + ["l", rom]))
    if fl == "deep": st = [("/bin/sh", ["-c", 'cd "$0" && exec "$@"', pre, run.TOOLS[t]] + a) for t, a in st]
    if fl == "twice": st = [x for x in st for _ in (0, 1)]
    if e is not None: st = [(t, a, e) for t, a in st]
    names = {a: pre + b for a, b in obj.items()}; names["o.bin"] = pre + rom
    sym = rom[:rom.rindex(".")] + ".sym" if "." in rom else rom + ".sym"
    names["o.sym"] = pre + sym
    return f, st, names

_base = {}
def base(n, p, syms):
    k = (n, tuple(syms))
    if k not in _base:
        f, st, names = assemble(p, {"link": list(syms)})
        _base[k] = (here().run({"files": f, "steps": st, "reads": list(names)}))
    return _base[k]

def case(n, p, key, ch):
    f, st, names = assemble(p, ch)
    rom = names["o.bin"] if ch.get("files") != "deep" else "o.bin"
    syms = [x for x in ch.get("link", []) if x in ("-s", "-S", "-sE", "-A")]
    listed = "-i" in ch.get("asm", [])
    cell = {}
    def prog():
        cell["b"] = base(n, p, syms)
        return {"files": f, "steps": st, "reads": list(names.values())}
    def judge(res):
        b = cell["b"]
        if not b.ok: return "the plain run is refused: %s" % b.outs[-1][-300:]
        if not res.ok: return "refused: exit codes %r: %s" % (res.rcs, res.outs[-1][-300:])
        for a, c in names.items():
            if listed and a != "o.bin" and not a.endswith(".sym"): continue
            if a == "o.sym" and listed and "-A" in syms: continue         # (line information needs -i)
            x, y = b.files[a], res.files[c]
            if a == "o.sym" and x and y:                                  # the comment at the top names the ROM
                x = x.replace(b'"o.bin".', b'"ROM".'); y = y.replace(b'"%s".' % rom.encode(), b'"ROM".')
            if x != y: return differ(a, x, y)
    return Case("%s: %s" % (n, key), prog, judge, steps=len(st), states=[n + key])

def differ(a, x, y):
    if x is None or y is None: return "%s is %s in the plain run, %s in this one" % (a, "missing" if x is None else "made", "missing" if y is None else "made")
    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
    return "%s differs at byte %d (lengths %d and %d): %s instead of %s" % (a, i, len(x), len(y), y[i:i + 16].hex(" "), x[i:i + 16].hex(" "))

def bundles(deep):
    so = build.shared("env_shim.c")
    b = [("", ["-v"], ["-v"], None), ("", ["-i"], ["-v2"], env(MALLOC_PERTURB_="85")), ("@pattern", ["-q"], ["-i"], env(LD_PRELOAD=so, SHIM_FILL="170", SHIM_TIME="5")),
         ("@zero", ["-v2"], ["-s"], env(LD_PRELOAD=so, SHIM_FILL="1", SHIM_TIME="6")), ("", ["-M", "-MF", "x.d", "-v1"], ["-S", "-A", "-i"], {})]
    return b

def frag(names, bs):
    p = frags.world(names)
    f = dict(p["files"]); st = []; reads = []
    for i, (var, af, lf, e) in enumerate([("", [], [], None)] + bs):
        f["l%d" % i] = "[objects]\na%d.o\n" % i
        x = () if e is None else (e,)
        st.append(("z80" + var, af + ["-o", "a%d.o" % i, "a.s"]) + x)
        st.append(("wlalink" + var, lf + ["-r", "l%d" % i, "o%d.bin" % i]) + x)
        reads += ["a%d.o" % i, "o%d.bin" % i]
    def judge(res):
        if not res.ok: return "refused: exit codes %r: %s" % (res.rcs, res.outs[-1][-300:])
        bad = []
        for i, (var, af, lf, e) in enumerate(bs):
            for a in ("a%d.o", "o%d.bin"):
                if a == "a%d.o" and "-i" in af: continue
                if res.files[a % 0] != res.files[a % (i + 1)]:
                    return "with assembler options %s%s and linker options %s: %s" % (" ".join(af), var, " ".join(lf), differ(a % 0, res.files[a % 0], res.files[a % (i + 1)]))
    return Case("fragments " + " + ".join(names), {"files": f, "steps": st, "reads": reads}, judge, steps=len(st), states=[str(names)], n=len(bs))

def cases(tier):
    deep = tier != "quick"
    v = variations(); kinds = list(v)
    for n, p in corpus.P.items():
        p = dict(p)
        for a in kinds:
            for x in v[a]:
                yield case(n, p, x + " (%s)" % a, {a: v[a][x]})
        for i, a in enumerate(kinds):
            for b in kinds[i + 1:]:
                for x in v[a]:
                    for y in v[b]:
                        yield case(n, p, "%s (%s), %s (%s)" % (x, a, y, b), {a: v[a][x], b: v[b][y]})
                        if deep:
                            for c in kinds[kinds.index(b) + 1:]:
                                for z in v[c]:
                                    yield case(n, p, "%s (%s), %s (%s), %s (%s)" % (x, a, y, b, z, c), {a: v[a][x], b: v[b][y], c: v[c][z]})
    bs = bundles(deep)
    for a in frags.F:
        yield frag([a], bs)
        for b in frags.F:
            yield frag([a, b], bs)
            if deep:
                for c in frags.F: yield frag([a, b, c], bs[1:4:2])
