"""R02: every primitive file operation (open, read, write, seek, close) of every tool run over feature-covering programs is made to fail, one at a
time, by a preloaded fault injector; a run whose operation failed must end with an error exit code and a message, or have made exactly the files
it makes without the fault."""
import os
from .. import build, corpus, run
from ..check import Case

ID = "R02"
LEVEL = "fault_enumeration"
RULE = "distinct (program, tool run, number of the failing operation, failure kind, buffer size)"
BOUNDS = {"quick": "every single operation of every assembler, linker and converter run over 24 programs, failing once and from then on, stdio buffers of 4096, 64 and 16 bytes; every input missing, unreadable or a directory; every output on a full device, in a missing directory, or a directory",
          "thorough": "as quick, also with stdio buffers of 512 bytes and 1 byte, and every pair of failing operations other than opens of the tool runs with at most 100 operations"}
TOOLS = corpus.CPUS + ["wlalink", "wlab"]
OPEN_ERR = {"ENOENT": 2, "EACCES": 13, "EMFILE": 24}

def here():
    return run.World.here(10.0)

def programs():
    """name -> (files, steps, reads): without .IFEXISTS, for which a file that cannot be opened does not exist"""
    out = {}
    for n, p in corpus.P.items():
        f = corpus.files(p)
        if n == "flow":
            for k in f: f[k] = f[k].replace(b'.IFEXISTS "inc.s"\n.INCLUDE "inc.s"\n.ENDIF', b'.INCLUDE "inc.s"')
        st = corpus.steps(p, ["-i"] if n != "multi" else [], ["-i", "-A", "-S"] if n != "multi" else ["-s"])
        reads = [u + ".o" for u, k, s in p["units"]] + ["o.bin", "o.sym"] + ([] if n == "multi" else [u + ".lst" for u, k, s in p["units"]])
        out[n] = (f, st, reads)
    p = corpus.P["flow"]; f, st, reads = out["flow"]
    out["deps"] = (f, [(st[0][0], ["-M", "-MF", "o.d"] + st[0][1])] + st[1:], reads + ["o.d"])
    p = corpus.P["data"]; f, st, reads = out["data"]
    f = dict(f); f["l"] = b"[objects]\na.o\n[header]\nd.bin\n[footer]\nd.bin\n"
    out["head"] = (f, [(st[0][0], ["-o", "a.o", "a.s"]), ("wlalink", ["-s", "-b", "l", "o.bin"])], reads)
    bg = b".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 0 $100\n.ENDME\n.ROMBANKSIZE $100\n.ROMBANKS 2\n.BACKGROUND \"b\"\n.UNBACKGROUND 16 32\n.BANK 0 SLOT 0\n.ORG 20\n.DB 1\n"
    out["back"] = ({"a.s": bg, "b": bytes(range(256)) * 2, "l": b"[objects]\na.o\n"}, [("z80", ["-o", "a.o", "a.s"]), ("wlalink", ["-sE", "l", "o.bin"])], ["a.o", "o.bin", "o.sym"])
    for c in "bdh":
        out["wlab" + c] = ({"f": bytes(range(200)) * 4}, [("wlab", ["-pa" + c, "f"])], [".out"])
    return out

def operations(w, prog, si, env):
    """the operations of step si in the run without a fault"""
    f, st, reads = prog
    log = os.path.join(w.dir, ".log")
    if os.path.exists(log): os.unlink(log)
    steps = [list(s) for s in st]; steps[si] = steps[si] + [dict(env, FAULT_LOG=log)]
    r = w.run({"files": f, "steps": steps, "reads": reads})
    if not r.ok: return None, r
    ops = [l.rstrip("\n").split("\t") for l in open(log)]
    return [(int(a), b, c, d) for a, b, c, d in ops], r

def cases(tier):
    deep = tier != "quick"
    so = build.shared("fault_shim.c")
    w = here()
    progs = programs()
    for pi, (n, prog) in enumerate(progs.items()):
        f, st, reads = prog
        for si in range(len(st)):
            for buf in ((4096, 64, 16) + ((512, 1) if deep else ())):
                env = dict(run.ENV, LD_PRELOAD=so, FAULT_BUF=str(buf))
                if st[si][0] == "wlab": env["FAULT_STDOUT"] = "1"
                ops, base = operations(w, prog, si, env)
                if ops is None:
                    yield Case("%s/%d: run without a fault" % (n, si), {"files": f, "steps": st, "reads": reads},
                               lambda res: "the program is refused: %r %s" % (res.rcs, res.outs[-1][:300]) if not res.ok else None)
                    break
                for k, kind, mode, path in ops:
                    kinds = [("", {})]
                    if kind == "o": kinds = [(e, {"FAULT_ERR": str(v)}) for e, v in OPEN_ERR.items()]
                    if kind in "rw": kinds.append(("from then on", {"FAULT_STICKY": "1"}))
                    for kn, kv in kinds:
                        yield fault(n, prog, si, buf, k, kind, mode, path, kn, dict(env, FAULT_N=str(k), **kv), base)
                if deep and len(ops) <= 100:
                    for k, kind, mode, path in ops:
                        for k2, kind2, mode2, path2 in ops[k + 1:]:
                            if "o" in (kind, kind2): continue             # an open that fails may be tried again in another directory: the second number then names another operation
                            yield fault(n, prog, si, buf, k, kind, mode, path, "and %d, %s of %s" % (k2, KIND[kind2], path2), dict(env, FAULT_N=str(k), FAULT_N2=str(k2)), base)
        yield from real(n, prog, w)

KIND = {"o": "open", "r": "read", "w": "write", "s": "seek", "c": "close"}

def fault(n, prog, si, buf, k, kind, mode, path, kn, env, base):
    f, st, reads = prog
    steps = [list(s) for s in st[:si + 1]]; steps[si] = steps[si] + [env]
    good = outputs(base, prog, si)
    def judge(res):
        if len(res.rcs) != si + 1: return "an earlier step fails: %r" % res.rcs
        rc, out = res.rcs[si], res.outs[si]
        if rc < 0 or rc == -999: return "the tool ends with signal %d" % -rc
        if rc > 0:
            return None if out.strip() else "exit code %d without any message" % rc
        bad = [x for x, d in good.items() if plain(x, res.files[x]) != plain(x, d)]
        if bad: return "exit code 0, but %s is %s" % (bad[0], "missing" if res.files[bad[0]] is None else "different from the file made without the fault")
    return Case("%s/%d/%d: operation %d: %s of %s (%s) fails%s" % (n, si, buf, k, KIND[kind], path, mode, " " + kn if kn else ""),
                {"files": f, "steps": steps, "reads": reads}, judge, steps=k + 1, states=[(n, si, buf, k)])

def plain(x, d):
    '''a list file names the time of the run'''
    return d.split(b"\n", 2)[::2] if d and x.endswith(".lst") else d

def outputs(base, prog, si):
    """the files the step makes (all files of the finished run it could have made)"""
    f, st, reads = prog
    if st[si][0] == "wlalink": return {x: base.files[x] for x in reads if base.files.get(x) is not None}
    if st[si][0] == "wlab": return {".out": base.files[".out"]}
    args = st[si][1]; o = [args[i + 1] for i, a in enumerate(args) if a in ("-o", "-l", "-MF")]
    return {x: base.files[x] for x in o if base.files.get(x) is not None}

def real(n, prog, w):
    """the same with real files: every input missing, a directory, unreadable; every output in a missing directory, a directory, a full device"""
    f, st, reads = prog
    def judge(res):
        rc = res.rcs[-1]
        if rc < 0: return "the tool ends with signal %d" % -rc
        if len(res.rcs) == len(st) and rc == 0: return "all steps end with exit code 0"
        if not res.outs[-1].strip(): return "exit code %d without any message" % rc
    for x in f:
        if x == "unused": continue
        g = {a: b for a, b in f.items() if a != x}
        yield Case("%s: %s missing" % (n, x), {"files": g, "steps": st, "reads": reads}, judge)
        yield Case("%s: %s is a directory" % (n, x), {"files": dict(g, **{x + "/z": b""}), "steps": st, "reads": reads}, judge)
    for si, s in enumerate(st):
        outs = [i + 1 for i, a in enumerate(s[1]) if a in ("-o", "-l", "-MF")] if s[0] not in ("wlalink", "wlab") else [len(s[1]) - 1] if s[0] == "wlalink" else []
        for i in outs:
            for what, to in (("in a missing directory", "nodir/x"), ("a directory", "dir"), ("a full device", "/dev/full")):
                a = list(s[1]); a[i] = to
                if s[0] == "wlalink" and to == "/dev/full": a = [x for x in a if x not in ("-S", "-s", "-sE", "-A")]
                yield Case("%s/%d: output %s is %s" % (n, si, s[1][i], what),
                           {"files": dict(f, **{"dir/z": b""}), "steps": st[:si] + [(s[0], a)], "reads": reads}, lambda res, si=si: judge2(res, si))
    if st[0][0] == "wlab":
        # the text goes to standard output: a full device there
        yield Case("%s: standard output is a full device" % n, {"files": f, "steps": [("/bin/sh", ["-c", '"$0" "$@" > /dev/full', run.TOOLS["wlab"]] + st[0][1])], "reads": []}, lambda res: judge2(res, 0))

def judge2(res, si):
    if len(res.rcs) != si + 1: return "an earlier step fails: %r" % res.rcs
    if res.rcs[-1] < 0: return "the tool ends with signal %d" % -res.rcs[-1]
    if res.rcs[-1] == 0: return "exit code 0"
    if not res.outs[-1].strip(): return "exit code %d without any message" % res.rcs[-1]
