"""R04: the linker, built with address and undefined-behaviour sanitizers, is given every truncation of feature-covering object and library files,
files of other kinds in their place, link files with every short sequence of tokens in every group, every truncation of and every special byte at every
place of feature-covering link files, and every short sequence of command line options; it must always end with success or with a message and an error code."""
import itertools, os
from .. import corpus, frags, run
from ..check import Case

ID = "R04"
LEVEL = "model_checking"
RULE = "distinct (object files, link file, options) given to the linker"
BOUNDS = {"quick": "all truncations of 60 object and library files (every byte); 22 other files in place of an object, library, header or footer; in each of the 9 groups of a link file all lines of up to 2 tokens out of 62, up to 3 out of 16 and all options of (RAM) sections with all values out of 22; every truncation and 14 special bytes at every place of 7 link files; all sequences of up to 3 out of 38 command line arguments",
          "thorough": "as quick, with all truncations of a further 200 object files (pairs of feature fragments), lines of up to 3 tokens out of 62 in the RAM section and section groups, and two options of (RAM) sections with all pairs of values"}
TOOLS = corpus.CPUS + ["wlalink"]
MORE_TOOLS = {"asan": ["wlalink"]}
ASSUMPTIONS = ["a file that ends exactly behind a data block is taken for a complete one: object files don't tell how many there are", "the contents of object files other than their length and their kind are trusted: only WLA's own assemblers make them"]

def here():
    return run.World.here(20.0)

def bad(rc, out):
    if rc == -999: return "the linker does not end"
    if rc < 0: return "the linker ends with signal %d" % -rc
    if rc == 97 or b"ERROR: AddressSanitizer" in out or b"runtime error:" in out:
        i = max(out.find(b"ERROR: AddressSanitizer"), out.find(b"runtime error:"), 0); i = out.rfind(b"\n", 0, i) + 1
        return "memory error: " + out[i:i + 300].decode("utf-8", "replace")
    if rc > 0 and not out.strip(): return "exit code %d without any message" % rc

def group(key, tests, files, states=None):
    """tests: [(sub, {files of its own}, args)]: one case of many runs"""
    def prog():
        f = dict(files); st = []
        for i, (sub, own, args) in enumerate(tests):
            ren = {n: "%d_%s" % (i, n) for n in own}
            for n, d in own.items():
                f[ren[n]] = d if n != "l" else rename(d, ren)
            st.append(("wlalink@asan", [ren.get(a, a) for a in args]))
        return {"files": f, "steps": st, "reads": [], "keep_going": True}
    def judge(res):
        r = []
        for (sub, own, args), rc, out in zip(tests, res.rcs, res.outs):
            b = bad(rc, out)
            if b: r.append((sub, b))
        return r or None
    return Case(key, prog, judge, steps=len(tests), states=states or [(key, t[0]) for t in tests], n=len(tests))

def rename(link, ren):
    for a, b in ren.items():
        if a != "l": link = b"\n".join(b.encode() if x == a.encode() else x for x in link.split(b"\n"))
    return link

def chunks(key, tests, files, k=48):
    it = iter(tests); n = 0
    while True:
        part = list(itertools.islice(it, k))
        if not part: return
        yield group("%s/%d" % (key, n), part, files); n += 1

# ------------------------------------------------------------------ truncated object files
def worlds(tier):
    """(name, {file: data}, [object files], link flags, largest number of data blocks)"""
    for n, p in corpus.P.items():
        yield n, dict(files=corpus.files(p), steps=corpus.steps(p, ["-i"] if n != "multi" else [])[:-1]), [u + ".o" for u, k, s in p["units"]], (["-i"] if n != "multi" else []) + ["-S", "-A"] + p["lflags"], [s for u, k, s in p["units"]]
        if n != "multi" and len(p["units"]) > 1:
            yield n + " plain", dict(files=corpus.files(p), steps=corpus.steps(p)[:-1]), [u + ".o" for u, k, s in p["units"]], ["-S"] + p["lflags"], [s for u, k, s in p["units"]]
    names = list(frags.F)
    for i in range(0, len(names), 4):
        yield "frags %d" % i, dict(files=dict(frags.FILES, **{"a.s": frags.source(names[i:i + 4]), "l": "[objects]\na.o\n"}), steps=[("z80", ["-i", "-o", "a.o", "a.s"])]), ["a.o"], ["-i", "-S", "-A"], [frags.source(names[i:i + 4])]
    if tier != "quick":
        for a, b in itertools.islice(itertools.product(names, names), 0, None, 17):
            yield "frags %s %s" % (a, b), dict(files=dict(frags.FILES, **{"a.s": frags.source([a, b]), "l": "[objects]\na.o\n"}), steps=[("z80", ["-i", "-o", "a.o", "a.s"])]), ["a.o"], ["-i", "-S", "-A"], [frags.source([a, b])]

def truncations(tier):
    w = here()
    for n, p, objs, fl, srcs in worlds(tier):
        r = w.run(dict(files=p["files"], steps=p["steps"], reads=objs))
        if not r.ok:
            yield Case(n + ": made", dict(p, reads=objs), lambda res: None if res.ok else "the program is refused: %s" % res.outs[-1][:200]); continue
        link = p["files"]["l"] if isinstance(p["files"]["l"], bytes) else p["files"]["l"].encode()
        base = {k: v for k, v in p["files"].items() if not k.endswith(".s") and k != "l"}
        base.update({k: r.files[k] for k in objs})
        for o, src in zip(objs, srcs):
            d = r.files[o]
            yield from chunks("%s: %s cut" % (n, o), [("%d of %d bytes" % (i, len(d)), {o: d[:i], "l": link}, fl + ["l", "o.bin"]) for i in range(len(d))], base)
            if o.encode() in link.split(b"\n"): yield noticed(n, o, d, link, fl, base, src)

def noticed(n, o, d, link, fl, base, src):
    """how many truncations may link: one per data block (the file ends behind it)"""
    def prog():
        f = dict(base); st = []
        for i in range(len(d)):
            f["%d_%s" % (i, o)] = d[:i]; f["%d_l" % i] = rename(link, {o: "%d_%s" % (i, o)})
            st.append(("wlalink", [x for x in fl if x not in ("-S", "-A", "-i")] + ["%d_l" % i, "o.bin"]))
        return {"files": f, "steps": st, "reads": [], "keep_going": True}
    u = src.upper(); top = sum(u.count(x) for x in (".SECTION", ".RAMSECTION", ".ORG", ".ENUM", "OVERWRITE", ".BANK", ".BASE", ".SLOT", "HEADER", ".SDSC", ".GB", ".SMD", ".SMS", ".SNES", ".COMPUTE")) + 8
    def judge(res):
        good = [i for i, rc in enumerate(res.rcs) if rc == 0]
        if len(good) > top: return "%d truncated files are linked without an error (at most %d end behind a data block), e.g. with the first %s of %d bytes" % (len(good), top, ", ".join(map(str, good[:12])), len(d))
    return Case("%s: %s cut: noticed" % (n, o), prog, judge, steps=len(d), states=[(n, o, "noticed")], n=len(d))

# ------------------------------------------------------------------ a small world for link files
SRC = (".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 0 $100 \"ROM\"\nSLOT 1 $100 $100\nSLOT 2 $C000 $100 \"RAM\"\n.ENDME\n.ROMBANKSIZE $100\n.ROMBANKS 2\n.BANK 0 SLOT 0\n"
       ".ORG 0\n.DW k, s1, r1, s2\n.DB k2\n.SECTION \"S 1\" FREE\ns1: .DW s2\n.ENDS\n.SECTION \"s2\" SUPERFREE PRIORITY 2\ns2: .DB 1,2,3\n.ENDS\n.SECTION \"s3\" FORCE ORG $40\ns3: .DB 4\n.ENDS\n"
       ".RAMSECTION \"R 1\" BANK 0 SLOT 2\nr1 DB\n.ENDS\n.RAMSECTION \"r2\" APPENDTO \"R 1\"\nr2 DW\n.ENDS\n")
LIB = ".SECTION \"lib\" FREE\nll: .DB 5\n.ENDS\n.RAMSECTION \"lr\"\nlr DB\n.ENDS\n"
DEFS = b"k 5\nk2 6\n"
LONG = "n" * 250

def small():
    w = here()
    r = w.run(dict(files={"a.s": SRC, "b.s": LIB}, steps=[("z80", ["-i", "-o", "a.o", "a.s"]), ("z80", ["-l", "b.l", "b.s"])], reads=["a.o", "b.l"]))
    if not r.ok: raise RuntimeError("R04's own program is refused: %r" % r.outs)
    return {"a.o": r.files["a.o"], "b.l": r.files["b.l"], "d.bin": b"\1\2\3", "empty": b"", "x/y": b"1"}

GROUPS = ["objects", "libraries", "header", "footer", "definitions", "ramsections", "sections", "sectionwriteorder", "ramsectionwriteorder"]
NUMBERS = ["0", "1", "2", "-1", "$", "0x", "$FF", "$100", "%", "%101", "0b", "12h", "h", "a", "3", "255", "256", "1000000", "$7fffffff", "$ffffffff", "99999999999999999999", "1.5"]
WORDS = ["bank", "slot", "base", "org", "orga", "size", "bitwindow", "window", "banks", "priority", "alignment", "offset", "appendto", "after", "keep", "force", "free", "semifree", "superfree", "semisubfree", "semisuperfree", "overwrite"]
STUFF = ['"S 1"', "s2", '"R 1"', "r2", "lr", "lib", "a.o", "b.l", "d.bin", "empty", "x", "nofile", '"', '""', '"un', "[", "]", "[objects]", ",", ";", "\\", "*", "k", LONG, '"%s"' % LONG]
SHORT = ['"S 1"', "r2", "bank", "slot", "org", "orga", "window", "banks", "appendto", "after", "0", "$", "$ffffffff", '"', ",", "/"]
VALUES = NUMBERS[:16] + ['"ROM"', '"', '"R 1"', '"S 1"', "0,1", LONG]

def tail(g):
    """everything else the link file needs"""
    t = b""
    if g != "definitions": t += b"[definitions]\n" + DEFS
    if g != "objects": t += b"[objects]\na.o\n"
    return t

def link(g, line, before=True):
    body = b"[%s]\n%s\n" % (g.encode(), line.encode("latin1"))
    if g == "definitions": body += DEFS
    if g == "objects": body += b"a.o\n"
    if g == "libraries" and "bank" not in line: body = body
    return tail(g) + body

def lines(tier):
    for g in GROUPS:
        toks = STUFF + (WORDS + NUMBERS[:15] if g not in ("header", "footer") else [])
        for k in (0, 1, 2):
            for t in itertools.product(toks, repeat=k): yield g, " ".join(t)
        if g in ("definitions", "libraries", "ramsections", "sections") or tier != "quick":
            for t in itertools.product(SHORT, repeat=3): yield g, " ".join(t)
        for i in range(240, 260):
            yield g, "n" * i
            yield g, '"' + "n" * i
            yield g, "a.o " + "n" * i
            yield g, "r2 " + "9" * i
            yield g, " " * i + "a.o"
    for g, names in (("ramsections", ['"R 1"', "r2", "lr"]), ("sections", ['"S 1"', "s2", "s3", "lib"]), ("libraries", [""])):
        for nm in names:
            for w1 in WORDS:
                for v in VALUES:
                    t = "%s %s %s" % (nm, w1, v)
                    yield g, t.strip() if g != "libraries" else t.strip() + " b.l"
                    yield g, t.strip() + " keep" if g != "libraries" else t.strip() + " slot 0 b.l"
                    if g != "libraries":
                        for w2 in ("slot 0", "bank 1", "force", "after s3", "banks 0 slot 0"): yield g, t.strip() + " " + w2
    for g in ("sectionwriteorder", "ramsectionwriteorder"):
        for t in itertools.permutations(["free", "force", "semifree", "superfree"], 3): yield g, "\n".join(t)
        yield g, "\n".join(["overwrite", "semisuperfree", "superfree", "semisubfree", "semifree", "free", "force"])
        yield g, "\n".join(["overwrite", "semisuperfree", "superfree", "semisubfree", "semifree", "free", "force", "x"])
        for t in itertools.product(["free", "force", "", "\t", "[", "x", "[sections]", '"', "n" * 254, "n" * 300], repeat=3): yield g, "\n".join(t)
        yield g, "free\nforce\nsemifree\nsemisubfree"
        yield g, "free\nforce\nsemifree\nsemisubfree\nfree"
    if tier != "quick":
        for g in ("ramsections", "sections", "libraries"):
            for t in itertools.product(STUFF + WORDS + NUMBERS[:15], repeat=3): yield g, " ".join(t)
        for g, nm in (("ramsections", "r2"), ("sections", "s2")):
            for a, b in itertools.permutations(WORDS[:15], 2):
                for v1 in VALUES:
                    for v2 in VALUES: yield g, "%s %s %s %s %s" % (nm, a, v1, b, v2)

WHOLE = [
    b"[objects]\na.o\n[libraries]\nslot 0 bank 1 b.l\n[definitions]\nk 5\nk2 $6\n",
    b"; comment\n[OBJECTS]\r\na.o\r\n[definitions]\r\nk 5 ; c\r\nk2 \"6\"\r\n",
    b"[header]\nd.bin\n[objects]\na.o\n[footer]\nd.bin\n[definitions]\nk 5\nk2 0x6\n",
    b"[definitions]\nk %101\nk2 6\n[sections]\n\"S 1\" bank 0 slot 0 orga 128 force priority 5 keep\ns2 banks 0/1 offset 2 alignment 4\n[objects]\na.o\n",
    b"[definitions]\nk 5\nk2 6\n[ramsections]\n\"R 1\" bank 0 slot \"RAM\" org 5 semifree priority -5\nr2 appendto \"R 1\"\nlr after r2 offset 3\n[objects]\na.o\n[libraries]\nbank 1 slot 1 base 0 b.l\n",
    b"[definitions]\nk 5\nk2 6\n[sectionwriteorder]\nforce\nfree\nsuperfree\nsemifree\nsemisubfree\nsemisuperfree\noverwrite\n[objects]\na.o\n",
    b"[definitions]\nk 5\nk2 6\n[ramsectionwriteorder]\nforce\nfree\nsemifree\nsemisubfree\n[objects]\na.o\n[sections]\ns2 window 10 20 size 9 bitwindow 6\n",
]
BYTES = [0, 9, 10, 13, 32, 34, 47, 48, 59, 91, 93, 92, 128, 255]

def bytewise():
    for n, t in enumerate(WHOLE):
        for i in range(len(t) + 1): yield "whole %d cut at %d" % (n, i), t[:i]
        for i in range(len(t)):
            for b in BYTES:
                yield "whole %d byte %d = %d" % (n, i, b), t[:i] + bytes([b]) + t[i + 1:]
                if b in (0, 9, 10, 34, 47, 91): yield "whole %d byte %d inserted %d" % (n, i, b), t[:i] + bytes([b]) + t[i:]
            yield "whole %d without byte %d" % (n, i), t[:i] + t[i + 1:]
        for i in range(len(t)):
            if t[i:i + 1] in b" \n": yield "whole %d long at %d" % (n, i), t[:i] + b"n" * 260 + t[i:]
    for a in GROUPS:
        for b in GROUPS: yield "[%s] then [%s]" % (a, b), b"[definitions]\nk 5\nk2 6\n[objects]\na.o\n[%s]\n[%s]\n" % (a.encode(), b.encode())

def others(objs):
    """other things in place of a file"""
    o, l = objs["a.o"], objs["b.l"]
    return {"empty": b"", "one byte": b"W", "WLA": b"WLA", "WLAl": b"WLAl", "WLAI": b"WLAI", "WLAx": b"WLAx", "other version": b"WLAk" + o[4:], "old version": b"WLA1" + o[4:], "lower case": b"wlal" + o[4:], "library": l, "object": o,
            "swapped": b"WLAI" + o[4:8], "text": b"[objects]\na.o\n", "source": SRC.encode(), "zeros": b"\0" * 64, "ff": b"\xff" * 3, "WLAl+0": b"WLAl\0", "WLAI+4": b"WLAI\0\0\0\0", "WLAl+4": b"WLAl\0\0\0\0", "rom": bytes(range(256)) * 2, "shifted": b"\n" + o, "twice": o + o[:1]}

ARGS = ["-b", "-r", "-A", "-d", "-D", "-i", "-nS", "-s", "-S", "-sE", "-sC", "-t", "-v", "-v1", "-v2", "-L", "lib", "-a", "ROM", "-pR", "-x", "-", "--", "-z", "", "-t", "CBMPRG", "C64CRT", "-SX", "-SY", "-c", "9", "-h", "l", "o.bin", "nofile", LONG, "-M"]

def cases(tier):
    objs = small()
    yield from truncations(tier)
    tests = []
    for n, d in others(objs).items():
        for fl in ([], ["-i", "-S"]):
            tests.append(("object: %s %s" % (n, fl), {"a.o": d, "l": b"[objects]\na.o\n[definitions]\n" + DEFS}, fl + ["l", "o.bin"]))
            tests.append(("second object: %s %s" % (n, fl), {"q.o": d, "l": b"[definitions]\n" + DEFS + b"[objects]\na.o\nq.o\n"}, fl + ["l", "o.bin"]))
            tests.append(("library: %s %s" % (n, fl), {"q.l": d, "l": b"[definitions]\n" + DEFS + b"[objects]\na.o\n[libraries]\nbank 0 slot 0\nq.l\n"}, fl + ["l", "o.bin"]))
            for q in ("header", "footer"): tests.append(("%s: %s %s" % (q, n, fl), {"q.h": d, "l": b"[definitions]\n" + DEFS + b"[objects]\na.o\n[%s]\nq.h\n" % q.encode()}, fl + ["l", "o.bin"]))
            tests.append(("link file: %s %s" % (n, fl), {"l": d}, fl + ["l", "o.bin"]))
    yield from chunks("other", tests, objs)
    seen = set()
    def texts():
        for g, t in lines(tier):
            if (g, t) in seen: continue
            seen.add((g, t)); yield "[%s] %s" % (g, t), {"l": link(g, t)}, ["-S", "l", "o.bin"]
    yield from chunks("line", texts(), objs, 64)
    yield from chunks("text", ((k, {"l": t}, ["-S", "l", "o.bin"]) for k, t in bytewise()), objs, 64)
    good = {"l": b"[objects]\na.o\n[definitions]\n" + DEFS}
    def args():
        for k in range(4):
            for a in itertools.product(ARGS if k < 3 else ARGS[:32:2], repeat=k):
                yield "args %r" % (a,), {}, list(a)
                yield "args %r l o.bin" % (a,), {}, list(a) + ["l", "o.bin"]
    yield from chunks("args", args(), dict(objs, **good, **{"lib/z": b""}), 64)
