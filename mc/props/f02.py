"""F02: all histories of definition operations over two names, against a table of values; and of the hash map itself."""
import itertools, os, subprocess, hashlib
from .. import run, build
from ..check import Case
from ..cells import refuse, head, batch, FILL

ID = "F02"
LEVEL = "model_checking"
CPU = "z80"
TOOLS = ["wlalink", CPU]
RULE = "distinct history of definition operations, after each step of which existence and value of both names were compared with the table; distinct hash map histories are counted separately"
BOUNDS = {"quick": "all histories of up to 4 of 26 operations over two names (8 pairs of spellings), all -D forms followed by up to 2 operations, uses before the definition, exports to a second object; all histories of up to 5 hash map operations over 4 colliding keys and 1 other, with an empty, nearly full and enlarged map",
          "thorough": "as quick with histories of up to 5 operations and 6 hash map operations"}
ASSUMPTIONS = ["calculations with string definitions are not part of the histories"]
START = 0x4000        # address of label Lz
ADDR = START

# values: ("n", float) ("b", bytes) string or data string  ("k", address)  ("w", expr) late: reference to the final value of another name plus something
OPS = []
for x in "ab":
    y = "ab".replace(x, "")
    OPS += [("def", x, ("n", 5)), ("equ", x, ("b", b"xy")), ("def", x, ("b", b"\1\2q")), ("def", x, None), ("deq", x, ("add", y, 1)), ("ass", x, ("n", -2)),
            ("red", x, ("n", 300)), ("rdf", x, ("b", b"z")), ("red", x, ("add", x, 1)), ("req", x, ("mul", y, 2)), ("red", x, ("lab", 3)), ("und", x), ("red", x, ("n", 2.5))]
class Unjudged(Exception): pass

def lit(v):
    if v[0] == "n": return str(v[1])
    if v[1] == b"\1\2q": return "1, 2, \"q\""
    return '"%s"' % v[1].decode()
def text(o, N):
    k, x = o[0], N[o[1]]
    if k == "und": return ".UNDEFINE " + x
    v = o[2]
    e = "" if v is None else lit(v) if v[0] in "nb" else "%s+%d" % (N[v[1]], v[2]) if v[0] == "add" else "%s*%d" % (N[v[1]], v[2]) if v[0] == "mul" else "Lz+%d" % v[1]
    return {"def": ".DEFINE %s %s", "equ": ".EQU %s %s", "deq": ".define %s = %s", "ass": "%s = %s", "red": ".REDEFINE %s %s", "rdf": ".REDEF %s %s", "req": ".REDEFINE %s = %s"}[k] % (x, e)

def apply(st, o):
    """-> new state, or None when it must be refused"""
    k, x = o[0], o[1]; st = dict(st)
    if k == "und":
        st[x] = None; return st      # undefining nothing is a warning
    if k in ("def", "equ", "deq", "ass") and st[x] is not None: return None
    v = o[2]
    if v is None: v = ("n", 0)
    elif v[0] == "lab": v = ("k", ADDR + v[1])
    elif v[0] in ("add", "mul"):
        w = st[v[1]]
        if w is None or w[0] == "b": raise Unjudged()
        f = w[1] + v[2] if v[0] == "add" else w[1] * v[2]
        v = (w[0], f)
    st[x] = v
    return st

def show(st, N):
    t, b = [], b""
    for x in "ab":
        n = N[x]; v = st[x]
        t.append(".IFDEF %s\n.DB 1\n.ELSE\n.DB 0\n.ENDIF" % n); b += bytes([v is not None])
        if v is None: continue
        if v[0] == "b": t.append(".DB %s" % n); b += v[1]
        else: t.append(".DD %s, %s*2" % (n, n)); b += b"".join((int(q) & 0xffffffff).to_bytes(4, "little") for q in (v[1], v[1] * 2))
    return t, b

PAIRS = [("Da%d", "Db%d"), ("x%d", "X%d"), ("nn%d", "nn%dn"), ("p.q%d", "p.r%d"), ("_u%d", "u%d"), ("ab%d_", "ab%d__"), ("long_name_of_a_definition_%d", "long_name_of_a_definitioN_%d"), ("Q%d", "q%d.q")]

def histories(tier):
    depth = 4 if tier == "quick" else 5
    pend, bad = [], []
    num = 0
    def flush():
        nonlocal pend
        if pend:
            yield from emit(pend); pend = []
    def emit(part):
        part = list(part)
        def build_(part=part):
            t, b, st = [run.memmap(0x8000, start=START) + ".EMPTYFILL $ED\n.BANK 0\n.ORG 0\nLz:\n"], b"", {}
            where = []
            for i, h in part:
                N = dict(zip("ab", (p % i for p in PAIRS[i % len(PAIRS)])))
                s = {"a": None, "b": None}; p0 = len(b)
                for o in h:
                    s = apply(s, o); t.append(text(o, N)); tt, bb = show(s, N); t += tt; b += bb
                where.append((p0, len(b), h, N))
            return "\n".join(t) + "\n", b, where
        def judge(res):
            _, b, where = build_()
            if not res.ok: return "legal histories of definitions were refused: %s\nthe first is %s" % (res.outs[-1].decode("latin1")[:300], "; ".join(text(o, where[0][3]) for o in where[0][2]))
            rom = res.files["o.bin"]; out = []
            for p0, p1, h, N in where:
                if rom[p0:p1] != b[p0:p1]:
                    out.append(("history:" + "; ".join(text(o, {"a": "A", "b": "B"}) for o in h), "%s: values shown after each step are %s, expected %s" % ("; ".join(text(o, N) for o in h), rom[p0:p1].hex(" "), b[p0:p1].hex(" "))))
                    if len(out) > 2: break
            return out or None
        keys = [repr(h) for _, h in part]
        return [Case("histories:%d" % part[0][0], lambda: run.one(CPU, build_()[0]), judge, steps=sum(len(h) for _, h in part), states=keys, n=len(part))]
    # only maximal histories are run (every prefix is observed on the way); illegal last steps on their own
    size = 0
    def walk(h, st):
        """yields (history, legal)"""
        ext = False
        if len(h) < depth:
            for o in OPS:
                try: s2 = apply(st, o)
                except Unjudged: continue
                if s2 is None:
                    if len(h) < 3 or tier != "quick": yield h + (o,), False
                    continue
                ext = True
                yield from walk(h + (o,), s2)
        if not ext and h: yield h, True
    for h, legal in walk((), {"a": None, "b": None}):
        if legal:
            pend.append((num, h)); num += 1
            if len(pend) == 250:
                yield from emit(pend); pend = []
        else: bad.append(h)
    if pend: yield from emit(pend)
    for h in bad:
        N = {"a": "A1", "b": "B1"}
        yield refuse(CPU, "history", "\n".join(text(o, N) for o in h), pre="Lz:\n", why="its last step must be refused")

DFORMS = [("M%s", ("n", 0)), ("M%s=5", ("n", 5)), ("M%s=$1F", ("n", 31)), ("M%s=0x2a", ("n", 42)), ("M%s=0X2A", ("n", 42)), ("M%s=1Fh", ("n", 31)), ("M%s=1fH", ("n", 31)), ("M%s=%%101", ("n", 5)), ("M%s=0b110", ("n", 6)), ("M%s=0", ("n", 0)),
          ("M%s=65535", ("n", 65535)), ("M%s=john", ("b", b"john")), ('M%s="j o"', ("b", b"j o")), ('M%s="a\\"b"', ("b", b'a"b')), ("M%s=a=b", ("b", b"a=b")), ("M%s=100", ("n", 100)), ("M%s=007", ("n", 7)), ("M%s=$AbCd", ("n", 0xabcd))]
def commandline(tier):
    pre = run.memmap(0x8000, start=START) + ".BANK 0\n.ORG 0\nLz:\n"
    N = {"a": "M1", "b": "N1"}
    ops2 = [()] + [(o,) for o in OPS] + [(o, p) for o in OPS for p in OPS if o[1] == "a"]
    for i, (f, v) in enumerate(DFORMS):
        for j, h in enumerate(ops2):
            if len(h) == 2 and (i * 7 + j) % (9 if tier == "quick" else 1): continue
            st = {"a": v, "b": None}; t, b = show(st, N); ok = True
            try:
                for o in h:
                    st = apply(st, o); t.append(text(o, N))
                    if st is None: ok = False; break
                    tt, bb = show(st, N); t += tt; b += bb
            except Unjudged: continue
            args = ["-D" + f % "1"] if (i + j) % 2 else ["-D", f % "1"]
            def judge(res, b=b, ok=ok, t=t, args=args):
                if not ok: return None if res.rcs[0] > 0 else "%s with %s was accepted" % (args, t[-1])
                if not res.ok: return "%s was refused: %s" % (args, res.outs[-1].decode("latin1")[:200])
                if res.files["o.bin"][:len(b)] != b: return "%s then %s gives %s, expected %s" % (args, [x for x in t if "M1 " in x], res.files["o.bin"][:len(b)].hex(" "), b.hex(" "))
            yield Case("cmd:%s:%s" % (args, "; ".join(text(o, N) for o in h)), run.one(CPU, pre + "\n".join(t) + "\n", asm_args=args), judge, steps=1 + len(h))
    for (f, v), (g, w) in itertools.product(DFORMS, DFORMS):
        t, b = show({"a": v, "b": w}, {"a": "M1", "b": "M2"})
        def judge(res, b=b):
            if not res.ok: return "refused: " + res.outs[-1].decode("latin1")[:200]
            if res.files["o.bin"][:len(b)] != b: return "gives %s, expected %s" % (res.files["o.bin"][:len(b)].hex(" "), b.hex(" "))
        yield Case("cmd2:%s:%s" % (f, g), run.one(CPU, pre + "\n".join(t) + "\n", asm_args=["-D", f % "1", "-D" + g % "2"]), judge)
    for args in (["-D", "M=1", "-D", "M=2"], ["-DM", "-DM"], ["-D", "M=1x"], ["-D", "M=$1G"], ["-D", "M=0b12"], ["-D", "M="], ["-D", "M=0x1Z"], ["-D", 'M="a"b"'], ["-D", "M=%2"]):
        yield refuse(CPU, "cmd:%s" % args, ".DB M", asm_args=args)

def late(tier):
    """uses before the definition see the final value"""
    fin = [("def", "a", ("n", 5)), ("equ", "a", ("n", 200)), ("ass", "a", ("n", 7)), ("red", "a", ("n", 9)), ("red", "a", ("add", "a", 1)), ("red", "a", ("lab", 3)), ("und", "a"), ("def", "b", ("n", 3)), ("deq", "a", ("add", "b", 1)), ("red", "b", ("n", 50)), ("und", "b")]
    N = {"a": "Fa", "b": "Fb"}
    for k in (1, 2, 3, 4):
        for h in itertools.product(fin, repeat=k):
            st = {"a": None, "b": None}
            try:
                for o in h:
                    st = apply(st, o)
                    if st is None: break
            except Unjudged: continue
            if st is None or st["a"] and st["a"][0] == "b": continue
            if k == 4 and tier == "quick" and (h[0][0] == "und" or h[1][0] == "und"): continue
            v = st["a"]
            src = head(0x100) + ".ORG 0\nLz:\n.DW Fa, Fa+1\n.DB <Fa\n.DEFINE Gz Fa*2\n.DW Gz\n" + "\n".join(text(o, N) for o in h) + "\n"
            src = src.replace("Lz+", "%d+Lz+" % START)
            def judge(res, v=v, h=h):
                if v is None: return None if not res.ok and res.rcs[-1] > 0 else "%s: a use of the undefined name was accepted" % (h,)
                if not res.ok: return "%s refused: %s" % (h, res.outs[-1].decode("latin1")[:200])
                x = int(v[1]); b = b"".join((q & 0xffff).to_bytes(2, "little") for q in (x, x + 1)) + bytes([x & 255]) + (x * 2 & 0xffff).to_bytes(2, "little")
                if res.files["o.bin"][:7] != b: return "uses before %s give %s, expected %s" % ("; ".join(text(o, N) for o in h), res.files["o.bin"][:7].hex(" "), b.hex(" "))
            yield Case(("late-label:" if v and v[0] == "k" else "late:") + "; ".join(text(o, N) for o in h), run.one(CPU, src), judge, steps=k)

def exports(tier):
    """exported definitions have their final value in the other objects, others are not visible there"""
    def txt(o):
        if o == "exp": return ".EXPORT Ea"
        return text(o, {"a": "Ea", "b": "Eb"})
    ops = [("def", "a", ("n", 5)), ("red", "a", ("n", 300)), ("red", "a", ("add", "a", 1)), ("red", "a", ("lab", 3)), ("und", "a"), "exp", ("def", "b", ("n", 3)), ("deq", "a", ("add", "b", 1)), ("red", "b", ("n", 50))]
    use = run.memmap(0x100) + ".SECTION \"u\" FORCE BANK 0 SLOT 0 ORG $10\n.DW Ea, Ea+1\n.DB <Ea, >Ea\n.ENDS\n"
    for k in range(1, 5 if tier == "quick" else 6):
        for h in itertools.product(ops, repeat=k):
            if h.count("exp") > 1 and k > 3 or ("exp" not in h and k > 2): continue
            st = {"a": None, "b": None}
            try:
                for o in h:
                    if o != "exp": st = apply(st, o)
                    if st is None: break
            except Unjudged: continue
            if st is None: continue
            v = st["a"]; vis = "exp" in h
            if vis and v is None: continue       # exporting nothing
            src = (run.memmap(0x100, start=0) + ".BANK 0\n.ORG 0\nLz:\n" + "\n".join(txt(o) for o in h) + "\n").replace("Lz+", "%d+Lz+" % START)
            def judge(res, v=v, vis=vis, h=h):
                if not vis: return None if not res.ok and res.rcs[-1] > 0 else "%s: the definition is visible without .EXPORT" % (h,)
                if not res.ok: return "%s refused: %s" % (h, res.outs[-1].decode("latin1")[:200])
                x = int(v[1]); b = b"".join((q & 0xffff).to_bytes(2, "little") for q in (x, x + 1)) + bytes([x & 255, x >> 8 & 255])
                if res.files["o.bin"][16:22] != b: return "%s: the other object sees %s, expected %s" % ("; ".join(map(txt, h)), res.files["o.bin"][16:22].hex(" "), b.hex(" "))
            yield Case("export:" + "; ".join(map(txt, h)), run.multi([(CPU, "a", src, "o"), (CPU, "b", use, "o")]), judge, steps=k)
    for e in (".DEFINE Ea 7 EXPORT", ".DEFINE Ea = 7 EXPORT", ".REDEFINE Ea 7 EXPORT", ".EQU Ea 7 EXPORT", ".ENUMID 7 EXPORT\n.ENUMID Ea", ".ENUM 7 EXPORT\nEa DB\n.ENDE", ".DEFINE Eb 1\n.DEFINE Ea 7\n.EXPORT Eb, Ea", ".DEFINE Ea 6+1\n.EXPORT Ea", ".DEFINE Ea 7.5 EXPORT"):
        src = run.memmap(0x100) + ".BANK 0\n.ORG 0\n.DB 1\n" + e + "\n"
        yield Case("export1:" + e, run.multi([(CPU, "a", src, "o"), (CPU, "b", use, "o")]), lambda r, e=e: None if r.ok and r.files["o.bin"][16:22] == b"\7\0\x08\0\7\0" else "%s: the other object sees %s" % (e, r.files.get("o.bin", b"")[16:22] if r.ok else r.outs[-1]), steps=2)

def enumids(tier):
    """all sequences of .ENUMID"""
    ops = ["0", "16", "7 STEP 2", "3 STEP -1", "@a", "@b", "@c", "@d"]
    items = []; n = 0
    for k in range(1, 6 if tier == "quick" else 7):
        for h in itertools.product(range(8), repeat=k):
            names = [x for x in h if x > 3]
            if len(set(names)) != len(names) or names != sorted(names) or not names or h[0] > 3 or h[-1] < 4: continue
            cur, step, b, t = None, 1, [], []
            for x in h:
                if x < 4:
                    cur, step = ((0, 1), (16, 1), (7, 2), (3, -1))[x]; t.append(".ENUMID " + ops[x])
                else: b.append(cur & 255); cur += step; t.append(".ENUMID I%d_%s" % (n, ops[x][1:]))
            t.append(".DB " + ", ".join("I%d_%s" % (n, ops[x][1:]) for x in names))
            items.append(("\n".join(t), bytes(b))); n += 1
    yield from batch(CPU, "enumid", items, cell=8, count=300)
    for t in (".ENUMID A\n.ENUMID A", ".ENUMID 0\n.ENUMID A\n.DEFINE A 1", ".ENUMID\n"):
        yield refuse(CPU, "enumid", t)

def misc(tier):
    for t in (".DEFINE A 1\n.DEFINE A 1", ".DEFINE A 1\n.EQU A 2", ".DEFINE A 1\nA = 1", "A = 1\nA = 2", ".EQU A 1\nA:", "A:\n.DB 1\n.DEFINE A 1", ".UNDEFINE", ".EXPORT", ".DEFINE", ".DB A", ".DW A+1", "LD A,Zz", ".REPT Zz\n.DB 1\n.ENDR", ".IF Zz == 1\n.DB 1\n.ENDIF", ".DEFINE A 1\n.UNDEFINE A\n.DB A", ".DEFINE NARGS 3", ".REDEFINE NARGS 3",
              ".DEFINE A 1\n.DEFINE a 1\n.UNDEFINE a\n.DB a"):
        yield refuse(CPU, "misc", t)
    # definitions in terms of themselves: refused (by the linker at the latest), never a crash or a hang
    for cyc in (("A",), ("A", "B"), ("A", "B", "C")):
        for kw in (".DEFINE %s %s+1", ".EQU %s %s*2", ".REDEFINE %s = 1+%s", "%s = %s-1"):
            for use in (".DB A", ".DW A+1", "LD A,(A)", ".DSB 2, A", ".DEFINE Q A\n.DW Q"):
                yield refuse(CPU, "cycle", "\n".join(kw % (x, cyc[(i + 1) % len(cyc)]) for i, x in enumerate(cyc)) + "\n" + use)

def names(tier):
    """names made from macro arguments, call numbers and variables"""
    items = []; n = 0
    forms = [("\\\\1", "nm%d", "arg"), ("x\\\\1_\\\\2", "xnm%d_q", "arg2"), ("x%d_{Iv}", "x%d_0", "rept"), ("x%d_{%%.2x{Iv+10}}y", "x%d_0ay", "rept"), ("y%d_\\\\@", "y%d_0", "at")]
    ops = [(".DEFINE @ 5\n.DB @", b"\5\5"), (".EQU @ = 6\n.DB @", b"\6\6"), ("@ = 7\n.DB @", b"\7\7"), ("@=8\n.DB @", b"\x08\x08"), (".REDEFINE @ 9\n.REDEFINE @ @+1\n.DB @", b"\x0a\x0a"), (".DEFINE @ 1\n.REDEF @ = 2", b"\2"), (".DEFINE @ 1\n.UNDEFINE @\n.DEFINE @ 3", b"\3"),
           (".ENUMID 4\n.ENUMID @\n.DB @", b"\4\4"), (".DEFINE @ \"ab\"\n.DB @", b"abab"), (".DEFINE @ 1\n.IFDEF @\n.DB 1\n.ELSE\n.DB 0\n.ENDIF", b"\1\1"), (".IFNDEF @\n.DEFINE @ 2\n.ENDIF", b"\2")]
    for f, name, kind in forms:
        for t, b in ops:
            n += 1
            if kind == "arg" and '"ab"' in t: continue     # \\1 was passed as a label; a string can't take a label's place later
            nm = name % n; g = (f % n) if "%d" in f else f
            g = g.replace("\\\\", "\\")
            body = t.replace("@", "\0").replace("\0", g)
            call = {"arg": " Mn%d nm%d" % (n, n), "arg2": " Mn%d nm%d, q" % (n, n), "at": " Mn%d" % n, "rept": ".REPT 1 INDEX Iv\n%s\n.ENDR" % body}[kind]
            pre = "" if kind == "rept" else ".MACRO Mn%d\n%s\n.ENDM\n" % (n, body)
            if kind != "rept": items.append((pre + call + "\n.DB %s" % nm, b))
            else: items.append((call + "\n.DB %s" % nm, b))
    yield from batch(CPU, "names", items, cell=16)
    for c in "AzZ_":
        yield from batch(CPU, "names1", [(".DEFINE %s 5\n.DB %s" % (c * k, c * k), b"\5") for k in (1, 2, 3) if c != "_"] or [(".DEFINE _q 1\n.DB _q", b"\1")], cell=16)

# ---------------------------------------------------------------- the hash map itself
def hash_driver(depth):
    """builds the driver in a directory of its own (content-addressed) and returns the path"""
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "hashmap_driver.c")
    srcs = [os.path.join(build.REPO, f) for f in ("hashmap.c", "crc32.c")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs + [here, os.path.join(build.REPO, "hashmap.h"), os.path.join(build.REPO, "crc32.h")])).hexdigest()[:24]
    d = os.path.join(build.BUILD, "bin"); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, h + "-hashmap")
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        p = subprocess.run(["gcc", "-O1", "-g", "-w", "-DUNIX", "-I" + build.REPO, "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", here] + srcs + ["-o", tmp], capture_output=True)
        if p.returncode: raise build.BuildError("the hash map driver does not build: " + p.stderr.decode()[-1500:])
        os.rename(tmp, exe)
    return exe
_H = {}
def hashes(tier):
    depth = 5 if tier == "quick" else 6
    for mode in (0, 1, 2):
        for first in range(16):
            def judge(res, mode=mode):
                o = res.outs[-1].decode("latin1").split()
                if res.rcs != [0]: return "hash map (mode %d): %s" % (mode, res.outs[-1].decode("latin1")[:400])
                if o[0] != "histories" or int(o[1]) < 100: return "hash map driver: nothing explored: %s" % o
            exe = hash_driver(depth)
            yield Case("hashmap:%d:%d" % (mode, first), {"files": {}, "steps": [(exe, [str(mode), str(first), str(depth)])], "reads": []}, judge, steps=16 ** (depth - 1), n=16 ** (depth - 1) if mode == 0 else 16 ** 3)

def cases(tier):
    yield from hashes(tier)
    yield from misc(tier)
    yield from names(tier)
    yield from enumids(tier)
    yield from exports(tier)
    yield from commandline(tier)
    yield from late(tier)
    yield from histories(tier)
