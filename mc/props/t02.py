"""T02: all placements of files over search directories against the documented search order, and all bounded include trees against the text with the
included files' text in their place; the dependency output against the files that have been read."""
import itertools, re
from ..check import Case

ID = "T02"
LEVEL = "model_checking"
RULE = "distinct (placement of files, search options, directive, main file's place) and distinct include trees"
BOUNDS = {"quick": "a file in every subset of four directories x 5 lists of -I x 5 .INCDIR x 4 directives x 2 names x 2 places of the main file; a second file in every subset x LATESTDIR/RELATIVEDIR/neither x in the main or the included file; trees of three files with all main bodies of 1-2 of 17 items (3 of 12), all bodies of the second file of 1-2 of 10 items; 2-3 macros with all of 7 bodies that include files once, called in all orders",
          "thorough": "as quick, main bodies of 3 of 17 items with all second files of 1-2 items"}
TOOLS = ["z80", "wlalink"]
ASSUMPTIONS = ["LATESTDIR before the first .INCLUDE or .INCBIN, and missing files in -M mode, are not judged"]

HDR = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 0 $2000\n.ENDME\n.ROMBANKSIZE $2000\n.ROMBANKS 1\n.EMPTYFILL $EE\n.BANK 0 SLOT 0\n.ORG 0\n"
NH = HDR.count("\n")

def deps(text, target):
    """{dependencies} of makefile rules, or None"""
    r = []; ph = []
    for l in text.decode("latin1").splitlines():
        l = l.replace("//", "/")       # an -I with a slash at its end gets another
        if l.startswith(target + ": "): r.append(l[len(target) + 2:])
        elif l.endswith(":"): ph.append(l[:-1])
        else: return None
    return r, ph

# ---------------------------------------------------------------- search order
DIRS = ["", "i1/", "i2/", "d/"]
CODE = {"": 1, "i1/": 2, "i2/": 3, "d/": 4, "m/": 5}
OPTS = [[], ["i1"], ["i2/"], ["i1", "i2"], ["i2", "i1"]]
INCDIR = [None, "d", "d/", "i2", "d+"]          # d+: d, and then ""
def search(name, have, opts, incdir):
    d = {None: "", "d": "d/", "d/": "d/", "i2": "i2/", "d+": ""}[incdir]
    for x in [o.rstrip("/") + "/" for o in opts] + [d, ""]:
        if x + name in have: return x + name
    return None
def incdir_text(i): return "" if i is None else '.INCDIR "%s"\n' % i.rstrip("+") + ('.INCDIR ""\n' if i == "d+" else "")

def use(kind, name, kw, n):
    k = " " + kw if kw else ""
    if kind == "inc": return '.INCLUDE "%s"%s\n' % (name, k)
    if kind == "bin": return '.INCBIN "%s"%s\n' % (name, k)
    if kind == "tbl": return '.STRINGMAPTABLE t%d "%s"\n.STRINGMAP t%d, "x"\n' % (n, name, n)
    return '.FOPEN "%s" p%d\n.FREAD p%d v%d\n.DB v%d\n.FCLOSE p%d\n' % ((name,) + (n,) * 5)
def content(kind, code): return ".DB %d\n" % code if kind == "inc" else "%02x=x\n" % code if kind == "tbl" else bytes([code])
NAME = {"inc": "f.s", "bin": "f.b", "tbl": "f.t", "fopen": "f.d"}

def search_case(key, main, src, files, opts, want, read):
    """want: bytes at the ROM's beginning or None; read: set of files read"""
    fs = dict(files); fs[main] = src; fs["l"] = "[objects]\na.o\n"
    o = [x for d in opts for x in ("-I", d)]
    # the option before the file name must not depend on the order with others
    steps = [("z80", ["-M", "-MP", "-MF", "dep"] + o + ["-o", "a.o", main]), ("wlalink", ["-r", "l", "o.bin"]), ("z80", o + ["-M", main])]
    def judge(res):
        if min(res.rcs) < 0: return "crash"
        if want is None:
            if res.rcs[0] == 0: return "accepted, though the file can't be found"
            if res.files["a.o"] is not None: return "an object in spite of the error"
            return None
        if res.rcs[0] or res.rcs[1]: return "refused: %s" % (res.outs[0] + res.outs[1])[-200:].decode("latin1")
        got = res.files["o.bin"][:len(want)]
        if got != want: return "files %s have been read instead of %s" % (list(got), list(want))
        all_ = [main] + list(read)
        for what, text, target, phony in (("-MF", res.files["dep"], "a.o", True), ("-M", res.outs[2], main.replace(".s", ".o"), False)):
            p = deps(text or b"", target)
            if p is None: return "%s: not a list of rules for %s: %r" % (what, target, text[:200])
            if set(p[0]) != set(all_): return "%s lists %s instead of %s" % (what, sorted(set(p[0])), sorted(all_))
            if set(p[1]) != (set(all_) - {main} if phony else set()): return "%s has phony targets %s" % (what, sorted(p[1]))
        return None
    return Case(key, {"files": fs, "steps": steps, "reads": ["o.bin", "a.o", "dep"], "keep_going": True}, judge, n=1)

def subsets(l):
    for n in range(len(l) + 1): yield from itertools.combinations(l, n)

def searches():
    for kind, sub, opts, incdir, mdir in itertools.product(NAME, ("", "q/"), OPTS, INCDIR, ("", "m/")):
        name = sub + NAME[kind]
        for places in subsets(DIRS + ([mdir] if mdir else [])):
            if mdir and len(places) not in (0, 1, 5) and kind != "inc": continue
            have = {p + name: content(kind, CODE[p] + 16) for p in places}
            r = search(name, have, opts, incdir)
            want = None if r is None else bytes([CODE[r[:-len(name)]] + 16, 77])
            yield search_case("%s %s in %s, -I %s, incdir %s, main in %s" % (kind, name, list(places), opts, incdir, mdir or "."), mdir + "a.s", HDR + incdir_text(incdir) + use(kind, name, "", 0) + ".DB 77\n", have, opts, want, {r} if r else None)
            if kind in ("inc", "bin"):
                r = mdir + name if mdir + name in have else None
                yield search_case("%s %s RELATIVEDIR in %s, -I %s, incdir %s, main in %s" % (kind, name, list(places), opts, incdir, mdir or "."), mdir + "a.s", HDR + incdir_text(incdir) + use(kind, name, "RELATIVEDIR", 0) + ".DB 77\n", have, opts,
                                  None if r is None else bytes([CODE[r[:-len(name)]] + 16, 77]), {r} if r else None)
    # the main file is the one that is named
    for opts, d in itertools.product(OPTS, ("", "m/")):
        yield search_case("the main file, -I %s, in %s" % (opts, d or "."), d + "a.s", HDR + ".DB 9\n", {x + d + "a.s": HDR + ".DB 1\n" for x in ("i1/", "i2/", "d/")}, opts, b"\x09", set())
    # a second file
    for first, kind1, sub1 in itertools.product(DIRS + ["m/"], ("inc", "bin"), ("", "q/")):
        n1 = sub1 + NAME[kind1]
        mdir = "m/" if first == "m/" else ""
        for kind, kw, opts, incdir, inside in itertools.product(("inc", "bin"), ("", "LATESTDIR", "RELATIVEDIR"), ([], ["i1"], ["i1", "i2"]), (None, "d"), (False, True)):
            if inside and kind1 == "bin": continue
            kw1 = "RELATIVEDIR" if mdir else ""
            f1 = {first + n1: b""}
            if mdir: r1 = mdir + n1
            else: r1 = search(n1, f1, opts, incdir)
            if r1 is None: continue
            name = "g" + NAME[kind][1:]
            places = ["", "i1/", "d/", "q/"] + [x for x in ((first + sub1),) if x not in ("", "i1/", "d/", "q/")]
            for ps in subsets(places):
                have = {p + name: content(kind, 32 + places.index(p)) for p in ps}
                if kw == "LATESTDIR": r = r1[:len(r1) - len(NAME[kind1])] + name
                elif kw == "RELATIVEDIR": r = (r1[:len(r1) - len(NAME[kind1])] if inside else mdir) + name
                else: r = search(name, have, opts, incdir)
                if r not in have: r = None
                u = use(kind, name, kw, 0)
                files = dict(have); files[r1] = content(kind1, 16); want = b"\x10"
                if inside: files[r1] += u + ".DB 66\n"
                if r: want = bytes([16, 32 + places.index(r[:-len(name)])]) + (b"\x42" if inside else b"") + b"\x4d"
                yield search_case("%s %s, then %s %s %s %s in %s, -I %s, incdir %s" % (kind1, r1, kind, name, kw, "inside" if inside else "after", list(ps), opts, incdir), mdir + "a.s",
                                  HDR + incdir_text(incdir) + use(kind1, n1, kw1, 1) + ("" if inside else u) + ".DB 77\n", files, opts, want if r else None, {r1, r} if r else None)
    # a third file: directories of files found through keywords
    for kw1, kw2, kw3 in itertools.product(("LATESTDIR", "RELATIVEDIR"), repeat=3):
        for deep2, deep3, inside in itertools.product(("", "q/"), ("", "q/"), (False, True)):
            # a.s includes d/f.s, which includes (kw1) [q/]g.s, and then (in f.s or g.s) h.s by kw2, k.b by kw3
            g = "d/" + deep2 + "g.s"; gd = "d/" + deep2
            h = (gd if kw2 == "LATESTDIR" or inside else "d/") + deep3 + "h.s"; hd = h[:-3]
            k = (hd if kw3 == "LATESTDIR" else gd if inside else "d/") + "k.b"
            u = '.INCLUDE "%sh.s" %s\n.INCBIN "k.b" %s\n' % (deep3, kw2, kw3)
            files = {"d/f.s": '.INCLUDE "%sg.s" %s\n%s' % (deep2, kw1, "" if inside else u), g: ".DB 2\n" + (u if inside else ""), h: ".DB 3\n", k: b"\x04"}
            yield search_case("three files, %s %s %s, %s, %s, %s" % (kw1, kw2, kw3, deep2, deep3, "in the second" if inside else "in the first"), "a.s", HDR + '.INCLUDE "d/f.s"\n.DB 77\n', files, [], b"\x02\x03\x04\x4d", {"d/f.s", g, h, k})

# ---------------------------------------------------------------- trees
class Gen:
    """expands a tree: text of each file as it is, and the pasted text"""
    def __init__(self): self.n = 0; self.files = {}; self.read = set()
    def new(self): self.n += 1; return self.n

def inc(name, form):
    return {"plain": '.INCLUDE "%s"\n', "inc": '.INC "%s"\n', "bare": ".include %s\n", "comment": '.INCLUDE "%s" ; c\n', "pieces": '.INCLUDE "%s", "%s"\n', "sub": '.INCLUDE "%s"\n', "rel": '.INCLUDE "%s" RELATIVEDIR\n', "once": '.INCLUDE "%s" ONCE\n', "inconce": '.inc "%s" once ; c\n', "def": ".INCLUDE DIR, \"%s\"\n"}[form] % ((name[:1], name[1:]) if form == "pieces" else name)

# item -> lines; "<" stands for an include of the next file, in the form that is given
ITEMS = {
    "db": ".DB %(n)d\n", "redef": ".REDEFINE X X + 1\n.DB X\n", "unnamed": "-:\n.DW -, +\n+:\n.DB 5\n", "lab": "L%(n)d:\n.DW L%(n)d\n",
    "inc": "<plain", "once": "<once", "incinc": "<inc", "bare": "<bare", "comment": "<comment", "pieces": "<pieces",
    "if1": ".IF 1 == 1\n<plain.ENDIF\n", "if0": ".IF 1 == 2\n<plain.ELSE\n.DB 6\n.ENDIF\n", "else": ".IF X == 1000\n.DB 7\n.ELSE\n<plain.DB 8\n.ENDIF\n",
    "rept": ".REPT 3 INDEX ix%(n)d\n.DB ix%(n)d\n<once.DB 10\n.ENDR\n", "rept2": ".REPT 2\n.REPT 2\n<once.ENDR\n.DB 11\n.ENDR\n", "while": ".DEFINE W%(n)d 0\n.WHILE W%(n)d < 2\n<inconce.REDEFINE W%(n)d W%(n)d + 1\n.ENDR\n.UNDEFINE W%(n)d\n",
    "macro": ".MACRO M%(n)d\n.DB \\1, NARGS\n<once.DB 12, \\@\n.ENDM\nM%(n)d 1\nM%(n)d 2, 3\n", "macro3": ".MACRO M%(n)d\n<once.ENDM\n.MACRO N%(n)d\nM%(n)d\n.DB 13\nM%(n)d\n.ENDM\nN%(n)d\n.DB 14\nN%(n)d\n",
    "guarded": ".REPT 2\n<once.IFNDEF D%(n)d\n.DEFINE D%(n)d 1\n.MACRO G%(n)d ARGS a\n.DB a + 1\n.ENDM\n.ENDIF\nG%(n)d 20\n.ENDR\nG%(n)d 30\n",
    "late": "<plain.MACRO K%(n)d\n.DB 15\n.ENDM\nK%(n)d\n<plain" "K%(n)d\n", "mdef": ".IFNDEF P\n.DEFINE P 1\n.MACRO PM ARGS a\n.DB a, 16\n.ENDM\n.ENDIF\nPM 3\n", "call": "PM 4\n",
    "section": ".SECTION \"s%(n)d\" FORCE\n.DB 17\n<plain.ENDS\n", "arg": ".MACRO A%(n)d\n.INCLUDE \\1\n.DB 18\n.ENDM\n",
}
del ITEMS["arg"]

REPEATED = ("rept", "rept2", "while", "macro", "macro3", "guarded")
def build(g, depth, bodies, ends):
    """(text of the file, pasted text) of file 'depth'; a pasted text with includes resolved"""
    mine, pasted = "", ""
    for it in bodies[depth]:
        n = g.new(); t = ITEMS[it] % {"n": n}
        mine += re.sub(r"<([a-z]+?)(?=\.|K\d|$)", lambda m: inc(g.names[depth + 1], m.group(1)), t) if depth + 1 < len(bodies) else re.sub(r"<[a-z]+?(?=\.|K\d|$)", "", t)
        pasted += re.sub(r"<[a-z]+?(?=\.|K\d|$)", lambda m: g.pasted[depth + 1], t) if depth + 1 < len(bodies) else re.sub(r"<[a-z]+?(?=\.|K\d|$)", "", t)
    return mine, pasted

NAMES = [["a.s", "f1.s", "f2.s"], ["a.s", "x/f1.s", "f2.s"]]
ENDS = ["", "\n\n", "crlf", "no newline"]

def all_once(bodies):
    """in text that is repeated, every .INCLUDE must have ONCE: the tests expect that without it every round adds another copy"""
    return not any(i in REPEATED for i in bodies[0]) or all("<" not in ITEMS[i] or "<once" in ITEMS[i] for b in bodies[1:-1] for i in b)

def tree(bodies, end, names):
    """files, pasted source"""
    g = Gen(); g.names = names; g.pasted = [None] * len(bodies); files = {}
    for d in reversed(range(len(bodies))):
        mine, pasted = build(g, d, bodies, end)
        g.pasted[d] = pasted
        if d == 0: mine = HDR + ".DEFINE X 1\n" + mine + ".DB 99\n"; pasted = HDR + ".DEFINE X 1\n" + pasted + ".DB 99\n"
        elif end == "no newline": mine = mine.rstrip("\n")
        elif end == "crlf": mine = mine.replace("\n", "\r\n")
        elif end: mine = mine + end
        files[names[d]] = mine
    return files, pasted

def labels(b):
    m = re.search(r"\[labels\]\n((?:.+\n)*)", (b or b"").decode("latin1")); d = re.search(r"\[definitions\]\n((?:.+\n)*)", (b or b"").decode("latin1"))
    return sorted(m.group(1).split("\n") if m else []), sorted(d.group(1).split("\n") if d else [])

def tree_case(key, bodies, end, names, error=None):
    reach = 1
    for d in range(len(bodies) - 1):
        if any("<" in ITEMS[i] for i in bodies[d]): reach += 1
        else: break
    def prog():
        files, pasted = tree(bodies, end, names)
        fs = dict(files); fs["p.s"] = pasted; fs["l1"] = "[objects]\na.o\n"; fs["l2"] = "[objects]\np.o\n"
        return {"files": fs, "steps": [("z80", ["-M", "-MF", "dep", "-o", "a.o", "a.s"]), ("wlalink", ["-r", "-S", "l1", "o1.bin"]), ("z80", ["-o", "p.o", "p.s"]), ("wlalink", ["-r", "-S", "l2", "o2.bin"])],
                "reads": ["o1.bin", "o2.bin", "o1.sym", "o2.sym", "dep"], "keep_going": True}
    def judge(res):
        if min(res.rcs) < 0: return "crash"
        a, b = res.files["o1.bin"], res.files["o2.bin"]
        if (a is None) != (b is None): return ("refused: %s" % (res.outs[0] + res.outs[1])[-200:].decode("latin1")) if a is None else "accepted, but not when the text is pasted: %s" % (res.outs[2] + res.outs[3])[-200:].decode("latin1")
        if a is None: return None
        if a != b:
            n = len(a.rstrip(b"\xee")); m = len(b.rstrip(b"\xee"))
            return "the ROM is %s, but %s with the text pasted" % (a[:max(n, m)].hex(" "), b[:max(n, m)].hex(" "))
        if labels(res.files["o1.sym"]) != labels(res.files["o2.sym"]): return "labels: %s, with the text pasted: %s" % (labels(res.files["o1.sym"]), labels(res.files["o2.sym"]))
        p = deps(res.files["dep"] or b"", "a.o")
        if p is None: return "dependencies aren't rules"
        got = set(p[0]) - {"a.s"}
        if not got <= set(names[1:]) or (not dead and got != set(names[1:reach])): return "dependencies %s instead of %s" % (sorted(got), names[1:reach])
        return None
    dead = any(i in ("if0", "else") for b in bodies for i in b)
    return Case(key, prog, judge, n=1)

def error_case(key, bodies, where, kind):
    """an error at the end of file 'where', which is read; the message must name file and line"""
    def make():
        files, _ = tree(bodies, "", NAMES[0])
        t = files[NAMES[0][where]]
        if where == 0: t = t[:-len(".DB 99\n")]
        line = t.count("\n") + 1
        files[NAMES[0][where]] = t + ("xyzzy 1\n" if kind == "asm" else ".DB nosuchlabel\n") + ".DB 1\n"
        files["l"] = "[objects]\na.o\n"
        return files, line
    def prog(): return {"files": make()[0], "steps": [("z80", ["-o", "a.o", "a.s"]), ("wlalink", ["-r", "l", "o.bin"])], "reads": [], "keep_going": True}
    def judge(res):
        line = make()[1]
        o = res.outs[0] if kind == "asm" else res.outs[0] + res.outs[1]
        if res.rcs[0 if kind == "asm" else 1] == 0: return "the error isn't found"
        got = set(re.findall(r"(?m)^(?:a\.o: )?(\w+\.s):(\d+): (?!\w*WARN)", o.decode("latin1")))
        if got != {(NAMES[0][where], str(line))}: return "%s is named instead of line %d of %s: %s" % (sorted(got), line, NAMES[0][where], o[-150:].decode("latin1"))
        return None
    return Case(key, prog, judge, n=1)

F1 = ["db", "redef", "unnamed", "lab", "mdef", "once", "rept", "macro", "if1", "late"]
F2 = [("db", "redef"), ("unnamed",), ("mdef", "db"), ("lab",)]
SHORT = ["db", "redef", "inc", "comment", "if1", "else", "rept", "macro", "macro3", "guarded", "late", "call"]
def seqs(items, *lens):
    for n in lens: yield from itertools.product(items, repeat=n)

def trees(deep):
    def nested(bodies):      # macro definitions in macros can't be pasted
        for d in range(len(bodies) - 1):
            if any(i in ("macro", "macro3", "late") for i in bodies[d]) and any(i in ("mdef", "macro", "macro3", "guarded", "late") for b in bodies[d + 1:] for i in b): return True
        return False
    k = 0
    for main, f1 in itertools.chain(itertools.product(seqs(ITEMS, 1, 2), seqs(F1, 1, 2)), itertools.product(seqs(ITEMS if deep else SHORT, 3), seqs(F1, 1, 2) if deep else seqs(["redef", "once", "rept", "macro"], 1))):
        if not any("<" in ITEMS[i] for i in main): continue
        k += 1
        f2s = F2 if len(main) == 1 else [F2[k % len(F2)]]
        for f2 in f2s:
            if not any("<" in ITEMS[i] for i in f1): f2 = ()
            for end in (ENDS if len(main) == 1 else [ENDS[k % len(ENDS)]]):
                for names in (NAMES if len(main) == 1 else [NAMES[0]]):
                    if names is NAMES[1] and any(i in ("bare", "pieces") for i in main): continue
                    bodies = (main, f1, f2) if f2 else (main, f1)
                    if nested(bodies) or not all_once(bodies): continue
                    yield tree_case("tree %s, end %r, %s" % (" | ".join("+".join(b) for b in bodies), end, names[1]), bodies, end, names)
            if not f2: break
    once = ("inc", "incinc", "bare", "comment", "pieces", "if1", "if0", "else", "section")
    for main in seqs([i for i in ITEMS if i not in ("call", "lab")], 1, 2):
        real = [i for i in main if "<" in ITEMS[i] and i != "if0"]
        if not real: continue
        if not any("<" in ITEMS[i] for i in main) or any("call" == i for i in main) : continue
        for f1 in seqs(F1, 1):
            if f1[0] in ("lab", "macro", "mdef", "late") and (len(real) > 1 or any(i not in once for i in real)): continue
            f2 = ("redef", "unnamed") if "<" in ITEMS[f1[0]] else ()
            bodies = (main, f1, f2) if f2 else (main, f1)
            if not all_once(bodies): continue
            for where in range(len(bodies)):
                for kind in ("asm", "link"):
                    yield error_case("%s error at the end of file %d of %s" % (kind, where, " | ".join("+".join(b) for b in bodies)), bodies, where, kind)

# ---- files included by macros: every later macro must keep its text
MTEXT = {"u.s": ".DB $A0\n.DB $A1 ; " + "c" * 70 + "\n", "v.s": ".DB $B0\n.IF 1 == 1\n.DB $B1\n.ENDIF\n"}
MBYTES = {"u.s": [0xa0, 0xa1], "v.s": [0xb0, 0xb1]}
MBODIES = {"db": [1], "u": ["u.s", 2], "v": [3, "v.s"], "uv": ["u.s", "v.s"], "if": [4, "if", "u.s", "endif"], "down": ["call", 5], "rept": ["rept", 6, "u.s", "endr"]}
def macro_case(bodies, calls, loop):
    """bodies of macros M0, M1...; ONCE only means that this place gets the text once"""
    src = HDR; k = len(bodies)
    for m, b in enumerate(bodies):
        src += ".MACRO M%d\n.DB $%x0\n" % (m, m + 1)
        for x in MBODIES[b]:
            src += {"if": ".IF 2 == 2\n", "endif": ".ENDIF\n", "rept": ".REPT 2\n", "endr": ".ENDR\n", "call": " M%d\n" % (m + 1)}.get(x) or (".DB %d\n" % x if isinstance(x, int) else ".INCLUDE \"%s\" ONCE\n" % x)
        src += ".DB $%x1\n.ENDM\n" % (m + 1)
    src += (".REPT 2\n" if loop else "") + "".join(" M%d\n" % c for c in calls) + (".ENDR\n" if loop else "") + ".DB $77\n"
    out = []
    def run(m):
        out.append(m * 16 + 16); body = MBODIES[bodies[m]]
        for _ in range(2 if "rept" in body else 1):
            for i, x in enumerate(body):
                if isinstance(x, int): out.append(x)
                elif x == "call": run(m + 1)
                elif x in MTEXT: out.extend(MBYTES[x])
        out.append(m * 16 + 17)
    for _ in range(2 if loop else 1):
        for c in calls: run(c)
    want = bytes(out + [0x77])
    def judge(res):
        if not res.ok: return "refused: " + res.outs[-1][-200:].decode("latin1")
        b = res.files["o.bin"]
        if b[:len(want)] != want: return "the ROM is %s instead of %s" % (b[:len(want)].hex(" "), want.hex(" "))
        return None
    return Case("macros %s, calls %s%s" % (" ".join(bodies), calls, " twice" if loop else ""), {"files": dict(MTEXT, **{"a.s": src, "l": "[objects]\na.o\n"}), "steps": [("z80", ["-o", "a.o", "a.s"]), ("wlalink", ["-r", "l", "o.bin"])], "reads": ["o.bin"]}, judge, n=1)

def macros(deep):
    for bodies in seqs(MBODIES, 2, 3):
        if bodies[-1] == "down" or not any("u" in b and b != "down" or b in ("v", "if", "rept") for b in bodies): continue
        for calls in seqs(range(len(bodies)), 1, 2, 3, *([4] if deep else [])):
            if len(bodies) == 3 and len(calls) > 1 and len(set(calls)) == 1 and not deep: continue
            for loop in (False, True) if deep or len(calls) < 3 else (False,): yield macro_case(bodies, calls, loop)

def cases(tier):
    yield from searches()
    yield from macros(tier != "quick")
    yield from trees(tier != "quick")
