"""L06: splitting.  Every short program of sections, plain code, definitions and RAM sections, in every order-keeping distribution over object
and library files, must link to the ROM (and the labels) of the one-file program; duplicates, conflicts and missing names must be refused."""
import itertools, re
from .. import run
from ..check import Case

ID = "L06"
LEVEL = "model_checking"
TOOLS = ["wlalink", "z80", "6800", "65816", "gb"]
RULE = "distinct (program, distribution over files) or arrangement that must be refused"
BOUNDS = {"quick": "all ordered selections with repetition of up to 3 of 20 kinds of items, all selections of 4 of 7 kinds, in all order-keeping distributions over objects and libraries, for a little-endian, a big-endian and a 24-bit processor (the latter two up to pairs and chosen triples); unique sections, duplicates, conflicting settings, all pairs of 27 bank maps and of memory maps that differ in one number, undefined names and checksum settings in every file of 3",
          "thorough": "as quick with all selections of 4 of 13 kinds, 5 of 5 kinds, and all triples for every processor"}

SLOTS = [(0, 0x400), (0x400, 0x400), (0x800, 0x400), (0xC000, 0x100)]
def head(cpu, extra="", banks=3, size=0x400, slots=SLOTS, fill=0xA7):
    return (".MEMORYMAP\nDEFAULTSLOT 0\n" + "".join("SLOT %d $%x $%x\n" % (i, a, s) for i, (a, s) in enumerate(slots)) +
            ".ENDME\n.ROMBANKSIZE $%x\n.ROMBANKS %d\n.EMPTYFILL $%x\n%s" % (size, banks, fill, extra))

# ---- items.  Each: (bank or None if it fits any file, may be in a library, is placed, text(i, lib)).  BODY is the code of item i
class It:
    def __init__(self, name, bank, lib, text, link=None, ref="L%d"):
        self.name, self.bank, self.lib, self.text, self.link, self.ref = name, bank, lib, text, link, ref
        self.mark = name not in ("def", "exp", "linkdef", "ram", "ramlib")     # has a body in the ROM

def name(it, j): return it.ref.replace("%d", str(j))

def body(i, items, tag=""):
    """a marker, the item's own address, references to everything every other item defines, and names that other items use too"""
    o = ["L%d:" % i, ".DB $%02x, $E7" % (0xE0 + i), "-:", ".DW L%d" % i, ".DW @k, -, +", "@k:"]
    o += ["_loc%s:" % tag, ".DW _loc%s" % tag, ".REDEFINE kk = %d" % (i + 3), ".DB kk"]
    for j, it in enumerate(items):
        r = name(it, j)
        o += [".DW %s" % r, ".DB <%s + 1" % r]
        if it.name in ("def", "linkdef"): continue
        if it.name == "exp": o += [".DW %s - L%d" % (r, i)]; continue
        o += [".DB :%s" % r]
        if it.name == "struct": o += [".DW inst%d.y" % j]
        if it.name not in ("ram", "ramlib"): o += [".DW %s@k - %s" % (r, r)]
        if it.name == "free": o += [".DW _sizeof_%s" % r]
        if it.name == "ns": o += [".DW n%d._sizeof_L%d" % (j, j)]
    o += ["+:"]
    return "\n".join(o) + "\n"

def place(bank, org):
    return lambda lib: "" if lib else ".BANK %d SLOT %d\n.ORG $%x\n" % (bank, bank, org)

def sec(opts, bank=0, org=0, nm="s%d", pre=""):
    def t(i, items, lib):
        return place(bank, org + (0x70 * i if "FORCE" in opts or "OVERWRITE" in opts else 0))(lib) + pre + '.SECTION "%s" %s\n' % (nm.replace("%d", str(i)), opts.replace("%d", str(i))) + body(i, items, "%d" % i if "APPEND" in opts else "") + ".ENDS\n"
    return t

def plain(bank, org):
    return lambda i, items, lib: ".BANK %d SLOT %d\n.ORG $%x\n" % (bank, bank, org + 0x70 * i) + body(i, items, "p%d" % i)

def defs(i, items, lib):
    return ".DEFINE D%d = %d\n.EXPORT D%d\n" % (i, 5 + i, i)

def exp(i, items, lib):
    return ".DEFINE D%d = L%d + 1\n.EXPORT D%d\n" % (i, first(items), i)

def first(items):
    for j, it in enumerate(items):
        if it.mark: return j
    return 0

def ram(lib_only):
    def t(i, items, lib):
        return '.RAMSECTION "r%d"%s\nL%d DB\nM%d DSB 2\n.ENDS\n' % (i, "" if lib_only else " BANK 0 SLOT 3", i, i)
    return t

def macro(i, items, lib):
    return (place(0, 0)(lib) + ".MACRO mm%d ISOLATED ARGS aa\n.DB aa\n_in:\n.DW _in\n.ENDM\n" % i + '.SECTION "s%d" FREE\n' % i + body(i, items) +
            "mm%d 3\nmm%d 4\n.REPEAT 2\n.DB $33\n.ENDR\n.ENDS\n" % (i, i))

def struct(i, items, lib):
    return place(0, 0)(lib) + ".STRUCT st%d\nx DB\ny DW\n.ENDST\n" % i + '.SECTION "s%d" FREE\n' % i + body(i, items) + ".DSTRUCT inst%d INSTANCEOF st%d VALUES\nx: .DB 7\ny: .DW L%d\n.ENDST\n.ENDS\n" % (i, i, i)

def bits(i, items, lib):
    return place(0, 0)(lib) + '.SECTION "s%d" FREE\n' % i + body(i, items) + ".BITS 4 DATA L%d@k - L%d\n.BITS 12 DATA L%d\n.ENDBITS\n.ENDS\n" % (i, i, i)

ITEMS = {it.name: it for it in [
    It("free", 0, True, sec("FREE")),
    It("free1", 1, True, sec("FREE", 1)),
    It("align", 0, True, sec("ALIGN 8 FREE PRIORITY 2")),
    It("prio", 1, True, sec("FREE PRIORITY -%d", 1)),
    It("size", 0, True, sec("SIZE 120 FREE")),
    It("super", 0, True, sec("SUPERFREE")),
    It("force", 2, False, sec("FORCE", 2, 0x200)),
    It("semi", 1, False, sec("SEMIFREE", 1, 0x40)),
    It("ret", 0, True, sec("FREE RETURNORG")),
    It("append", 0, True, sec('FREE PRIORITY -%d APPENDTO "s0"')),
    It("same", 1, True, sec("FREE", 1, nm="common")),
    It("ns", 0, True, sec('NAMESPACE "n%d" FREE'), ref="n%d.L%d"),
    It("plain", 2, False, plain(2, 0)),
    It("macro", 0, True, macro),
    It("struct", 0, True, struct),
    It("bits", 0, True, bits),
    It("def", None, True, defs, ref="D%d"),
    It("exp", None, True, exp, ref="D%d"),
    It("ram", None, False, ram(False)),
    It("ramlib", None, True, ram(True), link='[ramsections]\nbank 0 slot 3 "r%d"\n'),
    It("linkdef", None, True, lambda i, items, lib: "", link="[definitions]\nD%d $2%d\n", ref="D%d"),
]}

def fits(items):
    """a program that means something"""
    if not any(it.mark for it in items) or sum(it.name == "same" for it in items) > 1: return False
    if not all(items[first(items)].ref == "L%d" for it in items if it.name == "exp"): return False
    for j, it in enumerate(items):
        if it.name == "append" and (j == 0 or items[0].name in ("same", "plain", "append", "ns") or not items[0].mark or items[0].bank != 0): return False
    return True

def text(items, lo, hi, lib, cpu):
    return ("" if lib else head(cpu, fill=0 if any(it.name == "size" for it in items) else 0xA7)) + "".join(items[i].text(i, items, lib) for i in range(lo, hi))

def bank_of(items, lo, hi):
    """the bank of a library, None if it can't be one"""
    b = {it.bank for it in items[lo:hi] if it.bank is not None}
    if len(b) > 1 or not all(it.lib for it in items[lo:hi]): return None
    return b.pop() if b else 0

def compositions(n, k=3):
    for cuts in range(1 << (n - 1)):
        c = [0] + [i + 1 for i in range(n - 1) if cuts >> i & 1] + [n]
        if len(c) - 1 <= k: yield list(zip(c, c[1:]))

def case(cpu, names):
    items = [ITEMS[n] for n in names]
    n = len(items)
    dists = []                     # [[(lo, hi, lib)]]
    for c in compositions(n):
        opts = [(0, 1) if bank_of(items, lo, hi) is not None and not any(it.name == "ram" for it in items[lo:hi]) else (0,) for lo, hi in c]
        if n == 1 or len(c) > 1 or True:
            for kinds in itertools.product(*opts):
                if len(c) == 1 and not kinds[0]: continue
                if any(not k and any(it.name == "ramlib" for it in items[lo:hi]) and False for k, (lo, hi) in zip(kinds, c)): continue
                dists.append([(lo, hi, k) for k, (lo, hi) in zip(kinds, c)])
    if not dists: return None
    def make():
        files, steps, reads = {}, [], []
        tail = "".join(it.link.replace("%d", str(i)) for i, it in enumerate(items) if it.link)
        done = set()
        def asm(lo, hi, lib):
            f = "%s%d%d" % ("ol"[lib], lo, hi)
            if f not in done:
                done.add(f)
                files[f + ".s"] = text(items, lo, hi, lib, cpu)
                steps.append((cpu, ["-l" if lib else "-o", f + ".o", f + ".s"]))
            return f + ".o"
        ref = asm(0, n, 0)
        files["ref.l"] = "[objects]\n" + ref + "\n" + tail
        for k, d in enumerate(dists):
            o = ""
            for lo, hi, lib in d:
                f = asm(lo, hi, lib)
                if lib:
                    b = bank_of(items, lo, hi)
                    o += "[libraries]\nbank %d slot %d %s\n" % (b, b, f)
                else: o += "[objects]\n" + f + "\n"
            if all(lib for lo, hi, lib in d):
                if "e.s" not in files:
                    files["e.s"] = head(cpu, fill=0 if any(it.name == "size" for it in items) else 0xA7); steps.append((cpu, ["-o", "e.o", "e.s"]))
                o += "[objects]\ne.o\n"
            files["%d.l" % k] = o + tail
        for k in ["ref"] + list(range(len(dists))):
            steps.append(("wlalink", ["-r", "-S", "%s.l" % k, "%s.bin" % k]))
            reads += ["%s.bin" % k, "%s.sym" % k]
        return {"files": files, "steps": steps, "reads": reads, "keep_going": True}
    def judge(res):
        bad = [k for k, r in enumerate(res.rcs) if r]
        if bad: return "step %d ends with %d: %s" % (bad[0], res.rcs[bad[0]], res.outs[bad[0]][:300].decode("latin1"))
        ref = res.files["ref.bin"]
        m = own(items, ref, cpu)
        if m: return m
        out = []
        for k, d in enumerate(dists):
            t = "+".join("".join(names[i][:9] + "," for i in range(lo, hi))[:-1] + (" (lib)" if lib else "") for lo, hi, lib in d)
            x = res.files["%d.bin" % k]
            if x != ref:
                j = next(i for i in range(len(ref)) if i >= len(x) or x[i] != ref[i]) if x is not None and len(x) <= len(ref) else -1
                out.append(("%s/%s" % (key, t), "distribution %s: ROM differs at $%x" % (t, j)))
            elif syms(res.files["%d.sym" % k]) != syms(res.files["ref.sym"]):
                d2 = sorted(set(syms(res.files["%d.sym" % k])) ^ set(syms(res.files["ref.sym"])))
                out.append(("%s/%s" % (key, t), "distribution %s: labels differ: %s" % (t, d2[:3])))
        return out
    key = "%s %s" % (cpu, ",".join(names))
    return Case(key, make, judge, steps=len(dists) + 1, n=len(dists))

def syms(t):
    t = re.sub(rb":[ol]\d\d\.s_", b":FILE_", t)
    t = re.sub(rb"_mm(\d)_\d+", rb"_mm\1", t)
    return sorted(l for l in t.decode("latin1").split("\n") if l and l[0] != ";" and "version" not in l and "wlasymbol" not in l)

def own(items, rom, cpu):
    """every body's own address, as the program sees it, is the one it lies at"""
    big = cpu == "6800"
    word = lambda a: (rom[a] << 8 | rom[a + 1]) if big else rom[a] | rom[a + 1] << 8
    for i, it in enumerate(items):
        if not it.mark: continue
        at = [a for a in range(len(rom) - 4) if rom[a] == 0xE0 + i and rom[a + 1] == 0xE7]
        want = lambda a: SLOTS[it.bank][0] + a % 0x400
        if not any(word(a + 2) == want(a) for a in at): return "item %d (%s): its own address isn't the one it is at (%s)" % (i, it.name, [(hex(a), hex(word(a + 2))) for a in at])
    return None

# ---- what must be refused, and what the rules say about duplicates
def prog(cpu, files, tail="", reads=("o.bin",)):
    """files: [(kind, text)]; kinds: o object, l library (bank 0 slot 0)"""
    f, steps, l = {}, [], ""
    for i, (k, t) in enumerate(files):
        f["f%d.s" % i] = t
        steps.append((cpu, ["-" + k, "f%d.o" % i, "f%d.s" % i]))
        l += "[objects]\nf%d.o\n" % i if k == "o" else "[libraries]\nbank 0 slot 0 f%d.o\n" % i
    f["l"] = l + tail
    steps.append(("wlalink", ["-r", "-S", "l", "o.bin"]))
    return {"files": f, "steps": steps, "reads": list(reads), "keep_going": True}

def refused(key, cpu, files, tail="", word=None):
    p = prog(cpu, files, tail)
    def judge(res):
        if any(res.rcs[:-1]): return "the assembler refuses it: " + res.outs[[k for k, r in enumerate(res.rcs) if r][0]].decode("latin1")[:200]
        if res.rcs[-1] != 1: return "the linker ends with %d" % res.rcs[-1]
        if not res.outs[-1].strip(): return "no message"
        if word and word.encode() not in res.outs[-1]: return "the message doesn't name %s: %s" % (word, res.outs[-1][:200])
        if res.files["o.bin"] is not None: return "refused but the ROM was written"
    return Case(key, p, judge)

def accepted(key, cpu, files, want, tail=""):
    """want: {address: bytes} of the ROM, or a function rom -> message"""
    p = prog(cpu, files, tail)
    def judge(res):
        if any(res.rcs): return "refused: " + res.outs[[k for k, r in enumerate(res.rcs) if r][0]].decode("latin1")[:200]
        rom = res.files["o.bin"]
        if callable(want): return want(rom)
        for a, b in want.items():
            if rom[a:a + len(b)] != b: return "$%x: %s, expected %s" % (a, rom[a:a + len(b)].hex(" "), b.hex(" "))
    return Case(key, p, judge)

def S(name, text, opts="FREE", lib=False, bank=0, org=0):
    return place(bank, org)(lib) + '.SECTION "%s" %s\n%s.ENDS\n' % (name, opts, text)

def file(kind, text, cpu="z80", **kw):
    return (kind, text if kind == "l" else head(cpu, **kw) + text)

def kinds(n):
    """objects and libraries, at least one object"""
    return [k for k in itertools.product("ol", repeat=n) if "o" in k]

# places a definition of a name can be in, with the text that makes one; {v} tells copies apart
DUPS = [("label", lambda k, v: S("d%d" % v, ".DSB %d, 0\nX:\n.DB %d\n" % (v, v), lib=k == "l")),
        ("namespace", lambda k, v: S("d%d" % v, ".DSB %d, 0\nX:\n.DB %d\n" % (v, v), 'NAMESPACE "ns" FREE', lib=k == "l")),
        ("child", lambda k, v: S("d%d" % v, ".DSB %d, 0\nX:\n.DB %d\n@c:\n" % (v, v), lib=k == "l")),
        ("definition", lambda k, v: ".DEFINE X = %d\n.EXPORT X\n" % (v + 5)),
        ("calculated", lambda k, v: ".DEFINE X = base + %d\n.EXPORT X\n" % (v + 5)),
        ("plain", lambda k, v: None if k == "l" else ".BANK 2 SLOT 2\n.ORG $%x\nX:\n.DB %d\n" % (v * 16, v)),
        ("ram", lambda k, v: '.RAMSECTION "d%d"%s\nX DB\n.ENDS\n' % (v, "" if k == "l" else " BANK 0 SLOT 3"))]
USES = [".DW X", ".DB <X", ".DW X + 1", "ld hl, X", ".DB :X"]

def rules():
    # the same name in two of three files
    for (n1, d1), (n2, d2) in itertools.product(DUPS, repeat=2):
        if ("namespace" in (n1, n2)) and n1 != n2: continue
        for ks in kinds(3):
            for i, j in ((0, 1), (0, 2), (1, 2)):
                fs = []
                tail = ""
                for x, k in enumerate(ks):
                    t = S("b", "base:\n.DB 9\n", lib=k == "l") if x == 0 else ""
                    if x in (i, j):
                        y = (d1 if x == i else d2)(k, x + 1)
                        if y is None: break
                        t += y
                        if k == "l" and "RAMSECTION" in y: tail += '[ramsections]\nbank 0 slot 3 "d%d"\n' % (x + 1)
                    fs.append(file(k, t))
                if len(fs) == 3: yield refused("dup %s/%s %s %d%d" % (n1, n2, "".join(ks), i, j), "z80", fs, tail, "X")
    for ks in kinds(2):                                                        # and in a file and the link file
        for n, d in DUPS:
            if n == "namespace": continue
            for x in (0, 1):
                fs = [file(k, (S("b", "base:\n.DB 9\n", lib=k == "l") if y == 0 else "") + ((d(k, 3) or "?") if y == x else "")) for y, k in enumerate(ks)]
                if any("?" in t for k, t in fs): continue
                yield refused("dup link %s %s %d" % (n, "".join(ks), x), "z80", fs, '[definitions]\nX 5\n' + ('[ramsections]\nbank 0 slot 3 "d3"\n' if n == "ram" else ""), "X")
    # names nobody, or only another file's inside, defines
    HIDDEN = [("none", ""), ("local", "_X"), ("notexported", ".DEFINE X = 5\n"), ("localcode", None), ("child", "par"), ("nsinner", "ns")]
    for ks in kinds(3):
        for hn, h in HIDDEN:
            for u in USES:
                for x in range(3):
                    fs = []
                    for y, k in enumerate(ks):
                        nm = {"local": "_X", "localcode": "_X", "child": "@X"}.get(hn, "X")
                        if y == x: t = S("u", "own:\n" + u.replace("X", nm) + "\n", lib=k == "l")
                        elif hn == "none": t = S("o%d" % y, "o%d:\n.DB 1\n" % y, lib=k == "l")
                        elif hn == "local": t = S("o%d" % y, "_X:\n.DB 1\n", lib=k == "l")
                        elif hn == "notexported": t = h + S("o%d" % y, ".DB X\n", lib=k == "l")
                        elif hn == "localcode":
                            if k == "l": t = ""
                            else: t = ".BANK 2 SLOT 2\n.ORG $%x\n_X:\n.DB 1\n" % (y * 16)
                        elif hn == "child": t = S("o%d" % y, "par%d:\n@X:\n.DB 1\n" % y, lib=k == "l")
                        elif hn == "nsinner": t = S("o%d" % y, "X:\n.DB 1\n", 'NAMESPACE "n%d" FREE' % y, lib=k == "l")
                        fs.append(file(k, t))
                    yield refused("hidden %s %s %s %d" % (hn, "".join(ks), u, x), "z80", fs)
    # settings that don't agree
    a, s2 = head("z80"), [(0, 0x400), (0x400, 0x400), (0x800, 0x400), (0xC000, 0x100)]
    ALT = {"slot address": head("z80", slots=[(0, 0x400), (0x440, 0x400), (0x800, 0x400), (0xC000, 0x100)]), "slot size": head("z80", slots=[(0, 0x400), (0x400, 0x400), (0x800, 0x400), (0xC000, 0x101)]),
           "less slots": head("z80", slots=s2[:3]), "more slots": head("z80", slots=s2 + [(0xD000, 0x100)]), "bank size": head("z80", size=0x200),
           "bank map": a.replace(".ROMBANKSIZE $400\n.ROMBANKS 3\n", ".ROMBANKMAP\nBANKSTOTAL 3\nBANKSIZE $400\nBANKS 2\nBANKSIZE $200\nBANKS 1\n.ENDRO\n")}
    for n, h in ALT.items():
        for x in range(3):
            fs = [("o", (h if y == x else a) + S("o%d" % y, "o%d:\n.DB 1\n" % y)) for y in range(3)]
            yield refused("settings %s %d" % (n, x), "z80", fs)
            yield refused("settings %s %d lib" % (n, x), "z80", fs[:1] + [("l", S("x", "xx:\n.DB 1\n", lib=True))] + fs[1:])
            yield refused("settings2 %s %d" % (n, x), "z80", [("o", h + S("p", ".DB 1\n")), ("o", a + S("q", ".DB 1\n"))][::1 if x else -1])
    same = a.replace(".ROMBANKSIZE $400\n.ROMBANKS 3\n", ".ROMBANKMAP\nBANKSTOTAL 3\nBANKSIZE $400\nBANKS 3\n.ENDRO\n")
    for hs in itertools.product((a, same), repeat=3):
        yield accepted("settings same %s" % "".join("ab"[h is same] for h in hs), "z80", [("o", h + S("o%d" % y, "o%d:\n.DW o%d\n" % (y, 0))) for y, h in enumerate(hs)], {0: b"\0\0" * 3, 0xBFF: b"\xa7"})
    # every pair of bank maps, and of memory maps that differ in one number
    def bankmap(ms): return ".ROMBANKMAP\nBANKSTOTAL %d\n%s.ENDRO\n" % (len(ms), "".join("BANKSIZE $%x\nBANKS 1\n" % m for m in ms))
    maps = {ms: a.replace(".ROMBANKSIZE $400\n.ROMBANKS 3\n", bankmap(ms)) for ms in itertools.product((0x100, 0x200, 0x400), repeat=3)}
    for m1, m2 in itertools.product(maps, repeat=2):
        fs = [("o", maps[m] + S("o%d" % y, "o%d:\n.DW o%d\n" % (y, 0))) for y, m in enumerate((m1, m2))]
        k = "maps " + " ".join("%x" % m for m in m1 + m2)
        if m1 != m2: yield refused(k, "z80", fs)
        else: yield accepted(k, "z80", fs, {0: b"\0\0" * 2, sum(m1) - 1: b"\xa7"})
    for i, f, d, x in itertools.product(range(4), range(2), (-2, -1, 1, 2, 0x100), range(2)):
        s3 = [tuple(v + d * ((y, z) == (i, f)) for z, v in enumerate(s)) for y, s in enumerate(s2)]
        if s3[0][0] < 0 or s3[0][1] < 0x400: continue
        yield refused("slots %d.%d%+d %d" % (i, f, d, x), "z80", [("o", head("z80", slots=s) + S("o%d" % y, "o%d:\n.DB 1\n" % y)) for y, s in enumerate((s2, s3)[::1 if x else -1])])
    # numbers of banks: the biggest counts; every file's code stays in its bank
    for bs in itertools.product((1, 2, 3), repeat=3):
        fs = [("o", head("z80", banks=b) + S("o%d" % y, "o%d:\n.DB $%x, :o%d\n" % (y, 0x40 + y, (y + 1) % 3), "FORCE", bank=b - 1, org=0x10 * y)) for y, b in enumerate(bs)]
        def want(rom, bs=bs):
            exp = bytearray(b"\xa7" * (0x400 * max(bs)))
            for y, b in enumerate(bs): exp[0x400 * (b - 1) + 0x10 * y:][:0]; exp[0x400 * (b - 1) + 0x10 * y] = 0x40 + y; exp[0x400 * (b - 1) + 0x10 * y + 1] = bs[(y + 1) % 3] - 1
            if rom != bytes(exp): return "the ROM isn't the biggest file's, or something is in the wrong bank"
        if max(bs) <= 3 or True: yield accepted("banks %s" % (bs,), "z80", fs, want)
    # unique sections: only the first one stays, with its labels; everything else of the later ones disappears
    for pre in ("__", "!__"):
        for ks in kinds(3):
            for who in itertools.product((0, 1), repeat=3):
                if sum(who) < 1: continue
                for inner in range(3):
                    INNER = ["UL:\n.DB $D%d\n.DW UL\n", "UL:\n.DB $D%d\n-:\n.DW -, UL, UL2\n@c:\n.DW @c\nUL2:\n", "UL:\n.DB $D%d\n_l:\n.DW _l, o0, UL + 2 * o0\n.DB UL - _l\n"]
                    fs = []
                    for y, k in enumerate(ks):
                        t = S("o%d" % y, "o%d:\n.DW UL, o%d\n" % (y, y), "FREE PRIORITY %d" % (9 - y), lib=k == "l")
                        if who[y]: t += S(pre + "once", INNER[inner] % y, lib=k == "l")
                        fs.append(file(k, t))
                    ul = 12
                    f = who.index(1)
                    w = lambda *v: b"".join(bytes((x & 255, x >> 8)) for x in v)
                    u = bytes([0xD0 + f]) + [w(ul), w(ul + 1, ul, ul + 9, ul + 7), w(ul + 1, 0, ul) + b"\xff"][inner]
                    exp = b"".join(w(ul, 4 * y) for y in range(3)) + u
                    yield accepted("unique %s %s %s %d" % (pre, "".join(ks), "".join(map(str, who)), inner), "z80", fs, {0: exp + b"\xa7" * 16})
    # sections of one name in several files are sections of their own
    for ks in kinds(3):
        for opts in ("FREE", 'NAMESPACE "ns" FREE', "SUPERFREE"):
            fs = [file(k, S("common", "c%d:\n_l:\n.DW c%d, _l\n" % (y, y), opts, lib=k == "l")) for y, k in enumerate(ks)]
            yield accepted("samename %s %s" % ("".join(ks), opts), "z80", fs, {0: b"".join(bytes((4 * y, 0)) * 2 for y in range(3)) + b"\xa7"})
    # one bank header section for each bank
    for x, y in ((0, 1), (0, 2), (1, 2)):
        bh = S("BANKHEADER", ".DB 1\n", "", bank=0).replace('" \n', '"\n')
        fs = [("o", head("z80") + (bh if z in (x, y) else S("o%d" % z, ".DB 2\n"))) for z in range(3)]
        yield refused("bankheader %d%d" % (x, y), "z80", fs)
    # nothing but libraries, or nothing at all
    yield refused("only libraries", "z80", [("l", S("x", "x:\n.DB 1\n", lib=True))] * 2)
    # RAM sections of libraries without a place
    for ks in kinds(2):
        if "l" not in ks: continue
        fs = [file(k, ('.RAMSECTION "r%d"%s\nv%d DB\n.ENDS\n' % (y, "" if k == "l" else " BANK 0 SLOT 3", y)) + S("s%d" % y, ".DW v0, v1\n", lib=k == "l")) for y, k in enumerate(ks)]
        yield refused("ram without place %s" % "".join(ks), "z80", fs)
        yield accepted("ram with place %s" % "".join(ks), "z80", fs, {0: b"\x00\xc0\x01\xc0" * 2}, "[ramsections]\n" + "".join('bank 0 slot 3 org %d force "r%d"\n' % (y, y) for y, k in enumerate(ks) if k == "l"))

# ---- checksums and headers asked for in one of the files
SETTINGS = {"gb": [".COMPUTEGBCOMPLEMENTCHECK\n", ".COMPUTEGBCHECKSUM\n", '.NAME "TEST"\n', ".CARTRIDGETYPE 3\n", ".RAMSIZE 2\n", ".ROMSIZE 0\n", ".NINTENDOLOGO\n", ".VERSION 3\n"],
            "z80": [".COMPUTESMSCHECKSUM\n", ".SMSTAG\n", ".SMSHEADER\nPRODUCTCODE 1, 2, 3\nREGIONCODE 4\n.ENDSMS\n"],
            "65816": [".COMPUTESNESCHECKSUM\n", ".SMC\n", ".SNESNATIVEVECTOR\nCOP o0\nBRK o1\nABORT 0\nNMI o2\nIRQ 0\n.ENDNATIVEVECTOR\n", ".SNESHEADER\nID \"SNES\"\nNAME \"X\"\nCARTRIDGETYPE 1\nROMSIZE 8\nSRAMSIZE 2\n.ENDSNES\n"]}

def settings(cpu):
    st = SETTINGS[cpu]
    if cpu == "65816": h = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $8000 $8000\n.ENDME\n.ROMBANKSIZE $8000\n.ROMBANKS 2\n.LOROM\n"
    else: h = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 0 $4000\nSLOT 1 $4000 $4000\n.ENDME\n.ROMBANKSIZE $4000\n.ROMBANKS 2\n"
    for sub in itertools.product(range(4), repeat=len(st)):         # 3: not at all
        if len(st) > 4 and sum(1 for x in sub if x != sub[0]) > 1 : continue
        if all(x in (0, 3) for x in sub) and 3 in sub and len(st) > 4: continue
        code = ["o%d:\n.DW o%d, o%d\n" % (y, y, (y + 1) % 3) for y in range(3)]
        parts = ["".join(t for t, x in zip(st, sub) if x == y) + ".BANK 0 SLOT 0\n.ORG $1000\n" + '.SECTION "s%d" FREE\n%s.ENDS\n' % (y, code[y]) for y in range(3)]
        def make(parts=parts):
            f = {"f%d.s" % y: h + p for y, p in enumerate(parts)}
            f["all.s"] = h + "".join(parts)
            f["l"] = "[objects]\nf0.o\nf1.o\nf2.o\n"; f["k"] = "[objects]\nall.o\n"
            return {"files": f, "steps": [(cpu, ["-o", n[:-2] + ".o", n]) for n in f if n.endswith(".s")] + [("wlalink", ["-r", "l", "o.bin"]), ("wlalink", ["-r", "k", "ref.bin"])], "reads": ["o.bin", "ref.bin"], "keep_going": True}
        def judge(res):
            if any(res.rcs): return "refused: " + res.outs[[k for k, r in enumerate(res.rcs) if r][0]].decode("latin1")[:200]
            x, y = res.files["o.bin"], res.files["ref.bin"]
            if x != y: return "ROM differs at $%x" % next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
        yield Case("header %s %s" % (cpu, "".join(map(str, sub))), make, judge)

FEW = {"free", "exp", "ns", "plain", "append", "ramlib"}

def cases(tier):
    names = list(ITEMS)
    seen = set()
    def one(cpu, t):
        if (cpu, t) in seen or not fits([ITEMS[n] for n in t]): return
        seen.add((cpu, t))
        c = case(cpu, t)
        if c: yield c
    for k in (1, 2):
        for t in itertools.product(names, repeat=k):
            for cpu in ("z80", "6800", "65816"): yield from one(cpu, t)
    for t in itertools.product(names, repeat=3):
        if len(set(t) & FEW) >= 2 or len(set(t)) == 1 or tier != 'quick': yield from one("z80", t)
    for t in itertools.product(["free", "super", "plain", "exp", "ramlib"], repeat=4): yield from one("z80", t)
    yield from rules()
    for cpu in SETTINGS: yield from settings(cpu)
