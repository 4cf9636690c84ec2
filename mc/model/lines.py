"""Programs of which it is known, from the text alone, what every line emits: each emission carries a marker ($F1, id) that occurs nowhere else, so the
place in the finished ROM where a line's bytes lie is found without trusting anything the tools say about it."""
import re

class Layout:
    """a memory map: bank size, slots 0-2 for the banks, slot 3 for RAM"""
    def __init__(self, cpu="z80", bank=0x400, slots=None, extra="", base=0, words=""):
        self.cpu, self.bank, self.base, self.extra, self.words = cpu, bank, base, extra, words; self.snes = "ROM\n" in extra
        self.slots = slots or [(0, bank), (bank, bank), (2 * bank, bank), (0xC000, 0x100)]
    def head(self, fill=0xA7, banks=3):
        return (".MEMORYMAP\nDEFAULTSLOT 0\n" + "".join("SLOT %d $%x $%x\n" % (i, a, s) for i, (a, s) in enumerate(self.slots)) +
                ".ENDME\n.ROMBANKSIZE $%x\n.ROMBANKS %d\n" % (self.bank, banks) + ("" if fill is None else ".EMPTYFILL $%x\n" % fill) + self.extra)

SN = [(0x8000, 0x8000)] * 3 + [(0x100, 0x100)]
LAYOUTS = {"z80": Layout(), "gb": Layout("gb"), "6502": Layout("6502"), "8080": Layout("8080"), "huc6280": Layout("huc6280"), "65816": Layout("65816"),
           "lorom": Layout("65816", 0x8000, SN, ".LOROM\n"), "hirom": Layout("65816", 0x10000, [(0, 0x10000)] * 3 + [(0x100, 0x100)], ".HIROM\n"),
           "base": Layout("65816", 0x400, None, ".BASE $80\n", 0x80), "lobase": Layout("65816", 0x8000, SN, ".LOROM\n.BASE $80\n", 0x80),
           "map": Layout("z80", 0x400, [(0x4000, 0x400), (0x6000, 0x400), (0x8000, 0x400), (0xC000, 0x100)])}
# an instruction of each CPU that carries a marker, and one that carries a label
INS = {"z80": ("ld de, $%xF1", [0x11]), "gb": ("ld de, $%xF1", [0x11]), "6502": ("ldx $%xF1", [0xAE]), "8080": ("LXI D, $%xF1", [0x11]), "huc6280": ("ldx $%xF1", [0xAE]), "65816": ("ldx.w $%xF1", [0xAE])}

class Em:
    """one emission: the bytes of one line, once.  pat: [byte or None]; direct: the line is not part of a macro or a repetition"""
    __slots__ = ("file", "line", "pat", "direct", "sec", "slot", "lo", "o", "n")
    def __init__(self, file, line, pat, direct, sec, slot, lo=None, o=0, n=None):
        self.o = o; self.n = n or len(pat) - o     # (the line's bytes start o bytes after the pattern's start)
        self.file, self.line, self.pat, self.direct, self.sec, self.slot = file, line, pat, direct, sec, slot
        self.lo = lo or line                       # (the first line of a statement of several)

class Prog:
    end = staticmethod(lambda t: t)                    # (what is done to the text of each file)
    lib = False
    def __init__(self, lay="z80", name="a.s", ids=0x1F, n=0):
        self.layname = lay; self.lay = LAYOUTS[lay]; self.main = name; self.files = {}; self.ids = ids; self.hdr = []; self.gone = []; self.ems = []; self.labels = []; self.symbols = []; self.breaks = []; self.secs = []; self.defs = []; self.ram = []; self.macros = {}
        self.locals = []
        self.n = n; self.sec = None; self.slot = 0; self.last = None; self.extra = {}; self.indirect = 0
        self.open(name)
    # -- files and lines
    def open(self, name): self.cur = name; self.files.setdefault(name, [])
    def line(self, t): self.files[self.cur] += t.split("\n"); return len(self.files[self.cur])
    def uid(self): self.n += 1; return self.n
    def id(self):
        self.ids += 1
        if self.ids in (0xF1, 0xA7): self.ids += 1
        assert self.ids < 256
        return self.ids
    def emit(self, t, pat, lines=1, n=None):
        """a line and the bytes it gives"""
        l = self.line(t)
        self.ems.append(Em(self.cur, l, pat, not self.indirect, self.sec, self.slot, l - t.count("\n"), n=n))
        return l
    def also(self, file, line, pat, direct=False): self.ems.append(Em(file, line, pat, direct, self.sec, self.slot))
    def text(self): return {f: self.end("\n".join(l) + "\n") for f, l in self.files.items()}
    def ref(self): return self.labels[0][0] if self.labels else None

# ---- pieces: everything that can stand where code can
def label(p, form="%s:"):
    u = p.uid(); m = p.id(); n = "L%d" % u
    p.line(form % n); p.labels.append((n, [0xF1, m], p.sec, p.slot)); p.last = n
    p.emit(".DB $F1, $%x" % m, [0xF1, m])
def labelsame(p):
    u = p.uid(); m = p.id(); n = "L%d" % u
    p.labels.append((n, [0xF1, m], p.sec, p.slot)); p.last = n
    p.emit("%s: .DB $F1, $%x" % (n, m), [0xF1, m])
def child(p):
    if not p.last: label(p)
    m = p.id(); u = p.uid()
    p.line("@k%d:" % u); p.labels.append(("%s@k%d" % (p.last, u), [0xF1, m], p.sec, p.slot)); p.emit(".DB $F1, $%x" % m, [0xF1, m])
def local(p):
    m = p.id(); u = p.uid()
    p.line("_l%d:" % u); p.locals.append(("_l%d" % u, [0xF1, m], p.sec, p.slot)); p.emit(".DB $F1, $%x" % m, [0xF1, m]); p.last = None      # (it would be the parent of children)
def unnamed(p):
    m = p.id(); p.line("-:"); p.emit(".DB $F1, $%x" % m, [0xF1, m]); m = p.id(); p.emit(".DW -, $%x * 256 + $F1" % m, [None, None, 0xF1, m])
def db(p): m = p.id(); p.emit(".DB $F1, $%x" % m, [0xF1, m])
def dbref(p):
    if not p.last: label(p)
    m = p.id(); p.emit(".DB $F1, $%x, <%s, >%s" % (m, p.last, p.last), [0xF1, m, None, None])
def fwd(p):
    m = p.id(); u = p.uid(); p.emit(".DW $%xF1, F%d" % (m, u), [0xF1, m, None, None])
    m = p.id(); p.line("F%d:" % u); p.labels.append(("F%d" % u, [0xF1, m], p.sec, p.slot)); p.last = "F%d" % u
    p.emit("ld de, $%xF1" % m, [0x11, 0xF1, m]) if False else p.emit(".DW $%xF1" % m, [0xF1, m])
def long(p, n=20): m = p.id(); p.emit(".DB $F1, $%x, %s" % (m, ", ".join(map(str, range(n)))), [0xF1, m] + list(range(n)))
def long8(p): long(p, 8)
def long9(p): long(p, 9)
def long18(p): long(p, 18)
def ins(p):
    t, b = INS[p.lay.cpu]; m = p.id(); p.emit(t % m, b + [0xF1, m])
def insref(p):
    if not p.last: label(p)
    t, b = INS[p.lay.cpu]; m = p.id(); p.emit(t.replace("$%xF1", "%s - %s + $%xF1") % (p.last, p.last, m), b + [0xF1, m]); ins(p)
def blank(p): p.line(""); p.line("; note"); p.line("/* a\nb */"); m = p.id(); p.emit(".DB $F1, $%x ; note" % m, [0xF1, m])
def macro(p, times=1, nested=False):
    u = p.uid()
    p.line(".MACRO mm%d ARGS v" % u)
    a = p.line(".DB $F1, v"); b = None
    p.line("; in a macro")
    b = p.line(".DW $100 * (v + 1) + $F1")
    p.line(".ENDM")
    for _ in range(times):
        m = p.id(); m2 = p.id()
        while m2 != m + 1: m, m2 = m2, p.id()
        p.line("mm%d $%x" % (u, m))
        p.also(p.cur, a, [0xF1, m]); p.also(p.cur, b, [0xF1, m2])
def macro2(p): macro(p, 2); db(p)
def macnest(p):
    u = p.uid()
    p.line(".MACRO in%d ARGS v" % u); a = p.line(".DB $F1, v"); p.line(".ENDM")
    p.line(".MACRO ou%d ARGS v" % u); p.line("in%d v" % u); b = p.line(".DB $F1, v + 1"); p.line(".ENDM")
    m = p.id(); m2 = p.id()
    while m2 != m + 1: m, m2 = m2, p.id()
    p.line("ou%d $%x" % (u, m)); p.also(p.cur, a, [0xF1, m]); p.also(p.cur, b, [0xF1, m2])
def ids(p, n):
    k = [p.id() for _ in range(n)]
    while k[-1] - k[0] != n - 1: k = k[1:] + [p.id()]
    return k
def repeat(p):
    k = ids(p, 3); u = p.uid()
    p.line(".REPEAT 3 INDEX ix%d" % u); a = p.line(".DB $F1, $%x + ix%d" % (k[0], u)); p.line(".ENDR")
    for m in k: p.also(p.cur, a, [0xF1, m])
def repeat2(p):
    k = ids(p, 2); q = ids(p, 2); u = p.uid()
    p.line(".REPT 2 INDEX iy%d" % u); a = p.line(".DB $F1, $%x + iy%d" % (k[0], u)); p.line(""); b = p.line(".DB $F1, $%x + iy%d" % (q[0], u)); p.line(".ENDR")
    for m, m2 in zip(k, q): p.also(p.cur, a, [0xF1, m]); p.also(p.cur, b, [0xF1, m2])
def macrep(p):
    k = ids(p, 2); u = p.uid()
    p.line(".MACRO mr%d ARGS v" % u); p.line(".REPEAT 2 INDEX iz%d" % u); a = p.line(".DB $F1, v + iz%d" % u); p.line(".ENDR"); p.line(".ENDM"); p.line("mr%d $%x" % (u, k[0]))
    for m in k: p.also(p.cur, a, [0xF1, m])
def include(p, name=None):
    u = p.uid(); old = p.cur; f = name or "i%d.s" % u
    p.line('.INCLUDE "%s"' % f); p.open(f)
    m = p.id(); p.emit(".DB $F1, $%x" % m, [0xF1, m]); p.line("; text"); m = p.id(); p.emit(".DB $F1, $%x" % m, [0xF1, m])
    p.open(old)
def shared(p, name="sh.s", n=2):
    """a file that is included in many places, and by many objects"""
    k = ids(p, n); old = p.cur
    p.line(".REDEFINE SHID $%x" % k[0]); p.line('.INCLUDE "%s"' % name)
    t = ["; shared"]
    for i, m in enumerate(k): t += [".DB $F1, SHID + %d" % i, ""]
    p.files[name] = t
    for i, m in enumerate(k): p.ems.append(Em(name, 2 * i + 2, [0xF1, m], True, p.sec, p.slot))
    db(p)
def shared2(p): shared(p); shared(p, "sh2.s", 1); shared(p)
def maclabel(p):
    """a macro called on a line with a label and code around it"""
    u = p.uid(); a, b, c = p.id(), p.id(), p.id()
    p.line(".MACRO ml%d ARGS v" % u); k = p.line(".DB $F1, v"); p.line(".ENDM"); p.emit(".DB $F1, $%x" % a, [0xF1, a])
    p.labels.append(("L%d" % u, [0xF1, b], p.sec, p.slot)); p.last = "L%d" % u
    p.line("L%d: ml%d $%x" % (u, u, b)); p.also(p.cur, k, [0xF1, b]); p.emit(".DB $F1, $%x" % c, [0xF1, c])
def include2(p):
    u = p.uid(); old = p.cur; f = "j%d.s" % u
    p.line('.INCLUDE "%s"' % f); p.open(f); db(p); include(p); db(p); p.open(old); db(p)
def ifs(p):
    p.line(".IF 1 == 1"); db(p); p.line(".ELSE\n.DB 1\n.ENDIF")
    p.line(".IFDEF nope\n.DB 1\n.ELSE"); db(p); p.line(".ENDIF")
def dsb(p): m = p.id(); p.emit(".DSB 4, $F1", [0xF1] * 4) if False else p.emit(".DSW 3, $%xF1" % m, [0xF1, m] * 3)
def multi(p):
    m = p.id(); p.emit(".DB $F1, $%x,\\\n   1, 2,\\\n   3" % m, [0xF1, m, 1, 2, 3], lines=3)
def bits(p):
    m = p.id(); p.emit(".BITS 4 DATA 15, 1, $%x, $%x" % (m >> 4, m & 15), [0xF1, m]); p.line(".ENDBITS"); db(p)
def bits2(p):
    m = p.id(); p.emit(".BITS 8 DATA $F1, $%x" % m, [0xF1, m]); m = p.id(); p.emit(".BITS 16 DATA $F1%02x" % m, [0xF1, m]); m = p.id(); p.emit(".DB $F1, $%x" % m, [0xF1, m])
def incbin(p):
    m = p.id(); u = p.uid(); p.extra["b%d.bin" % u] = bytes([0xF1, m, 1, 2, 3]); p.emit('.INCBIN "b%d.bin"' % u, [0xF1, m, 1, 2, 3]); db(p)
def words(p):
    m = p.id(); p.emit(".DW $%xF1, 1" % m, [0xF1, m, 1, 0]); m = p.id(); p.emit(".DL $3%02xF1" % m, [0xF1, m, 3]); m = p.id(); p.emit(".DD $40000 + $%xF1" % m, [0xF1, m, 4, 0]); m = p.id(); p.emit(".HEX \"F1%02X\"" % m, [0xF1, m])
def wordrefs(p):
    if not p.last: label(p)
    for d, k in ((".DL", 3), (".DD", 4)):
        m = p.id(); p.emit(".DB $F1, $%x" % m, [0xF1, m]); m = p.id(); p.emit("%s %s + 1 - 1, $%xF1" % (d, p.last, m), [None] * k + [0xF1, m] + [0] * (k - 2))
def _struct(p, body, fields="x DB\ny DW\nz DB", offs=(("x", 0), ("y", 1), ("z", 3))):
    u = p.uid(); m = p.id(); pat = [0xF1, m, 0, None]
    p.line(".STRUCT st%d\n%s\n.ENDST" % (u, fields)); body(u, m)
    p.labels.append(("is%d" % u, pat, p.sec, p.slot)); p.labels.extend(("is%d.%s" % (u, n), pat, p.sec, p.slot, o) for n, o in offs); p.last = "is%d.z" % u; db(p)
def struct(p):
    def body(u, m):
        p.line(".DSTRUCT is%d INSTANCEOF st%d VALUES" % (u, u)); a = p.line("x: .DB $F1"); b = p.line("y: .DW $%x" % m); p.line(".ENDST")
        pat = [0xF1, m, 0, None]; p.ems.append(Em(p.cur, a, pat, not p.indirect, p.sec, p.slot, n=1)); p.ems.append(Em(p.cur, b, pat, not p.indirect, p.sec, p.slot, o=1, n=2))
    _struct(p, body)
def structrev(p):
    def body(u, m):
        p.line(".DSTRUCT is%d INSTANCEOF st%d VALUES" % (u, u)); b = p.line("y: .DW $%x" % m); p.line("; text"); a = p.line("x: .DB $F1"); p.line(".ENDST")
        pat = [0xF1, m, 0, None]; p.ems.append(Em(p.cur, a, pat, not p.indirect, p.sec, p.slot, n=1)); p.ems.append(Em(p.cur, b, pat, not p.indirect, p.sec, p.slot, o=1, n=2))
    _struct(p, body)
def structdata(p):
    _struct(p, lambda u, m: p.emit(".DSTRUCT is%d INSTANCEOF st%d DATA $F1, $%x, 3" % (u, u, m), [0xF1, m, 0, 3]))
def structshort(p):
    _struct(p, lambda u, m: p.emit(".DSTRUCT is%d INSTANCEOF st%d DATA $F1, $%x" % (u, u, m), [0xF1, m, 0, None], n=3))
def union(p):
    def body(u, m):
        p.line(".DSTRUCT is%d INSTANCEOF st%d VALUES" % (u, u)); a = p.line("x: .DB $F1"); b = p.line("v: .DB $%x, 0" % m); p.line(".ENDST")
        pat = [0xF1, m, 0, None]; p.ems.append(Em(p.cur, a, pat, not p.indirect, p.sec, p.slot, n=1)); p.ems.append(Em(p.cur, b, pat, not p.indirect, p.sec, p.slot, o=1, n=2))
    _struct(p, body, "x DB\n.UNION\ny DW\n.NEXTU\nv DSB 2\n.ENDU\nz DB", (("x", 0), ("y", 1), ("v", 1), ("z", 3)))
def symbol(p):
    u = p.uid(); m = p.id(); p.line(".SYM S%d" % u); p.symbols.append(("S%d" % u, [0xF1, m], p.slot)); p.emit(".DB $F1, $%x" % m, [0xF1, m])
def breakpoint(p): m = p.id(); p.line(".BREAKPOINT"); p.breaks.append(([0xF1, m], p.slot)); p.emit(".DB $F1, $%x" % m, [0xF1, m])
def define(p): u = p.uid(); p.line(".DEFINE C%d %d EXPORT" % (u, u + 500)); p.defs.append(("C%d" % u, u + 500)); db(p)
def deflab(p):
    if not p.last: label(p)
    n, m, o = [(l[0], l[1], (l[4:] or (0,))[0]) for l in p.labels if l[0] == p.last][0]
    u = p.uid(); p.line(".DEFINE E%d = %s + 3" % (u, p.last)); p.line(".EXPORT E%d" % u); p.defs.append(("E%d" % u, (m, 3 + o, p.slot))); db(p)

PIECES = {f.__name__: f for f in (label, labelsame, child, local, unnamed, db, dbref, fwd, long, long8, long9, long18, ins, insref, blank, macro, macro2, macnest, repeat, repeat2, macrep,
                                  include, include2, shared, shared2, maclabel, ifs, dsb, multi, bits, bits2, incbin, words, wordrefs, struct, structrev, structdata, structshort, union, symbol, breakpoint, define, deflab)}

# ---- containers
def section(opts, bank=0, org=0, slot=None):
    def go(p, body):
        u = p.uid(); n = "sec%d" % u; slot_ = bank if slot is None else slot
        p.line(".BANK %d SLOT %d" % (bank, slot_)); p.line(".ORG $%x" % org)
        p.line('.SECTION "%s" %s' % (n, opts)); p.sec = n; p.slot = slot_; p.last = None
        m = p.id(); p.emit(".DB $F1, $%x" % m, [0xF1, m])
        for f in body: f(p)
        m2 = p.id(); p.emit(".DB $F1, $%x" % m2, [0xF1, m2])
        p.line(".ENDS"); p.secs.append((n, [0xF1, m], [0xF1, m2], slot_, "APPENDTO" in opts)); p.sec = None; p.last = None
    return go
def plain(bank, org):
    def go(p, body):
        p.line(".BANK %d SLOT %d" % (bank, bank)); p.line(".ORG $%x" % org); p.sec = None; p.slot = bank; p.last = None
        for f in body: f(p)
        p.last = None
    return go
def mixed(p, body):
    """plain code, a section that gives the position back, plain code"""
    p.line(".BANK 2 SLOT 2"); p.line(".ORG $180"); p.sec = None; p.slot = 2; p.last = None
    db(p)
    u = p.uid(); n = "sec%d" % u
    p.line('.SECTION "%s" FREE RETURNORG' % n); p.sec = n
    m = p.id(); p.emit(".DB $F1, $%x" % m, [0xF1, m])
    for f in body: f(p)
    m2 = p.id(); p.emit(".DB $F1, $%x" % m2, [0xF1, m2])
    p.line(".ENDS"); p.secs.append((n, [0xF1, m], [0xF1, m2], 2, False)); p.sec = None; p.last = None
    db(p)
    m = p.id(); p.line(".ORG $1F0"); p.emit(".DB $F1, $%x" % m, [0xF1, m])
def appended(p, body):
    section("FREE PRIORITY 9")(p, [db, label])
    first = p.secs[-1][0]
    section('FREE APPENDTO "%s"' % first)(p, body)
def appended2(p, body):
    section("FREE PRIORITY 9", 1)(p, [db, label])
    first = p.secs[-1][0]
    section('FREE APPENDTO "%s"' % first, 1)(p, body)
    second = p.secs[-1][0]
    section('FREE APPENDTO "%s"' % second, 1)(p, [label, dbref])
def rampre(p, body):
    u = p.uid(); o = 5 * len(p.ram) + 1
    p.line('.RAMSECTION "ram%d" BANK 0 SLOT 3 ORG $%x FORCE\nR%d DB\nQ%d DSB 3\n.ENDS' % (u, o, u, u)); p.ram.append((u, p.lay.slots[3][0] + o))
    section("FREE")(p, body)
def dead(p, body):
    """a section nothing refers to: gone with -d"""
    q = (list(p.labels), list(p.locals), list(p.symbols), list(p.breaks), list(p.secs), list(p.ems), list(p.defs))
    section("FREE")(p, body)
    p.gone += p.ems[len(q[5]):]
    p.labels, p.locals, p.symbols, p.breaks, p.secs, p.ems, _ = q
def libsec(p, body):
    """a section of a library: the link file says where it goes"""
    u = p.uid(); n = "sec%d" % u; p.line('.SECTION "%s" FREE' % n); p.sec = n; p.slot = 0; p.last = None
    m = p.id(); p.emit(".DB $F1, $%x" % m, [0xF1, m])
    for f in body: f(p)
    m2 = p.id(); p.emit(".DB $F1, $%x" % m2, [0xF1, m2])
    p.line(".ENDS"); p.secs.append((n, [0xF1, m], [0xF1, m2], 0, False)); p.sec = None; p.last = None
def header(p, body):
    """a section in front of a bank, outside of the memory map"""
    p.line('.BANK 0 SLOT 0\n.ORG 0\n.SECTION "BANKHEADER"'); p.sec = "BANKHEADER"; p.slot = 0; p.last = None
    k = len(p.ems)
    db(p)
    for f in body: f(p)
    db(p)
    p.hdr = p.ems[k:]; p.ems = p.ems[:k]; p.line(".ENDS"); p.sec = None; p.last = None
NOLABEL = ["db", "dsb", "long", "long8", "long9", "long18", "ins", "blank", "macro", "macro2", "macnest", "repeat", "repeat2", "macrep", "include", "include2", "shared", "shared2", "ifs", "multi", "bits", "bits2", "incbin", "words"]
CONT = {"header": header, "libsec": libsec, "keep": section("FREE KEEP"), "dead": dead, "free": section("FREE"), "force": section("FORCE", 0, 0x123), "bank1": section("ALIGN 16 FREE", 1), "super": section("SUPERFREE"), "semisub": section("SEMISUBFREE", 2, 0x300),
        "plain": plain(0, 0x200), "plain2": plain(2, 0x11), "mixed": mixed, "appended": appended, "appended2": appended2, "ram": rampre, "slot1": section("FREE", 0, 0, 1)}

def build(struct, lay="z80", name="a.s", ids=0x1F, n=0, fill=0xA7):
    """struct: [(container, [piece names])]"""
    p = Prog(lay, name, ids, n); p.line(p.lay.head(fill).rstrip("\n") if fill is not None else "; a library")
    for c, body in struct: CONT[c](p, [PIECES[x] for x in body])
    return p
