"""D02: all sequences of bit stream items: widths x values x kinds of value (known at once, defined later, or only known to the linker)."""
import itertools
from .. import run
from ..check import Case
from ..cells import batch, refuse

ID = "D02"
LEVEL = "model_checking"
TOOLS = ["wlalink", "z80", "68000"]
RULE = "distinct item sequences (width, value, kind of value per item, stream breaks) whose bits were read back, plus distinct over-wide items that had to be refused"
BOUNDS = {"quick": "every sequence of up to 3 items over 7 widths with 2 values each and 6 kinds of value (all kinds in every position), sequences of 8 one-width items, every width 1-32 after every bit offset 0-7 with every kind; two streams after each other; inside and outside sections",
          "thorough": "as quick with sequences of up to 4 items"}

MEM = ".EMPTYFILL $ED\n.MEMORYMAP\nDEFAULTSLOT 0\nSLOTSIZE $8000\nSLOT 0 0\n.ENDME\n.ROMBANKSIZE $8000\n.ROMBANKS 1\n"
LABELS = [0, 1, 2, 3, 5, 6, 7, 10, 13, 0x15, 0x2a, 0x55, 0x7f, 0xa5, 0xff, 0x155, 0x1ff, 0x3a5, 0x5a5, 0x7ff, 0xaaa, 0x1555, 0x2aaa, 0x5555, 0x7abc]
PRE = "%s" + "".join(".ORG $%x\nL%x:\n" % (a, a) for a in LABELS)
VALS = sorted(set(LABELS) | {(1 << w) - 1 for w in range(1, 32)} | {1 << w for w in range(31)} | {0xa5a5a5 >> k for k in range(20)} | {0x5a5a5a5a >> k for k in range(28)} | {-1, -2147483648, -0x5a5a5a5b})
def nm(v): return "%x" % v if v >= 0 else "m%x" % -v
LATER = "".join(".DEFINE D%s %d\n" % (nm(v), v) for v in VALS)
PRE %= "".join(".DEFINE C%s L1+%d\n" % (nm(v), v - 1) for v in VALS)
EXT = "".join(".DEFINE E%s %d EXPORT\n" % (nm(v), v) for v in VALS)
KINDS = "nldce+"
def operand(k, v):
    if k == "n": return str(v)
    if k == "l": return "L%x" % v if v in LABELS else None
    if k == "d": return "D%s" % nm(v) if v in VALS else None           # defined after its use
    if k == "c": return "C%s" % nm(v) if v in VALS else None           # a definition that is a calculation of a label
    if k == "e": return "E%s" % nm(v) if v in VALS else None           # defined in another object file
    return "(L2+%d)" % (v - 2) if v > 2 else "(L0+%d)" % v if v >= 0 else "(L0-%d)" % -v            # a calculation for the linker

class Bits:
    def __init__(self): self.out = bytearray(); self.n = 0; self.acc = 0
    def put(self, w, v):
        for i in range(w - 1, -1, -1):
            self.acc = self.acc << 1 | (v >> i & 1); self.n += 1
            if self.n == 8: self.out.append(self.acc); self.acc = self.n = 0
    def end(self):
        if self.n: self.out.append(self.acc << 8 - self.n)
        self.acc = self.n = 0

def item(streams, style=0):
    """streams: list of lists of (w, v, kind) -> (text, bytes) or None"""
    t, b = [], Bits()
    for s in streams:
        prev = None
        for w, v, k in s:
            o = operand(k, v)
            if o is None: return None
            if style == 1 and prev == w: t[-1] += ", " + o
            else: t.append(".BITS %d%s %s" % (w, " DATA" if style == 2 or o[0] == "-" else "", o))
            prev = w
            b.put(w, v)
        t.append(".ENDBITS"); b.end()
        t.append(".DB $A5"); b.out.append(0xa5)
    return "\n".join(t), bytes(b.out)

def val(w, j):
    """a value of w bits: pattern j"""
    m = (1 << w) - 1
    c = [x for x in LABELS if x <= m]
    return c[-1] if j == 0 else (0x5 & m if m >= 5 else 0) if j == 1 else m

def seqs(tier):
    W = (1, 3, 4, 8, 11, 13, 2)
    for n in (1, 2) + ((3,) if tier == "quick" else (3, 4)):
        ws = W if n < 3 else (1, 3, 8, 13) if n == 3 else (1, 3, 11)
        ks = KINDS if n < 3 else "nlde" if n == 3 else "ne+"
        for c in itertools.product([(w, j, k) for w in ws for j in (0, 1) for k in ks], repeat=n):
            yield [[(w, val(w, j), k) for w, j, k in c]]
    for w in range(1, 33):
        for off in range(8):
            for k in KINDS:
                for v in ({(1 << w) - 1, 0x5a5a5a5a >> max(0, 31 - w), 0} if w < 32 else {-1, 0x5a5a5a5a, -2147483648, -0x5a5a5a5b}):
                    if v not in VALS and k in "dce": continue
                    if k == "l" and v not in LABELS: continue
                    yield [([(off, (1 << off) - 1, "n")] if off else []) + [(w, v, k), (3, 5, "n")]]
                    if k != "n": yield [([(off, 0, "e")] if off else []) + [(w, v, k), (5, 0, "l")]]
    for w in range(1, 17):
        for k in KINDS: yield [[(w, val(w, i & 1), k if i % 3 else "n") for i in range(6)]]
    for a, b in itertools.product([(w, j, k) for w in (1, 5, 8, 12) for j in (0, 1) for k in "nle+"], repeat=2):
        yield [[(a[0], val(a[0], a[1]), a[2])], [(b[0], val(b[0], b[1]), b[2])]]

def cases(tier):
    plain, sect = [], []
    for i, s in enumerate(seqs(tier)):
        x = item(s, i % 3)
        if x is None or len(x[1]) > 24: continue
        if i % 7 == 0: sect.append((".SECTION \"s%d\" FORCE\n%s\n.ENDS" % (i, x[0]), x[1]))
        else: plain.append(x)
    # a label after every item of a stream that ends on a byte boundary, and sections before any .BANK or .ORG
    items = []
    for ws in itertools.product((1, 4, 7, 8, 9, 15, 16), repeat=2):
        for k in "ne":
            n = sum(ws); pad = -n % 8
            st = [(w, val(w, 0), k) for w in ws] + ([(pad, 0, "n")] if pad else [])
            t, b = item([st], 0); t = t.rsplit("\n", 1)[0]; m = "%d_%d%s" % (ws[0], ws[1], k)
            items.append(("A%s: %s\nB%s: .DB B%s-A%s, $A5" % (m, t, m, m, m), b[:-1] + bytes([len(b) - 1, 0xa5])))
            items.append((".SECTION \"q%s\" FORCE\nC%s: %s\nD%s: .DB D%s-C%s, $A5\n.ENDS" % (m, m, t, m, m, m), b[:-1] + bytes([len(b) - 1, 0xa5])))
            src = MEM + ".SECTION \"q\" FREE\nC: %s\nD: .DB D-C, $A5\n.ENDS\n.SECTION \"r\" FREE\n.DB $5A\n.ENDS\n.BANK 0\n.ORG $100\nL0: .DB L0/256\n" % t
            exp = b[:-1] + bytes([len(b) - 1, 0xa5, 0x5a, 0xed])
            def judge(res, exp=exp, t=t):
                if not res.ok: return "a section with a bit stream before any .BANK was refused: %s" % res.outs[-1][:300]
                if res.files["o.bin"][:len(exp)] != exp: return "%r in a section gives %s, expected %s" % (t, res.files["o.bin"][:16].hex(" "), exp.hex(" "))
            yield Case("early:%s" % m, run.multi([("z80", "a", src, "o"), ("z80", "b", MEM + EXT, "o")]), judge)
    yield from batch("z80", "labels", items, cell=32, pre=PRE, post=LATER, lib=MEM + EXT)
    lib = MEM + EXT
    for cpu in ("z80", "68000"):
        for tag, it in (("plain", plain), ("section", sect)):
            part = it if cpu == "z80" or tier == "thorough" else it[::5]
            yield from batch(cpu, tag + ":" + cpu, part, cell=32, pre=PRE, post=LATER, lib=lib)
    for w in range(1, 32):
        for v in (1 << w, (1 << w) + 1, -1, 2147483647 if w < 31 else -2147483648, 1 << 30 if w < 30 else -2):
            for k in KINDS:
                if k in "dce":
                    o = "XX"; post = LATER + (".DEFINE XX %d\n" % v if k == "d" else ""); l = lib + (".DEFINE XX %d EXPORT\n" % v if k == "e" else "")
                else:
                    o = operand(k, v); post = ""; l = lib
                    if o is None: continue
                if w % 5 and k in "dce" and tier == "quick": continue
                yield refuse("z80", "wide", (".DEFINE XX L0%+d\n" % v if k == "c" else "") + ".BITS %d DATA %s\n.ENDBITS ; %d" % (w, o, v), pre=PRE, post=post, lib=l, why="the value needs more than %d bits" % w)
    for t in (".BITS 0 0", ".BITS 33 0", ".BITS 1-2 0", ".BITS \"a\" 1", ".BITS"): yield refuse("z80", "form", t)
