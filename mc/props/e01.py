"""E01: every instruction form x boundary operand values x letter case against spec/<cpu>.forms (and the 68000 encoder)."""
import itertools, json, os, re
from .. import run
from ..check import Case
from ..model import m68k, r6809

ID = "E01"
LEVEL = "model_checking"
CPUS = "6502 65c02 65ce02 65816 huc6280 6800 6801 6809 8008 8080 gb z80 z80n spc700 superfx".split()
TOOLS = ["wlalink", "68000"] + CPUS
RULE = ("distinct (processor, instruction form, operand values, letter case) whose bytes were compared with the reference encoding, plus distinct (processor, form, "
        "value outside the operand's range) that had to be refused")
BOUNDS = {"quick": "all forms of all 16 processors; per operand interval both ends, their neighbours, 0, +-1, alternating and walking bit patterns; refused: the nearest values outside and the values that would wrap to fitting ones",
          "thorough": "as quick with every power of two and its neighbours as values, and full grids for forms of several operands"}
ASSUMPTIONS = ["spec/<cpu>.forms is the reference: one line per form with fixed bits and operand bits, reviewed against the published instruction sets; mc/model/m68k.py was written independently of the tools"]
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec")
CELL = 16

def load(cpu):
    for line in open(os.path.join(SPEC, cpu + ".forms")):
        tpl, pieces = json.loads(line)
        yield tpl, [(d, comp(e)) for d, e in pieces]

def comp(e):
    rows = []
    for tok in e.split():
        if ":" in tok:
            h, k = tok.split(":"); k = int(k); h = "abc".index(h)
            rows += [(h, k + 7 - i) for i in range(8)]
        elif "," in tok:
            rows += [int(x) if x in "01" else ("abc".index(x[0]), int(x[1:])) for x in tok.split(",")]
        else:
            v = int(tok, 16); rows += [v >> (7 - i) & 1 for i in range(8)]
    return rows

def bytes_of(rows, vals):
    out = bytearray()
    for i in range(0, len(rows), 8):
        b = 0
        for r in rows[i:i + 8]:
            b = b << 1 | (r if isinstance(r, int) else vals[r[0]] >> r[1] & 1)
        out.append(b)
    return bytes(out)

def text(tpl, vals):
    it = iter(vals)
    return re.sub(r"\{([sv])\}", lambda m: ("%+d" % next(it)) if m.group(1) == "s" else str(next(it)), tpl)

PAT = [0, 1, -1, 2, 5, 127, 128, -128, 255, 256, 0x55, 0xaa, 0x1234, 0x5aa5, -0x5aa5, 0xa55a, 0x00fe, 0xff00, 0x123456, 0xa5c3f0]
def inside(d, tier, many):
    lo, hi, st = d
    base = {lo, hi, lo + st, hi - st}
    if not many: base |= set(PAT)
    elif many == 2: base |= {0, 5, -3, 0x5a, 0x1234}
    if tier == "thorough": base |= {s * (1 << k) + e for k in range(25) for e in (-1, 0, 1) for s in (1, -1)} if not many else set(PAT)
    return sorted(v for v in base if lo <= v <= hi and (v - lo) % st == 0)

def accepted(d, vals): return all(lo <= v <= hi and (v - lo) % st == 0 for (lo, hi, st), v in zip(d, vals))

def outside(pieces, nh, tier):
    """values no piece accepts: next to every interval end, and wrapping images"""
    out = set()
    for d, _ in pieces:
        mids = [next((v for v in (5, 1, lo) if lo <= v <= hi and (v - lo) % st == 0), lo) for lo, hi, st in d]
        for h in range(nh):
            lo, hi, st = d[h]
            cand = {lo - 1, hi + 1}
            if st > 1: cand |= {lo + 1, hi - 1}
            cand |= {hi + 256, lo - 256, 65536 + max(lo, 0), 1 << 24 | max(lo, 0)} if hi < 65536 else {(1 << 24) + 1}
            if tier == "thorough": cand |= {s * (1 << k) + e for k in range(31) for e in (-1, 0, 1) for s in (1, -1)}
            for c in cand:
                v = tuple(mids[:h] + [c] + mids[h + 1:])
                if not any(accepted(dd, v) for dd, _ in pieces): out.add(v)
    return sorted(out)

HEAD = run.memmap(0x4000) + ".EMPTYFILL $ED\n.BANK 0\n"
def batch(cpu, items, pre):
    """items: [(text, set of byte strings)]; every item in a cell of its own"""
    src = [HEAD + pre]
    for i, (t, _) in enumerate(items):
        src.append(".ORG $%x\n %s\n" % (i * CELL + CELL, t))
    prog = run.one(cpu, "".join(src))
    return prog

def judge_batch(items, cpu, tag):
    def judge(res):
        if res.rcs != [0, 0]:
            return "a program of supported instruction forms was refused (exit codes %r): %s\nthe %d instructions begin with: %s" % (
                res.rcs, res.outs[-1].decode("latin1")[:300], len(items), items[0][0])
        rom = res.files["o.bin"]; bad = []
        for i, (t, exp) in enumerate(items):
            cell = rom[i * CELL + CELL:i * CELL + 2 * CELL]
            if not any(cell == e + b"\xed" * (CELL - len(e)) for e in exp):
                m = re.fullmatch(r"MOVE\.W #(-?\d+),D(\d)", t.upper()) if cpu == "68000" else None
                moveq = m and cell.rstrip(b"\xed") == bytes([0x70 | int(m.group(2)) << 1, int(m.group(1)) & 255])
                bad.append(("%s:%s" % (cpu, t.upper() if moveq else t), "%s: \"%s\" assembles to %s%s, its encoding is %s" % (
                    cpu, t, "MOVEQ of the same value, " if moveq else "", cell.rstrip(b"\xed").hex(" "), " or ".join(sorted(e.hex(" ") for e in exp)))))
                if sum("MOVEQ of the same" not in b for _, b in bad) > 3: break
        return bad or None
    return judge

def refuse(cpu, t, pre=""):
    prog = run.one(cpu, HEAD + pre + ".ORG $10\n " + t + "\n")
    def judge(res):
        if res.rcs and res.rcs[-1] > 0: return None
        if res.ok: return "%s: \"%s\" was accepted and assembled to %s, the operand does not fit" % (cpu, t, res.files["o.bin"][0x10:0x20].rstrip(b"\xed").hex(" "))
        return "%s: \"%s\": abnormal end %r" % (cpu, t, res.rcs)
    return Case("%s:refuse:%s" % (cpu, t), prog, judge, steps=1)

def emit(cpu, items, pre=""):
    for i in range(0, len(items), 400):
        part = items[i:i + 400]
        if part:
            yield Case("%s:batch%s:%d:%s" % (cpu, pre.strip(), i, part[0][0]), (lambda c=cpu, p=part, q=pre: batch(c, p, q)), judge_batch(part, cpu, i), steps=len(part),
                       states=["%s:%s" % (cpu, t) for t, _ in part], n=len(part))

def forms(tier):
    yield from emit("gb", [(t, {b"\xf8" + bytes([-v & 255])}) for v in range(129) for t in ("LD HL,SP-%d" % v, "ld hl,sp-%d" % v)])
    for t in ("LD HL,SP-129", "LD HL,SP-256"): yield refuse("gb", t)
    for cpu in CPUS:
        items = {"": [], ".WDC\n": []}
        ref = []
        for tpl, pieces in load(cpu):
            pre = ".WDC\n" if cpu == "65816" and re.search(r"[<>|]", tpl) else ""
            nh = len(re.findall(r"\{[sv]\}", tpl))
            for d, rows in pieces:
                for vals in itertools.product(*[inside(x, tier, nh - 1) for x in d]):
                    b = {bytes_of(rows, [v & 0xffffffff for v in vals])}
                    items[pre].append((text(tpl, vals), b))
                vals = [inside(x, tier, nh - 1)[-1] for x in d]
                items[pre].append((text(tpl, vals).lower(), {bytes_of(rows, [v & 0xffffffff for v in vals])}))
            if nh:
                for v in outside(pieces, nh, tier):
                    if re.match(r"MV[NP] <", tpl): continue           # the sign asks for the low byte of any value
                    ref.append((text(tpl, v), pre))
        for pre in items: yield from emit(cpu, items[pre], pre)
        for t, pre in ref: yield refuse(cpu, t, pre)

# ---------------------------------------------------------------- 68000
NAMES = ["ABCD", "ABCD.B"] + [m + s for m in "ADD ADDI ADDQ ADDX AND ANDI ASL ASR CLR CMP CMPI CMPM EOR EORI LSL LSR MOVE NEG NEGX NOT OR ORI ROL ROR ROXL ROXR SUB SUBI SUBQ SUBX TST".split() for s in ("", ".B", ".W", ".L")] + \
    [m + s for m in "ADDA CMPA EXT MOVEA MOVEM MOVEP SUBA".split() for s in ("", ".W", ".L")] + \
    ["B" + c + s for c in "CC CS EQ GE GT HI LE LS LT MI NE PL RA SR VC VS".split() for s in ("", ".B", ".W")] + \
    ["DB" + c for c in "CC CS EQ F GE GT HI LE LS LT MI NE PL RA T VC VS".split()] + ["S" + c + s for c in "CC CS EQ F GE GT HI LE LS LT MI NE PL T VC VS".split() for s in ("", ".B")] + \
    ["BCHG", "BCLR", "BSET", "BTST", "CHK", "DIVS", "DIVS.W", "DIVU", "DIVU.W", "EXG", "ILLEGAL", "JMP", "JSR", "LEA", "LINK", "MOVEQ", "MOVEQ.L", "MULS", "MULS.W", "MULU", "MULU.W",
     "NBCD", "NOP", "PEA", "RESET", "RTE", "RTR", "RTS", "SBCD", "SBCD.B", "STOP", "SWAP", "TAS", "TRAP", "TRAPV", "UNLK"]
# legal on the processor, but the assembler has never supported them (they are refused, not miscoded)
UNSUPPORTED = {("ANDI", "ccr"), ("ORI", "ccr"), ("EORI", "ccr"), ("EXG", "an,dn"), ("BTST", "pc"), ("BTST", "imm")}

def unsupported(mn, ops):
    k = [o[0] for o in ops]
    if mn in ("ANDI", "ORI", "EORI") and k[1] == "ccr": return True       # only with an explicit .B
    if mn == "EXG" and k == ["an", "dn"]: return True
    if mn == "BTST" and k[1] in ("pcd", "pci", "imm"): return True
    return False

IMM = [-32769, -32768, -129, -128, -5, 0, 1, 5, 8, 9, 15, 16, 31, 32, 127, 128, 200, 255, 256, 0x1234, 32767, 32768, 65535, 65536, 0x12345678]
def eas(tier):
    regs = range(8)
    small = [("dn", 3), ("an", 5), ("ind", 2), ("post", 6), ("pre", 4), ("disp", 1, 0x1234), ("idx", 2, 5, 0x12), ("abw", 0x1234), ("abl", 0x123456), ("pcd", 0x40), ("pci", 6, 0x30),
             ("imm", 5), ("imm", 0x42), ("ccr",), ("sr",), ("usp",), ("list", 0x0c05), ("dst", 0x40)]
    full = [(k, r) for k in ("dn", "an", "ind", "post", "pre") for r in regs] + [("disp", r, v) for r, v in zip(itertools.cycle(regs), (-32769, -32768, -1, 0, 1, 127, 128, 32767, 32768))] + \
        [("disp", r, 7) for r in regs] + [("idx", r, (r * 3 + 1) & 7, 7) for r in regs] + [("idx", 1, 2, v) for v in (-129, -128, -1, 0, 1, 127, 128)] + \
        [("abw", v) for v in (0, 1, 32767, 32768, 65535)] + [("abl", v) for v in (0, 1, 65535, 65536, 0xffffff, 0x12345678)] + [("abl", v, 0) for v in (0x4567, 0, 0x7fff, 0x8000, 0xffff, 0x10000, 0x12345678)] + \
        [("pcd", v) for v in (0, 8, 0x7000)] + [("pci", 3, v) for v in (0, 0x7f)] + [("imm", v) for v in IMM] + [("list", v) for v in (3, 0x8001, 0x5555, 0xaaaa, 0xffff, 0x00ff, 0xff00, 0x1e3c)] + \
        [("dst", v) for v in (-32769, -32768, -129, -128, -2, 0, 2, 100, 127, 128, 32767, 32768, 65536)]
    return small, full

def m68000(tier):
    small, full = eas(tier)
    items = []
    for name in NAMES:
        mn, _, s = name.partition(".")
        for n in (0, 1, 2):
            combos = set(itertools.product(small, repeat=n))
            if n == 1: combos |= {(x,) for x in full}
            if n == 2:
                if tier == "thorough": combos |= set(itertools.product(full, repeat=2))
                else:
                    combos |= {(x, y) for x in full for y in small} | {(x, y) for x in small for y in full}
            for ops in sorted(combos, key=repr):
                if any(o[0] == "abw" and o[1] < 0 for o in ops): continue
                e = m68k.encode(mn, s.lower() or None, list(ops), 0x10)
                if e and any(o[0] == "abl" and len(o) == 3 and o[1] < 0x8000 for o in ops):
                    # an address without a suffix may take the short form if that names the same address
                    for alt in itertools.product(*[(o, ("abw", o[1])) if o[0] == "abl" and len(o) == 3 and o[1] < 0x8000 else (o,) for o in ops]):
                        e = e | m68k.encode(mn, s.lower() or None, list(alt), 0x10)
                if e is None or unsupported(mn, ops) and not (s and mn in ("ANDI", "ORI", "EORI")): continue
                t = name + (" " + ",".join(m68k.text(o) for o in ops) if ops else "")
                if not e:
                    yield refuse("68000", t)
                    continue
                items.append((t, e, any(o[0] in ("pcd", "pci") for o in ops), (mn, s, ops)))
    # PC relative operands depend on the cell's address
    for low in (0, 1):
        for i in range(0, len(items), 400):
            part = []
            for j, (t, e, pcrel, (mn, s, ops)) in enumerate(items[i:i + 400]):
                if pcrel and low: continue
                part.append((t.lower() if low else t, e))
            if low and tier != "thorough" and i % 1600: continue
            a = [(t, e) for (t, e), it in zip(part, items[i:i + 400])] if not low else part
            yield from emit("68000", [x for x, it in zip(a, items[i:i + 400]) if not it[2]] if not low else a, "")
    for t, e, pcrel, _ in items:
        if pcrel:
            prog = run.one("68000", HEAD + ".ORG $10\n " + t + "\n")
            def judge(res, t=t, e=e):
                if res.rcs != [0, 0]: return "68000: \"%s\" was refused: %s" % (t, res.outs[-1].decode("latin1")[:300])
                got = res.files["o.bin"][0x10:0x20].rstrip(b"\xed")
                if got not in e: return "68000: \"%s\" assembles to %s, its encoding is %s" % (t, got.hex(" "), " or ".join(x.hex(" ") for x in e))
            yield Case("68000:%s" % t, prog, judge, steps=1)

def m6809(tier):
    items = []
    for t, b in r6809.forms(tier):
        if b is None: yield refuse("6809", t)
        else:
            items.append((t, {b})); items.append((t.lower(), {b}))
    yield from emit("6809", items)

def cases(tier):
    yield from forms(tier)
    yield from m68000(tier)
    yield from m6809(tier)
