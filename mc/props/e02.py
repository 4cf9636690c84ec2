"""E02: every operand that can be a label, an imported definition or a calculation over them, against the encoding of the literal."""
import itertools, re
from .. import run
from ..check import Case
from ..model import m68k
from . import e01

ID = "E02"
LEVEL = "model_checking"
CPUS = e01.CPUS
TOOLS = ["wlalink", "68000"] + CPUS
RULE = "distinct (processor, instruction or data form, kind of link-time operand, final value) whose bytes or refusal were compared with the literal's encoding"
BOUNDS = {"quick": "every form with an operand x {label of the same object, calculation over an exported label of another object, imported definition} x values (and distances) at, inside and next to both ends of every operand width",
          "thorough": "as quick with also {exported label of another object, calculation over a local label, calculation over an imported definition}, and more values"}
ASSUMPTIONS = ["an operand that isn't known yet may get any of the sizes the literal could get, but the same one for all values",
               "a relative operand given as a definition is a distance, as a literal is"]
ED = 0xED
CELL = 16
KINDS = {"quick": ("label", "xexpr", "def"), "thorough": ("label", "expr", "deflab", "xlabel", "xexpr", "def", "dexpr")}
UV = {"quick": [0, 1, 5, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xffff],
      "thorough": [0, 1, 2, 3, 5, 7, 8, 0xf, 0x10, 0x38, 0x7f, 0x80, 0xa5, 0xff, 0x100, 0x101, 0x1fe, 0x200, 0x1234, 0x1fff, 0x2000, 0x5aa5, 0x7fff, 0x8000, 0xfedc, 0xff00, 0xffff]}
DV = [-1, -5, -128, -129, -32768, -32769, 0x10000, 0x123456, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 0x12345678, -0x800000, -0x800001]
RO = [-140] + list(range(-131, -120)) + [-20, 0, 2, 7, 20] + list(range(124, 138)) + [150]
RW = [-32900] + list(range(-32772, -32756)) + list(range(32764, 32776))

class Form:
    """text(operand) -> source; cands: [(size rank, fn(v, pc) -> bytes or None)]; rel: fn's v is the target"""
    def __init__(self, cpu, name, text, cands, rel=False, wide=False, noexpr=False, pre="", lit=None):
        self.cpu = cpu; self.name = name; self.text = text; self.cands = cands; self.rel = rel; self.wide = wide; self.noexpr = noexpr; self.pre = pre
        self.domain = []; self.small = False; self.width_only = False; self.width = None; self.shift = None
        self.lit = lit or cands        # what a definition's value does (for relative operands: a distance)

def relhole(cpu, t):
    m = t.split()[0]; n = len(re.findall(r"\{[sv]\}", t))
    if cpu in ("6502", "65c02", "65ce02", "65816", "huc6280"):
        if re.match(r"BB[RS]\d", m): return 1
        if re.match(r"(BCC|BCS|BEQ|BMI|BNE|BPL|BRA|BVC|BVS|BSR|BRL|PER)\b", m): return 0
    elif cpu in ("6800", "6801", "6809"):
        if m.startswith("LB") or (re.match(r"B(CC|CS|EQ|GE|GT|HI|HS|LE|LO|LS|LT|MI|NE|PL|RA|RN|SR|VC|VS)\b", m)): return 0
        if t.endswith("PCR") or t.endswith("PCR)"): return 0
    elif cpu == "spc700":
        if re.match(r"(BB[CS]|B[A-Z][A-Z]|CBNE|DBNZ)\b", m): return n - 1
    elif cpu == "superfx":
        if re.match(r"B(CC|CS|EQ|GE|LT|MI|NE|PL|RA|VC|VS)\b", m): return 0
    elif m in ("JR", "DJNZ"): return 0
    return None

def holebits(rows, h):
    return sorted({r[1] for r in rows if not isinstance(r, int) and r[0] == h})

def forms(cpu, tier):
    for tpl, pieces in e01.load(cpu):
        nh = len(re.findall(r"\{[sv]\}", tpl))
        if not nh or re.search(r"[<>|]", tpl) or tpl[:4] in ("REP ", "SEP ", "REP.", "SEP."): continue
        rh = relhole(cpu, tpl)
        for h in range(nh):
            others = [next(v for v in (5, 1, pieces[0][0][k][0]) if pieces[0][0][k][0] <= v <= pieces[0][0][k][1] and (v - pieces[0][0][k][0]) % pieces[0][0][k][2] == 0) for k in range(nh)]
            groups = {}
            for d, rows in pieces:
                if all(d[k][0] <= others[k] <= d[k][1] and (others[k] - d[k][0]) % d[k][2] == 0 for k in range(nh) if k != h):
                    bits = holebits(rows, h)
                    if cpu == "6809" and bits == list(range(7)):
                        # the two halves of an 8-bit displacement
                        i = rows.index([h, 6]) if [h, 6] in rows else rows.index((h, 6))
                        rows = list(rows); rows[i - 1] = (h, 7)
                    groups.setdefault(repr(rows), (rows, []))[1].append(d[h])
            allv = [x for r, ds in groups.values() for x in ds]
            lo, hi = min(x[0] for x in allv), max(x[1] for x in allv)
            cands = []; lits = []; small = False; wide = False; anyfull = False
            for rows, ds in groups.values():
                bits = holebits(rows, h); n = len(bits); full = bits == list(range(n)) and n >= 8 and (n >= 16 or all(x[2] == 1 for x in ds))
                if not bits: small = True
                if n < 8: small = True
                anyfull |= full
                def enc(v, pc, rows=rows, ds=ds, n=n, full=full, h=h, lo=lo, hi=hi, others=others):
                    if full:
                        if not (max(lo, -(1 << n - 1)) <= v <= min(hi, (1 << n) - 1)): return None
                    elif not any(x[0] <= v <= x[1] and (v - x[0]) % x[2] == 0 for x in ds): return None
                    w = list(others); w[h] = v
                    return e01.bytes_of(rows, [x & 0xffffffff for x in w])
                def renc(v, pc, rows=rows, n=n, h=h, others=others):
                    d = v - (pc + len(rows) // 8)
                    if cpu == "65ce02" and n == 16: d += 1
                    if not -(1 << n - 1) <= d < 1 << n - 1: return None
                    w = list(others); w[h] = d
                    return e01.bytes_of(rows, [x & 0xffffffff for x in w])
                lits.append((n, enc)); cands.append((n, renc if h == rh else enc))
                wide |= n == 16
            cands.sort(key=lambda c: -c[0]); lits.sort(key=lambda c: -c[0])
            after = [m.end() for m in re.finditer(r"\{[sv]\}", tpl)][h]
            def text(op, tpl=tpl, h=h, others=others, nh=nh):
                it = iter(range(nh))
                def sub(m):
                    k = next(it)
                    if k == h: return ("+" if m.group(1) == "s" else "") + op
                    return ("%+d" if m.group(1) == "s" else "%d") % others[k]
                return re.sub(r"\{([sv])\}", sub, tpl)
            f = Form(cpu, "%s#%d" % (tpl, h), text, cands, rel=h == rh, wide=wide, noexpr=tpl[after:after + 1] in ".+", lit=lits)
            if small and h != rh and len(allv) <= 8:
                # few values: all of them, and those between them
                dom = sorted({v for x in allv if x[1] - x[0] <= 64 * x[2] for v in range(x[0], x[1] + 1, x[2])})
                f.domain = dom + [v for v in (dom[0] - 1, dom[-1] + 1) if v not in dom] if dom and len(dom) <= 65 else []
            f.small = small and not anyfull; f.width_only = not f.small and h != rh and not any(x[2] != 1 for x in allv)
            yield f

DATA = [(".DB", 1), (".BYTE", 1), (".DW", 2), (".WORD", 2), (".DL", 3), (".LONG", 3), (".FARADDR", 3), (".DD", 4), (".DSB 1,", 1), (".DSW 1,", 2), (".DSL 1,", 3), (".DSD 1,", 4)]
BIG = {"6800", "6801", "6809", "68000"}
def dataforms(cpu, tier):
    for d, n in DATA:
        def enc(v, pc, n=n):
            if not -(1 << 8 * n - 1) <= v <= (1 << 8 * n) - 1: return None
            return (v & (1 << 8 * n) - 1).to_bytes(n, "big" if cpu in BIG else "little")
        f = Form(cpu, d, (lambda op, d=d: "%s %s" % (d, op)), [(8 * n, enc)])
        f.small = False
        yield f

def forms68000(tier):
    I = ("imm",)
    S = [("MOVE", s, (("imm", None), ("dn", 3))) for s in "bwl"] + [("MOVE", s, (("imm", None), ("ind", 2))) for s in "bwl"] + [("ADD", s, (("imm", None), ("dn", 3))) for s in "bwl"] + \
        [(m, s, (("imm", None), ("dn", 3))) for m in "ADDI ANDI CMPI EORI ORI SUBI".split() for s in "bwl"] + [(m, s, (("imm", None), ("ind", 3))) for m in "ADDI ANDI CMPI EORI ORI SUBI".split() for s in "bwl"] + \
        [(m, s, (("imm", None), ("an", 3))) for m in "ADDA CMPA SUBA MOVEA".split() for s in "wl"] + [("CMP", s, (("imm", None), ("dn", 3))) for s in "bwl"] + \
        [(m, s, (("imm", None), ("dn", 3))) for m in ("SUB", "OR", "AND") for s in "bwl"] + \
        [(m, s, ((k, None), ("dn", 3))) for m in ("MOVE", "ADD", "SUB", "CMP", "OR", "AND") for s in "bwl" for k in ("abw", "abl", "abl0", "pcd")] + \
        [(m, s, (("dn", 3), (k, None))) for m in ("MOVE", "ADD", "SUB", "EOR", "OR", "AND") for s in "bwl" for k in ("abw", "abl", "abl0")] + \
        [(m, s, ((k, None),)) for m in ("CLR", "NEG", "NOT", "TST", "NEGX") for s in "bwl" for k in ("abw", "abl", "abl0")] + \
        [("MOVE", s, ((k, 4, None), ("dn", 1))) for s in "bwl" for k in ("disp",)] + [("MOVE", s, (("dn", 1), ("disp", 4, None))) for s in "bwl"] + \
        [("MOVE", s, (("idx", 4, 2, None), ("dn", 1))) for s in "bwl"] + [("MOVE", s, (("dn", 1), ("idx", 4, 2, None))) for s in "bwl"] + \
        [(m, None, ((k, None),)) for m in ("JMP", "JSR", "PEA") for k in ("abw", "abl", "abl0", "pcd")] + [("LEA", None, ((k, None), ("an", 5))) for k in ("abw", "abl", "abl0", "pcd")] + \
        [(m, None, ((k, 5, None),)) for m in ("JMP", "JSR", "PEA") for k in ("disp",)] + [("LEA", None, (("disp", 6, None), ("an", 5)))] + \
        [("B" + c, s, (("dst", None),)) for c in "CC CS EQ GE GT HI LE LS LT MI NE PL RA SR VC VS".split() for s in (None, "b", "w")] + \
        [("DB" + c, None, (("dn", 2), ("dst", None))) for c in "CC CS EQ F GE GT HI LE LS LT MI NE PL RA T VC VS".split()] + \
        [("S" + c, None, ((k, None),)) for c in "CC EQ T".split() for k in ("abw", "abl0")] + [("MOVE", "w", (("imm", None), ("sr",))), ("MOVE", "w", (("imm", None), ("ccr",))), ("STOP", None, (("imm", None),)),
         ("LINK", None, (("an", 3), ("imm", None))), ("TRAP", None, (("imm", None),)), ("MOVEQ", None, (("imm", None), ("dn", 3))), ("ADDQ", "w", (("imm", None), ("dn", 3))), ("SUBQ", "w", (("imm", None), ("dn", 3))),
         ("LSL", "w", (("imm", None), ("dn", 3))), ("BTST", None, (("imm", None), ("dn", 3))), ("BTST", None, (("imm", None), ("ind", 3))), ("CHK", None, (("abw", None), ("dn", 3))), ("MULU", None, (("imm", None), ("dn", 3))),
         ("DIVS", None, (("imm", None), ("dn", 3))), ("MOVEM", "l", (("list", 0x0c05), ("abw", None))), ("MOVEM", "l", (("abl0", None), ("list", 0x0c05))), ("MOVEP", "w", (("disp", 3, None), ("dn", 3)))]
    for mn, s, ops in S:
        h = next(i for i, o in enumerate(ops) if None in o)
        k = ops[h][0]; rel = k in ("dst", "pcd")
        def mk(kind, v, ops=ops, h=h): return (kind,) + tuple(v if x is None else x for x in ops[h][1:])
        def encoder(kind, rel=False, mn=mn, s=s, ops=ops, h=h, mk=mk):
            def enc(v, pc):
                if kind == "abl0w" and not -0x8000 <= v < 0x8000: return None
                w = v - (pc + 2) if rel and kind == "dst" else v
                if kind == "abl0":
                    # the assembler reserves the long form
                    e = m68k.encode(mn, s, [("abl", v & 0xffffffff) if i == h else o for i, o in enumerate(ops)], pc)
                elif kind == "abw":
                    if not -0x8000 <= v <= 0xffff: return None
                    e = m68k.encode(mn, s, [mk("abw", v & 0xffff) if i == h else o for i, o in enumerate(ops)], pc)
                elif kind == "abl":
                    e = m68k.encode(mn, s, [mk("abl", v & 0xffffffff) if i == h else o for i, o in enumerate(ops)], pc)
                elif kind == "abl0w":
                    e = m68k.encode(mn, s, [("abw", v & 0xffff) if i == h else o for i, o in enumerate(ops)], pc)
                else: e = m68k.encode(mn, s, [mk(kind, w) if i == h else o for i, o in enumerate(ops)], pc)
                return set(e) if e else None
            return enc
        name = "%s%s %s" % (mn, "." + s.upper() if s else "", ",".join(o[0] for o in ops))
        def text(op, mn=mn, s=s, ops=ops, h=h):
            out = []
            for i, o in enumerate(ops):
                if i != h: out.append(m68k.text(o)); continue
                t = m68k.text(mk_marker(o))
                out.append(t.replace("987654321", op))
            return mn + ("." + s.upper() if s else "") + " " + ",".join(out)
        cands = [(32, encoder(k, rel))]
        if k == "abl0": cands.append((16, encoder("abl0w")))
        lit = [(32, encoder(k, False))] if rel else None
        f = Form("68000", name, text, cands, rel=rel, wide=rel, lit=lit)
        if rel and (k != "dst" or s != "b"): f.shift = encoder(k, False)
        if rel: f.width = 8 if s == "b" and k == "dst" else 16
        if k in ("disp", "idx"): f.width_only = True; f.width = 16 if k == "disp" else 8
        f.small = mn in ("TRAP", "MOVEQ", "ADDQ", "SUBQ", "LSL", "BTST")
        yield f

def mk_marker(o):
    if o[0] == "abl0": return ("abl", 987654321, 0)
    return tuple(987654321 if x is None else x for x in o)

# ---------------------------------------------------------------- one form x one kind
HEAD = run.memmap(0x10000, banks=2) + ".EMPTYFILL $ED\n"
BASE = 0x7f80
def program(f, kind, vals):
    """vals: [(v, pc or None)] -> prog; code cells at pc (bank 1 for absolute operands, so that labels can be anywhere)"""
    a = [HEAD, ".BANK 1\n"]; lab = []; defs = []
    for i, (v, pc) in enumerate(vals):
        if kind in ("def", "dexpr"):
            op = "Qd%d" % i + ("+1" if kind == "dexpr" else ""); defs.append(".DEFINE Qd%d %d EXPORT\n" % (i, v - (kind == "dexpr")))
        elif kind == "deflab":
            op = "Qd%d" % i; defs.append(".DEFINE Qd%d Ql%d%s\n" % (i, i, "+1" if v > 0 else "-1")); lab.append((v - 1 if v > 0 else v + 1, "Ql%d" % i))
        elif kind in ("expr", "xexpr"):
            op = "Ql%d+1" % i if v > 0 else "Ql%d-1" % i; lab.append((v - 1 if v > 0 else v + 1, "Ql%d" % i))
        else: op = "Ql%d" % i; lab.append((v, op))
        a.append(".ORG $%x\n %s\n" % (pc, f.text(op)))
    labels = ".BANK %d\n" % (1 if f.rel else 0) + "".join(".ORG $%x\n%s:\n" % x for x in lab)
    if kind == "deflab": return run.one(f.cpu, HEAD + "".join(defs) + "".join(a[1:]) + labels)
    if kind in ("label", "expr"):
        return run.one(f.cpu, "".join(a) + labels)
    return run.multi([(f.cpu, "a", "".join(a), "o"), (f.cpu, "b", HEAD + labels + "".join(defs), "o")])

def values(f, kind, tier):
    """[(v, pc)]"""
    extra = [v for v in f.domain if v not in UV[tier]]
    if kind in ("def", "dexpr"): vs = UV[tier] + DV + [v for v in extra if v not in DV]
    elif not f.rel: vs = UV[tier] + [v for v in extra if v >= 0]
    else:
        out = []
        offs = list(RO) + (RW if f.wide else [])
        for i, o in enumerate(offs):
            pc = BASE + 0x100 + i * CELL
            if 1 <= pc + o <= 0xfffe: out.append((pc + o, pc))
        return out
    return [(v, BASE + i * CELL) for i, v in enumerate(vs)]

def same(got, e):
    for x in (e if isinstance(e, set) else {e}):
        if got == x + bytes([ED]) * (CELL - len(x)): return True
    return False

class Probe:
    """outcome of one form x kind, found adaptively"""
    def __init__(self): self.rcs = [0]; self.files = {}; self.outs = []; self.log = []; self.n = 0

def cell(rom, pc): return rom[0x10000 + pc:0x10000 + pc + CELL]

def explore(w, f, kind, vals, tier):
    """-> None or message"""
    cands = f.lit if kind in ("def", "dexpr") else f.cands
    why = []
    first = None
    tried = set()
    for n, enc in cands:
        if f.rel and kind in ("def", "dexpr"):
            # a distance that isn't known yet is signed
            wd = f.width or n
            vals = [x for x in vals if -(1 << wd - 1) <= x[0] < 1 << wd - 1 or enc(x[0], x[1]) is None]
        inn = [(v, pc) for v, pc in vals if enc(v, pc) is not None]
        if not inn: continue
        r = w.run(program(f, kind, inn))
        if not r.ok:
            if any(x < 0 for x in r.rcs): return "abnormal end %r" % r.rcs
            if f.small and r.rcs[0] != 0: return None          # the assembler needs the value of such operands
            why.append("refused: " + r.outs[-1].decode("latin1").replace("\n", " ")[:160]); continue
        rom = r.files["o.bin"]
        bad = [(v, pc) for v, pc in inn if not same(cell(rom, pc), enc(v, pc))]
        if bad:
            v, pc = bad[0]; e = enc(v, pc)
            why.append("%r with the value %d ($%x) at $%x gives %s, the literal's encoding is %s" % (f.text("L"), v, v & 0xffffffff, pc, cell(rom, pc).rstrip(bytes([ED])).hex(" "),
                       " or ".join(x.hex(" ") for x in (e if isinstance(e, set) else [e]))))
            continue
        # the linker only knows the width: a value of that width that the literal form refuses (its sign) isn't judged
        wd = f.width or n
        free = -(1 << wd - 1), (1 << wd) - 1
        out = [(v, pc) for v, pc in vals if enc(v, pc) is None and not (f.width_only and free[0] <= v <= free[1])]
        if tier != "thorough" and len(out) > 4:
            iv = [v for v, _ in inn] if not f.rel else [v - pc for v, pc in inn]
            key = (lambda x: x[0]) if not f.rel or kind in ("def", "dexpr") else (lambda x: x[0] - x[1])
            lo, hi = min(map(key, inn)), max(map(key, inn))
            below = sorted((x for x in out if key(x) < lo), key=key)[-1:]; above = sorted((x for x in out if key(x) > hi), key=key)
            mid = [x for x in out if lo < key(x) < hi][:1]
            out = below + mid + above[:1] + [x for x in above if (x[0] & 0xff) < 0x80][:1] + above[-1:]
        for v, pc in out:
            r = w.run(program(f, kind, [(v, pc)]))
            if any(x < 0 for x in r.rcs): return "%r with the value %d: abnormal end %r" % (f.text("L"), v, r.rcs)
            if r.ok:
                return "%r with the value %d ($%x) at $%x, which does not fit, was linked to %s" % (f.text("L"), v, v & 0xffffffff, pc, cell(r.files["o.bin"], pc).rstrip(bytes([ED])).hex(" "))
        return None
    if not why: return None
    if f.shift and kind in ("def", "dexpr"):
        enc = lambda v, pc: f.shift(v + 2, pc) if v + 2 < 0x8000 else None
        inn = [(v, pc) for v, pc in vals if enc(v, pc) is not None]
        r = w.run(program(f, kind, inn))
        if r.ok and all(same(cell(r.files["o.bin"], pc), enc(v, pc)) for v, pc in inn):
            return "%r counts a distance given as a definition from 2 bytes later than a literal's (%d values)" % (f.text("L"), len(inn))
    return "; ".join(why)

def execute(w, prog):
    if "forms" not in prog: return w.run(prog)
    p = Probe(); out = []
    for f, kind in prog["forms"]:
        vals = values(f, kind, prog["tier"])
        m = explore(w, f, kind, vals, prog["tier"])
        p.n += len(vals)
        out.append((f, kind, m))
    p.log = out; p.files = {"log": repr([m for _, _, m in out]).encode()}
    return p

def case(key, fk, tier):
    f0, k0 = fk[0]
    def judge(res):
        return [("%s:%s:%s" % (f.cpu, kind, f.name), "%s, %s operand: %s" % (f.cpu, kind, m)) for f, kind, m in res.log if m][:4] or None
    n = sum(len(values(f, k, tier)) for f, k in fk)
    prog = {"forms": fk, "tier": tier, "files": program(f0, k0, values(f0, k0, tier)[:1])["files"], "steps": program(f0, k0, values(f0, k0, tier)[:1])["steps"], "reads": []}
    return Case(key, prog, judge, steps=n, states=["%s:%s:%s:%r" % (f.cpu, k, f.name, v) for f, k in fk for v in values(f, k, tier)], n=n)

def banks(tier):
    """bank numbers: 300 banks of 16 bytes"""
    for cpu in ("z80", "gb", "6502", "6809", "huc6280"):
        head = run.memmap(0x10, banks=300) + ".EMPTYFILL $ED\n"
        for b in (0, 1, 127, 128, 254, 255):
            for d, n in ((".DB", 1), (".DW", 2), (".DD", 4), (".DL", 3)):
                for t, ext in ((":L", 0), (":L", 1), (":L+0", 0), ("bank(L)", 1)):
                    lab = ".BANK %d\n.ORG 3\nL:\n" % b
                    src = head + ".BANK 2\n.ORG 0\n %s %s\n" % (d, t)
                    prog = run.one(cpu, src + lab) if not ext else run.multi([(cpu, "a", src, "o"), (cpu, "b", head + lab, "o")])
                    def judge(res, b=b, n=n, cpu=cpu, d=d, t=t):
                        if not res.ok: return "%s: %s %s refused: %s" % (cpu, d, t, res.outs[-1][-200:])
                        e = b.to_bytes(n, "big" if cpu in BIG else "little")
                        if res.files["o.bin"][32:32 + n] != e: return "%s: %s %s gives %s, the bank is %d" % (cpu, d, t, res.files["o.bin"][32:32 + n].hex(" "), b)
                    yield Case("bank:%s:%s %s:%d:%d" % (cpu, d, t, ext, b), prog, judge)

def cases(tier):
    allf = []
    for cpu in CPUS + ["68000"]:
        fs = list(forms68000(tier)) if cpu == "68000" else list(forms(cpu, tier))
        fs += list(dataforms(cpu, tier))
        for f in fs:
            for kind in KINDS[tier]:
                if kind == "deflab" and f.rel: continue        # a definition as a branch target: a value, not judged
                if ("expr" in kind or kind == "deflab") and f.noexpr: continue
                allf.append((f, kind))
    for i in range(0, len(allf), 8):
        part = allf[i:i + 8]
        yield case("%s:%s:%s" % (part[0][0].cpu, part[0][1], part[0][0].name), part, tier)
    yield from banks(tier)
