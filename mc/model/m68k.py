"""Independent encoder for the MC68000, written from the instruction set definition (not from decode.c).

An operand is ('dn',n) ('an',n) ('ind',n) ('post',n) ('pre',n) ('disp',n,d) ('idx',n,x,d) ('abw',v) ('abl',v) ('pcd',target) ('pci',x,target)
('imm',v) ('dst',distance) ('ccr',) ('sr',) ('usp',) ('list',mask).  encode() returns the set of encodings the architecture allows for the instruction
(several where the assembler may pick a short form; MOVE without a size may become MOVEQ), an empty set when an operand value does not fit, None when the form does not exist.
`pc` is the address of the instruction.
"""
B, W, L = "b", "w", "l"
SZ = {B: 0, W: 1, L: 2}
CC = dict(T=0, F=1, HI=2, LS=3, CC=4, CS=5, NE=6, EQ=7, VC=8, VS=9, PL=10, MI=11, GE=12, LT=13, GT=14, LE=15)

class Unfit(Exception): pass
def w16(x): return (x & 0xffff).to_bytes(2, "big")
def w32(x): return (x & 0xffffffff).to_bytes(4, "big")

DATA = {"dn", "ind", "post", "pre", "disp", "idx", "abw", "abl", "pcd", "pci", "imm"}
ALL = DATA | {"an"}
MEM = DATA - {"dn"}
CTRL = {"ind", "disp", "idx", "abw", "abl", "pcd", "pci"}
NOPC = {"pcd", "pci", "imm"}
ALTER = ALL - NOPC
DALTER = DATA - NOPC
MALTER = MEM - NOPC
CALTER = CTRL - NOPC

def ea(op):
    """mode<<3|reg"""
    k = op[0]
    if k in ("dn", "an", "ind", "post", "pre", "disp", "idx"):
        return ("dn", "an", "ind", "post", "pre", "disp", "idx").index(k) << 3 | op[1]
    return 0x38 | {"abw": 0, "abl": 1, "pcd": 2, "pci": 3, "imm": 4}[k]

def ext(op, size, at):
    """extension words; `at`: address of the extension word"""
    k = op[0]
    if k == "disp":
        if not -32768 <= op[2] <= 32767: raise Unfit
        return w16(op[2])
    if k == "idx":
        if not -128 <= op[3] <= 127: raise Unfit
        return bytes([op[2] << 4, op[3] & 0xff])
    if k == "abw":
        if not -32768 <= op[1] <= 65535: raise Unfit
        return w16(op[1])
    if k == "abl": return w32(op[1])
    if k == "pcd":
        d = op[1] - at
        if not -32768 <= d <= 32767: raise Unfit
        return w16(d)
    if k == "pci":
        d = op[2] - at
        if not -128 <= d <= 127: raise Unfit
        return bytes([op[1] << 4, d & 0xff])
    if k == "imm": return imm(op[1], size)
    return b""

def imm(v, size):
    if size == B:
        if not -128 <= v <= 255: raise Unfit
        return bytes([0, v & 0xff])
    if size == W:
        if not -32768 <= v <= 65535: raise Unfit
        return w16(v)
    return w32(v)

def ins(word, pc, *tail):
    """tail: bytes or (op,size)"""
    out = w16(word)
    for t in tail:
        out += t if isinstance(t, bytes) else ext(t[0], t[1], pc + len(out))
    return out

ARITH = {"ADD": (0xD000, 0x0600, 0x5000), "SUB": (0x9000, 0x0400, 0x5100), "AND": (0xC000, 0x0200, None), "OR": (0x8000, 0x0000, None)}

def encode(mn, size, ops, pc):
    try:
        r = _enc(mn, size, ops, pc)
    except Unfit:
        return set()
    return None if r is None else set(r)

def many(*thunks):
    out = []; unfit = False
    for t in thunks:
        try: out.append(t())
        except Unfit: unfit = True
    if not out and unfit: raise Unfit
    return out

def _enc(mn, size, ops, pc):
    k = [o[0] for o in ops]
    sized = {"ADD", "SUB", "AND", "OR", "EOR", "CMP", "ADDI", "SUBI", "ANDI", "ORI", "EORI", "CMPI", "ADDQ", "SUBQ", "ADDX", "SUBX", "CLR", "NEG", "NEGX", "NOT", "TST", "CMPM",
             "ASL", "ASR", "LSL", "LSR", "ROL", "ROR", "ROXL", "ROXR", "MOVE", "ADDA", "SUBA", "CMPA", "MOVEA", "MOVEM", "MOVEP", "EXT"}
    s = size or (W if mn in sized else None)
    one, two = len(ops) == 1, len(ops) == 2
    if mn in ("NOP", "RESET", "RTE", "RTR", "RTS", "TRAPV", "ILLEGAL"):
        if ops or size: return None
        return [w16(dict(NOP=0x4E71, RESET=0x4E70, RTE=0x4E73, RTR=0x4E77, RTS=0x4E75, TRAPV=0x4E76, ILLEGAL=0x4AFC)[mn])]
    if mn in ARITH and two:
        base, ibase, qbase = ARITH[mn]
        src, dst = ops
        logic = mn in ("AND", "OR")
        z = SZ[s] << 6
        if dst[0] == "an":
            if logic or s == B: return None
            if src[0] not in ALL: return None
            t = [lambda: ins(base | dst[1] << 9 | (0x0C0 if s == W else 0x1C0) | ea(src), pc, (src, s))]
            if src[0] == "imm" and 1 <= src[1] <= 8: t.append(lambda: ins(qbase | (src[1] & 7) << 9 | z | ea(dst), pc))
            return many(*t)
        if src[0] == "imm":
            if dst[0] not in DALTER: return None
            t = [lambda: ins(ibase | z | ea(dst), pc, imm(src[1], s), (dst, s))]
            if dst[0] == "dn": t.append(lambda: ins(base | dst[1] << 9 | z | 0x3C, pc, (src, s)))
            if qbase is not None and 1 <= src[1] <= 8: t.append(lambda: ins(qbase | (src[1] & 7) << 9 | z | ea(dst), pc, (dst, s)))
            return many(*t)
        if dst[0] == "dn":
            if src[0] not in (DATA if logic else ALL) or (src[0] == "an" and s == B): return None
            return [ins(base | dst[1] << 9 | z | ea(src), pc, (src, s))]
        if src[0] == "dn":
            if dst[0] not in MALTER: return None
            return [ins(base | src[1] << 9 | 0x100 | z | ea(dst), pc, (dst, s))]
        return None
    if mn in ("ADDA", "SUBA", "CMPA") and two:
        src, dst = ops
        if s == B or dst[0] != "an" or src[0] not in ALL: return None
        base = dict(ADDA=0xD000, SUBA=0x9000, CMPA=0xB000)[mn]
        return [ins(base | dst[1] << 9 | (0x0C0 if s == W else 0x1C0) | ea(src), pc, (src, s))]
    if mn in ("ADDI", "SUBI", "ANDI", "ORI", "EORI", "CMPI") and two:
        src, dst = ops
        base = dict(ORI=0, ANDI=0x200, SUBI=0x400, ADDI=0x600, EORI=0xA00, CMPI=0xC00)[mn]
        if src[0] != "imm": return None
        if dst[0] in ("ccr", "sr"):
            if mn not in ("ORI", "ANDI", "EORI"): return None
            if dst[0] == "ccr":
                if size not in (None, B): return None
                return [ins(base | 0x3C, pc, imm(src[1], B))]
            if size not in (None, W): return None
            return [ins(base | 0x7C, pc, imm(src[1], W))]
        if dst[0] not in DALTER: return None
        return [ins(base | SZ[s] << 6 | ea(dst), pc, imm(src[1], s), (dst, s))]
    if mn in ("ADDQ", "SUBQ") and two:
        src, dst = ops
        if src[0] != "imm" or dst[0] not in ALTER or (dst[0] == "an" and s == B): return None
        if not 1 <= src[1] <= 8: raise Unfit
        return [ins((0x5000 if mn == "ADDQ" else 0x5100) | (src[1] & 7) << 9 | SZ[s] << 6 | ea(dst), pc, (dst, s))]
    if mn in ("ADDX", "SUBX", "ABCD", "SBCD") and two:
        base = dict(ADDX=0xD100, SUBX=0x9100, ABCD=0xC100, SBCD=0x8100)[mn]
        if mn in ("ABCD", "SBCD"):
            if size not in (None, B): return None
            z = 0
        else: z = SZ[s] << 6
        if k == ["dn", "dn"]: return [w16(base | ops[1][1] << 9 | z | ops[0][1])]
        if k == ["pre", "pre"]: return [w16(base | ops[1][1] << 9 | z | 8 | ops[0][1])]
        return None
    if mn == "EOR" and two:
        src, dst = ops
        if src[0] == "imm":
            if dst[0] not in DALTER: return None
            return [ins(0xA00 | SZ[s] << 6 | ea(dst), pc, imm(src[1], s), (dst, s))]
        if src[0] != "dn" or dst[0] not in DALTER: return None
        return [ins(0xB100 | src[1] << 9 | SZ[s] << 6 | ea(dst), pc, (dst, s))]
    if mn == "CMP" and two:
        src, dst = ops
        if dst[0] == "an":
            if s == B or src[0] not in ALL: return None
            return [ins(0xB000 | dst[1] << 9 | (0x0C0 if s == W else 0x1C0) | ea(src), pc, (src, s))]
        if k == ["post", "post"]: return [w16(0xB108 | dst[1] << 9 | SZ[s] << 6 | src[1])]
        if src[0] == "imm":
            if dst[0] not in DALTER: return None
            t = [lambda: ins(0xC00 | SZ[s] << 6 | ea(dst), pc, imm(src[1], s), (dst, s))]
            if dst[0] == "dn": t.append(lambda: ins(0xB000 | dst[1] << 9 | SZ[s] << 6 | 0x3C, pc, (src, s)))
            return many(*t)
        if dst[0] != "dn" or src[0] not in ALL or (src[0] == "an" and s == B): return None
        return [ins(0xB000 | dst[1] << 9 | SZ[s] << 6 | ea(src), pc, (src, s))]
    if mn == "CMPM" and two:
        if k != ["post", "post"]: return None
        return [w16(0xB108 | ops[1][1] << 9 | SZ[s] << 6 | ops[0][1])]
    if mn in ("ASL", "ASR", "LSL", "LSR", "ROL", "ROR", "ROXL", "ROXR"):
        ty = dict(AS=0, LS=1, ROX=2, RO=3)[mn[:-1]]
        d = 0x100 if mn[-1] == "L" else 0
        if one:
            if ops[0][0] not in MALTER or s != W: return None
            return [ins(0xE0C0 | ty << 9 | d | ea(ops[0]), pc, (ops[0], W))]
        if two and ops[1][0] == "dn":
            if ops[0][0] == "dn": return [w16(0xE020 | ops[0][1] << 9 | d | SZ[s] << 6 | ty << 3 | ops[1][1])]
            if ops[0][0] == "imm":
                if not 1 <= ops[0][1] <= 8: raise Unfit
                return [w16(0xE000 | (ops[0][1] & 7) << 9 | d | SZ[s] << 6 | ty << 3 | ops[1][1])]
        return None
    if mn in ("BCHG", "BCLR", "BSET", "BTST") and two:
        if size: return None
        o = ("BTST", "BCHG", "BCLR", "BSET").index(mn) << 6
        src, dst = ops
        okd = (DATA if src[0] == "dn" else DATA - {"imm"}) if mn == "BTST" else DALTER
        if dst[0] not in okd: return None
        if src[0] == "dn": return [ins(0x0100 | src[1] << 9 | o | ea(dst), pc, (dst, B))]
        if src[0] == "imm":
            if not 0 <= src[1] <= (31 if dst[0] == "dn" else 7): raise Unfit
            return [ins(0x0800 | o | ea(dst), pc, imm(src[1], B), (dst, B))]
        return None
    if mn in ("CHK", "DIVS", "DIVU", "MULS", "MULU") and two:
        src, dst = ops
        if size not in (None, W) or dst[0] != "dn" or src[0] not in DATA: return None
        base = dict(CHK=0x4180, DIVS=0x81C0, DIVU=0x80C0, MULS=0xC1C0, MULU=0xC0C0)[mn]
        return [ins(base | dst[1] << 9 | ea(src), pc, (src, W))]
    if mn in ("CLR", "NEG", "NEGX", "NOT", "TST") and one:
        if ops[0][0] not in DALTER: return None
        base = dict(NEGX=0x4000, CLR=0x4200, NEG=0x4400, NOT=0x4600, TST=0x4A00)[mn]
        return [ins(base | SZ[s] << 6 | ea(ops[0]), pc, (ops[0], s))]
    if mn in ("NBCD", "TAS") and one:
        if size not in (None, B) or ops[0][0] not in DALTER: return None
        return [ins((0x4800 if mn == "NBCD" else 0x4AC0) | ea(ops[0]), pc, (ops[0], B))]
    if mn.startswith("DB") and two:
        c = "F" if mn == "DBRA" else mn[2:]
        if c not in CC or size or k != ["dn", "dst"]: return None
        d = ops[1][1]
        if not -32768 <= d <= 32767: raise Unfit
        return [w16(0x50C8 | CC[c] << 8 | ops[0][1]) + w16(d)]
    if mn[0] == "B" and one and k == ["dst"]:
        c = mn[1:]
        cc = {"RA": 0, "SR": 1}.get(c, CC.get(c))
        if cc is None or c in ("T", "F"): return None
        d = ops[0][1]
        if size == B:
            if not -128 <= d <= 127: raise Unfit
            return [w16(0x6000 | cc << 8 | d & 0xff)]
        if size not in (None, W): return None
        if not -32768 <= d <= 32767: raise Unfit
        return [w16(0x6000 | cc << 8) + w16(d)]
    if mn == "EXG" and two:
        if size not in (None,): return None
        if k == ["dn", "dn"]: return [w16(0xC140 | ops[0][1] << 9 | ops[1][1])]
        if k == ["an", "an"]: return [w16(0xC148 | ops[0][1] << 9 | ops[1][1])]
        if k == ["dn", "an"]: return [w16(0xC188 | ops[0][1] << 9 | ops[1][1])]
        if k == ["an", "dn"]: return [w16(0xC188 | ops[1][1] << 9 | ops[0][1])]
        return None
    if mn == "EXT" and one:
        if k != ["dn"] or s == B: return None
        return [w16((0x4880 if s == W else 0x48C0) | ops[0][1])]
    if mn in ("JMP", "JSR", "PEA") and one:
        if size or ops[0][0] not in CTRL: return None
        return [ins(dict(JMP=0x4EC0, JSR=0x4E80, PEA=0x4840)[mn] | ea(ops[0]), pc, (ops[0], L))]
    if mn == "LEA" and two:
        if size or ops[0][0] not in CTRL or ops[1][0] != "an": return None
        return [ins(0x41C0 | ops[1][1] << 9 | ea(ops[0]), pc, (ops[0], L))]
    if mn == "LINK" and two:
        if size or k != ["an", "imm"]: return None
        if not -32768 <= ops[1][1] <= 65535: raise Unfit
        return [w16(0x4E50 | ops[0][1]) + w16(ops[1][1])]
    if mn == "UNLK" and one: return [w16(0x4E58 | ops[0][1])] if k == ["an"] and not size else None
    if mn == "SWAP" and one: return [w16(0x4840 | ops[0][1])] if k == ["dn"] and not size else None
    if mn == "TRAP" and one:
        if k != ["imm"] or size: return None
        if not 0 <= ops[0][1] <= 15: raise Unfit
        return [w16(0x4E40 | ops[0][1])]
    if mn == "STOP" and one:
        if k != ["imm"] or size: return None
        return [w16(0x4E72) + imm(ops[0][1], W)]
    if mn == "MOVEQ" and two:
        if k != ["imm", "dn"] or size not in (None, L): return None
        if not -128 <= ops[0][1] <= 127: raise Unfit
        return [w16(0x7000 | ops[1][1] << 9 | ops[0][1] & 0xff)]
    if mn == "MOVEP" and two:
        if s == B: return None
        o = 0 if s == W else 0x40
        if k == ["disp", "dn"]: return [ins(0x0108 | ops[1][1] << 9 | o | ops[0][1], pc, (ops[0], W))]
        if k == ["dn", "disp"]: return [ins(0x0188 | ops[0][1] << 9 | o | ops[1][1], pc, (ops[1], W))]
        return None
    if mn == "MOVEM" and two:
        if s == B: return None
        z = 0x40 if s == L else 0
        src, dst = ops
        if src[0] == "list":
            if dst[0] not in CALTER | {"pre"}: return None
            m = src[1]
            if dst[0] == "pre": m = int("".join(reversed("{:016b}".format(m))), 2)
            return [ins(0x4880 | z | ea(dst), pc, w16(m), (dst, W))]
        if dst[0] == "list":
            if src[0] not in CTRL | {"post"}: return None
            return [ins(0x4C80 | z | ea(src), pc, w16(dst[1]), (src, W))]
        return None
    if mn in ("MOVE", "MOVEA") and two:
        src, dst = ops
        if dst[0] == "ccr": return [ins(0x44C0 | ea(src), pc, (src, W))] if mn == "MOVE" and size in (None, W) and src[0] in DATA else None
        if dst[0] == "sr": return [ins(0x46C0 | ea(src), pc, (src, W))] if mn == "MOVE" and size in (None, W) and src[0] in DATA else None
        if src[0] == "sr": return [ins(0x40C0 | ea(dst), pc, (dst, W))] if mn == "MOVE" and size in (None, W) and dst[0] in DALTER else None
        if src[0] == "usp": return [w16(0x4E68 | dst[1])] if mn == "MOVE" and dst[0] == "an" and size in (None, L) else None
        if dst[0] == "usp": return [w16(0x4E60 | src[1])] if mn == "MOVE" and src[0] == "an" and size in (None, L) else None
        if src[0] not in ALL or (src[0] == "an" and s == B): return None
        if dst[0] == "an":
            if s == B: return None
        elif mn == "MOVEA" or dst[0] not in DALTER: return None
        e = ea(dst)
        word = {B: 0x1000, W: 0x3000, L: 0x2000}[s] | (e & 7) << 9 | (e >> 3) << 6 | ea(src)
        t = [lambda: ins(word, pc, (src, s), (dst, s))]
        if mn == "MOVE" and src[0] == "imm" and dst[0] == "dn" and size in (None, L) and -128 <= src[1] <= 127: t.append(lambda: w16(0x7000 | dst[1] << 9 | src[1] & 0xff))
        return many(*t)
    if mn[0] == "S" and mn[1:] in CC and one:
        if size not in (None, B) or ops[0][0] not in DALTER: return None
        return [ins(0x50C0 | CC[mn[1:]] << 8 | ea(ops[0]), pc, (ops[0], B))]
    return None

def text(op):
    k = op[0]
    if k == "dn": return "D%d" % op[1]
    if k == "an": return "A%d" % op[1]
    if k == "ind": return "(A%d)" % op[1]
    if k == "post": return "(A%d)+" % op[1]
    if k == "pre": return "-(A%d)" % op[1]
    if k == "disp": return "(%d,A%d)" % (op[2], op[1])
    if k == "idx": return "(%d,A%d,D%d)" % (op[3], op[1], op[2])
    if k == "abw": return "%d.W" % op[1]
    if k == "abl": return "%d.L" % op[1] if len(op) < 3 else str(op[1])
    if k == "pcd": return "(%d,PC)" % op[1]
    if k == "pci": return "(%d,PC,D%d)" % (op[2], op[1])
    if k == "imm": return "#%d" % op[1]
    if k == "dst": return "%d" % op[1]
    if k == "list": return "/".join([r for i, r in enumerate(["D%d" % i for i in range(8)] + ["A%d" % i for i in range(8)]) if op[1] >> i & 1])
    return k.upper()
