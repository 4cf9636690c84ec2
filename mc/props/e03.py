"""E03: operand sizes as the state machine of width directives, REP/SEP and hints says."""
import itertools
from .. import run
from ..check import Case
from .. import cells

ID = "E03"
LEVEL = "model_checking"
TOOLS = ["wlalink", "65816", "6502", "65c02", "65ce02", "huc6280", "6800", "6801", "6809"]
RULE = "distinct (history of width operations) for which every probe instruction was compared with the model"
BOUNDS = {"quick": "65816: all histories of up to 2 of 40 width operations from the initial state, all 64,000 words of length 3 played one after the other, and all 10,000 words of length 4 over 10 of them, each followed by probes; the 6502 and 6800 families: all words of length 3 over .8BIT/.16BIT/.24BIT and hinted instructions",
          "thorough": "65816: all histories of up to 3 operations from the initial state, all words of length 3 over 40 and of length 5 over 10 operations; the others: words of length 4"}
ASSUMPTIONS = ["widths are carried over sections, banks, macros, repeats and taken conditional blocks, and a block that is skipped has no effect"]

# state: accumulator, index, address size (0: smallest)
def dirs():
    D = []
    for n in (8, 16):
        D.append((".ACCU %d" % n, lambda s, n=n: (n, s[1], s[2]), b""))
        D.append((".INDEX %d" % n, lambda s, n=n: (s[0], n, s[2]), b""))
    for n in (8, 16, 24): D.append((".%dBIT" % n, lambda s, n=n: (s[0], s[1], n), b""))
    for m, op, w in (("REP", 0xC2, 16), ("SEP", 0xE2, 8)):
        for v in (0x00, 0x10, 0x20, 0x30, 0xCF, 0xFF):
            D.append(("%s #$%02x" % (m, v), (lambda s, v=v, w=w: (w if v & 0x20 else s[0], w if v & 0x10 else s[1], s[2])), bytes((op, v))))
    f = lambda v, w: (lambda s: (w if v & 0x20 else s[0], w if v & 0x10 else s[1], s[2]))
    keep = lambda s: s
    D += [("rep #16|32", f(0x30, 16), b"\xc2\x30"), ("SEP #Kwi", f(0x10, 8), b"\xe2\x10"), ("REP #Kwi", f(0x10, 16), b"\xc2\x10"), ("SEP #$30-$10", f(0x20, 8), b"\xe2\x20"), ("REP #%00100000", f(0x20, 16), b"\xc2\x20"),
          (".ACCU Kac", lambda s: (16, s[1], s[2]), b""), (".index 4*4", lambda s: (s[0], 16, s[2]), b""),
          (".IF 0\n.ACCU 16\n.INDEX 16\n.16BIT\n REP #$30\n.ENDIF", keep, b""), (".IF 0\n SEP #$30\n.24BIT\n.ELSE\n.ENDIF", keep, b""),
          (".IF 1\n REP #$20\n.ELSE\n SEP #$30\n.ENDIF", f(0x20, 16), b"\xc2\x20"),
          (" MacRep", f(0x30, 16), b"\xc2\x30"), (" MacSep $10", f(0x10, 8), b"\xe2\x10"), (" MacSep $20", f(0x20, 8), b"\xe2\x20"), (" MacAcc 16", lambda s: (16, s[1], s[2]), b""),
          (".REPT 2\n SEP #$20\n.ENDR", f(0x20, 8), b"\xe2\x20\xe2\x20"), (".REPT 0\n SEP #$30\n.ENDR", keep, b""), (";.ACCU 16\n; REP #$30", keep, b""),
          (" LDA #1", lambda s: s, None), (" CPX #1.W", keep, b"\xe0\x01\x00"), (" AND #1.B", keep, b"\x29\x01"), (" LDA 1.L", keep, b"\xaf\x01\x00\x00")]
    return D
PRE = ".DEFINE Kwi $10\n.DEFINE Kac 16\n.MACRO MacRep\n REP #$30\n.ENDM\n.MACRO MacSep\n SEP #\\1\n.ENDM\n.MACRO MacAcc\n.ACCU \\1\n.ENDM\n"
D65816 = dirs()

def le(v, n): return (v & (1 << 8 * n) - 1).to_bytes(n, "little")
IMM = {"LDA": 0xA9, "AND": 0x29, "ORA": 0x09, "EOR": 0x49, "ADC": 0x69, "SBC": 0xE9, "CMP": 0xC9, "BIT": 0x89}
IMX = {"LDX": 0xA2, "LDY": 0xA0, "CPX": 0xE0, "CPY": 0xC0}
ADR = {"LDA %s": (0xA5, 0xAD, 0xAF), "STA %s": (0x85, 0x8D, 0x8F), "LDA %s,X": (0xB5, 0xBD, 0xBF), "LDX %s": (0xA6, 0xAE, None), "STY %s": (0x84, 0x8C, None), "INC %s,X": (0xF6, 0xFE, None), "STZ %s": (0x64, 0x9C, None), "LDA (%s),Y": (0xB1, None, None), "JMP %s": (None, 0x4C, 0x5C)}
def imm(op, w, v): return bytes((op,)) + le(v, w // 8)
def adr(ops, n, v):
    """n: wanted bytes; the value and the instruction may need more, the instruction may have no more than it has"""
    need = 1 if -128 <= v <= 255 else 2 if -32768 <= v <= 65535 else 3
    n = max(n, need)
    have = [k for k in (1, 2, 3) if ops[k - 1] is not None]
    le_ = [k for k in have if need <= k <= n]
    k = max(le_) if le_ else min(k for k in have if k >= n)
    return bytes((ops[k - 1],)) + le(v, k)

def probes(s, sel):
    """[(text, bytes)] for the state; sel rotates through the instructions"""
    a, x, b = s
    ms = list(IMM); xs = list(IMX); ad = list(ADR)
    m = ms[sel % len(ms)]; y = xs[sel % len(xs)]; t = ad[sel % len(ad)]
    n = {0: 1, 8: 1, 16: 2, 24: 3}[b]
    P = [("%s #$12" % m, imm(IMM[m], a, 0x12)), ("%s #-2" % y, imm(IMX[y], x, -2))]
    k = sel // 9 % 8
    if k == 0: P.append(("%s #$12.W" % m, imm(IMM[m], 16, 0x12)))
    if k == 1: P.append(("%s #$12.b" % m, imm(IMM[m], 8, 0x12)))
    if k == 2: P.append(("%s #Kwi" % m, imm(IMM[m], a, 0x10)))
    if k == 3: P.append(("%s.W #$12" % y, imm(IMX[y], 16, 0x12)))
    if k == 4: P.append(("%s #$12.B" % y, imm(IMX[y], 8, 0x12)))
    if k == 5: P.append(("%s #Lab" % m, imm(IMM[m], a, 0x12)))
    if k == 6: P.append(("%s #Lab+1" % y, imm(IMX[y], x, 0x13)))
    if k == 7: P.append(("%s #$1234.w" % m, imm(IMM[m], 16, 0x1234)))
    if a == 16: P.append(("%s #$1234" % m, imm(IMM[m], 16, 0x1234)))
    if x == 16: P.append(("%s #$8000" % y, imm(IMX[y], 16, 0x8000)))
    P.append((t % "$12", adr(ADR[t], n, 0x12)))
    if ADR[t][1] is not None:
        P.append((t % "$1234", adr(ADR[t], n, 0x1234)))
        if ADR[t][0] is not None: P.append((t % "$12.B", adr(ADR[t], 1, 0x12)))
        P.append((t % "$12.W", adr(ADR[t], 2, 0x12)))
        if ADR[t][2] is not None: P += [(t % "$12.L", adr(ADR[t], 3, 0x12)), (t % "$123456", adr(ADR[t], n, 0x123456))]
    if t == "LDA %s": P.append(("LDA Lab", bytes((ADR[t][n - 1],)) + le(0x12, n)))
    return P

def played(words, s0=(8, 8, 0), selbase=0):
    """-> (source, expected bytes, marks): every word's operations, then probes (operations first, so that no probe hides a lost state)"""
    src = []; exp = bytearray(); marks = []; s = s0
    for i, w in enumerate(words):
        st = len(exp)
        for t, f, b in w:
            src.append(t if t[0] in ".;" or t[0] == " " else " " + t)
            if b is None: b = imm(0xA9, s[0], 1)
            exp += b; s = f(s)
        for t, b in probes(s, selbase + i):
            src.append(" " + t); exp += b
        marks.append((st, len(exp), "; ".join(x[0].strip() for x in w), s))
    return "\n".join(src), bytes(exp), marks

def words_case(key, words, n, selbase=0):
    src, exp, marks = played(words, selbase=selbase)
    def prog():
        return run.one("65816", run.memmap(0x10000) + PRE + ".BANK 0\n.ORG $12\nLab:\n.ORG $100\n" + src + "\n")
    def judge(res):
        if not res.ok: return "65816: refused: %s\n%s" % (res.outs[-1].decode("latin1")[:300], src[:200])
        rom = res.files["o.bin"]
        if rom[0x100:0x100 + len(exp)] == exp and not any(rom[0x100 + len(exp):]): return None
        k = next(i for i in range(len(exp) + 1) if i == len(exp) or rom[0x100 + i] != exp[i])
        m = next((m for m in marks if m[0] <= k < m[1]), marks[-1])
        return "65816: after %s (and %d earlier operations) the state is A%d X%d %d-bit addresses: got %s, expected %s (first difference at %d)" % (
            m[2], sum(len(w) for w in words[:marks.index(m)]), m[3][0], m[3][1], m[3][2] or 8, rom[0x100 + m[0]:0x100 + m[1]].hex(" "), exp[m[0]:m[1]].hex(" "), k - m[0])
    return Case(key, prog, judge, steps=sum(len(w) for w in words), states=["%s:%d" % (key, i) for i in range(len(words))], n=n)

CORE = [".ACCU 8", ".ACCU 16", ".INDEX 8", ".INDEX 16", ".16BIT", ".8BIT", "REP #$30", "SEP #$20", "SEP #$10", " MacSep $20"]
def cases65816(tier):
    D = D65816; deep = tier == "thorough"
    for n in ((1, 2, 3) if deep else (1, 2)):
        for w in itertools.product(range(len(D)), repeat=n):
            yield words_case("init:" + " / ".join(D[i][0].replace("\n", ",").strip() for i in w), [[D[i]] for i in w], 1, selbase=sum(i * 7 ** k for k, i in enumerate(w)))
    W = list(itertools.product(range(len(D)), repeat=3))
    # an order in which neighbours differ much, so that the state before each word varies
    step = 27011
    W = [W[i * step % len(W)] for i in range(len(W))]
    for i in range(0, len(W), 500):
        yield words_case("w3:%d" % i, [[D[k] for k in w] for w in W[i:i + 500]], 500, selbase=i)
    C = [d for d in D if d[0] in CORE]; assert len(C) == len(CORE)
    W = list(itertools.product(range(len(C)), repeat=5 if deep else 4))
    W = [W[i * 7919 % len(W)] for i in range(len(W))]
    for i in range(0, len(W), 500):
        yield words_case("c:%d" % i, [[C[k] for k in w] for w in W[i:i + 500]], 500, selbase=i)
    for pre in ("", ".ACCU 8\n", "SEP #$30\n", ".16BIT\n", ".24BIT\n.ACCU 8\n.INDEX 8\n"):
        for m in list(IMM) + list(IMX):
            for v in ("$100", "$1234", "-129", "65535"):
                yield cells.refuse("65816", "wide", pre + " %s #%s" % (m, v), why="the register is 8 bits wide")
    for pre in (".ACCU 16\n.INDEX 16\n", "REP #$30\n"):
        for m in list(IMM) + list(IMX):
            yield cells.refuse("65816", "wide", pre + " %s #$10000" % m)
            yield cells.refuse("65816", "wide", pre + " %s #$100.B" % m, why="the hint says one byte")
    for t in (".ACCU 7", ".ACCU 24", ".INDEX 0", ".INDEX 32", ".ACCU", ".INDEX", "REP #$100", "SEP #256", ".ACCU Lab", "REP #Lab"):
        yield cells.refuse("65816", "bad", t)

# other processors: only the address size
OTHER = {"6502": {"LDA %s": (0xA5, 0xAD), "STA %s": (0x85, 0x8D), "INC %s,X": (0xF6, 0xFE), "LDX %s,Y": (0xB6, 0xBE)}, "6800": {"LDAA %s": (0x96, 0xB6), "STAB %s": (0xD7, 0xF7), "LDX %s": (0xDE, 0xFE)}, "6809": {"LDA %s": (0x96, 0xB6), "JMP %s": (0x0E, 0x7E), "STD %s": (0xDD, 0xFD), "LDU %s": (0xDE, 0xFE)}}
FAM = {"6502": "6502", "65c02": "6502", "65ce02": "6502", "huc6280": "6502", "6800": "6800", "6801": "6800", "6809": "6809"}
def cases_other(tier):
    for cpu, fam in FAM.items():
        big = fam != "6502"
        T = OTHER[fam]
        def enc(t, n, v):
            if not -128 <= v <= 255: n = 2
            return bytes((T[t][n - 1],)) + (v & (0xff if n == 1 else 0xffff)).to_bytes(n, "big" if big else "little")
        ops = [(".8BIT", 8), (".16BIT", 16), (".IF 0\n.16BIT\n.ENDIF", None), (".IF 1\n.16BIT\n.ENDIF", 16)]
        ops += [(" " + t % v, None, t, v) for t in T for v in ("$12", "$12.B", "$12.W", "$1234", "Lab")]
        W = list(itertools.product(range(len(ops)), repeat=4 if tier == "thorough" else 3))
        W = [W[i * 7919 % len(W)] for i in range(len(W))]
        size = 6000
        for i in range(0, len(W), size // 4):
            part = W[i:i + size // 4]; src = []; exp = bytearray(); st = 8; where = []
            for w in part:
                for k in w:
                    o = ops[k]; src.append(o[0])
                    if len(o) == 2: st = o[1] or st; continue
                    t, v = o[2], o[3]
                    n = 1 if v.endswith(".B") else 2 if v.endswith(".W") else 1 if st == 8 else 2
                    where.append((len(exp), o[0], st)); exp += enc(t, n, 0x12 if v[1:3] == "12" and len(v) < 5 else 0x1234 if v == "$1234" else 0x12)
                    if v in ("$12.B", "$12.W"): pass
            exp = bytes(exp)
            def judge(res, exp=exp, where=where, cpu=cpu):
                if not res.ok: return "%s: refused: %s" % (cpu, res.outs[-1].decode("latin1")[:300])
                rom = res.files["o.bin"][0x100:0x100 + len(exp)]
                if rom == exp: return None
                k = next(i for i in range(len(exp)) if rom[i] != exp[i])
                m = [m for m in where if m[0] <= k][-1]
                return "%s: %s after .%dBIT: got %s..., expected %s..." % (cpu, m[1].strip(), m[2], rom[m[0]:m[0] + 3].hex(" "), exp[m[0]:m[0] + 3].hex(" "))
            src = "\n".join(src)
            prog = lambda src=src, cpu=cpu: run.one(cpu, run.memmap(0x10000) + ".BANK 0\n.ORG $12\nLab:\n.ORG $100\n" + src + "\n")
            yield Case("%s:%d" % (cpu, i), prog, judge, steps=3 * len(part), states=["%s:%d" % (cpu, i + j) for j in range(len(part))], n=len(part))

def cases(tier):
    yield from cases65816(tier)
    yield from cases_other(tier)
