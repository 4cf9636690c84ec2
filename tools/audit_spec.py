"""Compares spec/<cpu>.forms with opcode maps built here from the published regular structure of the instruction sets.
   python3 tools/audit_spec.py        (a development aid: the forms were fitted to the assembler, this is the independent second source)"""
import json, os, re, sys
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
def forms(cpu):
    for l in open(os.path.join(SPEC, cpu + ".forms")):
        t, p = json.loads(l)
        yield t, p

# ---- Z80 by decoding the byte pattern (x, y, z, p, q)
def z80_dis(bs, sets=None):
    """opcode bytes (fixed part) -> canonical text with N (8 bit), NN (16 bit), D (disp), E (relative)"""
    R = ["B", "C", "D", "E", "H", "L", "(HL)", "A"]; RP = ["BC", "DE", "HL", "SP"]; RP2 = ["BC", "DE", "HL", "AF"]
    CC = ["NZ", "Z", "NC", "C", "PO", "PE", "P", "M"]; ALU = ["ADD A,", "ADC A,", "SUB ", "SBC A,", "AND ", "XOR ", "OR ", "CP "]
    ROT = ["RLC", "RRC", "RL", "RR", "SLA", "SRA", "SLL", "SRL"]
    idx = None; b = list(bs)
    if b[0] in (0xDD, 0xFD): idx = "IX" if b[0] == 0xDD else "IY"; b = b[1:]
    def r(i, mem=False):
        s = R[i]
        if idx and s == "(HL)": return "(%s+D)" % idx
        if idx and not mem and s in "HL": return idx + s
        return s
    def rp(i): return idx if idx and RP[i] == "HL" else RP[i]
    def rp2(i): return idx if idx and RP2[i] == "HL" else RP2[i]
    HL = idx or "HL"
    o = b[0]; x, y, z = o >> 6, o >> 3 & 7, o & 7; p, q = y >> 1, y & 1
    if o == 0xCB:
        o = b[-1]; x, y, z = o >> 6, o >> 3 & 7, o & 7
        m = "(%s+D)" % idx if idx else R[z]
        t = (ROT[y] + " " + m) if x == 0 else "%s %d,%s" % (["", "BIT", "RES", "SET"][x], y, m)
        if idx and z != 6 and x != 1: t = "%s,%s" % (t, R[z])
        return t
    if o == 0xED:
        o = b[1]; x, y, z = o >> 6, o >> 3 & 7, o & 7; p, q = y >> 1, y & 1
        if x == 1:
            if z == 0: return "IN (C)" if y == 6 else "IN %s,(C)" % R[y]
            if z == 1: return "OUT (C),0" if y == 6 else "OUT (C),%s" % R[y]
            if z == 2: return ("ADC" if q else "SBC") + " HL," + RP[p]
            if z == 3: return "LD %s,(NN)" % RP[p] if q else "LD (NN),%s" % RP[p]
            if z == 4: return "NEG"
            if z == 5: return "RETI" if y == 1 else "RETN"
            if z == 6: return "IM %d" % [0, 0, 1, 2, 0, 0, 1, 2][y]
            return ["LD I,A", "LD R,A", "LD A,I", "LD A,R", "RRD", "RLD", "NOP", "NOP"][y]
        if x == 2 and z < 4 and y >= 4: return [["LDI", "CPI", "INI", "OUTI"], ["LDD", "CPD", "IND", "OUTD"], ["LDIR", "CPIR", "INIR", "OTIR"], ["LDDR", "CPDR", "INDR", "OTDR"]][y - 4][z]
        return None
    if x == 0:
        if z == 0: return ["NOP", "EX AF,AF'", "DJNZ E", "JR E"][y] if y < 4 else "JR %s,E" % CC[y - 4]
        if z == 1: return "ADD %s,%s" % (HL, rp(p)) if q else "LD %s,NN" % rp(p)
        if z == 2: return [["LD (BC),A", "LD (DE),A", "LD (NN),%s" % HL, "LD (NN),A"], ["LD A,(BC)", "LD A,(DE)", "LD %s,(NN)" % HL, "LD A,(NN)"]][q][p]
        if z == 3: return ("DEC " if q else "INC ") + rp(p)
        if z == 4: return "INC " + r(y)
        if z == 5: return "DEC " + r(y)
        if z == 6: return "LD %s,N" % r(y)
        return ["RLCA", "RRCA", "RLA", "RRA", "DAA", "CPL", "SCF", "CCF"][y]
    if x == 1:
        if y == z == 6: return "HALT"
        mem = 6 in (y, z)
        return "LD %s,%s" % (r(y, mem), r(z, mem))
    if x == 2: return ALU[y] + r(z)
    if z == 0: return "RET " + CC[y]
    if z == 1: return ["RET", "EXX", "JP (%s)" % HL, "LD SP,%s" % HL][p] if q else "POP " + rp2(p)
    if z == 2: return "JP %s,NN" % CC[y]
    if z == 3: return ["JP NN", None, "OUT (N),A", "IN A,(N)", "EX (SP),%s" % HL, "EX DE,HL", "DI", "EI"][y]
    if z == 4: return "CALL %s,NN" % CC[y]
    if z == 5: return "CALL NN" if q and p == 0 else (None if q else "PUSH " + rp2(p))
    if z == 6: return ALU[y] + "N"
    return "RST %d" % (y * 8)

def enumerate_piece(doms, enc):
    """yields (fixed opcode bytes, operand layout) for a piece, small register-like operands enumerated"""
    sys.path.insert(0, os.path.dirname(SPEC))
    from mc.props import e01
    rows = e01.comp(enc)
    import itertools
    ranges = []
    for lo, hi, st in doms: ranges.append(list(range(lo, hi + 1, st)) if hi - lo <= 60 else [lo if lo > -1000000 else 0])
    for vals in itertools.product(*ranges):
        yield vals, e01.bytes_of(rows, [v & 0xffffffff for v in vals])

def canon(n):
    n = re.sub(r"([A-Z)])'", r"\1", n).replace("SLI ", "SLL ").replace("SL1 ", "SLL ").replace("IN F,(C)", "IN (C)")
    n = re.sub(r"^(SUB|AND|XOR|OR|CP) A,", r"\1 ", n)
    n = re.sub(r"^(ADD|ADC|SBC) ([^,]+)$", r"\1 A,\2", n)
    n = re.sub(r"^JP (HL|IX|IY)$", r"JP (\1)", n)
    n = re.sub(r"^LD ([A-Z]),((?:RES|SET) \d,|[A-Z]{2,3} )(\(I[XY]\+D\))$", r"\2\3,\1", n)
    n = re.sub(r"(HL|IX|IY|R)[ ]*$", r"\1", n)
    n = re.sub(r"I([XY])([HL])", r"I\1\2", n)
    return n

def z80():
    bad = 0
    for cpu in ("z80", "z80n"):
        for t, ps in forms(cpu):
            for doms, enc in ps:
                for vals, bs in enumerate_piece(doms, enc):
                    it = iter(zip(vals, doms))
                    def sub(m):
                        v, (lo, hi, st) = next(it)
                        if hi - lo <= 60: return str(v)
                        return {(-128, 127): "D", (-128, 255): "N", (-32768, 65535): "NN"}[(lo, hi)]
                    txt = re.sub(r"\{[sv]\}", sub, t)
                    txt = re.sub(r"(I[XY])D", r"\1+D", txt)
                    txt = re.sub(r"^(JR|DJNZ)( \w+,| )[DN]+$", r"\1\2E", txt)
                    try: d = z80_dis(bs)
                    except Exception as e: d = repr(e)
                    if not d or canon(txt) != canon(d):
                        bad += 1
                        print(cpu, t, vals, bs.hex(" "), "decodes to", d)
    return bad
if __name__ == "__main__":
    for f in sys.argv[1:] or ["z80"]: print(f, globals()[f]())
