"""6809 register operands: EXG/TFR postbytes and PSH/PUL register lists, from the processor's definition."""
import itertools
CODE = dict(D=0, X=1, Y=2, U=3, S=4, PC=5, A=8, B=9, CC=10, DP=11)

def forms(tier):
    for mn, op in (("EXG", 0x1E), ("TFR", 0x1F)):
        for a, b in itertools.product(CODE, repeat=2):
            if (CODE[a] < 8) != (CODE[b] < 8): continue          # undefined on the processor
            yield "%s %s,%s" % (mn, a, b), bytes([op, CODE[a] << 4 | CODE[b]])
    for mn, op, other in (("PSHS", 0x34, "U"), ("PULS", 0x35, "U"), ("PSHU", 0x36, "S"), ("PULU", 0x37, "S")):
        regs = ["CC", "A", "B", "DP", "X", "Y", other, "PC"]
        for m in range(1, 256):
            l = [r for i, r in enumerate(regs) if m >> i & 1]
            yield "%s %s" % (mn, ",".join(l)), bytes([op, m])
            if len(l) > 1 and m % 5 == 0: yield "%s %s" % (mn, ",".join(reversed(l))), bytes([op, m])
