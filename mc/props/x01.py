"""X01: assembler-time calculations equal the documented arithmetic."""
import itertools, struct
from .. import run
from ..check import Case
from ..model import expr as M
from ..model.gen_expr import enumerate_exprs, ARITH

ID = "X01"
LEVEL = "model_checking"
TOOLS = ["6502", "65816", "wlalink"]
RULE = ("every expression text over the operator set with 1..4 operands, every parenthesization, fixed operand tuples chosen to separate "
        "groupings; non-trivial = distinct expression text whose value the model defines; states = distinct (operators, grouping) parser inputs")
BOUNDS = {"quick": "binary operators: 11; up to 3 operators (4 operands), all bracketings; unary -, <, >, ~ on each position; all functions over an argument grid; all literal forms",
          "thorough": "as quick with more operand tuples and 4 operators (5 operands) unbracketed"}
HEAD = run.memmap(0x1000)
N = 128

def pack(v):
    return struct.pack("<i", M.I(v))

def good(text, env, funcs=None):
    try:
        v, n = M.evaluate(text, env, funcs)
        M.I(v)
        return v, n
    except M.Undef:
        return None
    except M.Reject:
        return "reject"

ENV = {"C7": 7, "C3": 3, "CM5": -5, "CF": 2.5, "C0": 0, "CBIG": 0x12345}
DEFS = ".DEFINE C7 7\n.DEFINE C3 = 3\n.DEF CM5 -5\n.DEFINE CF 2.5\n.DEFINE C0 0\n.EQU CBIG $12345\n"

FUNCS = {"SUMAB": lambda a, b: a + b, "SC": lambda a: a * 3 - 1, "SUM3": lambda a, b, c: a + b + c, "FIX": lambda: 41}
FDEF = ".FUNCTION SUMAB(varA,varB) (varA+varB)\n.FUNCTION SC(q) q*3-1\n.FUNCTION SUM3(a1,b1,c1) SUMAB(a1,SUMAB(b1,c1))\n.FUNCTION FIX() 41\n"

def texts(tier):
    t1 = [("7", "3"), ("200", "13"), ("$1234", "2"), ("-6", "4"), ("C7", "CM5"), ("5", "2.5"), ("%1011", "'A'"), ("CBIG", "C3")]
    t3 = [("7", "3", "2"), ("90", "4", "3"), ("C7", "CM5", "3"), ("-9", "2", "1")]
    t4 = [("9", "4", "2", "3"), ("C7", "-2", "5", "1")]
    if tier == "thorough":
        t3 += [("6", "2.5", "2"), ("255", "7", "15"), ("1000", "C3", "8"), ("0", "1", "2")]
        t4 += [("100", "7", "3", "2"), ("-3", "2", "3", "1"), ("5", "C3", "1.5", "2")]
    yield "bin2", enumerate_exprs(2, ARITH, t1, (False, True))
    yield "bin3", enumerate_exprs(3, ARITH, t3)
    yield "bin4", enumerate_exprs(4, ARITH, t4)
    if tier == "thorough":
        yield "bin5", (e for e in enumerate_exprs(5, ARITH, [("9", "4", "2", "3", "1"), ("100", "7", "3", "2", "2")]) if "(" not in e)
    def unary():
        us = ["", "-", "<", ">"]
        for u0, u1 in itertools.product(us, us):
            for o in ARITH:
                for a, b in (("$1234", "$0302"), ("C7", "CBIG"), ("-7", "2"), ("CM5", "C3")):
                    if u0 == "-" and a.startswith("-") or u1 == "-" and b.startswith("-"):
                        continue
                    yield u0 + a + o + u1 + b
                    yield u0 + "(" + a + o + u1 + b + ")"
                    yield "(" + u0 + a + ")" + o + u1 + b
                    yield u0 + a + o + "(" + u1 + b + ")"
        for v in ("0", "1", "255", "C7", "C0", "$1234", "(1-1)", "(7&8)"):
            yield "~" + v
            yield "~" + v + "+5"
            yield "3+(~" + v + ")"
            yield "-" + v; yield "-(" + v + ")"; yield "-(-" + v + ")" ; yield "+" + v
            yield "<" + v; yield ">" + v; yield "-(" + v + "+3)*2"
    yield "unary", unary()
    def lits():
        for v in (0, 1, 9, 10, 15, 16, 127, 128, 255, 256, 4095, 32767, 32768, 65535, 65536, 0xabcdef, 0x7fffffff):
            h = "%x" % v
            yield "%d" % v
            for f in ("$" + h, "$" + h.upper(), "0x" + h, "0" + h + "h" if len(h) < 8 else "$" + h, "%" + bin(v)[2:], "0b" + bin(v)[2:], "$" + h.zfill(8)):
                yield f
                yield f + "+1-1"
            if v < 0x7fffffff:
                yield "%d+1" % v
            yield "-%d" % v
        for v in (0x80000000, 0xffffffff, 0xdeadbeef):
            yield "$%x" % v
            yield "%" + bin(v)[2:]
        for c in [chr(x) for x in range(33, 127) if chr(x) not in "'\"\\;"] + ["\\t", "\\n", "\\r", "\\0"]:
            yield "'%s'" % c
            yield "'%s'+1" % c
        for i, f in itertools.product((0, 1, 7, 12, 100), (0, 5, 25, 125, 75, 999)):
            yield "%d.%d" % (i, f)
            yield "%d.%d*1000" % (i, f)
            yield "%d.%d*8+0.5" % (i, f)
            yield "-%d.%d*16" % (i, f)
    yield "literals", lits()
    def funcs():
        xs = ["0", "1", "-1", "2", "0.5", "-0.5", "3.7", "-3.7", "2.5", "-2.5", "100", "$1234", "$12345678", "-300", "C7", "CM5", "CF", "1+2", "7/2", "(1+2)*-3"]
        for f in sorted(M.F1):
            for x in xs:
                yield "%s(%s)" % (f, x)
                yield "round(%s(%s)*10000)" % (f, x)
                yield "-%s(%s)" % (f, x)
                yield "5+%s(%s)*2" % (f, x)
                yield "5*2-%s(%s)" % (f, x)
                yield "%s(%s(%s))" % (f, "abs", x)
        ys = ["0", "1", "-1", "2", "3.5", "-7", "C7", "2+3", "9/2"]
        for f in sorted(M.F2):
            for x, y in itertools.product(ys, ys):
                yield "%s(%s,%s)" % (f, x, y)
                yield "round(%s(%s, %s)*1000)+1" % (f, x, y)
                yield "-%s(%s,%s)*3" % (f, x, y)
        for v, lo, hi in itertools.product(["0", "5", "-5", "C7", "3.5", "10"], ["-2", "0", "3"], ["4", "6", "CF+7"]):
            yield "clamp(%s,%s,%s)" % (v, lo, hi)
            yield "-clamp(%s, %s, %s)+1" % (v, lo, hi)
            yield "max(min(%s,%s),%s)" % (v, hi, lo)
    yield "functions", funcs()
    def user():
        for x in ("1", "2+3", "C7", "-4", "2*3", "(1|6)", "2.5"):
            yield "SC(%s)" % x; yield "SC(%s)+1" % x; yield "2*SC(%s)" % x; yield "SC(SC(%s))" % x; yield "10-SC(%s)" % x
            for y in ("5", "C3-1", "FIX()", "-1"):
                yield "SUMAB(%s,%s)" % (x, y); yield "SUMAB(%s, %s)*2" % (x, y); yield "SUM3(%s,%s,1)" % (x, y); yield "3*SUM3(%s,SUMAB(1,%s),2)-1" % (x, y)
    yield "userfunctions", user()

def judge_values(exprs, base=0):
    def j(res):
        if res.rcs != [0, 0]:
            return "tools rejected a valid program: rc=%s %r" % (res.rcs, res.outs[-1][:300])
        b = res.files["o.bin"]
        if b is None: return "no output"
        for i, (e, v) in enumerate(exprs):
            got = b[i * 4:i * 4 + 4]
            if got != pack(v):
                # what follows may only have moved: report the first difference
                return [(e, "%s: model says %d, the tools wrote %s" % (e, M.I(v), got[::-1].hex()))]
        return None
    return j

def judge_reject(res):
    return None if res.rcs and res.rcs[0] not in (0,) and res.rcs[0] > 0 else "a calculation that cannot have a value was accepted: rc=%s" % res.rcs

def cases(tier):
    for fam, gen in texts(tier):
        batch = []; rejects = []; seen = set(); nsteps = 0; k = 0
        def flush():
            src = HEAD + DEFS + FDEF + ".BANK 0\n.ORG 0\n" + "".join(".DD %s\n" % e for e, _ in batch)
            return Case("%s#%d" % (fam, k), run.one("6502", src), judge_values(list(batch)), steps=nsteps,
                        states=[e for e, _ in batch], n=len(batch))
        for e in gen:
            if e in seen or '--' in e: continue
            seen.add(e)
            g = good(e, ENV, FUNCS)
            if g is None: continue
            if g == "reject":
                if len(rejects) < (40 if tier == "quick" else 300): rejects.append(e)
                continue
            batch.append((e, g[0])); nsteps += max(1, g[1])
            if len(batch) == N:
                yield flush(); batch = []; nsteps = 0; k += 1
        if batch:
            yield flush()
        for e in rejects:
            yield Case("%s/reject/%s" % (fam, e), run.asm_only("6502", HEAD + DEFS + FDEF + ".BANK 0\n.ORG 0\n.DD %s\n" % e), judge_reject)
    # the same value everywhere a number is expected
    for e in ("3+4*2", "C7-CM5", "(1+2)*3", "17#5", "1<<3", "10/2.5", "$f0&%00111100", "min(9,4)+1", "SC(2)", "-(-6)", "7~2"):
        v, n = M.evaluate(e, ENV, FUNCS)
        k = M.I(v)
        body = (".DB %s\n.DW %s\n.DL %s\n.DD %s\n.DSB %s, %s\n.DSW 2, %s\n.DEFINE Q %s\n.DB Q\n.REDEFINE Q Q+1\n.DB Q\n.IF Q == %d\n.DB 1\n.ELSE\n.DB 2\n.ENDIF\n.REPEAT %s\n.DB 9\n.ENDR\n lda #%s\n.DB %s, %s\n"
                % (e, e, e, e, e, e, e, e, k + 1, e, e, e, e))
        exp = bytes([k]) + k.to_bytes(2, "little") + k.to_bytes(3, "little") + k.to_bytes(4, "little") + bytes([k]) * k + k.to_bytes(2, "little") * 2 + bytes([k, k + 1, 1]) + b"\x09" * k + bytes([0xa9, k, k, k])
        def j(res, exp=exp, e=e):
            if res.rcs != [0, 0]: return "rejected: %r" % res.outs[-1][:300]
            return None if res.files["o.bin"][:len(exp)] == exp else "%s in directives: expected %s, got %s" % (e, exp.hex(), res.files["o.bin"][:len(exp)].hex())
        yield Case("contexts/" + e, run.one("6502", HEAD + DEFS + FDEF + ".BANK 0\n.ORG 0\n" + body), j, steps=14)
