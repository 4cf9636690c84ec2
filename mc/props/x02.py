"""X02: calculations finished by the linker equal the same calculations with the values written out."""
import itertools, struct
from .. import run
from ..check import Case
from ..model import expr as M
from ..model.gen_expr import enumerate_exprs, ARITH
from .x01 import good, FUNCS, FDEF

ID = "X02"
LEVEL = "model_checking"
TOOLS = ["6502", "68000", "wlalink"]
RULE = ("every expression text over the operator set with 1..4 operands where every operand, or exactly one, is an imported definition or label, every "
        "parenthesization; definition chains in every order and file distribution; non-trivial = distinct expression the model gives a value; states = distinct expressions")
BOUNDS = {"quick": "11 operators, up to 3 operators (4 operands), all bracketings; chains of 3 definitions over 2 files", "thorough": "more operand tuples, chains of 4"}
N = 128
HEAD = run.memmap(0x1000)
EXP = {"I7": 7, "I3": 3, "I2": 2, "IM5": -5, "IF": 2.5, "I0": 0, "IB": 0x12345, "I90": 90, "I9": 9, "I1": 1, "IW": 0x1234, "IL": 0x12345678}
def num(v):
    return "-%s" % abs(v) if v < 0 else str(v)
BSRC = HEAD + "".join(".DEFINE %s %s EXPORT\n" % (k, num(v)) for k, v in EXP.items()) + ".BANK 0\n.ORG $800\nLB1: .DB 1\n.ORG $812\nLB2: .DB 1\n"
LAB = {"L900": 0x900, "L907": 0x907, "L903": 0x903, "LB1": 0x800, "LB2": 0x812}
ASRC_TAIL = ".ORG $900\nL900: .DB 0\n.ORG $903\nL903: .DB 0\n.ORG $907\nL907: .DB 0\n"
ENV = dict(EXP); ENV.update(LAB)

def world(body, cpu="6502", pre=""):
    return run.multi([(cpu, "a", HEAD + pre + ".BANK 0\n.ORG 0\n" + body + ASRC_TAIL, "o"), (cpu, "b", BSRC, "o")])

def judge_values(exprs, width=4, big=False):
    def j(res):
        if res.rcs != [0, 0, 0]:
            return "tools rejected a valid program: rc=%s %r" % (res.rcs, res.outs[-1][:300])
        b = res.files["o.bin"]
        if b is None: return "no output"
        for i, (e, v) in enumerate(exprs):
            got = b[i * width:(i + 1) * width]
            want = (M.I(v) & ((1 << (8 * width)) - 1)).to_bytes(width, "big" if big else "little")
            if got != want:
                return [(e, "%s: model says %d (%s), the linker wrote %s" % (e, M.I(v), want.hex(), got.hex()))]
        return None
    return j

def judge_fail(res):
    return None if res.rcs and res.rcs[-1] > 0 else "a calculation that cannot have a value was accepted: rc=%s" % res.rcs

def singles(tuples, ops, n):
    """exactly one operand imported, the others literal"""
    for names in tuples:
        lits = [num(EXP[x]) for x in names]
        for i in range(n):
            vals = list(lits); vals[i] = names[i]
            yield tuple(vals)

def texts(tier):
    t2 = [("I7", "I3"), ("I90", "IM5"), ("IW", "I2"), ("I9", "IF"), ("IB", "I3"), ("IM5", "I2")]
    t3 = [("I7", "I3", "I2"), ("I90", "IM5", "I3")]
    t4 = [("I9", "I7", "I2", "I3")]
    if tier == "thorough":
        t3 += [("IW", "I9", "I1"), ("I9", "IF", "I2"), ("I0", "I1", "I2")]
        t4 += [("I90", "IM5", "I3", "I2"), ("I7", "I2", "IF", "I1")]
    yield "imp2", enumerate_exprs(2, ARITH, t2 + list(singles(t2, ARITH, 2)), (False, True))
    yield "imp3", enumerate_exprs(3, ARITH, t3 + list(singles(t3[:1 if tier == "quick" else 9], ARITH, 3)))
    yield "imp4", enumerate_exprs(4, ARITH, t4 + (list(singles(t4, ARITH, 4)) if tier == "thorough" else []))
    l2 = [("L907", "L903"), ("LB1", "I3"), ("L903", "7"), ("5", "LB2"), ("L907", "LB2"), ("LB2", "L900")]
    l3 = [("L907", "L903", "2"), ("LB2", "L900", "I3"), ("3", "L903", "LB1")]
    yield "lab2", enumerate_exprs(2, ARITH, l2, (False,))
    yield "lab3", enumerate_exprs(3, ARITH, l3)
    def unary():
        us = ["", "-", "<", ">"]
        for u0, u1 in itertools.product(us, us):
            for o in ARITH:
                for a, b in (("IW", "I2"), ("L907", "IB"), ("I7", "LB2"), ("IM5", "$0302")):
                    yield u0 + a + o + u1 + b
                    yield u0 + "(" + a + o + u1 + b + ")"
                    yield "(" + u0 + a + ")" + o + u1 + b
        for v in list(EXP) + list(LAB):
            for u in ("", "-", "<", ">", "+", "~"):
                yield u + v; yield u + v + "+5"; yield "3+(%s)" % (u + v); yield "-(%s)*2" % (u + v)
    yield "unary", unary()
    def funcs():
        xs = list(EXP) + ["L907", "I7+1", "I7/I2", "-I7", "I90-IW", "LB2-LB1", "(I7+I3)*-2"]
        for f in sorted(M.F1):
            for x in xs:
                yield "%s(%s)" % (f, x)
                if f not in ("lobyte", "hibyte", "bankbyte", "loword", "hiword"):
                    yield "round(%s(%s)*1000)" % (f, x)
                    yield "round(%s(%s/10)*1000)" % (f, x)
                yield "-%s(%s)" % (f, x)
                yield "5+%s(%s)*2" % (f, x)
                yield "I7*2-%s(%s)" % (f, x)
        ys = ["I7", "I3", "IM5", "IF", "I0", "LB2-LB1", "4", "I2+1"]
        for f in sorted(M.F2):
            for x, y in itertools.product(ys, ys):
                yield "%s(%s,%s)" % (f, x, y)
                yield "round(%s(%s, %s)*100)+1" % (f, x, y)
                yield "-%s(%s,%s)*3" % (f, x, y)
        for v, lo, hi in itertools.product(["I0", "I7", "IM5", "IF", "90"], ["-2", "I0", "I2"], ["I3", "6", "IF+7"]):
            yield "clamp(%s,%s,%s)" % (v, lo, hi)
            yield "-clamp(%s, %s, %s)+1" % (v, lo, hi)
            yield "max(min(%s,%s),%s)" % (v, hi, lo)
    yield "functions", funcs()
    def user():
        for x in ("I7", "I2+3", "IM5", "2*I3", "L907-L903"):
            yield "SC(%s)" % x; yield "SC(%s)+1" % x; yield "2*SC(%s)" % x; yield "SC(SC(%s))" % x; yield "10-SC(%s)" % x
            for y in ("5", "I3-1", "FIX()"):
                yield "SUMAB(%s,%s)" % (x, y); yield "SUMAB(%s, %s)*2" % (x, y); yield "SUM3(%s,%s,1)" % (x, y); yield "3*SUM3(%s,SUMAB(1,%s),2)-1" % (x, y)
    yield "userfunctions", user()
    def cmpops():
        for o in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            for a, b in itertools.product(("I7", "I3", "L907", "I0"), ("I7", "I3", "7", "I0", "LB1")):
                yield "(%s%s%s)" % (a, o, b)
                yield "2+(%s %s %s)*3" % (a, o, b)
    yield "comparisons", cmpops()

def cases(tier):
    for fam, gen in texts(tier):
        batch = []; rejects = []; seen = set(); nsteps = 0; k = 0
        def flush():
            body = "".join(".DD %s\n" % e for e, _ in batch)
            return Case("%s#%d" % (fam, k), world(body, pre=FDEF), judge_values(list(batch)), steps=nsteps, states=[e for e, _ in batch], n=len(batch))
        for e in gen:
            if e in seen or "--" in e: continue
            seen.add(e)
            g = good(e, ENV, FUNCS)
            if g is None: continue
            if g == "reject":
                if len(rejects) < (30 if tier == "quick" else 300): rejects.append(e)
                continue
            batch.append((e, g[0])); nsteps += max(1, g[1])
            if len(batch) == N:
                yield flush(); batch = []; nsteps = 0; k += 1
        if batch:
            yield flush()
        for e in rejects:
            yield Case("%s/reject/%s" % (fam, e), world(".DD %s\n" % e), judge_fail)
    # widths, byte orders, and what does not fit
    for cpu, big in (("6502", False), ("68000", True)):
        for w, d in ((1, ".DB"), (2, ".DW"), (3, ".DL"), (4, ".DD")):
            lo = -(1 << (8 * w - 1)); hi = (1 << (8 * w)) - 1
            ok = []
            for e in ("I7-I90", "I7+I3*2", "IM5", "~I7", "~I0", "<IB", "-IF*2", "I0-%d" % -lo, "I0+%d" % min(hi, 0x7fffffff), "L907-L903", "(~I3)&I7", "I7-%d" % (7 - lo) if w < 4 else "I7"):
                v = M.evaluate(e, ENV, FUNCS, notmask=(1 << (8 * w)) - 1)[0]
                if lo <= M.I(v) <= hi: ok.append((e, v))
            yield Case("width/%s/%s" % (cpu, d), world("".join("%s %s\n" % (d, e) for e, _ in ok), cpu=cpu), judge_values(ok, w, big), steps=len(ok), n=len(ok))
            if w < 4:
                for e in ("I0+%d" % (hi + 1), "I0-%d" % (-lo + 1), "I1+%d" % hi, "IM5-%d" % (-lo - 4)):
                    yield Case("width/%s/%s/reject/%s" % (cpu, d, e), world("%s %s\n" % (d, e), cpu=cpu), judge_fail)
    # plain imported definitions at the limits of every width, used directly and in a calculation
    for cpu, big in (("6502", False), ("68000", True)):
        for w, d in ((1, ".DB"), (2, ".DW"), (3, ".DL"), (4, ".DD")):
            lo = -(1 << (8 * w - 1)); hi = (1 << (8 * w)) - 1
            vals = sorted({lo, lo + 1, -1, 0, 1, hi // 2, hi // 2 + 1, min(hi - 1, 2**31 - 1), min(hi, 2**31 - 1)} | {a * b for a in (1, -1) for b in (5, 127, 128) if lo <= a * b <= hi}); vals = [v for v in vals if v < 2**31]
            bad = [] if w == 4 else [lo - 1, hi + 1, lo * 2, hi * 2, hi + 0x101, 0x12345678, -0x12345678] + ([0x10005, 0x1ff80] if w < 2 else []) + ([0x1000005] if w < 3 else [])
            for v in vals + bad:
                for dv in (num(v), "FF+1"):
                    b = HEAD + ".DEFINE FF %s\n.DEFINE DV %s EXPORT\n" % (num(v - 1) if v - 1 >= -2**31 else num(v), dv)
                    if dv == "FF+1" and v - 1 < -2**31: continue
                    for e in ("DV", "DV+0", "-(-DV)"):
                        prog = run.multi([(cpu, "a", HEAD + ".BANK 0\n.ORG 0\n%s %s, 1\n" % (d, e), "o"), (cpu, "b", b, "o")])
                        key = "plain/%s/%s/%s/%d/%s" % (cpu, d, e, v, dv)
                        yield Case(key, prog, judge_fail if v in bad else judge_values([(e, v), ("1", 1)], w, big))
    # the slot is not at address 0, and the labels are in other banks: RAM and ROM addresses differ
    head = run.memmap(0x1000, banks=4, start=0x8000)
    env = {"P0": 0x8000, "P1": 0x8001, "P2": 0x8002, "P7": 0x8123, "E3": 3, "E0": 0, "E9": 900, "PD": 0x8124, "PE": 0x8124 * 2}
    bsrc = head + ".DEFINE E3 3 EXPORT\n.DEFINE E0 0 EXPORT\n.DEFINE E9 900 EXPORT\n.DEFINE PD P7+1\n.EXPORT PD\n.DEFINE PE = PD*2\n.EXPORT PE\n.BANK 2\n.ORG 0\nP0: .DB 1\nP1: .DB 2\nP2: .DB 3\n"
    asrc = head + ".BANK 3\n.ORG $123\nP7: .DB 1\n.BANK 0\n.ORG 0\n"
    for n, tup in ((2, list(itertools.permutations(["P0", "P2", "P7", "E3", "PD"], 2)) + [("E9", "P1"), ("PE", "E3"), ("5", "P0"), ("P7", "3")]), (3, [("P7", "P0", "E3"), ("E9", "P1", "P0"), ("PE", "P7", "P2"), ("P2", "PD", "7")])):
        batch = []
        for e in enumerate_exprs(n, ARITH, tup):
            g = good(e, env, FUNCS)
            if g is None or g == "reject" or "--" in e: continue
            batch.append((e, g[0]))
        for f in ("min(P7,P0)", "max(P0, P7)", "min(P2,E3)", "clamp(P7,P0,P2)", "abs(P0-P7)", "sign(P0-P7)", "hibyte(P7)", "lobyte(P7)", "loword(PE)", "hiword(PE*4)", "pow(E3,P2-P0)", "E9/P0", "900/P0", "P7#E3"):
            batch.append((f, M.evaluate(f, env, FUNCS)[0]))
        for f in ("bank", "bankbyte"):
            for x, v in (("P0", 2), ("P7", 3), ("PD", 3), ("P1+1", 2), ("P7|0", 3), ("PD+0", 3), ("(PD*1)", 3), ("P7-1", 3)):
                if f == "bankbyte" or "*" not in x: batch.append(("%s(%s)" % (f, x), v))
        for i in range(0, len(batch), N):
            b = batch[i:i + N]
            yield Case("banked%d#%d" % (n, i), run.multi([("6502", "a", asrc + "".join(".DD %s\n" % e for e, _ in b), "o"), ("6502", "b", bsrc, "o")]), judge_values(b), steps=len(b), states=[e for e, _ in b], n=len(b))
    # definition chains: every order, every distribution over the two files, every operator in the middle
    names = ["D0", "D1", "D2"] if tier == "quick" else ["D0", "D1", "D2", "D3"]
    for op0, op1 in itertools.product(["+", "-", "*", "#", "&", "<<"], ["-", "*", "|"]):
        exprs = {"D0": "I7%sI3" % op0, "D1": "D0%s2" % op1, "D2": "D1+D0", "D3": "(D2-D1)*I2"}
        vals = {}
        env = dict(ENV)
        for n in names:
            env[n] = vals[n] = M.evaluate(exprs[n], env)[0]
        for order in itertools.permutations(names):
            for where in itertools.product((0, 1), repeat=len(names)):
                pre = ["", ""]
                for n in order:
                    pre[where[names.index(n)]] += ".DEFINE %s = %s\n.EXPORT %s\n" % (n, exprs[n], n)
                items = [(n, vals[n]) for n in names] + [("%s*2+1" % n, vals[n] * 2 + 1) for n in names] + [("10-%s" % n, 10 - vals[n]) for n in names]
                body = "".join(".DD %s\n" % e for e, _ in items)
                p = run.multi([("6502", "a", HEAD + pre[0] + ".BANK 0\n.ORG 0\n" + body + ASRC_TAIL, "o"), ("6502", "b", BSRC + pre[1], "o")])
                yield Case("chain/%s%s/%s/%s" % (op0, op1, "".join(order), "".join(map(str, where))), p, judge_values(items), steps=len(names), n=len(items))
