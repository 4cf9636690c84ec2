"""L03: placement of RAM sections, against the first-fit model; each RAM bank of a slot is a little world of its own."""
import itertools
from .. import run
from ..check import Case
from ..model.place import Sec, orders, layouts
from .l02 import symbols

ID = "L03"
LEVEL = "model_checking"
TOOLS = ["wlalink", "z80"]
RULE = "distinct set of RAM sections with options whose variable addresses, banks and references (or refusal) were compared with the placement model"
BOUNDS = {"quick": "16-byte RAM slots (at an aligned and at an odd address): all ordered triples over 15 and quadruples over 7 choices of kind, size, start and alignment; all alignments, offsets, starts, windows and bit windows of pairs; priorities with every option and write order; several banks and slots; sections placed after or appended to others; library sections placed by the link file",
          "thorough": "as quick with quadruples over 11 choices, all 24 write orders for all triples and finer windows"}
CPU = "z80"
N = 16
ORDER = ["FORCE", "SEMISUBFREE", "SEMIFREE", "FREE"]
SLOTS = [(0, 0x1000), (0x1000, N), (0x2003, N), (0x3000, 8)]
MAP = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $0 $1000\nSLOT 1 $1000 $10\nSLOT 2 $2003 $10 \"Odd\"\nSLOT 3 $3000 8\n.ENDME\n.ROMBANKSIZE $1000\n.ROMBANKS 1\n"

def text(s, name, lab, form=0, extra="", lib=False):
    b = s.bank[0]
    pos = "" if lib else " BANK %d SLOT %s" % (b, [str(s.slot), "$%x" % SLOTS[s.slot][0], "\"Odd\"" if s.slot == 2 else str(s.slot)][form % 3])
    if s.kind != "FREE" and not lib: pos += " ORGA $%x" % (SLOTS[s.slot][0] + s.org) if form & 1 and s.org < SLOTS[s.slot][1] else " ORG %d" % s.org
    t = ".RAMSECTION \"%s\"%s%s%s%s%s%s%s %s%s" % (name, pos, " ALIGN %d" % s.align if s.align != 1 else "", " OFFSET %d" % s.off if s.off and s.after is None else "", " PRIORITY %d" % s.prio if s.prio else "", " WINDOW $%x $%x" % s.win if s.win else "",
                                              " BITWINDOW %d" % s.bitw if s.bitw else "", " RETURNORG" if form & 4 else "", s.kind if s.kind != "FREE" or form & 2 else "", extra)
    body = ["%s DB" % lab]
    if s.size > 1: body.append("%s_l DSB %d" % (lab, s.size - 1))
    return t + "\n" + "\n".join(body) + "\n.ENDS\n"

def many(tag, scen, per=32, args=(), link="", order=ORDER, **kw):
    group = []
    def flush():
        nonlocal group
        g, group = group, []
        def prog():
            t = [MAP]
            for b, (secs, _) in enumerate(g):
                for i, s in enumerate(secs):
                    s2 = Sec(s.kind, s.size, s.org, s.align, s.off, s.prio, s.win, s.bitw, (b, s.slot), s.slot, None, s.after)
                    t.append(text(s2, "s%d_%d" % (b, i), "L%d_%d" % (b, i), b + i, "" if s.after is None else " AFTER \"s%d_%d\"%s" % (b, s.after, " OFFSET %d" % s.off if s.off else "")))
            t.append(".BANK 0 SLOT 0\n.ORG 0\n")
            for b, (secs, _) in enumerate(g):
                t.append("".join(".DW L%d_%d\n.DB :L%d_%d\n" % (b, i, b, i) for i in range(len(secs))))
            return run.one(CPU, "".join(t), link_args=("-r", "-S") + args, link=link + "[objects]\na.o\n", reads=("o.bin", "o.sym"))
        def judge(res):
            if not res.ok: return "RAM sections that all fit were refused: %s" % res.outs[-1].decode("latin1")[:300]
            rom = res.files["o.bin"]; sym = symbols(res.files["o.sym"] or b""); bad = []; at = 0
            for b, (secs, ls) in enumerate(g):
                got = []
                for i, s in enumerate(secs):
                    got.append((int.from_bytes(rom[at:at + 2], "little"), rom[at + 2])); at += 3
                exps = [[(SLOTS[pos[i][0][1]][0] + pos[i][1], b) for i in range(len(secs))] for pos, _ in ls]
                w = None
                if got not in exps: w = "the (address, bank) of the sections are %s, expected %s" % (got, " or ".join(map(str, exps)))
                else:
                    for i, s in enumerate(secs):
                        if sym.get("L%d_%d" % (b, i)) != [(b, got[i][0])]: w = "the symbol file has section %d at %r, the code uses bank %d address $%x" % (i, sym.get("L%d_%d" % (b, i)), b, got[i][0])
                        if s.size > 1 and sym.get("L%d_%d_l" % (b, i)) != [(b, got[i][0] + 1)]: w = "the second variable of section %d is at %r" % (i, sym.get("L%d_%d_l" % (b, i)))
                if w:
                    k = ",".join("%s.%d" % (s.key(), s.slot) for s in secs)
                    bad.append(("%s:%s" % (tag, k), "RAM sections %s: %s" % (k, w)))
                    if len(bad) > 3: break
            return bad or None
        return Case("%s:%d:%s" % (tag, len(g), ",".join(s.key() for s in g[0][0])), prog, judge, steps=sum(len(s[0]) for s in g), states=["%s:%s" % (tag, ",".join("%s.%d" % (s.key(), s.slot) for s in secs)) for secs, _ in g], n=len(g))
    for secs in scen:
        sq = orders(secs, order, **kw)
        for i, s in enumerate(secs):
            if s.after is not None: sq = [q[:q.index(s.after) + 1] + [i] + q[q.index(s.after) + 1:] for q in sq]
        secs = [Sec(s.kind, s.size, s.org, s.align, s.off, s.prio, s.win, s.bitw, (0, s.slot), s.slot, None, s.after) for s in secs]
        ls, fail = layouts(secs, {(0, k): SLOTS[k][1] for k in (1, 2, 3)}, SLOTS, {}, sq, True)
        if not fail:
            group.append((secs, ls))
            if len(group) == per: yield flush()
        elif not ls: yield alone(tag, secs, args, link)
    if group: yield flush()

def alone(tag, secs, args=(), link=""):
    t = MAP + "".join(text(s, "s%d" % i, "L%d" % i, 0, "" if s.after is None else " AFTER \"s%d\"%s" % (s.after, " OFFSET %d" % s.off if s.off else "")) for i, s in enumerate(secs)) + ".BANK 0 SLOT 0\n.ORG 0\n.DW " + ", ".join("L%d" % i for i in range(len(secs))) + "\n"
    k = ",".join("%s.%d" % (s.key(), s.slot) for s in secs)
    def judge(res):
        if res.rcs[-1] > 0: return None
        if res.ok: return "RAM sections %s don't fit, but the link succeeded with addresses %s" % (k, [hex(int.from_bytes(res.files["o.bin"][2 * i:2 * i + 2], "little")) for i in range(len(secs))])
        return "abnormal end %r" % res.rcs
    return Case("%s:nofit:%s" % (tag, k), run.one(CPU, t, link_args=("-r", "-S") + args, link=link + "[objects]\na.o\n"), judge, steps=len(secs))

def pack(tier):
    for slot in (1, 2):
        A = [Sec(k, n, org, slot=slot) for k, org in (("FREE", 0), ("SEMIFREE", 5), ("SEMISUBFREE", 9), ("FORCE", 4)) for n in (1, 2, 3)] + [Sec("FREE", 8, slot=slot), Sec("FREE", 2, align=4, slot=slot), Sec("SEMIFREE", 3, 2, align=8, slot=slot)]
        yield from many("pack3", itertools.product(A, repeat=3))
        B = [Sec("FREE", 2, slot=slot), Sec("FREE", 5, slot=slot), Sec("SEMIFREE", 3, 6, slot=slot), Sec("SEMISUBFREE", 3, 8, slot=slot), Sec("FORCE", 3, 5, slot=slot), Sec("FREE", 2, align=4, off=1, slot=slot), Sec("SEMISUBFREE", 1, 16, align=2, slot=slot)]
        if tier != "quick": B += [Sec("FREE", 1, prio=4, slot=slot), Sec("SEMIFREE", 2, 11, slot=slot), Sec("FORCE", 1, 15, slot=slot), Sec("FREE", 4, bitw=2, slot=slot)]
        yield from many("pack4", itertools.product(B, repeat=4))

def shapes(tier):
    for slot in (1, 2):
        sa = SLOTS[slot][0]
        S = [Sec(k, n, org, al, off, slot=slot) for k in ("FREE", "SEMIFREE", "SEMISUBFREE") for n in (1, 3, 7) for al in (1, 2, 4, 8) for off in (0, 1, 3) for org in ((0, 3, 8, 13) if k != "FREE" else (0,))]
        O = [None, Sec("FORCE", 1, 0, slot=slot), Sec("FORCE", 2, 5, slot=slot), Sec("FORCE", 1, 8, slot=slot, prio=1)]
        yield from many("single", ((s,) + ((o,) if o else ()) for s in S for o in O))
        yield from many("forced", ((Sec("FORCE", n, org, slot=slot), Sec("FREE", 2, slot=slot)) for org in range(N + 1) for n in (1, 2, 5)))
        step = 2 if tier == "quick" else 1
        W = [Sec(k, n, org, al, win=(sa + a, sa + b), slot=slot) for k, org in (("FREE", 0), ("SEMIFREE", 4), ("SEMISUBFREE", 11)) for n in (1, 4) for al in (1, 4) for a in range(0, N, step) for b in range(a, N + 1, step)]
        yield from many("window", ((s,) + ((o,) if o else ()) for s in W for o in O[:3]))
        yield from many("bitwindow", ((Sec(k, n, 3, al, bitw=w, slot=slot),) + ((o,) if o else ()) for k in ("FREE", "SEMIFREE", "SEMISUBFREE") for n in (1, 2, 3, 4, 5, 8, 9) for al in (1, 2) for w in (1, 2, 3, 4) for o in O))

def prio(tier):
    slot = 1
    A = [Sec(k, n, org, prio=p, slot=slot) for k, org in (("FREE", 0), ("SEMIFREE", 2), ("SEMISUBFREE", 14)) for n, p in ((2, 0), (3, 0), (2, 5), (3, -1))] + [Sec("FORCE", 2, 6, prio=-3, slot=slot)]
    for a, kw in (((), {}), (("-nS",), {"sort": False}), (("-pR",), {"prio_only": True}), (("-nS", "-pR"), {"sort": False, "prio_only": True}), (("-pS",), {})):
        yield from many("prio" + "".join(a), (c for c in itertools.product(A, repeat=3) if len({(s.prio, s.size, s.kind) for s in c}) == 3), args=a, **kw)
    B = [Sec("FREE", 3, slot=1), Sec("SEMIFREE", 2, 2, slot=1), Sec("SEMISUBFREE", 4, 14, slot=1), Sec("FORCE", 2, 7, slot=1), Sec("FREE", 2, align=4, slot=1)]
    for p in itertools.permutations(ORDER):
        yield from many("order:" + ",".join(p), (c for n in ((2, 3) if tier == "quick" else (2, 3, 4)) for c in itertools.permutations(B, n)), link="[ramsectionwriteorder]\n" + "\n".join(p) + "\n", order=list(p))
    for bad in (ORDER[:-1], ORDER + ["FREE"], ORDER[:-1] + ["SEMIFREE"], ORDER[:-1] + ["SUPERFREE"]):
        def judge(res, bad=bad):
            if res.rcs[-1] <= 0: return "the write order %s was accepted" % bad
        yield Case("order:bad:%s" % ",".join(bad), run.one(CPU, MAP + ".BANK 0 SLOT 0\n.ORG 0\n.DB 1\n", link="[ramsectionwriteorder]\n" + "\n".join(bad) + "\n[objects]\na.o\n"), judge)

def slots(tier):
    """sections of different slots and banks don't disturb each other; the same slot and bank from two files does"""
    A = [Sec("FREE", n, slot=k) for k in (1, 2, 3) for n in (3, 6)] + [Sec("FORCE", 2, 4, slot=k) for k in (1, 3)] + [Sec("SEMIFREE", 2, 5, slot=3)]
    yield from many("slots", itertools.product(A, repeat=3))
    for b1, b2, s1, s2 in itertools.product((0, 1, 255), (0, 1, 255), (1, 2), (1, 2)):
        for n1, n2 in itertools.product((5, 10, 16, 17), repeat=2):
            fit = n1 <= 16 and n2 <= 16 and ((b1, s1) != (b2, s2) or n1 + n2 <= 16)
            m1 = MAP + ".RAMSECTION \"r\" BANK %d SLOT %d\nLa DSB %d\n.ENDS\n.BANK 0 SLOT 0\n.ORG 0\n.DW La, Lb\n.DB :La, :Lb\n" % (b1, s1, n1)
            m2 = MAP + ".RAMSECTION \"q\" BANK %d SLOT %d\nLb DSB %d\n.ENDS\n" % (b2, s2, n2)
            def judge(res, b1=b1, b2=b2, s1=s1, s2=s2, n1=n1, n2=n2, fit=fit):
                if not fit: return None if res.rcs[-1] > 0 else "they don't fit, but exit codes are %r" % res.rcs
                if not res.ok: return "refused: " + res.outs[-1].decode("latin1")[:200]
                r = res.files["o.bin"]; got = (int.from_bytes(r[:2], "little"), int.from_bytes(r[2:4], "little"), r[4], r[5])
                a, b = SLOTS[s1][0], SLOTS[s2][0]
                exp = [(a, b, b1, b2)] if (b1, s1) != (b2, s2) else [(a, b + n1, b1, b2)] if n1 > n2 else [(a + n2, b, b1, b2)] if n1 < n2 else [(a, b + n1, b1, b2), (a + n2, b, b1, b2)]
                if got not in exp: return "addresses and banks are %s, expected %s" % (got, exp)
            yield Case("files:%d:%d:%d:%d:%d:%d" % (b1, b2, s1, s2, n1, n2), run.multi([(CPU, "m", m1, "o"), (CPU, "k", m2, "o")]), judge, steps=2)

def follow(tier):
    for slot in (1, 2):
        P = [Sec("FREE", 3, slot=slot), Sec("FORCE", 2, 4, slot=slot), Sec("SEMIFREE", 2, 5, slot=slot), Sec("SEMISUBFREE", 4, 14, slot=slot)]
        O = [None, Sec("FREE", 5, slot=slot), Sec("FORCE", 1, 9, slot=slot), Sec("FREE", 1, prio=9, slot=slot)]
        def scen():
            for p in P:
                for k in ("FREE", "SEMIFREE"):
                    for n in (1, 4):
                        for off in (0, 2):
                            for x in O:
                                for fs in (slot, 3):
                                    yield (p, Sec(k, n, 0, off=off, after=0, slot=fs)) + ((x,) if x else ())
                            yield (p, Sec(k, n, 0, off=off, after=0, slot=slot), Sec("FREE", 2, after=1, slot=slot))
                            yield (p, Sec(k, n, 0, off=off, after=0, slot=slot), Sec("FREE", 1, after=1, off=1, slot=slot), Sec("FREE", 2, slot=slot))
        yield from many("after", scen())

def append(tier):
    for kind, org in (("FREE", 0), ("FORCE", 3), ("SEMIFREE", 4), ("SEMISUBFREE", 15)):
        for sizes in itertools.product((1, 2, 4), repeat=3):
            for tree in ((0, 0), (0, 1)):
                for how in ("PRIORITY", "SIZE"):
                    if how == "SIZE" and tree == (0, 0) and sizes[1] == sizes[2]: continue
                    for seq in ((0, 1, 2), (1, 0, 2), (2, 1, 0)):
                        for ob in (0, 1):
                            pr = [" PRIORITY %d" % p for p in (3, 2, 1)] if how == "PRIORITY" else [""] * 3
                            ss = ['.RAMSECTION "A" BANK 1 SLOT 2 ORG %d %s%s\nLa DSB %d\n.ENDS\n' % (org, kind, pr[0], sizes[0]),
                                  '.RAMSECTION "B"%s APPENDTO "A"\nLb DSB %d\n.ENDS\n' % (pr[1], sizes[1]), '.RAMSECTION "C"%s APPENDTO "%s"\nLc DSB %d\n.ENDS\n' % (pr[2], "AB"[tree[1]], sizes[2])]
                            ordr = [0, 1, 2] if tree == (0, 1) or how == "PRIORITY" or sizes[1] > sizes[2] else [0, 2, 1]
                            secs = [Sec(kind, sum(sizes), org, bank=(1, 2), slot=2)] + ([Sec("FORCE", 2, 6, bank=(1, 2), slot=2)] if ob else [])
                            ls, fail = layouts(secs, {(1, 2): N}, SLOTS, {}, orders(secs, ORDER), True)
                            src = MAP + "".join(ss[i] for i in seq) + ('.RAMSECTION "X" BANK 1 SLOT 2 ORG 6 FORCE\nLx DW\n.ENDS\n' if ob else "") + ".BANK 0 SLOT 0\n.ORG 0\n.DW La, Lb, Lc\n.DB :La, :Lb, :Lc\n"
                            def judge(res, ls=ls, fail=fail, ordr=ordr, sizes=sizes):
                                if not res.ok: return None if fail and res.rcs[-1] > 0 else "refused: " + res.outs[-1].decode("latin1")[:300]
                                r = res.files["o.bin"]; got = [int.from_bytes(r[2 * i:2 * i + 2], "little") for i in range(3)] + list(r[6:9]); exps = []
                                for pos, _ in ls:
                                    at = {}; q = SLOTS[2][0] + pos[0][1]
                                    for i in ordr: at[i] = q; q += sizes[i]
                                    exps.append([at[0], at[1], at[2], 1, 1, 1])
                                if got not in exps: return "addresses and banks are %s, expected %s" % (got, exps)
                            yield Case("append:%s:%s:%s:%s:%s:%d" % (kind, sizes, tree, how, seq, ob), run.one(CPU, src), judge, steps=3)

def linkfile(tier):
    """RAM sections of libraries get their place from the link file"""
    for bank, slot in ((0, 1), (3, 2), (255, 3)):
        size = SLOTS[slot][1]
        for how, kinds in (("", ("", "free")), ("org 5", ("force", "semifree", "semisubfree")), ("orga $%x" % (SLOTS[slot][0] + 5), ("force", "semifree", "semisubfree"))):
            for kind in kinds:
                for ex, f in (("", {}), ("priority 100", {"prio": 100}), ("bitwindow 2", {"bitw": 2}), ("window $%x $%x" % (SLOTS[slot][0] + 2, SLOTS[slot][0] + 8), {"win": (SLOTS[slot][0] + 2, SLOTS[slot][0] + 8)}), ("alignment 4", {"align": 4}), ("keep", {}), ("alignment 2 offset 1", {"align": 2, "off": 1})):
                    if kind == "force" and f and "prio" not in f: continue
                    for n in (1, 3, 6):
                        secs = [Sec(kind.upper() or "FREE", n, 5, f.get("align", 1), f.get("off", 0), f.get("prio", 0), f.get("win"), f.get("bitw", 0), (bank, slot), slot), Sec("FREE", 4, bank=(bank, slot), slot=slot, prio=1)]
                        ls, fail = layouts(secs, {(bank, slot): size}, SLOTS, {}, orders(secs, ORDER), True)
                        lib = ".RAMSECTION \"my lib\"\nLl DSB %d\n.ENDS\n" % n
                        main = MAP + ".RAMSECTION \"o\" BANK %d SLOT %d PRIORITY 1\nLo DSB 4\n.ENDS\n.BANK 0 SLOT 0\n.ORG 0\n.DW Ll, Lo\n.DB :Ll, :Lo\n" % (bank, slot)
                        link = "[objects]\nm.o\n[libraries]\nbank 0 slot 0 k.o\n[ramsections]\nbank %d slot %d %s %s %s \"my lib\"\n" % (bank, slot, how, ex, kind)
                        def judge(res, ls=ls, fail=fail, bank=bank, slot=slot):
                            if not res.ok: return None if fail and res.rcs[-1] > 0 else "refused: " + res.outs[-1].decode("latin1")[:300]
                            r = res.files["o.bin"]; got = [int.from_bytes(r[:2], "little"), int.from_bytes(r[2:4], "little"), r[4], r[5]]
                            exps = [[SLOTS[slot][0] + pos[0][1], SLOTS[slot][0] + pos[1][1], bank, bank] for pos, _ in ls]
                            if got not in exps: return "addresses and banks are %s, expected %s" % (got, exps)
                        yield Case("linkfile:%d:%d:%s:%s:%s:%d" % (bank, slot, how, kind, ex, n), run.multi([(CPU, "m", main, "o"), (CPU, "k", lib, "l")], link=link), judge, steps=2)
    # without a place in the link file, or with a wrong one
    lib = ".RAMSECTION \"r\"\nLl DB\n.ENDS\n"; main = MAP + ".BANK 0 SLOT 0\n.ORG 0\n.DW Ll\n"
    for fix in ("", "[ramsections]\nbank 0 slot 1 \"q\"\n", "[ramsections]\nbank 0 slot 9 \"r\"\n", "[ramsections]\nslot 1 \"r\"\n", "[ramsections]\nbank 0 \"r\"\n", "[ramsections]\nbank 0 slot 1\n", "[ramsections]\nbank 0 slot 1 orga $50 \"r\"\n", "[ramsections]\nbank 0 slot 1 alignment 0 \"r\"\n", "[ramsections]\nbank 0 slot 1 superfree \"r\"\n", "[ramsections]\nbank 0 slot 1 bank 0 \"r\"\n"):
        def judge(res, fix=fix):
            if res.rcs[-1] <= 0: return "%r was accepted or ended abnormally: %r" % (fix, res.rcs)
        yield Case("linkfile:bad:%s" % fix, run.multi([(CPU, "m", main, "o"), (CPU, "k", lib, "l")], link="[objects]\nm.o\n[libraries]\nbank 0 slot 0 k.o\n" + fix), judge)

def refused(tier):
    for t in ("ALIGN 0", "ALIGN -1", "OFFSET -1", "ORG -1", "ORG 17 FORCE", "BANK 256", "BANK -1", "SLOT 9", "SLOT \"Nope\"", "ORGA $50", "ORGA $2000", "WINDOW 5 4", "BITWINDOW 0"):
        def judge(res, t=t):
            if res.rcs[-1] <= 0: return "%s was accepted or ended abnormally: %r" % (t, res.rcs)
        yield Case("refuse:%s" % t, run.one(CPU, MAP + ".RAMSECTION \"r\" %s%s\nLa DB\n.ENDS\n.BANK 0 SLOT 0\n.ORG 0\n.DW La\n" % ("SLOT 1 " if "SLOT" not in t else "", t)), judge)

def cases(tier):
    yield from refused(tier)
    yield from linkfile(tier)
    yield from append(tier)
    yield from follow(tier)
    yield from slots(tier)
    yield from prio(tier)
    yield from shapes(tier)
    yield from pack(tier)
