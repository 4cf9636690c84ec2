"""L02: placement of ROM sections, against a first-fit model in the documented order."""
import itertools
from .. import run
from ..check import Case
from ..model.place import Sec, orders, layouts, ORDER
from ..cells import FILL

ID = "L02"
LEVEL = "model_checking"
TOOLS = ["wlalink", "z80"]
RULE = "distinct set of sections with obstacles and options whose complete bank images and label addresses (or refusal) were compared with the placement model"
BOUNDS = {"quick": "16-byte banks: all ordered triples over 16 (kind, size) choices with 6 obstacle patterns and all quadruples over 6; every kind, size, alignment, offset and start with all patterns of up to 2 obstacles; all windows and bit windows; priorities with every option and write order; several banks of different sizes for superfree and semisuperfree; sections placed after or appended to others; library sections and link file overrides",
          "thorough": "as quick with quadruples over 10 choices, more obstacle patterns and all pairs with alignments"}
CPU = "z80"
N = 16
SLOTS = [(0x40, N), (0x100, N)]
MAP = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $40 $10\nSLOT 1 $100 $10\n.ENDME\n"
ALLK = "FORCE FREE SEMIFREE SEMISUBFREE OVERWRITE SUPERFREE SEMISUPERFREE".split()

def blist(b): return "/".join(map(str, b))

def sec_text(s, name, lab, i, form=0, extra="", slots=None):
    """the source of one section; form chooses how the start is given"""
    sa = (slots or SLOTS)[s.slot][0]
    t = []
    if form % 3 == 0: t.append(".BANK %d SLOT %d\n.ORG %d" % (s.bank, s.slot, s.org)); par = ""
    elif form % 3 == 1: t.append(".BANK 0 SLOT 0\n.ORG 0"); par = " BANK %d SLOT %d ORG %d" % (s.bank, s.slot, s.org)
    else: t.append(".BANK 0 SLOT 0\n.ORG 0"); par = " BANK %d SLOT %d ORGA $%x" % (s.bank, s.slot, sa + s.org)
    t.append(".SECTION \"%s\"%s%s%s%s%s%s%s %s%s%s%s" % (name, par, " SIZE %d" % s.size if form % 4 == 3 else "", " ALIGN %d" % s.align if s.align != 1 else "", " OFFSET %d" % s.off if s.off and s.after is None else "",
        " PRIORITY %d" % s.prio if s.prio else "", " WINDOW $%x $%x" % s.win if s.win else "", " BITWINDOW %d" % s.bitw if s.bitw else "", s.kind if not (s.kind == "FREE" and form & 1) else "",
        " BANKS %s" % blist(s.banks) if s.kind == "SEMISUPERFREE" else "", extra, " RETURNORG" if form & 2 else ""))
    t.append("%s:" % lab)
    if s.size: t.append(".DB " + ", ".join("$%02x" % (((i + 1) << 4 | j & 15) & 0xff) for j in range(s.size)))
    t.append(".ENDS")
    return "\n".join(t)

def obst_text(b, o):
    return "".join(".BANK %d SLOT 0\n.ORG %d\n.DB $%02x\n" % (b, p, v) for p, v in sorted(o.items()))

def head(banks, fill=FILL, mp=MAP):
    if all(b == N for b in banks): m = ".ROMBANKSIZE %d\n.ROMBANKS %d\n" % (N, len(banks))
    else: m = ".ROMBANKMAP\nBANKSTOTAL %d\n%s.ENDRO\n" % (len(banks), "".join("BANKSIZE %d\nBANKS 1\n" % b for b in banks))
    return mp + m + ".EMPTYFILL $%02x\n" % fill

def symbols(data):
    r = {}
    for l in data.decode("latin1").splitlines():
        p = l.split()
        if len(p) == 2 and ":" in p[0] and len(p[0]) == 7:
            r.setdefault(p[1], []).append((int(p[0][:2], 16), int(p[0][3:], 16)))
    return r

def compare(rom, sym, banks, secs, lay, labs, slots=SLOTS):
    """None when rom and symbols agree with this layout"""
    pos, image = lay
    off = 0
    for b, n in enumerate(banks):
        exp = bytes(FILL if v is None else v for v in image[b])
        if rom[off:off + n] != exp: return "bank %d is %s, expected %s" % (b, rom[off:off + n].hex(" "), exp.hex(" "))
        off += n
    for i, lab in labs.items():
        b, p = pos[i]
        if sym.get(lab) != [(b, slots[secs[i].slot][0] + p)]: return "label %s is at %r, expected bank %d address $%x" % (lab, sym.get(lab), b, slots[secs[i].slot][0] + p)

def many(tag, scen, per=40, args=(), link="", order=ORDER, **kw):
    """scenarios [(secs (bank 0), {pos: value})] of one bank each, many in a link; those that don't fit one by one"""
    group = []
    def flush():
        nonlocal group
        g, group = group, []
        banks = [N] * len(g)
        def prog():
            t = [head(banks)]
            for b, (secs, o, _) in enumerate(g):
                t.append(obst_text(b, o))
                for i, s in enumerate(secs):
                    s2 = Sec(s.kind, s.size, s.org, s.align, s.off, s.prio, s.win, s.bitw, b, s.slot, [b] if s.banks else None, s.after)
                    t.append(sec_text(s2, "s%d_%d" % (b, i), "L%d_%d" % (b, i), i, b + i, "" if s.after is None else " AFTER \"s%d_%d\"%s" % (b, s.after, " OFFSET %d" % s.off if s.off else "")))
            return run.one(CPU, "\n".join(t) + "\n", link_args=("-r", "-S") + args, link=link + "[objects]\na.o\n", reads=("o.bin", "o.sym"))
        def judge(res):
            if not res.ok: return "sections that all fit were refused: %s" % res.outs[-1].decode("latin1")[:300]
            rom = res.files["o.bin"]; sym = symbols(res.files["o.sym"] or b""); bad = []
            for b, (secs, o, ls) in enumerate(g):
                why = None
                for pos, image in ls:
                    p2 = {i: (b, p) for i, (_, p) in pos.items()}
                    e = bytes(FILL if v is None else v for v in image[0])
                    got = rom[b * N:b * N + N]
                    w = None if got == e else "bank image %s, expected %s" % (got.hex(" "), e.hex(" "))
                    if w is None:
                        for i in p2:
                            a = SLOTS[secs[i].slot][0] + p2[i][1]
                            if sym.get("L%d_%d" % (b, i)) != [(b, a)]: w = "the label of section %d is at %r, expected bank %d address $%x" % (i, sym.get("L%d_%d" % (b, i)), b, a); break
                    if w is None: why = None; break
                    why = why or w
                if why:
                    k = "%s|%s" % (",".join(s.key() for s in secs), "".join("%x" % p for p in sorted(o)))
                    bad.append(("%s:%s" % (tag, k), "sections %s with bytes at %s: %s" % (", ".join(s.key() for s in secs), sorted(o), why)))
                    if len(bad) > 3: break
            return bad or None
        k0 = "%s|%s" % (",".join(s.key() for s in g[0][0]), "".join("%x" % p for p in sorted(g[0][1])))
        sts = ["%s:%s|%s" % (tag, ",".join(s.key() for s in secs), sorted(o)) for secs, o, _ in g]
        return Case("%s:%d:%s" % (tag, len(g), k0), prog, judge, steps=sum(len(s[0]) for s in g), states=sts, n=len(g))
    for secs, o in scen:
        sq = orders(secs, order, **kw)
        for i, s in enumerate(secs):                     # followers are placed right after what they follow
            if s.after is not None: sq = [q[:q.index(s.after) + 1] + [i] + q[q.index(s.after) + 1:] for q in sq]
        ls, fail = layouts(secs, [N], SLOTS, {0: o}, sq)
        if not fail:
            group.append((secs, o, ls))
            if len(group) == per: yield flush()
        elif not ls: yield alone(tag, secs, o, args, link)
    if group: yield flush()

def alone(tag, secs, o, args=(), link=""):
    """must be refused: something doesn't fit"""
    t = [head([N, N]), obst_text(0, o)]
    for i, s in enumerate(secs):
        s2 = Sec(s.kind, s.size, s.org, s.align, s.off, s.prio, s.win, s.bitw, 0, s.slot, [0] if s.banks else None, s.after)
        t.append(sec_text(s2, "s%d" % i, "L%d" % i, i, 0, "" if s.after is None else " AFTER \"s%d\"%s" % (s.after, " OFFSET %d" % s.off if s.off else "")))
    prog = run.one(CPU, "\n".join(t) + "\n", link_args=("-r", "-S") + args, link=link + "[objects]\na.o\n", reads=("o.bin", "o.sym"))
    def judge(res):
        if res.rcs[-1] > 0: return None
        if res.ok: return "sections %s with bytes at %s don't fit, but the link succeeded with %s" % (", ".join(s.key() for s in secs), sorted(o), res.files["o.bin"][:N].hex(" "))
        return "abnormal end %r" % res.rcs
    k = "%s|%s" % (",".join(s.key() for s in secs), "".join("%x" % p for p in sorted(o)))
    return Case("%s:nofit:%s" % (tag, k), prog, judge, steps=len(secs))

def ob(*ps): return {p: 0xF0 | p & 15 for p in ps}

# ---------------------------------------------------------------- families
def pack(tier):
    obs = [ob(), ob(0), ob(7), ob(3, 11), ob(5, 6, 12), ob(15)]
    if tier != "quick": obs += [ob(1, 4, 9), ob(2, 8, 14), ob(0, 15), ob(10)]
    A = [Sec(k, n, org) for k, org in (("FREE", 3), ("SEMIFREE", 5), ("SEMISUBFREE", 9), ("FORCE", 4)) for n in (1, 2, 3, 5)]
    yield from many("pack3", ((c, o) for o in obs for c in itertools.product(A, repeat=3) if sum(s.size for s in c) <= 12))
    B = [Sec("FREE", 2), Sec("FREE", 4), Sec("SEMIFREE", 3, 6), Sec("SEMISUBFREE", 3, 8), Sec("OVERWRITE", 3, 5), Sec("FORCE", 2, 9)]
    if tier != "quick": B += [Sec("FREE", 3), Sec("SEMIFREE", 1, 10), Sec("SEMISUBFREE", 2, 16), Sec("OVERWRITE", 1, 0)]
    yield from many("pack4", ((c, o) for o in obs for c in itertools.product(B, repeat=4)))

def single(tier):
    obs = [ob()] + [ob(i) for i in range(N)] + [ob(i, j) for i in range(N) for j in range(i)]
    if tier != "quick": obs += [ob(i, j, k) for i in range(N) for j in range(i) for k in range(j)]
    S = []
    for k in ("FREE", "SEMIFREE", "SEMISUBFREE", "SEMISUPERFREE"):
        for n in (1, 3, 6, 16) if k == "FREE" else (1, 4):
            for al in (1, 2, 4, 8):
                for off in (0, 1, 3):
                    for org in (0, 5, 13) if k.startswith("SEMI") and k != "SEMISUPERFREE" else (0,):
                        S.append(Sec(k, n, org, al, off, banks=[0] if k == "SEMISUPERFREE" else None))
    yield from many("single", (((s,), o) for s in S for o in obs if not (s.size == 16 and (o or s.off or s.align > 1))))
    for org in range(N):
        yield from many("fixed", (((Sec(k, n, org),), o) for k in ("FORCE", "OVERWRITE") for n in (1, 2, 5, 16) for o in obs[:40] if org + n <= N + 1))

def pairs(tier):
    S = [Sec(k, n, org, al, off) for k, org in (("FREE", 0), ("SEMIFREE", 3), ("SEMISUBFREE", 12)) for n in (2, 5) for al in (1, 4) for off in (0, 2)] + [Sec("FORCE", 2, 8), Sec("OVERWRITE", 4, 6)]
    obs = [ob(), ob(4), ob(1, 9)]
    if tier != "quick": obs += [ob(i) for i in (0, 2, 5, 8, 13)]
    yield from many("pairs", ((c, o) for o in obs for c in itertools.product(S, repeat=2)))
    if tier != "quick": yield from many("triples", ((c, o) for o in obs[:3] for c in itertools.product(S[::2], repeat=3)))

def windows(tier):
    obs = [ob(), ob(6), ob(2, 9)]
    wins = [(a, b) for a in range(0, N + 1) for b in range(a, N + 1) if (a + b) % (1 if tier != "quick" else 2) == 0]
    for slot in (0, 1):
        sa = SLOTS[slot][0]
        S = [Sec(k, n, org, al, off, win=(sa + a, sa + b), slot=slot, banks=[0] if k == "SEMISUPERFREE" else None) for k, org in (("FREE", 0), ("SEMIFREE", 4), ("SEMISUBFREE", 11), ("SEMISUPERFREE", 0)) for n in (1, 4) for al, off in ((1, 0), (4, 1)) for a, b in wins]
        yield from many("window", (((s,), o) for s in S for o in obs))
        yield from many("bitwindow", (((Sec(k, n, 3, al, bitw=w, slot=slot, banks=[0] if k == "SEMISUPERFREE" else None),), o) for k in ("FREE", "SEMIFREE", "SEMISUPERFREE", "SEMISUBFREE") for n in (1, 2, 3, 4, 5, 8, 9) for al in (1, 2) for w in (1, 2, 3, 4) for o in obs + [ob(1), ob(7), ob(0, 3, 8)]))
        W = [Sec("FREE", 3, win=(sa + 4, sa + 12), slot=slot), Sec("FREE", 4, win=(sa, sa + 8), slot=slot), Sec("FREE", 2, bitw=2, slot=slot), Sec("SEMIFREE", 3, 2, bitw=3, slot=slot), Sec("FREE", 3, slot=slot)]
        yield from many("windows3", ((c, o) for o in obs for c in itertools.product(W, repeat=3)))

def linkorder(order): return "[sectionwriteorder]\n" + "\n".join(order) + "\n"

def prio(tier):
    K = [("FREE", 0), ("SEMIFREE", 2), ("SEMISUBFREE", 14), ("FORCE", 6), ("OVERWRITE", 5)]
    A = [Sec(k, n, org, prio=p) for k, org in K[:3] for n, p in ((2, 0), (3, 0), (2, 5), (3, -1))] + [Sec("FORCE", 2, 6, prio=-3), Sec("OVERWRITE", 3, 5, prio=7)]
    obs = [ob(), ob(4)]
    for a, kw in (((), {}), (("-nS",), {"sort": False}), (("-pS",), {"prio_only": True}), (("-nS", "-pS"), {"sort": False, "prio_only": True})):
        yield from many("prio" + "".join(a), ((c, o) for o in obs for c in itertools.product(A, repeat=3) if len({(s.prio, s.size, s.kind) for s in c}) == 3), args=a, **kw)
    # write orders given in the link file
    B = [Sec("FREE", 3), Sec("SEMIFREE", 2, 2), Sec("SEMISUBFREE", 4, 14), Sec("FORCE", 2, 7), Sec("OVERWRITE", 3, 5), Sec("SEMISUPERFREE", 3, banks=[0])]
    perms = list(itertools.permutations(ORDER)) if tier != "quick" else [p for i, p in enumerate(itertools.permutations(ORDER)) if i % 53 == 0]
    for p in perms:
        yield from many("order:" + ",".join(x[:6] + x[-5:] for x in p), ((c, o) for o in obs for n in (2, 3) for c in itertools.combinations(B, n)), link=linkorder(p), order=list(p))
    for bad in (ORDER[:-1], ORDER + ["FREE"], ORDER[:-1] + ["FREE"], ORDER[:-1] + ["RAM"]):
        def judge(res, bad=bad):
            if res.rcs[-1] <= 0: return "the write order %s was accepted" % bad
        yield Case("order:bad:%s" % ",".join(bad), run.one(CPU, head([N]) + ".BANK 0\n.ORG 0\n.DB 1\n", link=linkorder(bad) + "[objects]\na.o\n"), judge)

def whole(tag, secs, banks, obst, args=(), link="", slots=SLOTS, mp=MAP, tail=None, seqs=None):
    """one set of sections per link, over several banks"""
    ls, fail = layouts(secs, banks, slots, obst, seqs or orders(secs))
    t = [head(banks, mp=mp)]
    for b, o in sorted(obst.items()):
        if o: t.append(obst_text(b, o))
    for i, s in enumerate(secs): t.append(sec_text(s, "s%d" % i, "L%d" % i, i, 0 if s.kind in ("SUPERFREE", "SEMISUPERFREE") else i, slots=slots))
    prog = run.one(CPU, "\n".join(t) + "\n", link_args=("-r", "-S") + args, link=link + "[objects]\na.o\n", reads=("o.bin", "o.sym"))
    k = "%s|%s|%s" % (",".join("%s:%d.%d" % (s.key(), s.bank, s.slot) for s in secs), banks, ";".join("%d:%s" % (b, "".join("%x" % p for p in sorted(o))) for b, o in sorted(obst.items())))
    def judge(res):
        if res.rcs[-1] < 0: return "abnormal end %r" % res.rcs
        if not res.ok: return None if fail else "the sections fit, but were refused: %s" % res.outs[-1].decode("latin1")[:300]
        if not ls: return "the sections don't fit, but the link succeeded with %s" % res.files["o.bin"].hex(" ")
        sym = symbols(res.files["o.sym"] or b""); why = None
        for l in ls:
            w = compare(res.files["o.bin"], sym, banks, secs, l, {i: "L%d" % i for i in l[0]}, slots)
            if w is None: return None
            why = why or w
        return why
    return Case("%s:%s" % (tag, k), prog, judge, steps=len(secs))

def banked(tier):
    mp = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $40 $10\nSLOT 1 $100 $8\nSLOT 2 $200 $10\n.ENDME\n"
    slots = [(0x40, 16), (0x100, 8), (0x200, 16)]
    obstacles = [{}, {0: ob(0, 7)}, {0: ob(*range(16)), 1: ob(*range(5))}, {0: ob(2), 1: ob(1), 2: ob(0), 3: ob(0, 1, 2, 3)}]
    for banks in ([16, 16, 16], [16, 8, 16, 8], [8, 16, 8, 16], [8, 8, 16]):
        nb = len(banks)
        A = []
        for n in (3, 7, 8, 12):
            A += [Sec("SUPERFREE", n, slot=0), Sec("SUPERFREE", n, slot=2, bank=nb - 1)]
            if n <= 8 and 8 in banks: A.append(Sec("SUPERFREE", n, slot=1, bank=banks.index(8)))
            if n != 7 and 8 in banks: A.append(Sec("SUPERFREE", n, slot=0, bank=nb - 1 - banks[::-1].index(8)))
            A += [Sec("SEMISUPERFREE", n, banks=[1, 0]), Sec("SEMISUPERFREE", n, slot=2, banks=[2, 1, 0])]
        A += [Sec("SUPERFREE", 3, al, align=4, off=1) if 0 else Sec("SUPERFREE", 3, align=4, off=1) for al in (0,)] + [Sec("SUPERFREE", 4, align=8, prio=3, bank=1), Sec("SEMISUPERFREE", 5, banks=[2], align=2), Sec("FREE", 6, bank=1), Sec("FORCE", 4, 2, bank=2), Sec("SUPERFREE", 3, win=(0x44, 0x4c)), Sec("SUPERFREE", 2, bitw=2), Sec("OVERWRITE", 3, 1, bank=0)]
        for o in obstacles:
            o = {b: {p: v for p, v in m.items() if p < banks[b]} for b, m in o.items() if b < nb}
            for s in A: yield whole("banked", (s,), banks, o, slots=slots, mp=mp)
            for c in itertools.product(A, repeat=2):
                if tier == "quick" and (A.index(c[0]) * 7 + A.index(c[1])) % 3: continue
                yield whole("banked", c, banks, o, slots=slots, mp=mp)
            if tier != "quick":
                for c in itertools.product(A[::3], repeat=3): yield whole("banked", c, banks, o, slots=slots, mp=mp)
    # lists of banks: ranges up and down
    full = [16] * 7
    for text, lst in (("5-3/1/6-6/0", [5, 4, 3, 1, 6, 0]), ("0-6", list(range(7))), ("6-0", list(range(6, -1, -1))), ("3", [3]), ("1/1/2", [1, 1, 2]), ("2-4/4-2", [2, 3, 4, 4, 3, 2]),
                      ("10-12/2-11", [10, 11, 12] + list(range(2, 12))), ("12-10/9-8/0", [12, 11, 10, 9, 8, 0]), ("12/11-9/1-0", [12, 11, 10, 9, 1, 0]), ("9-12", [9, 10, 11, 12]), ("0/12/7-10", [0, 12, 7, 8, 9, 10])):
        full = [16] * (7 if max(lst) < 7 else 13)
        for cut in range(len(lst) + 1):
            o = {b: ob(*range(16)) for b in lst[:cut]}
            t = head(full) + "".join(obst_text(b, m) for b, m in o.items()) + ".BANK 0 SLOT 0\n.ORG 0\n.SECTION \"a\" SEMISUPERFREE BANKS %s\nLa:\n.DB 1, 2, 3\n.ENDS\n" % text
            want = [b for b in lst if b not in o]
            def judge(res, want=want, text=text):
                if not want: return None if res.rcs[-1] > 0 else "BANKS %s: all banks are full, but the exit code is %r" % (text, res.rcs)
                if not res.ok: return "BANKS %s refused: %s" % (text, res.outs[-1].decode("latin1")[:200])
                at = res.files["o.bin"].find(b"\1\2\3")
                if at != want[0] * 16: return "BANKS %s: the section is at %d, expected bank %d" % (text, at, want[0])
            yield Case("banks:%s:%d" % (text, cut), run.one(CPU, t), judge, steps=len(lst))
    for text, n in (("0-1023", 1024), ("0-1022/0", 1024), ("0-1023/0", 1025), ("0-1023/1023-0", 2048), ("0-1023/0-1023/0-1023", 3072), ("1023-0/5/6", 1026), ("1000-0/0-1023", 2025)):
        # the list may be longer than the linker takes, but then it says so
        def judge(res, text=text, n=n):
            if res.rcs[-1] < 0: return "BANKS %s: abnormal end %r: %s" % (text, res.rcs, res.outs[-1].decode("latin1")[:200])
            if res.rcs[-1] > 0: return None if n > 1024 else "BANKS %s refused: %s" % (text, res.outs[-1].decode("latin1")[:200])
            at = res.files["o.bin"].find(b"\1\2\3"); w = int(text.split("-")[0]) * 16
            if at != w: return "BANKS %s: the section is at %d, expected %d" % (text, at, w)
        yield Case("banks:long:%s" % text, run.one(CPU, head([16] * 1024) + ".BANK 0 SLOT 0\n.ORG 0\n.SECTION \"a\" SEMISUPERFREE BANKS %s\nLa:\n.DB 1, 2, 3\n.ENDS\n" % text), judge)
    full = [16] * 7
    for text in ("7", "0/7", "a", "1-", "-1", "/1", "1-2-3", "1,2", "1024"):
        def judge(res, text=text):
            if res.rcs[-1] < 0: return "BANKS %s: abnormal end %r" % (text, res.rcs)
            if res.ok and text not in ("0/7",): return "BANKS %s was accepted" % text
        yield Case("banks:bad:%s" % text, run.one(CPU, head(full) + ".BANK 0 SLOT 0\n.ORG 0\n.SECTION \"a\" SEMISUPERFREE BANKS %s\nLa:\n.DB 1, 2, 3\n.ENDS\n" % text), judge)

def follow(tier):
    """AFTER: right behind the other section, whatever the own kind"""
    obs = [ob(), ob(7), ob(3, 12)]
    P = [Sec("FREE", 3), Sec("FORCE", 2, 4), Sec("SEMIFREE", 2, 5), Sec("SEMISUBFREE", 4, 14), Sec("OVERWRITE", 2, 6), Sec("SEMISUPERFREE", 3, banks=[0])]
    F = [(k, n, off) for k in ("FREE", "SEMIFREE") for n in (1, 4) for off in (0, 2)]
    O = [None, Sec("FREE", 5), Sec("FORCE", 1, 9), Sec("FREE", 1, prio=9)]
    def scen():
        for o in obs:
            for p in P:
                for k, n, off in F:
                    for x in O:
                        f = Sec(k, n, 0, off=off, after=0)
                        yield ((p, f) + ((x,) if x else ()), o)
                        if x: yield ((p, f, x)[:2] + (x,), o)
                    yield ((p, Sec(k, n, 0, off=off, after=0), Sec("FREE", 2, after=1)), o)
                    yield ((p, Sec(k, n, 0, off=off, after=0), Sec("FREE", 1, after=1, off=1), Sec("FREE", 2)), o)
    yield from many("after", scen())

def append(tier):
    """APPENDTO: the sections become one; with AUTOPRIORITY in the order of the source"""
    n = 0
    for kind, org in (("FREE", 0), ("FORCE", 3), ("SEMIFREE", 4), ("SUPERFREE", 0), ("SEMISUBFREE", 15)):
        for sizes in itertools.product((1, 2, 4), repeat=3):
            for tree in ((0, 0), (0, 1)):               # both onto the first, or a chain
                for how in ("AUTOPRIORITY", "PRIORITY"):
                    for first in (0, 1, 2):             # which section comes first in the source
                        for obp in ((), (6,)):
                            n += 1
                            prios = ["AUTOPRIORITY"] * 3 if how == "AUTOPRIORITY" else ["PRIORITY %d" % p for p in (3, 2, 1)]
                            ss = ['.SECTION "A" %s %s\nLa:\n.DB %s\n.ENDS\n', '.SECTION "B" %s APPENDTO "A" RETURNORG\nLb:\n.DB %s\n.ENDS\n', '.SECTION "C" %%s APPENDTO "%s" RETURNORG\nLc:\n.DB %%s\n.ENDS\n' % "AB"[tree[1]]]
                            dat = [", ".join("$%02x" % ((i + 1) << 4 | j) for j in range(sizes[i])) for i in range(3)]
                            body = [ss[0] % (kind, prios[0], dat[0]), ss[1] % (prios[1], dat[1]), ss[2] % (prios[2], dat[2])]
                            seq = [0, 1, 2] if first == 0 else [1, 0, 2] if first == 1 else [2, 0, 1]
                            # the order in which the two are appended to one section follows their priorities
                            ordr = [0, 1, 2] if tree == (0, 1) or how == "PRIORITY" or seq.index(1) < seq.index(2) else [0, 2, 1]
                            src = head([N, N]) + obst_text(0, ob(*obp)) + "".join(".BANK 0 SLOT 0\n.ORG %d\n%s" % (org, body[i]) for i in seq) + ".BANK 1 SLOT 1\n.ORG 0\n.DW La, Lb, Lc\n"
                            whole_data = b"".join(bytes((i + 1) << 4 | j for j in range(sizes[i])) for i in ordr)
                            s = Sec(kind, len(whole_data), org); ls, fail = layouts((s,), [N, N], SLOTS, {0: ob(*obp), 1: {i: 0 for i in range(6)}}, [[0]])
                            def judge(res, ls=ls, wd=whole_data, ordr=ordr, sizes=sizes, obp=obp):
                                if not ls: return None if res.rcs[-1] > 0 else "doesn't fit but was accepted"
                                if not res.ok: return "refused: " + res.outs[-1].decode("latin1")[:300]
                                b, p = ls[0][0][0]
                                if b: return None
                                exp = bytearray([FILL]) * N
                                for q in obp: exp[q] = 0xF0 | q
                                exp[p:p + len(wd)] = wd
                                rom = res.files["o.bin"]
                                if rom[:N] != exp: return "bank 0 is %s, expected %s" % (rom[:N].hex(" "), exp.hex(" "))
                                at = {}; q = p
                                for i in ordr: at[i] = q; q += sizes[i]
                                lab = [int.from_bytes(rom[N + 2 * i:N + 2 * i + 2], "little") for i in range(3)]
                                if lab != [0x40 + at[i] for i in range(3)]: return "labels La, Lb, Lc are %s, expected %s" % (lab, [0x40 + at[i] for i in range(3)])
                            yield Case("append:%s:%s:%s:%s:%d:%s" % (kind, sizes, tree, how, first, obp), run.one(CPU, src), judge, steps=3)

def other(tier):
    """the position after sections; section sizes; sections from libraries; placement given in the link file; overlaps"""
    # .ORG after a section goes on after it, unless RETURNORG
    for k in ("FREE", "FORCE", "SEMIFREE", "OVERWRITE"):
        for n in (0, 1, 3):
            for ret in (0, 1):
                for n2 in (1, 2):
                    src = head([N, N]) + ".BANK 0 SLOT 0\n.ORG 4\n.SECTION \"a\" %s%s\n%s.ENDS\n.BANK 1 SLOT 0\n.ORG 2\n.SECTION \"b\" FORCE%s\n%s.ENDS\n.SECTION \"c\" FORCE\n.DB $21, $22\n.ENDS\n" % (
                        k, " RETURNORG" if ret else "", ".DSB %d, $11\n" % n if n else "", " RETURNORG" if ret and not n2 - 1 else "", ".DSB %d, $1%d\n" % (n2, n2))
                    adv = 0 if (ret and n2 == 1) else n2
                    def judge(res, adv=adv, n2=n2):
                        if adv == 0: return None if res.rcs[-1] > 0 else "a section forced over another was accepted"
                        if not res.ok: return "refused: " + res.outs[-1].decode("latin1")[:300]
                        exp = bytes([FILL] * 2 + [0x10 | n2] * n2 + [0x21, 0x22]).ljust(N, bytes([FILL]))
                        if res.files["o.bin"][N:] != exp: return "bank 1 is %s, expected %s" % (res.files["o.bin"][N:].hex(" "), exp.hex(" "))
                    yield Case("org:%s:%d:%d:%d" % (k, n, ret, n2), run.one(CPU, src), judge, steps=3)
    # SIZE
    for n, sz in itertools.product((1, 3, 4), (0, 1, 3, 4, 16, 17)):
        src = head([N]) + ".BANK 0 SLOT 0\n.ORG 0\n.SECTION \"a\" SIZE %d FORCE\n%sLa:\n.ENDS\n.SECTION \"b\" FREE\n.DB $21\n.ENDS\n" % (sz, ".DSB %d, $11\n" % n if n else "")
        def judge(res, n=n, sz=sz):
            if res.rcs[-1] < 0: return "abnormal end %r" % res.rcs
            if n > sz or sz > 15: return None if not res.ok else "SIZE %d with %d bytes was accepted" % (sz, n)
            if not res.ok: return "SIZE %d with %d bytes refused: %s" % (sz, n, res.outs[-1].decode("latin1")[:300])
            exp = bytes([0x11] * n + [FILL] * (sz - n) + [0x21]).ljust(N, bytes([FILL]))
            if res.files["o.bin"] != exp: return "%s, expected %s" % (res.files["o.bin"].hex(" "), exp.hex(" "))
        yield Case("size:%d:%d" % (n, sz), run.one(CPU, src), judge, steps=2)
    # libraries: free and superfree sections go where the link file says
    for kind in ("FREE", "SUPERFREE", ""):
        for bank, slot in itertools.product(range(3), (0, 1)):
            for o in ((), (0, 1), tuple(range(14))):
                lib = MAP + ".SECTION \"lib\" %s\nLl:\n.DB $31, $32, $33\n.DW Ll\n.ENDS\n" % kind
                main = head([N] * 3) + obst_text(bank, ob(*o)) + ".BANK %d SLOT 0\n.ORG 14\n.DW Ll\n" % ((bank + 1) % 3)
                s = Sec(kind or "FREE", 5, bank=bank, slot=slot); b2 = (bank + 1) % 3
                ls, fail = layouts((s,), [N] * 3, SLOTS, {bank: ob(*o), b2: {14: 0, 15: 0}}, [[0]])
                def judge(res, ls=ls, slot=slot, bank=bank, b2=b2):
                    if not ls: return None if res.rcs[-1] > 0 else "doesn't fit, but was accepted"
                    if not res.ok: return "refused: " + res.outs[-1].decode("latin1")[:300]
                    b, p = ls[0][0][0]; a = SLOTS[slot][0] + p; rom = res.files["o.bin"]
                    e = bytes([0x31, 0x32, 0x33]) + a.to_bytes(2, "little")
                    if rom[b * N + p:b * N + p + 5] != e or rom[b2 * N + 14:b2 * N + 16] != a.to_bytes(2, "little"):
                        return "expected %s at bank %d position %d, the ROM is %s" % (e.hex(" "), b, p, rom.hex(" "))
                yield Case("lib:%s:%d:%d:%s" % (kind, bank, slot, len(o)), run.multi([(CPU, "m", main, "o"), (CPU, "k", lib, "l")], link="[objects]\nm.o\n[libraries]\nbank %d slot %d k.o\n" % (bank, slot)), judge, steps=2)
    # link file: [sections] with placement, all kinds
    for kind in ALLK[:6]:
        for bank, slot in ((0, 0), (1, 1)):
            for how, org in (("org $%x", 5), ("orga $%x", 5), ("", 0)):
                if bool(how) != (kind not in ("FREE", "SUPERFREE")): continue      # a start makes no sense for these two
                for extra, f in (("", {}), ("priority 100 ", {"prio": 100}), ("bitwindow 2 ", {"bitw": 2}), ("alignment 4 offset 2 ", {"align": 4, "off": 2}), ("size 6 ", {"size": 6}), ("keep ", {}), ("window $%x $%x " % (SLOTS[slot][0] + 4, SLOTS[slot][0] + 12), {"win": (SLOTS[slot][0] + 4, SLOTS[slot][0] + 12)})):
                    if kind in ("FORCE", "OVERWRITE") and ("align" in f or "win" in f or "bitw" in f): continue
                    if extra.startswith("size") and kind == "OVERWRITE": pass
                    s = Sec(kind, f.get("size", 3), org, f.get("align", 1), f.get("off", 0), f.get("prio", 0), f.get("win"), f.get("bitw", 0), bank, slot)
                    o = Sec("FREE", 3, bank=bank, slot=slot)
                    secs = (s, o); obm = {bank: ob(1)}
                    src = head([N, N]) + obst_text(bank, ob(1)) + ".BANK 0 SLOT 0\n.ORG 0\n.SECTION \"s0\" FREE\nL0:\n.DB $10, $11, $12\n.ENDS\n.BANK %d SLOT %d\n.ORG 0\n.SECTION \"s1\" FREE\nL1:\n.DB $20, $21, $22\n.ENDS\n" % (bank, slot)
                    link = "[objects]\na.o\n[sections]\nbank %d slot %d %s %s%s\"s0\"\n" % (bank, slot, (how % (org if how[:4] == "org " else SLOTS[slot][0] + org)) if how else "", extra, kind.lower() + " ")
                    ls, fail = layouts(secs, [N, N], SLOTS, obm, orders(secs))
                    def judge(res, ls=ls, fail=fail, secs=secs):
                        if not res.ok: return None if fail and res.rcs[-1] > 0 else "refused: " + res.outs[-1].decode("latin1")[:300]
                        rom = bytearray(res.files["o.bin"]); why = None
                        for pos, image in ls:
                            img = [list(x) for x in image]
                            b, p = pos[0]
                            for j in range(3, secs[0].size):
                                if img[b][p + j] == 0x10 | j: img[b][p + j] = FILL
                            w = compare(bytes(rom), symbols(res.files["o.sym"]), [N, N], secs, (pos, img), {0: "L0", 1: "L1"})
                            if w is None: return None
                            why = why or w
                        return why or "doesn't fit, but was accepted"
                    yield Case("linkfile:%s:%d:%s:%s" % (kind, bank, how, extra), run.one(CPU, src, link=link, link_args=("-r", "-S"), reads=("o.bin", "o.sym")), judge, steps=2)
    # two fixed sections over each other: refused unless their bytes are the same or one overwrites
    for k1, k2 in itertools.product(("FORCE", "OVERWRITE", "CODE"), repeat=2):
        for d in range(-3, 4):
            def part(k, i, at): return ".BANK 0 SLOT 0\n.ORG %d\n" % at + (".DB %s\n" if k == "CODE" else ".SECTION \"s%d\" %s\n.DB %%s\n.ENDS\n" % (i, k)) % ", ".join("$%02x" % (i << 4 | j) for j in range(3))
            src = head([N]) + part(k1, 1, 6) + part(k2, 2, 6 + d)
            def judge(res, k1=k1, k2=k2, d=d):
                both = [k1, k2]
                if "CODE" in both and both.count("CODE") == 2: return None          # not sections
                if abs(d) < 3 and "OVERWRITE" not in both: return None if res.rcs[-1] > 0 else "%s and %s over each other by %d bytes were accepted" % (k1, k2, 3 - abs(d))
                if not res.ok: return "refused: " + res.outs[-1].decode("latin1")[:200]
                rom = res.files["o.bin"]; pos = [6, 6 + d]; outs = set()
                rank = {"CODE": 0, "FORCE": 1, "OVERWRITE": 2}
                for od in itertools.permutations((0, 1)):
                    if rank[both[od[0]]] > rank[both[od[1]]]: continue
                    m = bytearray([FILL]) * N
                    for i in od: m[pos[i]:pos[i] + 3] = bytes((i + 1) << 4 | j for j in range(3))
                    outs.add(bytes(m))
                if rom not in outs: return "%s and %s: %s, expected %s" % (k1, k2, rom.hex(" "), " or ".join(x.hex(" ") for x in outs))
            yield Case("over:%s:%s:%d" % (k1, k2, d), run.one(CPU, src), judge, steps=2)

def refused(tier):
    for t in ("ALIGN 0", "ALIGN -1", "OFFSET -1", "WINDOW $45 $44", "BITWINDOW 0", "ORG -1 FORCE", "ORG 16 FORCE", "ORGA $3F FORCE", "ORGA $50 FORCE", "BANK 1", "BANK -1", "SLOT 2", "SIZE -1", "SIZE 17"):
        def judge(res, t=t):
            if res.rcs[-1] <= 0: return "%s was accepted or ended abnormally: %r" % (t, res.rcs)
        yield Case("refuse:%s" % t, run.one(CPU, head([N]) + ".SECTION \"r\" %s\nLa: .DB 1, 2\n.ENDS\n" % t), judge)
    for t in (".ORG -1", ".ORG 16", ".ORG 20", ".ORGA $3F", ".ORGA $51", ".BANK -1", ".BANK 1", ".SLOT 9", ".BANK 0 SLOT 9"):
        def judge(res, t=t):
            if res.rcs[-1] <= 0: return "%s was accepted or ended abnormally: %r" % (t, res.rcs)
        yield Case("refuse:%s" % t, run.one(CPU, head([N]) + ".BANK 0 SLOT 0\n.ORG 0\n%s\n.DB 1\n" % t), judge)
    for kind in ("FREE", "FORCE"):
        for off in (-1, -2, -5):
            def judge(res, off=off):
                if res.rcs[-1] > 0: return None
                if not res.ok: return "abnormal end %r" % res.rcs
                if sum(b != FILL for b in res.files["o.bin"]) != 5: return "sections overlap: %s" % res.files["o.bin"].hex(" ")
            yield Case("refuse:after:%s:%d" % (kind, off), run.one(CPU, head([N]) + ".ORG 4\n.SECTION \"r\" %s\n.DB 1, 2\n.ENDS\n.SECTION \"q\" FREE AFTER \"r\" OFFSET %d\n.DB 3, 4, 5\n.ENDS\n" % (kind, off)), judge)

def cases(tier):
    yield from refused(tier)
    yield from other(tier)
    yield from append(tier)
    yield from follow(tier)
    yield from banked(tier)
    yield from windows(tier)
    yield from prio(tier)
    yield from pairs(tier)
    yield from single(tier)
    yield from pack(tier)
