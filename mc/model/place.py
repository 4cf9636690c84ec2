"""Section placement as documented: sections go in the order of kinds, then priority, then size; each to the first place that suits."""
import itertools

ORDER = ["FORCE", "SEMISUPERFREE", "SEMISUBFREE", "SEMIFREE", "FREE", "SUPERFREE", "OVERWRITE"]

class Sec:
    __slots__ = ("kind", "org", "size", "align", "off", "prio", "win", "bitw", "bank", "slot", "banks", "after", "data")
    def __init__(self, kind, size, org=0, align=1, off=0, prio=0, win=None, bitw=0, bank=0, slot=0, banks=None, after=None):
        self.kind = kind; self.size = size; self.org = org; self.align = align; self.off = off; self.prio = prio; self.win = win
        self.bitw = bitw; self.bank = bank; self.slot = slot; self.banks = banks; self.after = after
    def key(self):
        return "%s/%d%s%s%s%s%s%s%s%s" % (self.kind, self.size, "@%d" % self.org if self.kind in ("FORCE", "SEMIFREE", "SEMISUBFREE", "OVERWRITE") else "", "a%d" % self.align if self.align > 1 else "",
            "+%d" % self.off if self.off else "", "p%d" % self.prio if self.prio else "", "w%d-%d" % self.win if self.win else "", "b%d" % self.bitw if self.bitw else "",
            "B" + str(self.banks) if self.banks else "", ">%d" % self.after if self.after is not None else "")

def orders(secs, order=ORDER, sort=True, prio_only=False):
    """all orders in which the documentation allows the sections (indices) to be placed: ties in priority and size are free"""
    idx = [i for i in range(len(secs)) if secs[i].after is None]
    if not sort:
        seqs = [idx if prio_only else sorted(idx, key=lambda i: order.index(secs[i].kind))]
    else:
        k = (lambda i: (-secs[i].prio, -secs[i].size)) if prio_only else (lambda i: (order.index(secs[i].kind), -secs[i].prio, -secs[i].size))
        groups = [list(g) for _, g in itertools.groupby(sorted(idx, key=k), key=k)]
        seqs = [[i for g in c for i in g] for c in itertools.product(*[list(itertools.permutations(g)) for g in groups])]
    return seqs

def simulate(secs, seq, banks, slots, taken, image, absolute=False):
    """banks: sizes; slots: [(address, size)]; taken/image: per bank lists, changed in place; absolute: alignment counts from address 0, not from the start of the ROM.  -> {index: (bank, position)} or None when one doesn't fit"""
    pos = {}
    for i in seq:
        s = secs[i]
        sa, ss = slots[s.slot]
        def ok(b, p):
            if p + s.size > banks[b] or any(taken[b][p:p + s.size]): return False
            a = sa + p
            if s.win and not (s.win[0] <= a and a + s.size <= s.win[1]): return False
            if s.bitw and (a >> s.bitw) != ((a + max(s.size, 1) - 1) >> s.bitw): return False
            return True
        def first(b, lo, hi):
            base = sa if absolute else 0
            c = -(-(lo + base) // s.align) * s.align - base
            while c + s.off + s.size <= hi:
                if ok(b, c + s.off): return c + s.off
                c += s.align
            return None
        b = s.bank; p = None
        if s.after is not None:
            b, q = pos[s.after]; sa, ss = slots[secs[s.after].slot]; p = q + secs[s.after].size + s.off
            root = s.after
            while secs[root].after is not None: root = secs[root].after
            if secs[root].kind == "OVERWRITE":           # followers become of the kind of what they follow
                if p + s.size > banks[b]: return None
            elif p + s.size > banks[b] or any(taken[b][p:p + s.size]): return None
        elif s.kind == "FORCE":
            p = s.org
            if p + s.size > banks[b] or any(taken[b][p:p + s.size]): return None
        elif s.kind == "OVERWRITE":
            p = s.org
            if p + s.size > banks[b]: return None
        elif s.kind == "FREE": p = first(b, 0, banks[b])
        elif s.kind == "SEMIFREE": p = first(b, s.org, banks[b])
        elif s.kind == "SEMISUBFREE": p = first(b, 0, min(s.org, banks[b]))
        else:
            cand = s.banks if s.kind == "SEMISUPERFREE" else [x for x in range(len(banks)) if banks[x] == ss]
            for b in cand:
                p = first(b, 0, banks[b])
                if p is not None: break
        if p is None: return None
        if p + s.size > ss: return None        # beyond the slot
        pos[i] = (b, p)
        for j in range(s.size):
            taken[b][p + j] = True; image[b][p + j] = ((i + 1) << 4 | j & 15) & 0xff
    return pos

def layouts(secs, banks, slots, obst, seqs, absolute=False):
    """obst: {bank: {position: value}} -> ([possible (positions, image)], may it fail)"""
    res, fail = [], False; seen = set()
    for seq in seqs:
        if isinstance(banks, dict): taken = {b: [False] * n for b, n in banks.items()}; image = {b: [None] * n for b, n in banks.items()}
        else: taken = [[False] * n for n in banks]; image = [[None] * n for n in banks]
        for b, o in obst.items():
            for p, v in o.items(): taken[b][p] = True; image[b][p] = v
        pos = simulate(secs, seq, banks, slots, taken, image, absolute)
        if pos is None: fail = True; continue
        k = repr((image, sorted(pos.items())))
        if k not in seen:
            seen.add(k); res.append((pos, image))
    return res, fail
