#!/usr/bin/env python3
"""Development-time tool: pins spec/<cpu>.forms, the encoding of every instruction form, from a reviewed tree.

For every template of the instruction tables it assembles a grid of operand values, and fits the observed bytes with the only kind of rule
an instruction encoding may have: fixed bits and operand bits at fixed places, on an interval of operand values.  What does not fit is
reported and not written.  The result is reviewed against independent encoders (mc/model/isa.py) and committed; no check runs this.
"""
import itertools, json, multiprocessing as mp, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build, run
CPUS = "6502 65c02 65ce02 65816 huc6280 6800 6801 6809 8008 8080 gb z80 z80n spc700 superfx".split()

DIV = [v for i in range(1, 60) for v in ((i * 40503 * 7) & 0xffff, -((i * 40503 * 5) & 0x7fff), (i * 2654435761 >> 3) & 0xffffff, (i * 97) & 0xff, (i * 613) & 0x1fff, (i * 331) & 0x7ff)]
DIV2 = [0x2b6d, 0xd493, 0x6c5b, 0x93a4, 0x5a33, 0xa5cc, 0x3c0f, 0x00e7, 0x0018, 0x91, 0x6e, 0x1d, 0x1e2]
G1 = sorted(set(list(range(-20, 40)) + [s * (2 ** k) + d for k in range(5, 25) for d in (-1, 0, 1) for s in (1, -1)] + [0x55, 0xaa, 0x1234, 0x5678, 0xabcdef, 0x10005, 0x12345, 170, 200, 85] + DIV))
G2 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 1000, 0x1234, 0x1fff, 0x2000, 0x7fff, 0x8000, 0xabcd, 0xffff, 0x10000, -1, -2, -5, -17, -64, -128, -129, -32768, -32769] + DIV2
G2 = sorted(set(G2))
G3 = [0, 1, 2, 5, 7, 8, 0x55, 127, 128, 255, 256, 0x1234, 0xabcd, 0xffff, 0x10000, -1, -128, -129]

def templates(cpu):
    t = open("/repo/i%s.c" % cpu).read()
    ss = re.findall(r'\{\s*"([^"]*)"\s*,', t)
    out = {}
    for s in ss:
        if s == "E": continue
        m = s.split(" ", 1)
        op = m[1] if len(m) > 1 else ""
        if cpu == "6809" and op == "r": continue
        res = ""; holes = []
        for i, ch in enumerate(op):
            prev = op[i - 1] if i else ""
            if ch in "x?&s*~ey" and not (ch in "x" and False):
                if cpu == "gb" and op[i - 1:i + 2] == "-s": pass
                signed = ch == "s" and (op[:i].endswith("IX") or op[:i].endswith("IY") or op[:i].endswith("SP"))
                res += "{s}" if signed else "{v}"; holes.append(ch)
            else: res += ch
        mn = m[0]
        if cpu == "6809" and "," in mn:
            pass
        out[(mn + (" " + res if res else "")).strip()] = len(holes)
    return out

def inst(tpl, vals):
    it = iter(vals)
    def f(m):
        v = next(it)
        return ("%+d" % v) if m.group(1) == "s" else str(v)
    return re.sub(r"\{([sv])\}", f, tpl)

HEAD = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOTSIZE $100\nSLOT 0 0\n.ENDME\n.ROMBANKSIZE $100\n.ROMBANKS 1\n.EMPTYFILL $00\n"
def obs(w, cpu, text, pre=""):
    out = []
    for fill in ("00", "FF"):
        src = HEAD.replace("$00", "$" + fill) + pre + ".BANK 0\n.ORG $10\n" + text + "\n"
        r = w.run(run.one(cpu, src))
        if r.rcs[0] != 0: return None
        if r.rcs != [0, 0]: return "LINK"
        out.append(r.files["o.bin"])
    a, b = out
    n = 0
    for i in range(0x10, 0x100):
        if a[i] == b[i]: n = i - 0x0f
    if any(a[i] != b[i] for i in range(0x10, 0x10 + n)): return "GAP"
    return a[0x10:0x10 + n]

def fit(ob, nh):
    """ob: {vals: bytes}; -> (bitmap rows) or None.  row per output bit: 0, 1 or (hole, k)"""
    n = len(next(iter(ob.values())))
    rows = []
    items = [(tuple(x & 0xffffffff for x in v), int.from_bytes(b, "big")) for v, b in ob.items()]
    for j in range(8 * n - 1, -1, -1):
        col = [(b >> j) & 1 for _, b in items]
        if not any(col): rows.append(0); continue
        if all(col): rows.append(1); continue
        c = [(h, k) for h in range(nh) for k in range(32) if all(((v[h] >> k) & 1) == x for (v, _), x in zip(items, col))]
        if not c:
            return None
        c.sort(key=lambda hk: ((hk[1] - j) % 8 != 0, hk[0], abs(hk[1] - j % 8) if False else hk[1]))
        rows.append(c[0])
    return rows

def pieces_of(ob, nh):
    groups = {}
    for v, b in ob.items():
        if isinstance(b, bytes): groups.setdefault(len(b), {})[v] = b
    return groups

def work(args):
    cpu, tpl, nh, pre = args
    try:
        return work1(cpu, tpl, nh, pre)
    except Exception as e:
        import traceback
        return (cpu, tpl, nh, None, traceback.format_exc())

W = None
def work1(cpu, tpl, nh, pre):
    global W
    if W is None: W = run.World("mk")
    o = lambda *v: obs(W, cpu, inst(tpl, v), pre)
    if nh == 0:
        b = o()
        if not isinstance(b, bytes) or not b: return (cpu, tpl, nh, None, "no bytes: %r" % (b,))
        return (cpu, tpl, nh, [([], [int(x) for x in bin(int.from_bytes(b, "big") | 1 << 8 * len(b))[3:]])], None)
    grid = {1: G1, 2: G2, 3: G3}[nh]
    if "-{v}" in tpl: grid = [x for x in grid if x >= 0]
    ob = {v: o(*v) for v in itertools.product(grid, repeat=nh)}
    bad = [v for v, b in ob.items() if b in ("LINK", "GAP") or b == b""]
    sig = lambda b: len(b) if isinstance(b, bytes) else None
    if nh == 1:
        ks = sorted(v[0] for v in ob)
        todo = [(a, b) for a, b in zip(ks, ks[1:]) if sig(ob[(a,)]) != sig(ob[(b,)])]
        for a, b in todo:
            while b - a > 1:
                m = (a + b) // 2
                x = o(m); ob[(m,)] = x
                if sig(x) == sig(ob[(a,)]): a = m
                else: b = m
    groups = pieces_of(ob, nh)
    if not groups: return (cpu, tpl, nh, [], "nothing accepted")
    res = []; err = None
    const = lambda b: [int(x) for x in bin(int.from_bytes(b, "big") | 1 << 8 * len(b))[3:]]
    def runs_of(g, h):
        """values of hole h in g, as runs of neighbours on the grid, split at zero"""
        allv = sorted({v[h] for v in ob}); mine = {v[h] for v in g}
        runs = []; last = False
        for x in allv:
            if x in mine:
                if not last: runs.append([])
                runs[-1].append(x); last = True
            else: last = False
        return runs
    def step_of(g, h):
        allv = sorted({v[h] for v in ob}); mine = {v[h] for v in g}
        lo, hi = min(mine), max(mine)
        for st in (2, 4, 8):
            if lo % st == 0 and all((x % st == 0) == (x in mine) for x in allv if lo <= x <= hi) and len(mine) > 3: return (lo, hi, st)
        return None
    def leaf(g):
        d = []
        n = 1
        for h in range(nh):
            r = runs_of(g, h)
            vals = sorted({v[h] for v in g}); n *= len(vals)
            if len(r) == 1: d.append([r[0][0], r[0][-1], 1])
            elif step_of(g, h): d.append(list(step_of(g, h)))
            else: return None
        if n != len(g): return None
        rows = fit(g, nh)
        return None if rows is None else [(d, rows)]
    def solve(g, depth=0):
        r = leaf(g)
        if r: return r
        if len(g) == 1:
            (v, b), = g.items()
            return [([[x, x, 1] for x in v], const(b))]
        if depth > 5: return None
        opts = []
        for h in range(nh):
            if step_of(g, h): continue
            rs = runs_of(g, h)
            if len(rs) > 1 and len(rs) <= 20: opts.append([{v: b for v, b in g.items() if v[h] in set(r)} for r in rs])
        for h in range(nh):
            vals = sorted({v[h] for v in g})
            if vals[0] < 0 <= vals[-1]: opts.append([{v: b for v, b in g.items() if v[h] < 0}, {v: b for v, b in g.items() if v[h] >= 0}])
        for o in opts:
            parts = [solve(x, depth + 1) for x in o]
            if all(parts): return sum(parts, [])
        # at most two cuts in one hole
        for h in range(nh):
            for cut in sorted({v[h] for v in g})[1:]:
                x = {v: b for v, b in g.items() if v[h] < cut}; y = {v: b for v, b in g.items() if v[h] >= cut}
                p, q = leaf(x), leaf(y)
                if p and q: return p + q
        if nh == 1 and len(g) <= 16:
            return [([[v[0], v[0], 1]], const(b)) for v, b in sorted(g.items())]
        return None
    for n, g in sorted(groups.items()):
        r = solve(g)
        if r is None:
            err = "cannot fit length %d: %s" % (n, sorted((v, b.hex()) for v, b in g.items())[:12])
            continue
        res += r
    if bad: err = (err or "") + " odd results at %s" % (sorted((v, ob[v]) for v in bad)[:6],)
    return (cpu, tpl, nh, res, err)

def main():
    cpus = sys.argv[1:] or CPUS
    run.TOOLS.update(build.build(cpus + ["wlalink"]))
    jobs = []
    for c in cpus:
        for t, n in templates(c).items():
            pre = ""
            if c == "65816" and re.search(r"[<>|]", t): pre = ".WDC\n"
            jobs.append((c, t, n, pre))
    print(len(jobs), "templates", flush=True)
    out = {c: [] for c in cpus}; bad = []
    with mp.Pool(8) as p:
        for cpu, tpl, nh, res, err in p.imap_unordered(work, jobs, chunksize=4):
            if err: bad.append((cpu, tpl, err))
            if res:
                out[cpu].append((tpl, nh, res))
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
    for c in cpus:
        with open(os.path.join(d, c + ".forms"), "w") as f:
            for tpl, nh, res in sorted(out[c]):
                f.write(json.dumps([tpl, [[dom, enc(rows)] for dom, rows in res]]) + "\n")
    with open("/tmp/mkforms.bad", "w") as f:
        for b in sorted(bad): f.write("%s | %s | %s\n" % b)
    print(len(bad), "not (fully) fitted")

NAMES = "abc"
def enc(rows):
    """one token per bit: 0 1 a5 (bit 5 of the first operand) ..., grouped in bytes; whole bytes shortened to hex / a7-0"""
    out = []
    for i in range(0, len(rows), 8):
        r = rows[i:i + 8]
        if all(isinstance(x, int) for x in r): out.append("%02X" % int("".join(map(str, r)), 2)); continue
        r2 = [tuple(x) if not isinstance(x, int) else x for x in r]
        if all(isinstance(x, tuple) for x in r2) and all(r2[k] == (r2[0][0], r2[0][1] - k) for k in range(8)):
            out.append("%s:%d" % (NAMES[r2[0][0]], r2[7][1])); continue
        out.append(",".join(str(x) if isinstance(x, int) else "%s%d" % (NAMES[x[0]], x[1]) for x in r2))
    return " ".join(out)

if __name__ == "__main__":
    main()
