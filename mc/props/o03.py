"""O03: which bytes the output file holds.  Every used range of small ROMs with every output mode, every -bS and -bE value, headers, footers, bank headers,
load addresses, backgrounds, freed ranges and fill bytes: the whole output file is compared with the documented one."""
import itertools
from .. import run
from ..check import Case

ID = "O03"
LEVEL = "model_checking"
TOOLS = ["z80", "6502", "65816", "wlalink"]
RULE = "distinct (ROM layout, used bytes, output options, header, footer, background, freed ranges)"
BOUNDS = {"quick": "ROMs of 24-32 bytes in 2-3 banks: all first and last used bytes x program and ROM output, all -bS x -bE values from 0 to past the end (and labels), headers and footers of 0-300 bytes, all load addresses at byte boundaries, backgrounds of every size, all single freed ranges (including outside the ROM) and pairs, sections of every size in them, all fill bytes, bank headers in every subset of banks, SMC headers",
          "thorough": "as quick with all pairs of used bytes for all option pairs and all pairs of freed ranges"}

HDR = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $%x $%x\n.ENDME\n.ROMBANKSIZE $%x\n.ROMBANKS %d\n.EMPTYFILL $EE\n"
MAPHDR = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $%x $20\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL %d\n%s.ENDRO\n.EMPTYFILL $EE\n"
def header(banks, start=0x100):
    if len(set(banks)) == 1: return HDR % (start, banks[0], banks[0], len(banks))
    return MAPHDR % (start, len(banks), "".join("BANKSIZE $%x\nBANKS 1\n" % b for b in banks))

def where(banks, a):
    for i, b in enumerate(banks):
        if a < b: return i, a
        a -= b

def place(banks, used, label=None):
    """code for used addresses, {address: byte}"""
    o = []
    last = None
    for a in sorted(used):
        b, off = where(banks, a)
        if last is None or a != last + 1 or off == 0: o.append(".BANK %d SLOT 0\n.ORG $%x\n" % (b, off))
        if label and a in label: o.append("%s:\n" % label[a])
        o.append(".DB $%02x\n" % used[a])
        last = a
    return "".join(o)

def outcase(key, cpu, src, link_args, exp, files=None, link="[objects]\na.o\n", also=None, cmp=None):
    """exp: bytes, or None: must be refused; also: another accepted result ("refused" allowed)"""
    def prog(): return run.one(cpu, src, files=files, link_args=link_args, link=link)
    def judge(res):
        refused = any(r > 0 for r in res.rcs) and all(r >= 0 for r in res.rcs)
        if exp is None or (refused and also == "refused"): return None if refused else "must be refused, but exit codes are %r" % res.rcs
        if not res.ok: return "refused (%r): %s" % (res.rcs, res.outs[-1].decode("latin1")[:250])
        got = res.files["o.bin"]
        if got is None: return "success, but there is no output file"
        if cmp: got = cmp(got)
        if got == bytes(exp): return None
        if len(got) != len(exp): return "the file has %d bytes, expected %d: %s, expected %s" % (len(got), len(exp), got[:40].hex(), bytes(exp)[:40].hex())
        i = next(i for i in range(len(exp)) if got[i] != exp[i])
        return "byte %d of the file is $%02x, expected $%02x: %s, expected %s" % (i, got[i], exp[i], got[:40].hex(), bytes(exp)[:40].hex())
    return Case(key, prog, judge)

def image(banks, used, fill=0xEE):
    r = bytearray([fill]) * sum(banks)
    for a, v in used.items(): r[a] = v
    return r

def hf(h, f):
    files, link = {}, "[objects]\na.o\n"
    hd = bytes((i * 7 + 1) & 255 for i in range(h)) if h is not None else b""
    fd = bytes((i * 5 + 2) & 255 for i in range(f)) if f is not None else b""
    if h is not None: files["h.dat"] = hd; link += "[header]\nh.dat\n"
    if f is not None: files["f.dat"] = fd; link = ("[footer]\nf.dat\n" + link) if (h or 0) & 1 else link + "[footer]\nf.dat\n"
    return files, link, hd, fd

SHAPES = {"2": [16, 16], "3m": [8, 16, 8], "1": [32]}
def ranges(tier):
    deep = tier != "quick"
    for sn, banks in SHAPES.items():
        size = sum(banks)
        for b in range(size):
            for e in range(b, size):
                used = {b: 0x10, e: 0x20}
                src = header(banks) + place(banks, used)
                img = image(banks, used)
                for h, f in ((None, None), (3, 2)) if (b + e) % 3 == 0 or deep else ((None, None),):
                    files, link, hd, fd = hf(h, f)
                    yield outcase("range:%s:%d-%d:b:%r" % (sn, b, e, h), "z80", src, ["-b"], hd + img[b:e + 1] + fd, files, link)
                    yield outcase("range:%s:%d-%d:r:%r" % (sn, b, e, h), "z80", src, ["-r"], hd + img + fd, files, link)
        src = header(banks)
        yield outcase("none:%s:r" % sn, "z80", src, ["-r"], image(banks, {}))
        yield outcase("none:%s:b" % sn, "z80", src, ["-b"], b"", also="refused")

def limits(tier):
    deep = tier != "quick"
    for sn, banks in SHAPES.items():
        size = sum(banks)
        pairs = [(5, 20), (0, 31), (0, 0), (31, 31), (9, 9)] if not deep else [(b, e) for b in range(0, size, 3) for e in range(b, size, 3)]
        if sn == "3m" and not deep: pairs = pairs[:2]
        for b, e in pairs:
            used = {b: 0x10, e: 0x20}
            src = header(banks) + place(banks, used); img = image(banks, used)
            vals = [None] + list(range(size + 3)) + [0xffff, 0x7fffffff]
            for s in vals:
                for n in vals:
                    if s is not None and n is not None and (s + n) % 3 and not deep: continue
                    args = ["-b"]
                    if s is not None: args += ["-bS", ("$%x" if s & 1 else "%d") % s]
                    if n is not None: args += ["-bE", ("$%x" if s is None or s & 2 else "%d") % n]
                    S = b if s is None else s; E = e if n is None else n
                    bad = S >= size or E >= size or S > E
                    files, link, hd, fd = hf(1, 1) if (S + E) % 5 == 0 else hf(None, None)
                    yield outcase("limit:%s:%d-%d:%s:%s" % (sn, b, e, s, n), "z80", src, args, None if bad else hd + img[S:E + 1] + fd, files, link)
    # labels
    banks = [16, 16]
    used = {a: a + 0x40 for a in range(3, 30)}
    for sec in (0, 1):
        for s in [None] + list(range(3, 30, 1 if deep else 3)):
            for e in [None] + list(range(3, 30, 1 if deep else 2)):
                lab = {}
                if s is not None: lab[s] = "LS"
                if e is not None and e != s: lab[e] = "LE"
                if sec:
                    body = ""
                    for bk, lo, hi in ((0, 3, 16), (1, 16, 30)):
                        body += ".BANK %d SLOT 0\n.ORG 0\n.SECTION \"s%d\" FORCE\n.DSB %d, 0\n" % (bk, bk, 3 if bk == 0 else 0) if 0 else ".BANK %d SLOT 0\n.ORG %d\n.SECTION \"s%d\" FORCE\n" % (bk, lo & 15, bk)
                        for a in range(lo, hi):
                            if a in lab: body += lab[a] + ":\n"
                            body += ".DB $%x\n" % used[a]
                        body += ".ENDS\n"
                else: body = place(banks, used, lab)
                args = ["-b"]
                if s is not None: args += ["-bS", "LS"]
                if e is not None: args += ["-bE", "LE" if e != s else "LS"]
                S = 3 if s is None else s; E = 29 if e is None else e
                img = image(banks, used)
                yield outcase("label:%d:%s:%s" % (sec, s, e), "z80", header(banks) + body, args, None if S > E else img[S:E + 1])
    src = header(banks) + ".RAMSECTION \"r\" BANK 0 SLOT 0 FREE\nRV DB\n.ENDS\n.DEFINE DV 5\n.EXPORT DV\n" + place(banks, used, {9: "L"})
    for x in ("RV", "DV", "NONE", "-1", ""):
        for o in ("-bS", "-bE"):
            yield outcase("badlabel:%s:%s" % (o, x), "z80", src, ["-b", o, x], None)

def extras(tier):
    deep = tier != "quick"
    banks = [16, 16]; used = {5: 0x11, 20: 0x22}
    src = header(banks) + place(banks, used); img = image(banks, used)
    for h in [None, 0, 1, 2, 255, 256, 300]:
        for f in [None, 0, 1, 2, 255, 256, 300]:
            files, link, hd, fd = hf(h, f)
            for m in "br":
                yield outcase("hf:%s:%s:%s" % (h, f, m), "z80", src, ["-" + m], hd + (img if m == "r" else img[5:21]) + fd, files, link, also="refused" if 0 in (h, f) else None)
                for t in ("CBMPRG", "c64PRG"):
                    if m == "b": yield outcase("hfprg:%s:%s:%s" % (h, f, t), "6502", src, ["-b", "-t", t, "-a", "$801"], hd + b"\x01\x08" + img[5:21] + fd, files, link, also="refused" if 0 in (h, f) else None)
    yield outcase("hf:nohead", "z80", src, ["-r"], None, {}, "[objects]\na.o\n[header]\nx.dat\n")
    yield outcase("hf:nofoot", "z80", src, ["-r"], None, {}, "[objects]\na.o\n[footer]\nx.dat\n")
    # load addresses
    for a in list(range(0, 0x10000, 1 if deep else 251)) + [0, 1, 255, 256, 257, 0x801, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff]:
        for fmt in ("%d", "$%x"):
            yield outcase("load:" + fmt % a, "6502", src, ["-b", "-t", "CBMPRG", "-a", fmt % a], bytes([a & 255, a >> 8]) + img[5:21])
    for start in (0, 0x100, 0x801, 0xc000, 0xffe0):
        for b in range(31):
            u = {b: 1, 31: 2}; i2 = image(banks, u)
            s2 = header(banks, start) + place(banks, u, {b: "go", 31: "zz"})
            v = start + (b & 15)
            for args in (["-a", "go"], []):
                if not args and start + 15 < v: continue
                if not args and b > 15: continue       # which label an automatic load address takes is not documented otherwise
                yield outcase("loadlabel:%x:%d:%d" % (start, b, len(args)), "6502", s2, ["-b", "-t", "CBMPRG"] + args, bytes([v & 255, v >> 8]) + i2[b:])
    # an automatic load address is a label of the ROM, never one of RAM
    for start in (0, 0x801, 0xc000):
        for kind in ("FREE", "FORCE", "SEMIFREE", "SEMISUBFREE", "FORCE ORG 2"):
            for where_ in (0, 1):
                for off in (3, 5, 15):
                    ram = ".BANK 0 SLOT 0\n.ORG %d\n.RAMSECTION \"r\" BANK 0 SLOT 0 %s\nRV DB\nRW DB\n.ENDS\n" % (4 if "SUBFREE" in kind else 0, kind)
                    rom = ".BANK 0 SLOT 0\n.ORG %d\ngo:\n.DB 1, 2, 3\n" % off if off < 14 else ".BANK 0 SLOT 0\n.ORG 15\ngo:\n.DB 1\n"
                    v = start + off
                    yield outcase("loadauto:%x:%s:%d:%d" % (start, kind, where_, off), "6502", header([16, 16], start) + (ram + rom if where_ else rom + ram), ["-b", "-t", "CBMPRG"], bytes([v & 255, v >> 8]) + (b"\1\2\3" if off < 14 else b"\1"))
    for x in ("NONE", ""): yield outcase("loadbad:" + x, "6502", src, ["-b", "-t", "CBMPRG", "-a", x], None)
    yield outcase("loadbad:none", "6502", src, ["-b", "-t", "CBMPRG"], None)
    # fill bytes
    for v in list(range(256)) + [-1, -128]:
        s2 = src.replace("$EE", str(v))
        for m in "br": yield outcase("fill:%d:%s" % (v, m), "z80", s2, ["-" + m], (lambda i: i if m == "r" else i[5:21])(image(banks, used, v & 255)))
    for v in (256, -129, 1000): yield outcase("fill:%d" % v, "z80", src.replace("$EE", str(v)), ["-r"], None)
    # bank headers
    for nb, sizes in ((3, (1, 2, 9)), (4, (3,))):
        bk = [8] * nb
        for sub in range(1 << nb):
            for sz in sizes:
                for h, f in ((None, None), (2, 3)):
                    files, link, hd, fd = hf(h, f)
                    u = {1: 0x31, 8 * nb - 2: 0x32}
                    t = header(bk)
                    exp = b""
                    i2 = image(bk, u)
                    order = [i for i in range(nb) if sub >> i & 1]
                    for k, i in enumerate(order[::-1] if sz & 1 else order):
                        t += ".BANK %d SLOT 0\n.ORG 0\n.SECTION \"BANKHEADER\"\n%s.ENDS\n" % (i, "".join(".DB $%x\n" % (0x80 + i * 16 + j) if j or sz < 2 else ".DB LAB\n" for j in range(sz)))
                    t += place(bk, u, {1: "LAB"}).replace("LAB:", "LAB:")
                    for i in range(nb):
                        if sub >> i & 1: exp += bytes(((0x80 + i * 16 + j) if j or sz < 2 else 1) & 255 for j in range(sz))
                        exp += i2[8 * i:8 * i + 8]
                    t = t.replace("SLOT 0 $100 $8", "SLOT 0 $0 $8")
                    yield outcase("bankheader:%d:%d:%d:%r" % (nb, sub, sz, h), "z80", t, ["-r"], hd + exp + fd, files, link)
    # with program output of bank 0 alone, its header comes first; those of the banks which are not written are not
    for sub in range(8):
        for e in range(8):
            u = {0: 0x31}; u[e] = 0x32
            t = header([8] * 3)
            for i in range(3):
                if sub >> i & 1: t += ".BANK %d SLOT 0\n.ORG 0\n.SECTION \"BANKHEADER\"\n.DB $%x, $%x\n.ENDS\n" % (i, 0x80 + i, 0x90 + i)
            yield outcase("bankheader:b:%d:%d" % (sub, e), "z80", t + place([8] * 3, u), ["-b"], (b"\x80\x90" if sub & 1 else b"") + image([8] * 3, u)[:e + 1])
    t = header([8, 8]) + ".BANK 1 SLOT 0\n.ORG 0\n" + ".SECTION \"BANKHEADER\"\n.DB 1\n.ENDS\n" * 2
    yield outcase("bankheader:twice", "z80", t, ["-r"], None)
    # SMC
    for mode, unit, bit in (("LOROM", 0x8000, 0), ("HIROM", 0x10000, 0x30)):
        for n in (1, 2, 3, 4, 32, 33):
            for sram in range(0, 4):
                for h, f in ((None, None), (2, 3)):
                    files, link, hd, fd = hf(h, f)
                    t = HDR % (0, unit, unit, n) + ".SNESHEADER\n%s\nSRAMSIZE %d\n.ENDSNES\n.SMC\n" % (mode, sram) + ".BANK 0 SLOT 0\n.ORG 0\n.DB 1,2,3\n"
                    pages = unit * n >> 13
                    smc = bytearray(512); smc[0] = pages & 255; smc[1] = pages >> 8; smc[2] = bit | (sram ^ 3) << 2
                    at = len(hd)
                    def cmp(got, at=at, hd=hd, fd=fd, n=n, unit=unit):
                        # bytes 8 to 10 of the header are not documented; the ROM itself belongs to O01
                        g = bytearray(got[:at + 512]); g[at + 8:at + 11] = b"\0\0\0"
                        return bytes(g) + got[at + 512:at + 515] + len(got).to_bytes(4, "big") + got[len(got) - len(fd):]
                    yield outcase("smc:%s:%d:%d:%r" % (mode, n, sram, h), "65816", t, ["-r"], hd + smc + b"\1\2\3" + (len(hd) + 512 + unit * n + len(fd)).to_bytes(4, "big") + fd, files, link, cmp=cmp)

def free_fit(freeb, size, n):
    for a in range(size - n + 1):
        if all(freeb[a:a + n]): return a
    return None

def background(tier):
    deep = tier != "quick"
    for sn, banks in (("2", [16, 16]), ("1", [32])):
        size = 32
        bg = bytes(0x60 + i for i in range(40))
        for n in range(0, 35):
            src = header(banks) + '.BACKGROUND "g"\n'
            img = image(banks, {i: bg[i] for i in range(min(n, size))})
            for m in "br":
                if n == 0: continue
                yield outcase("bg:%s:%d:%s" % (sn, n, m), "z80", src, ["-" + m], None if n > size else img if m == "r" else img[:n], {"g": bg[:n]})
        yield outcase("bg:%s:nofile" % sn, "z80", header(banks) + '.BACKGROUND "q"\n', ["-r"], None)
        yield outcase("bg:%s:two" % sn, "z80", header(banks) + '.BACKGROUND "g"\n.BACKGROUND "g"\n', ["-r"], None, {"g": bg[:4]})
        yield outcase("bg:%s:nomap" % sn, "z80", '.BACKGROUND "g"\n' + header(banks), ["-r"], None, {"g": bg[:4]})
        yield outcase("bg:%s:unonly" % sn, "z80", header(banks) + '.UNBACKGROUND 1 2\n', ["-r"], None)
        # freed ranges, with a section of some size put into them
        for s in range(-3, 35):
            for e in range(-3, 36):
                for n in (32, 20) if (s + e) % 4 == 0 or deep else (32,):
                    f = [i >= n for i in range(size)]
                    bad = s < 0 or e < s or s >= size
                    hi = min(e, size - 1)
                    img = image(banks, {i: bg[i] for i in range(n)})
                    if not bad:
                        for i in range(s, hi + 1): f[i] = True; img[i] = 0xEE
                    src = header(banks) + '.BACKGROUND "g"\n.UNBACKGROUND %d $%x\n' % (s, e) if e >= 0 else header(banks) + '.BACKGROUND "g"\n.UNBACKGROUND %d %d\n' % (s, e)
                    key = "un:%s:%d:%d:%d" % (sn, s, e, n)
                    # a range past the end may be refused or cut
                    also = "refused" if e >= size else None
                    yield outcase(key, "z80", src, ["-r"], None if bad else img, {"g": bg[:n]}, also=also)
                    if bad: continue
                    us = [i for i in range(size) if not f[i]]
                    if us: yield outcase(key + ":b", "z80", src, ["-b"], img[us[0]:us[-1] + 1], {"g": bg[:n]}, also=also)
                    w = hi - s + 1
                    for k in sorted({1, w, w + 1, 16}):
                        if sn == "2":
                            at = free_fit(f[:16], 16, k)
                        else: at = free_fit(f, 32, k)
                        t = src + ".BANK 0 SLOT 0\n.ORG 0\n.SECTION \"x\" FREE\n.DSB %d, $55\n.ENDS\n" % k
                        i2 = bytearray(img)
                        if at is not None: i2[at:at + k] = b"\x55" * k
                        yield outcase(key + ":free%d" % k, "z80", t, ["-r"], None if at is None else i2, {"g": bg[:n]}, also=also)
        # two freed ranges
        step = 1 if deep else 3
        for a, b in itertools.combinations(range(0, 32, step), 2):
            for c, d in itertools.combinations(range(0, 32, step), 2):
                if not deep and (a + b * 3 + c * 5 + d * 7) % 5: continue
                f = [a <= i <= b or c <= i <= d for i in range(size)]
                img = image(banks, {i: bg[i] for i in range(size) if not f[i]})
                src = header(banks) + '.BACKGROUND "g"\n.UNBACKGROUND %d %d\n.UNBACKGROUND %d %d\n' % (a, b, c, d)
                lim = 16 if sn == "2" else 32
                for k in (2, 5):
                    at = free_fit(f[:lim], lim, k)
                    i2 = bytearray(img)
                    if at is not None: i2[at:at + k] = b"\x55" * k
                    yield outcase("un2:%s:%d-%d:%d-%d:%d" % (sn, a, b, c, d, k), "z80", src + ".BANK 0 SLOT 0\n.ORG 0\n.SECTION \"x\" FREE\n.DSB %d, $55\n.ENDS\n" % k, ["-r"], None if at is None else i2, {"g": bg[:32]})
        # OVERWRITE sections anywhere, FORCE sections only in freed parts, same bytes anywhere
        for s, e in ((4, 9), (0, 3), (28, 31), (14, 17), (40, 41)):
            for at in range(32):
                for k in (1, 2, 4):
                    b, off = where(banks, at)
                    if off + k > banks[b]: continue
                    freed = all(s <= i <= e for i in range(at, at + k))
                    un = ".UNBACKGROUND %d %d\n" % (s, e) if s < 32 else ""
                    img = image(banks, {i: bg[i] for i in range(size) if not s <= i <= e or s >= 32})
                    i2 = bytearray(img); i2[at:at + k] = b"\x55" * k
                    for kind in ("OVERWRITE", "FORCE"):
                        t = header(banks) + '.BACKGROUND "g"\n' + un + ".BANK %d SLOT 0\n.ORG %d\n.SECTION \"x\" %s\n.DSB %d, $55\n.ENDS\n" % (b, off, kind, k)
                        yield outcase("over:%s:%d:%d:%d:%s" % (sn, s, at, k, kind), "z80", t, ["-r"], i2 if freed or kind == "OVERWRITE" else None, {"g": bg[:32]})

def cases(tier):
    yield from ranges(tier)
    yield from limits(tier)
    yield from extras(tier)
    yield from background(tier)
