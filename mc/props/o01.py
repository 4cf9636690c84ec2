"""O01: console headers and checksums.  Every header field and every pair of fields, every documented ROM size and header position, several ROM contents:
the whole finished ROM is compared with one made from the console documentation."""
import itertools
from .. import run
from ..check import Case

ID = "O01"
LEVEL = "model_checking"
TOOLS = ["gb", "z80", "65816", "68000", "wlalink"]
RULE = "distinct (console, header fields with values, ROM size, ROM contents)"
BOUNDS = {"quick": "GB, SMS/GG, SNES and Mega Drive: each field with boundary values and all name lengths, all pairs of fields as header blocks and as directives, all ROM sizes up to 2 MB (SNES ExHiROM up to 5 MB) with 3 ROM contents each, all header base addresses in an 8 KB ROM, all checksum sizes around boundaries, FREE sections filling the ROM around reserved bytes, fields out of range and header overflow refused",
          "thorough": "as quick with larger ROMs, all triples of fields and every byte as the only one in the ROM that is not zero"}

def noise(n, k):
    """ROM contents: bytes without a short period"""
    out = bytearray(n); x = (k * 2654435761 + 12345) & 0xffffffff
    blk = bytearray()
    for i in range(4096):
        x = (x * 1103515245 + 12345) & 0xffffffff
        blk.append((x >> 16) & 255)
    for b in range(0, n, 4096):
        m = (b >> 12) * 7 + k & 255
        p = blk if m == 0 else bytes((v + m) & 255 for v in blk)
        out[b:b + 4096] = p[:min(4096, n - b)]
    return out

CACHE = {}
def data(n, k):
    if k is None: return bytearray(n)
    if (n, k) not in CACHE:
        if len(CACHE) > 3: CACHE.clear()
        CACHE[n, k] = bytes(noise(n, k))
    return bytearray(CACHE[n, k])

def rom_source(size, bank, start, holes, body, tail="", hole_byte=0xA5):
    """the ROM's contents come from file d, except for holes"""
    nb = size // bank
    o = [".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $%x $%x\n.ENDME\n.ROMBANKSIZE $%x\n.ROMBANKS %d\n.EMPTYFILL $%02x\n" % (start, bank, bank, nb, hole_byte), body]
    cuts = sorted(holes)
    at = 0; pieces = []
    for a, e in cuts:
        if at < a: pieces.append((at, a))
        at = max(at, e)
    if at < size: pieces.append((at, size))
    for a, e in pieces:
        while a < e:
            m = min(e, (a // bank + 1) * bank)
            o.append(".BANK %d SLOT 0\n.ORG $%x\n.INCBIN \"d\" SKIP %d READ %d\n" % (a // bank, a % bank, a, m - a))
            a = m
    o.append(".BANK 0 SLOT 0\n.ORG 0\n" + tail)
    return "".join(o)

def compare(rom, exp, also=None):
    if len(rom) != len(exp): return "the ROM has %d bytes, expected %d" % (len(rom), len(exp))
    if rom == bytes(exp): return None
    bad = [i for i in range(len(exp)) if rom[i] != exp[i]]
    return "%d bytes are wrong: " % len(bad) + ", ".join("$%x is $%02x, expected $%02x" % (i, rom[i], exp[i]) for i in bad[:4])

def romcase(key, cpu, size, bank, start, k, holes, body, fill, tail="", states=None, link=("-r",), hb=0xA5, may_refuse=False):
    """fill(image) turns the contents into the expected ROM (None: must be refused)"""
    def prog():
        return run.one(cpu, rom_source(size, bank, start, holes, body, tail, hb), files={"d": bytes(data(size, k))}, link_args=link)
    def judge(res):
        if fill is None:
            return None if any(r > 0 for r in res.rcs) and all(r >= 0 for r in res.rcs) else "must be refused, but exit codes are %r" % res.rcs
        if may_refuse and not res.ok and all(r >= 0 for r in res.rcs): return None
        if not res.ok: return "refused (%r): %s" % (res.rcs, res.outs[-1].decode("latin1")[:250])
        img = data(size, k)
        for a, e in holes: img[a:e] = bytes([hb]) * (e - a)
        exp = fill(img)
        return compare(res.files["o.bin"], exp)
    return Case(key, prog, judge)

# ---------------------------------------------------------------- Game Boy
LOGO = bytes.fromhex("CEED6666CC0D000B03730083000C000D0008111F8889000EDCCC6EE6DDDDD999BBBB67636E0EECCCDDDC999FBBB9333E")
def gb_fields(img, f, banks):
    """f: {field: value}"""
    if "NINTENDOLOGO" in f: img[0x104:0x134] = LOGO
    if "NAME" in f:
        n = 15 if "ROMGBC" in f or "ROMGBCONLY" in f else 16
        img[0x134:0x134 + n] = f["NAME"].encode().ljust(n, b"\0")
    if "ROMGBC" in f: img[0x143] = 0x80
    if "ROMGBCONLY" in f: img[0x143] = 0xc0
    if "ROMDMG" in f: img[0x146] = 0
    if "ROMSGB" in f: img[0x146] = 3
    if "CARTRIDGETYPE" in f: img[0x147] = f["CARTRIDGETYPE"] & 255
    if "ROMSIZE" in f: img[0x148] = {2: 0, 4: 1, 8: 2, 16: 3, 32: 4, 64: 5, 128: 6, 256: 7, 512: 8, 72: 0x52, 80: 0x53, 96: 0x54}[banks] if f["ROMSIZE"] is None else f["ROMSIZE"] & 255
    if "RAMSIZE" in f: img[0x149] = f["RAMSIZE"] & 255
    for n in ("COUNTRYCODE", "DESTINATIONCODE"):
        if n in f: img[0x14a] = f[n] & 255
    if "LICENSEECODEOLD" in f: img[0x14b] = f["LICENSEECODEOLD"] & 255; img[0x144] = img[0x145] = 0
    if "LICENSEECODENEW" in f: img[0x14b] = 0x33; img[0x144:0x146] = f["LICENSEECODENEW"].encode()
    if "VERSION" in f: img[0x14c] = f["VERSION"] & 255
    return img

def gb_sums(img, comp, check):
    if comp: img[0x14d] = -(sum(img[0x134:0x14d]) + 25) & 255
    if check:
        s = sum(img) - img[0x14e] - img[0x14f] & 0xffff
        img[0x14e] = s >> 8; img[0x14f] = s & 255
    return img

def gb_text(f, block):
    o = []
    for n, v in f.items():
        d = n if block else "." + n
        o.append(d if v is None or v is True else "%s %s" % (d, '"%s"' % v if isinstance(v, str) else v))
    return (".GBHEADER\n" + "\n".join(o) + "\n.ENDGB\n") if block else "\n".join(o) + "\n"

GBF = {"NINTENDOLOGO": [True], "NAME": ["A", "TANKBOMBPANIC", "0123456789ABCDE"], "ROMGBC": [True], "ROMGBCONLY": [True], "ROMDMG": [True], "ROMSGB": [True],
       "CARTRIDGETYPE": [0, 1, 0x1b, 127, 128, 255, -1, -128], "ROMSIZE": [None, 0, 3, 0x52, 255], "RAMSIZE": [0, 3, 2, 5], "COUNTRYCODE": [0, 1, 255, -1],
       "DESTINATIONCODE": [0, 1, 200], "LICENSEECODEOLD": [0, 0x34, 255, -2], "LICENSEECODENEW": ["HI", "1A", "  "], "VERSION": [0, 1, 127, 255, -1]}
GBX = [{"ROMGBC", "ROMGBCONLY"}, {"ROMGBC", "ROMDMG"}, {"ROMGBCONLY", "ROMDMG"}, {"ROMDMG", "ROMSGB"}, {"COUNTRYCODE", "DESTINATIONCODE"}, {"LICENSEECODEOLD", "LICENSEECODENEW"}]
GBHOLE = [(0x104, 0x150)]

def gb(tier):
    deep = tier != "quick"
    def one(key, f, block, comp, check, banks=2, k=1, bank=0x4000):
        comp2, check2 = comp, check
        body = gb_text(f, block) + (".COMPUTEGBCOMPLEMENTCHECK\n" if comp else "") + (".COMPUTEGBCHECKSUM\n" if check else "")
        return romcase("gb:" + key, "gb", banks * bank, bank, 0, k, GBHOLE, body, lambda img: gb_sums(gb_fields(img, f, banks), comp or block, check or block))
    # the fields
    for n, vs in GBF.items():
        for v in vs:
            for block in (0, 1):
                for comp, check in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    yield one("%s=%r:%d%d%d" % (n, v, block, comp, check), {n: v}, block, comp, check)
    for r in (2, 3) if deep else (2,):
        for ns in itertools.combinations(GBF, r):
            if any(x <= set(ns) for x in GBX): continue
            for vs in itertools.product(*[GBF[n][:2] for n in ns]):
                for order in (0, 1):
                    f = dict(list(zip(ns, vs))[::-1 if order else 1])
                    for block in (0, 1): yield one("%s:%d" % (",".join("%s=%r" % x for x in f.items()), block), f, block, 1, 1)
    allf = {"NAME": "ALL", "LICENSEECODENEW": "ZZ", "CARTRIDGETYPE": 0x13, "RAMSIZE": 2, "ROMSIZE": None, "COUNTRYCODE": 1, "NINTENDOLOGO": True, "VERSION": 3, "ROMGBC": True, "ROMSGB": True}
    for n in range(1, 17):
        for col in ({}, {"ROMGBC": True}, {"ROMGBCONLY": True}):
            if n == 16 and col: continue
            for block in (0, 1): yield one("name:%d:%s:%d" % (n, "".join(col), block), {"NAME": "ABCDEFGHIJKLMNOP"[:n], **col}, block, 1, 1)
    # sizes and contents
    for banks in [2, 4, 8, 16, 32, 64, 72, 80, 96, 128] + ([256, 512] if deep else []):
        for k in (None, 1, 2, 3) if banks <= 32 else (1, 2):
            yield one("rom:%d:%r" % (banks, k), allf, 1, 0, 0, banks, k)
            yield one("rom2:%d:%r" % (banks, k), {}, 0, 1, 1, banks, k)
            yield one("rom3:%d:%r" % (banks, k), {"ROMSIZE": None}, 0, 0, 1, banks, k)
    # each byte counts once
    pos = list(range(0x100, 0x160)) + [0, 1, 0xff, 0x1fff, 0x3fff, 0x4000, 0x4001, 0x7ffe, 0x7fff] if not deep else range(0x8000)
    for at in pos:
        body = ".COMPUTEGBCOMPLEMENTCHECK\n.COMPUTEGBCHECKSUM\n"
        if 0x14d <= at < 0x150: continue
        def fill(img, at=at): img[at] = 0x9c; return gb_sums(img, 1, 1)
        yield romcase("gb:at:%x" % at, "gb", 0x8000, 0x4000, 0, None, [(0, 0x8000)], body, fill, ".BANK %d SLOT 0\n.ORG $%x\n.DB $9C\n" % (at >> 14, at & 0x3fff), hb=0)
    # free sections around the reserved bytes
    for n in (0x4000 - 3 - 0x14d, ):
        def fill(img):
            img[0:0x14d] = b"\x11" * 0x14d; img[0x150:0x4000] = b"\x22" * (0x4000 - 0x150)
            return gb_sums(img, 1, 1)
        for s in ("FREE", "SEMIFREE", "SUPERFREE"):
            body = ".COMPUTEGBCOMPLEMENTCHECK\n.COMPUTEGBCHECKSUM\n"
            tail = ".SECTION \"a\" %s\n.DSB $%x, $11\n.ENDS\n.SECTION \"b\" %s\n.DSB $%x, $22\n.ENDS\n" % (s, 0x14d, s, 0x4000 - 0x150)
            yield romcase("gb:free:%s" % s, "gb", 0x8000, 0x4000, 0, 2, [(0, 0x4000)], body, fill, tail)
    # refused
    for block in (0, 1):
        for f in ({"NAME": "ABCDEFGHIJKLMNOPQ"}, {"CARTRIDGETYPE": 256}, {"CARTRIDGETYPE": -129}, {"RAMSIZE": 256}, {"COUNTRYCODE": 256}, {"VERSION": 999}, {"LICENSEECODEOLD": 256}, {"LICENSEECODENEW": "A"}, {"LICENSEECODENEW": "ABC"}, {"ROMSIZE": 256}, {"NAME": 5},
                  {"ROMGBC": True, "ROMGBCONLY": True}, {"LICENSEECODEOLD": 1, "LICENSEECODENEW": "AB"}):
            yield romcase("gb:bad:%r:%d" % (f, block), "gb", 0x8000, 0x4000, 0, 1, GBHOLE, gb_text(f, block), None)

# ---------------------------------------------------------------- SMS and Game Gear
SMSSIZE = {0xa: 0x2000, 0xb: 0x4000, 0xc: 0x8000, 0xd: 0xc000, 0xe: 0x10000, 0xf: 0x20000, 0: 0x40000, 1: 0x80000, 2: 0x100000}
def sms_tag(size, f):
    if "BASEADDRESS" in f: return f["BASEADDRESS"]
    return 0x1ff0 if size < 0x4000 else 0x3ff0 if size < 0x8000 else 0x7ff0

def sms_auto(size): return 0xa if size < 0x4000 else 0xb if size < 0x8000 else 0xc

def sms_fill(img, f, header, tag, check):
    size = len(img); t = sms_tag(size, f)
    if header:
        pc = f.get("PRODUCTCODE", (0, 0, 0)); rv = f.get("RESERVEDSPACE", (0, 0))
        img[t:t + 10] = b"TMR SEGA" + bytes(x & 255 for x in rv)
        img[t + 12] = pc[0] & 255; img[t + 13] = pc[1] & 255; img[t + 14] = (pc[2] & 15) << 4 | f.get("VERSION", 0)
        img[t + 15] = f.get("REGIONCODE", 4) << 4 | f.get("ROMSIZE", sms_auto(size))
    elif tag: img[t:t + 8] = b"TMR SEGA"
    if not header and (tag or check) and not f.get("sizebyte"): img[t + 15] = 0x40 | sms_auto(size)
    if "FORCECHECKSUM" in f: img[t + 10] = f["FORCECHECKSUM"] & 255; img[t + 11] = f["FORCECHECKSUM"] >> 8 & 255
    elif header or tag or check:
        n = f.get("CHECKSUMSIZE", SMSSIZE[img[t + 15] & 15])
        skip = set(range(t, t + 16))
        if "BASEADDRESS" not in f and "CHECKSUMSIZE" not in f and n <= 0x4000: skip |= set(range(n - 16, n))
        s = sum(img[:n]) - sum(img[a] for a in skip if a < min(n, len(img)))
        if n > len(img): s = 0      # there is nothing to sum
        img[t + 10] = s & 255; img[t + 11] = s >> 8 & 255
    return img

def sms_text(f):
    return ".SMSHEADER\n" + "".join("%s %s\n" % (n, ", ".join(map(str, v)) if isinstance(v, tuple) else v) for n, v in f.items()) + ".ENDSMS\n"

def sms(tier):
    deep = tier != "quick"
    def one(key, size, f, kind, k=1, bank=None, extra="", tail=""):
        header = "h" in kind; tag = "t" in kind; check = "c" in kind
        t = sms_tag(size, f)
        hole = [(t, t + 16)] if 0 <= t <= size - 16 else []
        if bank is None: bank = size if size <= 0x8000 else 0x4000
        if size % bank: bank = 0x2000
        body = (sms_text(f) if header else "") + (".SMSTAG\n" if tag else "") + (".COMPUTESMSCHECKSUM\n" if check else "")
        bad = f.get("CHECKSUMSIZE", 0) < 0 or not 0 <= t <= size - 16
        return romcase("sms:" + key, "z80", size, bank, 0, k, hole, body, None if bad else lambda img: sms_fill(img, f, header, tag, check), tail, may_refuse=f.get("CHECKSUMSIZE", 0) > size)
    F = {"PRODUCTCODE": [(26, 70, 2), (0, 0, 15), (255, 255, 0), (1, 2, 3)], "VERSION": [0, 1, 15], "REGIONCODE": [3, 4, 5, 6, 7], "RESERVEDSPACE": [(0, 0), (1, 2), (255, 128)], "ROMSIZE": [0xa, 0xb, 0xc],
         "CHECKSUMSIZE": [0x100, 0x7ff0, 0x8000], "FORCECHECKSUM": [0, 0x1234, 0xffff], "BASEADDRESS": [0x1ff0, 0x3ff0, 0x7ff0, 0x100]}
    for n, vs in F.items():
        for v in vs: yield one("%s=%s" % (n, v), 0x8000, {n: v}, "h")
    for r in (2, 3) if deep else (2,):
        for ns in itertools.combinations(F, r):
            if {"CHECKSUMSIZE", "FORCECHECKSUM"} <= set(ns): continue
            for vs in itertools.product(*[F[n] for n in ns]):
                # which bytes CHECKSUMSIZE leaves out when ROMSIZE is smaller than the ROM is not documented
                if {"CHECKSUMSIZE", "ROMSIZE"} <= set(ns) and dict(zip(ns, vs))["ROMSIZE"] != 0xc: continue
                yield one(",".join("%s=%s" % x for x in zip(ns, vs)), 0x8000, dict(zip(ns, vs)), "h", 2)
                if r == 2: yield one("rev:" + ",".join("%s=%s" % x for x in zip(ns, vs)), 0x10000, dict(list(zip(ns, vs))[::-1]), "h", 3)
    for size in [0x2000, 0x4000, 0x6000, 0x8000, 0xc000, 0x10000, 0x14000, 0x20000, 0x40000, 0x80000] + ([0x100000] if deep else []):
        for kind in ("h", "t", "c", "tc", "hc"):
            for k in (None, 1, 2) if size <= 0x20000 else (1,): yield one("size:%x:%s:%r" % (size, kind, k), size, {}, kind, k)
            if size % 0x8000 == 0: yield one("bank8:%x:%s" % (size, kind), size, {}, kind, 1, 0x8000)
        for rs, lim in SMSSIZE.items():
            if lim <= size: yield one("romsize:%x:%x" % (size, rs), size, {"ROMSIZE": rs}, "h", 2)
    # the size byte written by the program
    for size in (0x8000, 0x10000, 0x20000):
        for rs, lim in SMSSIZE.items():
            if lim > size: continue
            for kind in ("t", "c"):
                def fill(img, rs=rs, kind=kind): img[0x7fff] = 0x70 | rs; return sms_fill(img, {"sizebyte": 1}, False, kind == "t", kind == "c")
                yield romcase("sms:byte:%x:%x:%s" % (size, rs, kind), "z80", size, 0x4000, 0, 2, [(0x7ff0, 0x8000)], ".SMSTAG\n" if kind == "t" else ".COMPUTESMSCHECKSUM\n", fill, ".BANK 1 SLOT 0\n.ORG $3FFF\n.DB $%x\n" % (0x70 | rs))
    # base addresses
    for b in [*range(0, 0x40)] + [*range(0x1f00, 0x2010)] + [-1, -16, -0x1000, 0x2000, 0x7ff0, 0x10000] + list(range(0x40, 0x1f00, 1 if deep else 61)):
        yield one("base:%d" % b, 0x2000, {"BASEADDRESS": b}, "h", 1)
    for c in [*range(0, 0x20)] + [*range(0x1fe0, 0x2010)] + [-1, -100, 0x7fffffff, 0x4000] + list(range(0x20, 0x1fe0, 1 if deep else 61)):
        yield one("checksumsize:%d" % c, 0x2000, {"CHECKSUMSIZE": c}, "h", 1)
        if c < 0x2000: yield one("checksumsize+base:%d" % c, 0x2000, {"CHECKSUMSIZE": c, "BASEADDRESS": 0x800}, "h", 1)
    for at in list(range(0x1fd0, 0x1ff0)) + list(range(0x3fe0, 0x3ff0)) + list(range(0x7fd0, 0x7ff0)) + [0, 1, 0xff, 0x2000, 0x3fff, 0x4000, 0x5000] if not deep else [x for x in range(0x8000) if not 0x7ff0 <= x]:
        for rs in (0xa, 0xb, 0xc):
            def fill(img, at=at, rs=rs): img[at] = 0xe7; return sms_fill(img, {"ROMSIZE": rs}, True, False, False)
            yield romcase("sms:at:%x:%x" % (at, rs), "z80", 0x8000, 0x4000, 0, None, [(0, 0x8000)], ".SMSHEADER\nROMSIZE %d\n.ENDSMS\n" % rs, fill, ".BANK %d SLOT 0\n.ORG $%x\n.DB $E7\n" % (at >> 14, at & 0x3fff), hb=0)
    for bad in ("VERSION 16", "VERSION -1", "REGIONCODE 2", "REGIONCODE 8", "ROMSIZE 16", "ROMSIZE -1", "PRODUCTCODE 1, 2", "FORCECHECKSUM 1\nCHECKSUMSIZE 5", "CHECKSUMSIZE 5\nFORCECHECKSUM 1", "BASEADDRESS 1\nBASEADDRESS 2", "NAME \"A\""):
        yield romcase("sms:bad:" + bad.replace("\n", ","), "z80", 0x8000, 0x8000, 0, 1, [(0x7ff0, 0x8000)], ".SMSHEADER\n%s\n.ENDSMS\n" % bad, None)
    # free sections around reserved bytes
    for s in ("FREE", "SEMIFREE", "SUPERFREE"):
        for kind, lo, hi in (("t", 0x7ff0, 0x7ff8), ("h", 0x7ff0, 0x8000)):
            def fill(img, kind=kind, lo=lo): img[0:lo] = b"\x11" * lo; return sms_fill(img, {}, kind == "h", kind == "t", False)
            yield romcase("sms:free:%s:%s" % (s, kind), "z80", 0x8000, 0x8000, 0, 2, [(0, 0x8000)], ".SMSTAG\n" if kind == "t" else sms_text({}), fill, ".SECTION \"a\" %s\n.DSB $%x, $11\n.ENDS\n" % (s, lo))
        def fill(img):
            img[0:0x7ffa] = b"\x11" * 0x7ffa; img[0x7ffc:0x7fff] = b"\x22" * 3; return sms_fill(img, {}, False, False, True)
        yield romcase("sms:freec:%s" % s, "z80", 0x8000, 0x8000, 0, 2, [(0, 0x8000)], ".COMPUTESMSCHECKSUM\n", fill, ".SECTION \"a\" %s\n.DSB $7FFA, $11\n.ENDS\n.SECTION \"b\" %s\n.DSB 3, $22\n.ENDS\n" % (s, s))

# ---------------------------------------------------------------- SNES
SN = {"LOROM": 0x7f00, "HIROM": 0xff00, "EXHIROM": 0x40ff00}
SNBITS = {"LOROM": 0x20, "HIROM": 0x21, "EXHIROM": 0x25}
def snes_sum(img, mode):
    b = 0xffdc if "HI" in mode else 0x7fdc
    at = [b, 0x40ffdc] if mode == "EXHIROM" else [b]
    for a in at: img[a:a + 4] = b"\xff\xff\0\0"
    n = len(img)
    if mode == "EXHIROM": base = 0x400000; s = sum(img[:base]) + sum(img[base:]) * (base // (n - base))
    else:
        p = 1
        while p * 2 <= n: p *= 2
        s = sum(img[:p])
        if n > p:
            # the rest is repeated until the size is a power of two
            k, r = divmod(p, n - p)
            s += sum(img[p:]) * k + sum(img[p:p + r])
    s &= 0xffff
    for a in at: img[a:a + 4] = bytes([~s & 255, ~s >> 8 & 255, s & 255, s >> 8])
    return img

def snes_fields(img, f, mode, header=True):
    for base in ([0x40ff00, 0xff00] if mode == "EXHIROM" else [SN[mode]]):
        img[base + 0xd5] = SNBITS[mode] | (0x10 if "FASTROM" in f else 0)
        for n, o in (("CARTRIDGETYPE", 0xd6), ("ROMSIZE", 0xd7), ("SRAMSIZE", 0xd8), ("COUNTRY", 0xd9), ("LICENSEECODE", 0xda), ("VERSION", 0xdb)):
            if n in f: img[base + o] = f[n] & 255
        if "ID" in f: img[base + 0xb2:base + 0xb6] = f["ID"].encode().ljust(4, b"\0")
        if "NAME" in f: img[base + 0xc0:base + 0xd5] = f["NAME"].encode().ljust(21, b"\0")
        for k, o, names in (("nat", 0xe4, ("COP", "BRK", "ABORT", "NMI", "UNUSED", "IRQ")), ("emu", 0xf4, ("COP", "UNUSED", "ABORT", "NMI", "RESET", "IRQBRK"))):
            if k in f:
                for i, n in enumerate(names):
                    v = f[k].get(n, 0) & 0xffff
                    img[base + o + 2 * i] = v & 255; img[base + o + 2 * i + 1] = v >> 8
    return img

def snes_text(f, mode, block):
    o = []; v = []
    for n, x in f.items():
        if n in ("nat", "emu"):
            v.append({"nat": ".SNESNATIVEVECTOR\n", "emu": ".SNESEMUVECTOR\n"}[n] + "".join("%s $%x\n" % y for y in x.items()) + {"nat": ".ENDNATIVEVECTOR\n", "emu": ".ENDEMUVECTOR\n"}[n])
        else: o.append(("" if block else ".") + (n if x is True else "%s %s" % (n, '"%s"' % x if isinstance(x, str) else x)))
    if block: t = ".SNESHEADER\n%s\n%s\n.ENDSNES\n" % (mode, "\n".join(o))
    else: t = ".%s\n%s\n" % (mode, "\n".join(o))
    return t, "".join(v)

def snes(tier):
    deep = tier != "quick"
    def one(key, mode, size, f, block=1, check=0, k=1):
        bank = 0x10000 if "HI" in mode else 0x8000
        t, v = snes_text(f, mode, block)
        if check: t += ".COMPUTESNESCHECKSUM\n"
        holes = [(0x40ffb0, 0x410000), (0xffb0, 0x10000)] if mode == "EXHIROM" else [(SN[mode] + 0xb0, SN[mode] + 0x100)]
        def fill(img):
            img = snes_fields(img, f, mode)
            if mode == "EXHIROM": img[0xffb0:0x10000] = img[0x40ffb0:0x410000]
            return snes_sum(img, mode) if block or check else img
        return romcase("snes:" + key, "65816", size, bank, 0x8000 if bank == 0x8000 else 0, k, holes, t + v, fill)
    F = {"ID": ["A", "ABCD", "12"], "NAME": ["N", "Hello World!", "012345678901234567890"], "SLOWROM": [True], "FASTROM": [True], "CARTRIDGETYPE": [0, 5, 0x13, 255, -1], "ROMSIZE": [8, 12, 255],
         "SRAMSIZE": [0, 1, 3], "COUNTRY": [0, 1, 14, 255], "LICENSEECODE": [0, 0x33, 255], "VERSION": [0, 1, 255, -128],
         "nat": [{}, {"COP": 1, "BRK": 0x1234, "ABORT": 0xffff, "NMI": 0x8000, "UNUSED": 2, "IRQ": 0xfffe}, {"IRQ": 5, "COP": 6}], "emu": [{}, {"COP": 1, "UNUSED": 0x4321, "ABORT": 0xffff, "NMI": 0x8000, "RESET": 0x8123, "IRQBRK": 0xfffe}, {"RESET": 7}]}
    FREE = {"NAME", "SLOWROM", "FASTROM", "nat", "emu"}
    sizes = {"LOROM": 0x8000, "HIROM": 0x10000}
    for mode, size in sizes.items():
        for n, vs in F.items():
            for i, v in enumerate(vs):
                yield one("%s:%s=%d" % (mode, n, i), mode, size, {n: v})
                if n in FREE:
                    for c in (0, 1): yield one("%s:.%s=%d:%d" % (mode, n, i, c), mode, size, {n: v}, 0, c)
        for r in (2, 3) if deep else (2,):
            for ns in itertools.combinations(F, r):
                if {"SLOWROM", "FASTROM"} <= set(ns): continue
                for vs in itertools.product(*[F[n][:2] for n in ns]):
                    yield one("%s:%s" % (mode, ",".join("%s=%s" % x for x in zip(ns, vs))), mode, size, dict(zip(ns, vs)), 1, 0, 2)
        for n in range(1, 22):
            for block in (0, 1): yield one("%s:name:%d:%d" % (mode, n, block), mode, size, {"NAME": "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:n]}, block)
        for bad in ("NAME \"ABCDEFGHIJKLMNOPQRSTUV\"", "ID \"ABCDE\"", "CARTRIDGETYPE 256", "ROMSIZE 256", "SRAMSIZE -1", "COUNTRY 256", "LICENSEECODE 300", "VERSION 256", "VERSION -129", "HIROM\nLOROM", "FASTROM\nSLOWROM", "NAME 3"):
            yield romcase("snes:bad:%s:%s" % (mode, bad.replace("\n", ",")), "65816", size, size, 0, 1, [(SN[mode] + 0xb0, SN[mode] + 0x100)], ".SNESHEADER\n%s\n%s\n.ENDSNES\n" % (mode, bad), None)
    full = {"ID": "QUIZ", "NAME": "ALL", "FASTROM": True, "CARTRIDGETYPE": 2, "ROMSIZE": 9, "SRAMSIZE": 3, "COUNTRY": 1, "LICENSEECODE": 7, "VERSION": 2, "nat": F["nat"][1], "emu": F["emu"][1]}
    for mode in ("LOROM", "HIROM"):
        unit = 0x10000 if "HI" in mode else 0x8000
        for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24, 28, 32] + ([48, 64, 80, 96, 128] if deep else []):
            for k in (None, 1, 2) if n <= 4 else (1, 2):
                yield one("rom:%s:%d:%r" % (mode, n, k), mode, n * unit, full, 1, 0, k)
                yield one("rom2:%s:%d:%r" % (mode, n, k), mode, n * unit, {}, 0, 1, k)
    for n in [65, 66, 80] + ([68, 72, 96, 128] if deep else []):
        yield one("rom:EXHIROM:%d" % n, "EXHIROM", n * 0x10000, full, 1, 0, 1)
        yield one("rom2:EXHIROM:%d" % n, "EXHIROM", n * 0x10000, {}, 0, 1, 2)
    for mode, size in sizes.items():
        b = SN[mode]
        for at in [0, 1, 0x7fff, 0x7ffe] + [x for x in range(0x7f80, 0x8000)] + [x for x in range(0xff80, 0x10000)]:
            if at >= size or b + 0xd5 <= at < b + 0xe0 or at == b + 0xd5: continue
            def fill(img, at=at, mode=mode): img[at] = 0x9d; return snes_sum(snes_fields(img, {}, mode), mode)
            bank = size if "HI" in mode else 0x8000
            yield romcase("snes:at:%s:%x" % (mode, at), "65816", size, bank, 0, None, [(0, size)], ".SNESHEADER\n%s\n.ENDSNES\n" % mode, fill, ".BANK %d SLOT 0\n.ORG $%x\n.DB $9D\n" % (at // bank, at % bank), hb=0)

# ---------------------------------------------------------------- Mega Drive
MD = {"SYSTEMTYPE": (0x100, 16, "SEGA MEGA DRIVE "), "COPYRIGHT": (0x110, 16, ""), "TITLEDOMESTIC": (0x120, 48, ""), "TITLEOVERSEAS": (0x150, 48, ""), "SERIALNUMBER": (0x180, 14, ""),
      "DEVICESUPPORT": (0x190, 16, "J"), "MODEMSUPPORT": (0x1bc, 12, ""), "REGIONSUPPORT": (0x1f0, 3, "JUE")}
def md_fill(img, f, header):
    be = lambda v: (v & 0xffffffff).to_bytes(4, "big")
    if header:
        img[0x1c8:0x200] = b" " * 0x38
        for n, (a, l, d) in MD.items(): img[a:a + l] = f.get(n, d).encode().ljust(l)
        s, e = f.get("ROMADDRESSRANGE", (0, -1))
        img[0x1a0:0x1a8] = be(s) + be(len(img) - 1 if e == -1 else e)
        s, e = f.get("RAMADDRESSRANGE", (0xff0000, 0xffffff))
        img[0x1a8:0x1b0] = be(s) + be(e)
        t, a, b, s, e = f.get("EXTRAMEMORY", ("RA", 0xa0, 0x20, 0, 0))
        img[0x1b0:0x1bc] = t.encode().ljust(2) + bytes([a & 255, b & 255]) + be(s) + be(e)
    s = sum(img[0x200::2]) * 256 + sum(img[0x201::2]) & 0xffff
    img[0x18e] = s >> 8; img[0x18f] = s & 255
    return img

def md_text(f):
    q = lambda v: '"%s"' % v if isinstance(v, str) else str(v)
    return ".SMDHEADER\n" + "".join("%s %s\n" % (n, ", ".join(map(q, v)) if isinstance(v, tuple) else q(v)) for n, v in f.items()) + ".ENDSMD\n"

def md(tier):
    deep = tier != "quick"
    def one(key, size, f, header=True, k=1, bank=None):
        return romcase("md:" + key, "68000", size, bank or size, 0, k, [(0x100, 0x200)] if header else [(0x18e, 0x190)], md_text(f) if header else ".COMPUTESMDCHECKSUM\n", lambda img: md_fill(img, f, header))
    for size in [0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x20000, 0x40000, 0x80000, 0x100000] + ([0x200000, 0x400000] if deep else []):
        for k in (None, 1, 2, 3) if size <= 0x20000 else (1, 2):
            for header in (True, False):
                yield one("size:%x:%r:%d" % (size, k, header), size, {}, header, k)
                if size > 0x1000: yield one("banks:%x:%r:%d" % (size, k, header), size, {}, header, k, 0x1000)
    F = {}
    for n, (a, l, d) in MD.items():
        F[n] = ["", "X", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnop"[:l], "AB cd"[:l - 1]]
        for k in range(l + 1): yield one("%s:%d" % (n, k), 0x1000, {n: "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOP"[:k]})
        yield romcase("md:bad:%s" % n, "68000", 0x1000, 0x1000, 0, 1, [(0x100, 0x200)], md_text({n: "x" * (l + 1)}), None)
        yield romcase("md:bad#:%s" % n, "68000", 0x1000, 0x1000, 0, 1, [(0x100, 0x200)], md_text({n: 5}), None)
    F["ROMADDRESSRANGE"] = [(0, -1), (0, 0x3fffff), (0x1000, 0x1fff), (0x200000, -1)]
    F["RAMADDRESSRANGE"] = [(0, 0), (0xff0000, 0xff7fff), (0x12345678, 0x7fffffff)]
    F["EXTRAMEMORY"] = [("RA", 0xa0, 0x20, 0x200000, 0x20ffff), ("  ", 0x20, 0x20, 0, 0), ("X", 255, -1, 1, 0x7fffffff)]
    for n, vs in F.items():
        for v in vs: yield one("%s=%r" % (n, v), 0x2000, {n: v})
    for r in (2, 3) if deep else (2,):
        for ns in itertools.combinations(F, r):
            for vs in itertools.product(*[F[n][1:3] for n in ns]):
                yield one(",".join("%s=%r" % x for x in zip(ns, vs)), 0x1000, dict(zip(ns, vs)), True, 2)
    for at in [0, 1, 0xff, 0x200, 0x201, 0x202, 0xffe, 0xfff, 0x1000, 0x1001, 0x1ffe, 0x1fff] if not deep else [x for x in range(0x2000) if not 0x100 <= x < 0x200]:
        for v in (1, 0x80, 0xff):
            def fill(img, at=at, v=v): img[at] = v; return md_fill(img, {}, True)
            yield romcase("md:at:%x:%x" % (at, v), "68000", 0x2000, 0x2000, 0, None, [(0, 0x2000)], md_text({}), fill, ".ORG $%x\n.DB %d\n" % (at, v), hb=0)
    for s in ("FREE", "SEMIFREE", "SUPERFREE"):
        def fill(img): img[0:0x100] = b"\x11" * 0x100; img[0x200:] = b"\x22" * 0xe00; return md_fill(img, {}, True)
        yield romcase("md:free:%s" % s, "68000", 0x1000, 0x1000, 0, 2, [(0, 0x1000)], md_text({}), fill, ".SECTION \"a\" %s\n.DSB $100, $11\n.ENDS\n.SECTION \"b\" %s\n.DSB $E00, $22\n.ENDS\n" % (s, s))

def cases(tier):
    yield from gb(tier)
    yield from sms(tier)
    yield from snes(tier)
    yield from md(tier)
