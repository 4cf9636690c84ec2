"""D01: data directives over value grids, byte orders, strings with escapes, tables, rows, series, filters."""
import itertools, math
from .. import run
from ..check import Case
from ..cells import batch, refuse, head, FILL

ID = "D01"
LEVEL = "model_checking"
LE, BE = ["z80", "6502", "spc700"], ["6800", "68000", "6809"]
TOOLS = ["wlalink"] + LE + BE
RULE = "distinct data statements (directive, values, processor byte order) or statement sequences whose bytes, or refusal, were compared with the model"
BOUNDS = {"quick": "every directive with every pair of values on a 20-value grid at the limits, in both byte orders; all strings of up to 3 of 15 string units; all tables of up to 3 columns with 1-3 rows in all splits; series over parameter grids",
          "thorough": "as quick with strings of up to 4 units, triples of values and six processors"}
VALS = [-2147483648, -8388609, -8388608, -32769, -32768, -129, -128, -2, -1, 0, 1, 2, 127, 128, 200, 255, 256, 0x1234, 32767, 32768, 65535, 65536, 0x123456, 8388607, 8388608, 16777215, 16777216, 0x12345678, 2147483647]
DIRS = {"DB": 1, "BYT": 1, "BYTE": 1, "DW": 2, "WORD": 2, "ADDR": 2, "DL": 3, "LONG": 3, "FARADDR": 3, "DD": 4}
BLOCKS = {"DSB": 1, "DS": 1, "DSW": 2, "DSL": 3, "DSD": 4}
RANGE = {1: (-128, 255), 2: (-32768, 65535), 3: (-8388608, 16777215), 4: (-2 ** 31, 2 ** 31 - 1)}

def enc(v, n, be): return (v & (1 << 8 * n) - 1).to_bytes(n, "big" if be else "little")
def fits(v, n): return RANGE[n][0] <= v <= RANGE[n][1]
def num(v):
    """numbers in several notations (the notation is a function of the value, all notations occur)"""
    if v < 0 or v > 0x7fffffff: return str(v)
    return (str(v), "$%X" % v, "0x%x" % v, "%%%s" % bin(v)[2:], "%Xh" % v if ("%X" % v)[0].isdigit() else "0%Xh" % v)[v % 5]

def numbers(cpu, be, tier):
    ok = []
    for d, n in DIRS.items():
        good = [v for v in VALS if fits(v, n)]
        for v in good: ok.append((".%s %s" % (d, num(v)), enc(v, n, be)))
        for a, b in itertools.product(good, repeat=2):
            ok.append((".%s %s%s%s" % (d, num(a), (", ", " ", ",")[(a + b) % 3 if b >= 0 and num(b)[0] != "%" else 0], num(b)), enc(a, n, be) + enc(b, n, be)))
        if tier == "thorough":
            for a, b, c in itertools.product(good[::2], repeat=3): ok.append((".%s %d, %d, %d" % (d, a, b, c), enc(a, n, be) + enc(b, n, be) + enc(c, n, be)))
        for v in VALS:
            if not fits(v, n):
                yield refuse(cpu, "num:" + cpu, ".%s %d" % (d, v)); yield refuse(cpu, "num:" + cpu, ".%s 0, %d" % (d, v)); yield refuse(cpu, "num:" + cpu, ".%s %d, 0" % (d, v))
    for d, n in BLOCKS.items():
        for v in VALS:
            if fits(v, n):
                for c in (1, 2, 3):
                    ok.append((".%s %d%s%s" % (d, c, (", ", " ")[c & 1 if v >= 0 and num(v)[0] != "%" else 0], num(v)), enc(v, n, be) * c))
            else: yield refuse(cpu, "num:" + cpu, ".%s 2, %d" % (d, v))
        for c in (0, -1, 65536): yield refuse(cpu, "num:" + cpu, ".%s %d, 0" % (d, c))
    # characters, mixed lists, lower case
    for d, n in DIRS.items():
        ok.append((".%s 'A', 1, 'z'" % d.lower(), enc(65, n, be) + enc(1, n, be) + enc(122, n, be)))
        ok.append((".%s ' ', ',', ';'" % d, enc(32, n, be) + enc(44, n, be) + enc(59, n, be)))
        ok.append((".%s '\\n', '\\0', '\\t'" % d, enc(10, n, be) + enc(0, n, be) + enc(9, n, be)))
    for t, b in ((".HEX \"a0A0ffDE\"", "a0a0ffde"), (".HEX 01 AA 02 BB 03 CC", "01aa02bb03cc"), (".HEX 00", "00"), (".HEX \"00ff\" \"7F\"", "00ff7f"), (".hex 7f80", "7f80"), (".HEX 12, 34", "1234"),
                 (".HEX BLOCK\n 01 02 03\n 0A 0B\n\n .ENDHEX", "0102030a0b"), (".HEX BLOCK\n fe\n.ENDHEX\n.DB 10", "fe0a"), (".HEX \"0123456789abcdefABCDEF\"", "0123456789abcdefabcdef")):
        ok.append((t, bytes.fromhex(b)))
    for x, y in itertools.product("0123456789abcdefABCDEF", repeat=2): ok.append((".HEX \"%s%s\"" % (x, y), bytes.fromhex(x + y)))
    for t in (".HEX \"0\"", ".HEX \"123\"", ".HEX \"0g\"", ".HEX \"G0\"", ".HEX", ".HEX \"/0\"", ".HEX \":1\"", ".HEX \"@1\"", ".DB", ".DW", ".DL", ".DD", ".DSB", ".DSB 3", ".DSW 3", ".DW \"AB\"", ".DL \"AB\"", ".DD \"AB\""):
        yield refuse(cpu, "form:" + cpu, t)
    yield from batch(cpu, "num:" + cpu, ok, cell=32)

# ---------------------------------------------------------------- strings
UNITS = [("A", b"A"), ("0", b"0"), (" ", b" "), (";", b";"), ("//", b"//"), ("/*", b"/*"), (",", b","), ("'", b"'"), ("\\\"", b'"'), ("\\\\", b"\\"), ("\\n", b"\n"), ("\\r", b"\r"), ("\\t", b"\t"), ("\\0", b"\0"),
         ("\\x4f", b"\x4f"), ("\\xFE", b"\xfe"), ("\\<B", b"\xc2"), ("B\\>", b"\xc2"), ("\u00e9", "\u00e9".encode()), ("*/", b"*/"), ("{", b"{"), ("%", b"%"), ("?", b"?"), ("(", b"("), ("\\", None)]

def strings(tier):
    ok = []
    us = [u for u in UNITS if u[1] is not None]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for c in itertools.product(us if n < 3 else us[:18] if n == 3 else us[:14], repeat=n):
            s = "".join(a for a, _ in c); b = b"".join(x for _, x in c)
            if len(b) > 15: continue
            ok.append((".DB \"%s\"" % s, b))
    for c in itertools.product(us[:16], repeat=2):
        s = [a for a, _ in c]; b = [x for _, x in c]
        ok.append((".DB \"%s\", 7, \"%s\"" % tuple(s), b[0] + b"\7" + b[1]))
    for b in range(256): ok.append((".DB \"\\x%02x\"" % b, bytes([b]))); ok.append((".DB \"-\\x%02X-\"" % b, b"-" + bytes([b]) + b"-"))
    for c in range(33, 127):
        if chr(c) in "\"\\": continue
        ok.append((".DB \"%s\"" % chr(c), bytes([c]))); ok.append((".DB \"%s\\>\"" % chr(c), bytes([c | 128]))); ok.append((".DB \"\\<%s\"" % chr(c), bytes([c | 128])))
        if chr(c) != "'": ok.append((".DB '%s'" % chr(c), bytes([c])))
    for c in (128, 0xe4, 0xff): ok.append((".DB \"x%sx\"" % bytes([c]).decode("latin1").encode("latin1").decode("utf-8", "surrogateescape"), b"x" + bytes([c]) + b"x"))
    yield from batch("z80", "str", ok)
    for t in (".DB \"abc", ".DB abc\"", ".DB \"\\xg0\"", ".DB \"\\>\"", ".DB \"\\<\"", ".DB \"", ".DB 'ab'", ".DB '"):
        if t != ".DB abc\"": yield refuse("z80", "str", t)
    for n in (1, 50, 100, 200, 250):
        s = "".join(chr(97 + i % 26) for i in range(n))
        yield from batch("z80", "strlen", [(".DB \"%s\"" % s, s.encode())], cell=512)

# ---------------------------------------------------------------- tables
COLS = [("byte", 1), ("DB", 1), ("word", 2), ("dw", 2), ("addr", 2), ("long", 3), ("dl", 3), ("dd", 4), ("dsb 2", 1), ("dsw 2", 2), ("ds 3", 1), ("dsl 1", 3), ("dsd 2", 4)]
def expand(cols):
    out = []
    for c, n in cols: out += [n] * (int(c.split()[1]) if " " in c else 1)
    return out

def tables(cpu, be, tier):
    ok = []; vals = [0x01, 0x7f, 0xfe, 0x12, 0x80, 0x33, -1, 5, 6, 7, 8, 9, 10, 11, 12, 13]
    wide = {1: [1, 0xfe, -128, 255], 2: [0x1234, -32768, 65535, 2], 3: [0x123456, -8388608, 16777215, 3], 4: [0x12345678, -2147483648, 2147483647, 4]}
    for k in (1, 2, 3):
        for cols in itertools.product(COLS if k < 3 else COLS[::2], repeat=k):
            ex = expand(cols)
            if sum(ex) > 16: continue
            row = [wide[n][(i + k) % 4] for i, n in enumerate(ex)]
            row2 = [wide[n][(i + k + 1) % 4] for i, n in enumerate(ex)]
            B = lambda r: b"".join(enc(v, ex[i % len(ex)], be) for i, v in enumerate(r))
            tab = ".TABLE " + ", ".join(c for c, _ in cols) + "\n"
            ok.append((tab + ".ROW " + ", ".join(map(str, row)), B(row)))
            ok.append((tab + ".ROW " + ", ".join(map(str, row)) + "\n.ROW " + (" " if min(row2) >= 0 else " , ").join(map(str, row2)), B(row) + B(row2)))
            both = row + row2
            for cut in range(1, len(both)):
                if k == 3 and cut % 3: continue
                t = tab + ".DATA " + ", ".join(map(str, both[:cut])) + "\n.DATA " + ", ".join(map(str, both[cut:]))
                ok.append((t, B(both)))
            if len(ex) > 1:
                yield refuse(cpu, "tab:" + cpu, tab + ".ROW " + ", ".join(map(str, row[:-1])))
            yield refuse(cpu, "tab:" + cpu, tab + ".ROW " + ", ".join(map(str, row + row)))
            yield refuse(cpu, "tab:" + cpu, tab + ".ROW " + ", ".join(map(str, row + row[:1])))
            if k == 1:
                for i, n in enumerate(ex):
                    if n == 4: continue
                    for v in (RANGE[n][0] - 1, RANGE[n][1] + 1):
                        r = list(row); r[i] = v
                        yield refuse(cpu, "tab:" + cpu, tab + ".ROW " + ", ".join(map(str, r))); yield refuse(cpu, "tab:" + cpu, tab + ".DATA " + ", ".join(map(str, r)))
            if len(ex) > 1:
                yield refuse(cpu, "tab:" + cpu, tab + ".DATA " + str(row[0]) + "\n.ROW " + ", ".join(map(str, row)))
    ok.append((".TABLE word, byte, word\n.ROW $aabb, \"H\", $ddee", enc(0xaabb, 2, be) + b"H" + enc(0xddee, 2, be)))
    yield from batch(cpu, "tab:" + cpu, ok, cell=48)
    yield refuse(cpu, "tab:" + cpu, ".ROW 1"); yield refuse(cpu, "tab:" + cpu, ".DATA 1")

# ---------------------------------------------------------------- series
class MT:
    def __init__(self, s):
        self.mt = [s & 0xffffffff]
        for i in range(1, 624): self.mt.append((1812433253 * (self.mt[-1] ^ self.mt[-1] >> 30) + i) & 0xffffffff)
        self.i = 624
    def next(self):
        if self.i >= 624:
            m = self.mt
            for k in range(624):
                y = (m[k] & 0x80000000) | (m[(k + 1) % 624] & 0x7fffffff)
                m[k] = m[(k + 397) % 624] ^ y >> 1 ^ (0x9908b0df if y & 1 else 0)
            self.i = 0
        y = self.mt[self.i]; self.i += 1
        y ^= y >> 11; y ^= y << 7 & 0x9d2c5680; y ^= y << 15 & 0xefc60000; y ^= y >> 18
        return y & 0xffffffff

def series(cpu, be, tier):
    ok = []
    for seed in (0, 1, 123, 65535, 2147483647):
        for n, (lo, hi) in itertools.product((1, 2), ((0, 10), (-5, 5), (0, 255), (-128, 127), (3, 4))):
            for c in (1, 7):
                mt = MT(seed)
                ok.append((".SEED %d\n.D%sRND %d, %d, %d" % (seed, "BW"[n - 1], c, lo, hi), b"".join(enc(mt.next() % (hi - lo + 1) + lo, n, be) for _ in range(c))))
        mt = MT(seed)
        ok.append((".SEED %d\n.DBRND COUNT 3 MIN 1 MAX 9\n.DWRND 2, 0, 999\n.DBRND 2 0 1" % seed, b"".join(enc(mt.next() % 9 + 1, 1, be) for _ in range(3)) +
                   b"".join(enc(mt.next() % 1000, 2, be) for _ in range(2)) + b"".join(enc(mt.next() % 2, 1, be) for _ in range(2))))
    mt = MT(77); ok.append((".SEED 77\n.DBRND 700, 0, 255", bytes(mt.next() % 256 for _ in range(700))))
    for A, B, C, D, E in itertools.product((0, 45, 90.5, 359.999, 720), (0, 3), (0, 10, 3.2, 180), (0, 100, -12.5), (0, 1.3, 20)):
        for kind, n in itertools.product(("SIN", "COS"), (1, 2)):
            a = A; out = []
            for _ in range(B + 1):
                while a >= 360: a -= 360
                out.append(int(D * (math.sin if kind == "SIN" else math.cos)(a * math.pi / 180) + E)); a += C
            if all(fits(v, n) for v in out):
                ok.append((".D%s%s %s, %d, %s, %s, %s" % ("BW"[n - 1], kind, A, B, C, D, E), b"".join(enc(v, n, be) for v in out)))
    yield from batch(cpu, "series:" + cpu, [x for x in ok if len(x[1]) <= 32], cell=48)
    yield from batch(cpu, "serieslong:" + cpu, [x for x in ok if len(x[1]) > 32], cell=1024)
    for t in (".DBSIN 0, 1, 90, 300, 0", ".DWCOS 0, 0, 0, 70000, 0", ".DBRND 0, 0, 1", ".DBRND 3, 5, 5", ".DBRND 3, 6, 5", ".SEED 1\n.DBRND 200, 0, 400"):
        yield refuse(cpu, "series:" + cpu, t)
    # filters: \1 is the value, \2 the offset
    for n, dn in ((1, "DBM"), (2, "DWM"), (3, "DLM"), (4, "DDM")):
        for vs in itertools.product((0, 1, 7, 100), repeat=2):
            for mac, f in (("\\1+1", lambda v, i: v + 1), ("\\2", lambda v, i: i), ("(\\1*2)+\\2", lambda v, i: v * 2 + i), ("\\1-\\2*3", lambda v, i: v - i * 3)):
                for o in ("_out", "_OUT"):
                    t = ".redefine %s %s" % (o, mac)
                    yield from batch(cpu, "flt:%s" % cpu, [(".macro f\n%s\n.endm\n.%s f %d, %d, 5" % (t, dn, *vs), b"".join(enc(f(v, i), n, be) for i, v in enumerate(list(vs) + [5])))])
    for s in ("A", "AB", "Hello", "a,b"):
        yield from batch(cpu, "flt:%s" % cpu, [(".macro f\n.redefine _out \\1+\\2\n.endm\n.DBM f \"%s\", 3" % s, bytes((c + i) & 255 for i, c in enumerate(s.encode() + b"\3")))])
        yield from batch(cpu, "flt:%s" % cpu, [(".macro f\n.db \\1, \\2\n.endm\n.FILTER f \"%s\", 3" % s, b"".join(bytes([c, i]) for i, c in enumerate(s.encode() + b"\3")))])
    yield refuse(cpu, "flt:" + cpu, ".DBM nosuch 1, 2"); yield refuse(cpu, "flt:" + cpu, ".macro f\n.redefine _out \\1+1\n.endm\n.DBM f 255, 300")

# ---------------------------------------------------------------- alignment
def aligns():
    for a in (2, 3, 4, 8, 16, 100):
        for n in range(0, 18):
            src = head() + ".ORG 0\n" + (".DSB %d, $11\n" % n if n else "") + ".ALIGN %d\n.DB $22\n" % a
            exp = b"\x11" * n + bytes([FILL]) * (-n % a) + b"\x22"
            def judge(res, exp=exp, a=a, n=n):
                if not res.ok: return ".ALIGN %d after %d bytes was refused" % (a, n)
                if res.files["o.bin"][:len(exp) + 1] != exp + bytes([FILL]): return ".ALIGN %d after %d bytes: %s" % (a, n, res.files["o.bin"][:len(exp) + 2].hex(" "))
            yield Case("align:%d:%d" % (a, n), run.one("z80", src), judge)

def cases(tier):
    cp = [("z80", 0), ("68000", 1)] if tier == "quick" else [(c, 0) for c in LE] + [(c, 1) for c in BE]
    for c, be in cp:
        yield from numbers(c, be, tier)
        yield from tables(c, be, tier)
        yield from series(c, be, tier)
    yield from strings(tier)
    for a in (0, 1, -1): yield refuse("z80", "align", ".ALIGN %d" % a)
    yield from aligns()
