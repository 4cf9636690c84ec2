"""D03: character tables, string maps and arrays, against dictionaries."""
import itertools
from .. import run
from ..check import Case
from ..cells import batch, refuse, head, FILL

ID = "D03"
LEVEL = "model_checking"
TOOLS = ["wlalink", "z80", "68000"]
RULE = "distinct (character table, text), (string map, text) and array operation sequences whose bytes, or refusal, were compared with a dictionary model"
BOUNDS = {"quick": "all tables of up to 3 of 13 (overlapping) mappings over all 256 characters, all string maps that are subsets of 8 overlapping entries (3 entry orders) on all texts of up to 4 letters over {a,b,c}, all sequences of 3 of 19 array operations",
          "thorough": "as quick with 4 mappings, texts of up to 6 letters, sequences of 4 array operations"}

def esc(b): return "".join(chr(c) if 32 <= c < 127 and chr(c) not in "\"\\" else "\\x%02x" % c for c in b)

# ---------------------------------------------------------------- character tables
MAPS = [("MAP \"A\" TO \"Z\" = 0", 65, 90, 0), ("MAP '!' = 90", 33, 33, 90), ("MAP 65 = 200", 65, 65, 200), ("MAP 'a' TO 'c' = 253", 97, 99, 253), ("MAP 0 = 255", 0, 0, 255), ("MAP 255 = 0", 255, 255, 0), ("MAP 0 TO 255 = 0", 0, 255, 0),
        ("MAP \"M\" TO 'b' = $10", 77, 98, 16), ("MAP 128 TO 254 = 1", 128, 254, 1), ("map $20 to $7e = $80", 32, 126, 128), ("MAP 'X' TO 'X' = 7", 88, 88, 7), ("MAP 2+3 TO 3*3 = 4*5", 5, 9, 20), ("MAP \"\\x80\" TO \"\\xff\" = 128", 128, 255, 128)]
BADMAPS = ["MAP 'a' TO 'd' = 253", "MAP 'b' TO 'a' = 1", "MAP 256 = 0", "MAP -1 = 0", "MAP 0 TO 256 = 0", "MAP 0 = 256", "MAP 0 = -1", "MAP \"ab\" = 0", "MAP 'a' 0", "MAP 1 = ", "MAP = 1", "NAP 1 = 1", "MAP 0 TO 255 = 1", "MAP 'a' TO \"ab\" = 2", "MAP \"\" = 1"]

def tables(tier):
    for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
        for c in itertools.permutations(MAPS, n):
            if n == 4 and (MAPS.index(c[0]) + MAPS.index(c[1])) % 3: continue
            t = list(range(256))
            for _, a, b, v in c:
                for i in range(a, b + 1): t[i] = v + i - a
            k = (".ASCIITABLE", ".ASCTABLE", ".asciitable")[n % 3] + "\n" + "\n".join(x for x, *_ in c) + "\n.ENDA\n"
            txt = bytes(range(1, 256))
            src = head() + ".ORG 0\n" + k + "".join(".ASC %s\n" % (", ".join(map(str, range(i, i + 16)))) for i in range(0, 256, 16)) + \
                "".join(".ASC \"%s\"\n" % esc(bytes(range(i, i + 64))) for i in range(0, 256, 64)) + ".DB ASC('A'), ASC('a'), ASC(255), ASC(0)\n.DB \"A\", 97\n.ASCSTR \"Aa\", 65, 255\n.DB 'A'\n.ASC 'A', \"a\", ' '\n" + \
                ".DW asc('!')+1, ASC(65)*2\n"
            w = lambda v: (v & 0xffff).to_bytes(2, "little")
            exp = bytes(t) * 2 + bytes([t[65], t[97], t[255], t[0], 65, 97, t[65], t[97], 65, 255, 65, t[65], t[97], t[32]]) + w(t[33] + 1) + w(t[65] * 2)
            def judge(res, exp=exp, k=k):
                if not res.ok: return "a valid character table was refused: %r: %s" % (k, res.outs[-1].decode("latin1")[:200])
                g = res.files["o.bin"][:len(exp) + 1]
                if g != exp + bytes([FILL]):
                    d = next(i for i in range(len(g)) if g[i] != (exp + bytes([FILL]))[i])
                    return "with %r, output byte %d (character %d) is %d, expected %d" % (k, d, d & 255, g[d], exp[d] if d < len(exp) else FILL)
            yield Case("table:" + "|".join(x for x, *_ in c), run.one("z80", src), judge, steps=n + 1)
    for b in BADMAPS:
        yield refuse("z80", "table", ".ASCIITABLE\n%s\n.ENDA" % b); yield refuse("z80", "table", ".ASCIITABLE\nMAP 1 = 2\n%s\nMAP 3 = 4\n.ENDA" % b)
    for t in (".ASC 256", ".ASC -1", ".ASC \"a", ".ASCSTR 256", ".ASCSTR -129", ".ASCIITABLE\nMAP 1 = 2"): yield refuse("z80", "table", t)
    # tables replace each other completely, also several tables in one program
    for a, b in itertools.product(MAPS, repeat=2):
        def t(m):
            r = list(range(256))
            for i in range(m[1], m[2] + 1): r[i] = m[3] + i - m[1]
            return r
        ta, tb = t(a), t(b); chars = (0, 33, 65, 77, 90, 97, 98, 99, 128, 254, 255)
        s = ".ASCIITABLE\n%s\n.ENDA\n.ASC %s\n.ASCIITABLE\n%s\n.ENDA\n.ASC %s" % (a[0], ", ".join(map(str, chars)), b[0], ", ".join(map(str, chars)))
        yield from batch("68000", "retable", [(s, bytes(ta[c] for c in chars) + bytes(tb[c] for c in chars))], cell=32)
        for cond in (0, 1):
            s = ".ASCIITABLE\n.IF %d == 1\n%s\n.ELSE\n%s\n.ENDIF\n.ENDA\n.ASC %s" % (cond, a[0], b[0], ", ".join(map(str, chars)))
            yield from batch("68000", "iftable", [(s, bytes((ta if cond else tb)[c] for c in chars))], cell=32)

# ---------------------------------------------------------------- string maps
ENT = [("01", "a"), ("02", "b"), ("0304", "ab"), ("05", "aba"), ("060708", "bc"), ("09", "ba"), ("0A", "c"), ("0b0C", "abc")]
def greedy(entries, s):
    out = b""
    while s:
        best = max((e for e in entries if s.startswith(e[1])), key=lambda e: len(e[1]), default=None)
        if best is None: return None
        out += bytes.fromhex(best[0]); s = s[len(best[1]):]
    return out

def maps(tier):
    texts = ["".join(x) for n in range(1, 5 if tier == "quick" else 7) for x in itertools.product("abc", repeat=n)]
    for r in range(1, 9):
        for sub in itertools.combinations(ENT, r):
            for order in (sub, sub[::-1], sub[r // 2:] + sub[:r // 2]):
                tbl = "; comment\n" + "\n".join("%s=%s" % e for e in order) + "\n"
                if r % 2: tbl = tbl.replace("\n", "\r\n")
                ok = [(".STRINGMAP m, \"%s\"" % s, greedy(sub, s)) for s in texts]
                bad = [t for t, b in ok if b is None]
                ok = [x for x in ok if x[1] is not None]
                key = "map:%s:" % ",".join(e[1] for e in order)
                for i in range(0, len(ok), 900):
                    yield from batch("z80", key, ok[i:i + 900], cell=32, pre=".STRINGMAPTABLE m \"m.tbl\"\n", count=1000, files={"m.tbl": tbl})
                for t in bad[:2] + bad[-1:]:
                    yield refuse("z80", key, t, pre=".STRINGMAPTABLE m \"m.tbl\"\n", files={"m.tbl": tbl})
    # details of the table file
    tbl = "00=A\n01=B\n; This is a comment\nff01=\u3042\nff02=\u3044\u3046\u3048\nfe=\\n\n3d==\nF=;\n20= \nabc=xyz\n1234567890=long\n# c\n\nno equals sign here\n"
    ok = [("\u3044\u3046\u3048A\\n", "ff0200fe"), ("\u3042", "ff01"), ("=", "3d"), ("A=B", "003d01"), (";", "0f"), ("A B", "002001"), ("xyz", "0abc"), ("long;", "12345678900f"), ("\\n\\n", "fefe")]
    yield from batch("z80", "mapfile", [(".STRINGMAP m \"%s\"" % a, bytes.fromhex(b)) for a, b in ok], pre=".STRINGMAPTABLE m \"m.tbl\"\n", files={"m.tbl": tbl})
    yield from batch("z80", "mapfile", [(".STRINGMAP m2, \"A\"\n.STRINGMAP m \"A\"\n.STRINGMAP \"m2\", \"AA\"", b"\x77\x00\x77\x77")], pre=".STRINGMAPTABLE m \"m.tbl\"\n.STRINGMAPTABLE m2, \"n.tbl\"\n", files={"m.tbl": tbl, "n.tbl": "77=A"})
    for t in (".STRINGMAP x \"A\"", ".STRINGMAP m \"Z\"", ".STRINGMAP m \"AZ\"", ".STRINGMAP m 5", ".STRINGMAP m", ".STRINGMAP m \"AB", ".STRINGMAPTABLE n \"nosuch.tbl\"", ".STRINGMAPTABLE n \"bad1.tbl\"", ".STRINGMAPTABLE n \"bad2.tbl\"", ".STRINGMAPTABLE n \"bad3.tbl\""):
        yield refuse("z80", "mapfile", t, pre=".STRINGMAPTABLE m \"m.tbl\"\n", files={"m.tbl": tbl, "bad1.tbl": "0g=A\n", "bad2.tbl": "=A\n", "bad3.tbl": "00=\n"})

# ---------------------------------------------------------------- arrays
OPS = [("in", "a", 0, [5]), ("in", "a", 0, [200]), ("in", "a", 1, [7, 8]), ("in", "a", 255, [1, 2, 3]), ("in", "a", 300, [9]), ("in", "a", 65, [-3]), ("in", "b", 0, [0x1234]), ("in", "b", 4, [-32768, 65535]), ("in", "a", 1, [-1, 0, 100]),
       ("out", "a", 0), ("out", "a", 2), ("out", "a", 299), ("out", "a", 300), ("out", "b", 0), ("out", "b", 5),
       ("db", "a", [0, 1, 255]), ("db", "a", "AB"), ("dw", "b", [0, 4]), ("dd", "b", [5, 0]), ("dl", "b", [4]), ("db", "b", [0])]
def arr(seq, style):
    A = {"a": [0] * 256, "b": [0] * 256}; t, b = [], b""
    kw = lambda *k: k if style == 0 else tuple("" for _ in k)
    for j, o in enumerate(seq):
        m = A[o[1]]
        if o[0] == "in":
            t.append(".ARRAYIN %s %s %s %d %s %s" % (kw("NAME")[0], o[1], kw("INDEX")[0], o[2], kw("VALUE" if len(o[3]) == 1 else "VALUES")[0], ", ".join(map(str, o[3]))))
            if style and o[3][0] < 0: t[-1] = ".ARRAYIN %s %d, %s" % (o[1], o[2], ", ".join(map(str, o[3])))
            need = o[2] + len(o[3])
            if need > len(m): m += [0] * (need - len(m))
            m[o[2]:o[2] + len(o[3])] = o[3]
        elif o[0] == "out":
            t.append(".ARRAYOUT %s %s %s %d %s d%d" % (kw("NAME")[0], o[1], kw("INDEX")[0], o[2], kw("DEFINITION")[0], j % 2))
            if o[2] >= len(m): return t, None
            t.append(".DD d%d" % (j % 2)); b += (m[o[2]] & 0xffffffff).to_bytes(4, "little")
        else:
            n = dict(db=1, dw=2, dl=3, dd=4)[o[0]]
            t.append(".ARRAY%s %s %s %s %s" % (o[0].upper(), kw("NAME")[0], o[1], kw("INDICES")[0], "\"%s\"" % o[2] if isinstance(o[2], str) else ", ".join(map(str, o[2]))))
            for i in (o[2].encode() if isinstance(o[2], str) else o[2]):
                if i >= len(m): return t, None
                if n < 4 and not -(1 << 8 * n - 1) <= m[i] < 1 << 8 * n: return t, None
                b += (m[i] & (1 << 8 * n) - 1).to_bytes(n, "little")
    return t, b

def arrays(tier):
    pre = ".ARRAYDEFINE NAME a SIZE 4\n.ARRAYDEF b 256\n"
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        ins = [o for o in OPS if o[0] == "in"]; outs = [o for o in OPS if o[0] != "in"]
        for i, c in enumerate(itertools.chain(itertools.product(OPS, repeat=n), itertools.product(ins, ins, ins, outs) if n == 3 else ())):
            if n == 4 and not (c[0][0] == "in" and c[3][0] != "in"): continue
            t, b = arr(c, i % 2)
            src = "\n".join(t)
            if b is None: yield refuse("z80", "array:%d" % (i % 2), src, pre=pre)
            else:
                prog = run.one("z80", head(0x100) + pre + ".ORG 0\n" + src + "\n.DB $77\n")
                def judge(res, b=b, t=t):
                    if not res.ok: return "valid array operations were refused: %s: %s" % (t, res.outs[-1].decode("latin1")[:200])
                    if res.files["o.bin"][:len(b) + 2] != b + b"\x77" + bytes([FILL]): return "%s gives %s, expected %s" % (t, res.files["o.bin"][:len(b) + 2].hex(" "), b.hex(" ") + " 77")
                yield Case("array:%d:%s" % (i % 2, "|".join(t)), prog, judge, steps=n)
    pre = ".ARRAYDEFINE a 4\n"
    ok = []
    for c in range(1, 256):
        if chr(c) in "\"\\" : continue
        ok.append((".ARRAYIN a %d, %d\n.ARRAYDB a \"%s\", %d" % (c, c ^ 0x5a, esc(bytes([c])), c), bytes([c ^ 0x5a] * 2)))
    yield from batch("z80", "arraychars", ok, pre=pre)
    yield from batch("z80", "arraybig", [(".ARRAYIN a 400, 3\n.ARRAYDB a 256, 257, 300, 399, 400", b"\0\0\0\0\3"), (".ARRAYIN a 5000, 4\n.ARRAYDB a 401, 4096, 4999, 5000", b"\0\0\0\4"), (".ARRAYIN NAME a INDEX '0' VALUES 1, 2, \\\n 3, 4\n.ARRAYDB a \"0312\"", b"\1\4\2\3")], pre=pre)
    for t in (".ARRAYIN z 0, 1", ".ARRAYOUT z 0 d", ".ARRAYDB z 0", ".ARRAYIN a -1, 1", ".ARRAYOUT a 256 d", ".ARRAYDB a -1", ".ARRAYDEFINE a 5"): yield refuse("z80", "array", t, pre=pre)

def cases(tier):
    yield from tables(tier)
    yield from maps(tier)
    yield from arrays(tier)
