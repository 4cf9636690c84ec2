"""L01: every list of members up to a length is declared as a structure, an ascending and a descending enumeration, a RAM section, instances of the
structure (in enumerations, RAM sections, other structures and .DSTRUCT with values) and the values, sizes and paddings of all names and the bytes
of initialised instances are compared with a layout computed from the documentation."""
import itertools, re
from .. import run
from ..check import Case
from ..model import structs as M

ID = "L01"
LEVEL = "model_checking"
RULE = "distinct (member list, context)"
BOUNDS = {"quick": "all lists of up to 3 members over 24 member kinds in 6 contexts; all data types; all COUNT/SIZE/STARTFROM combinations; nesting of structures up to 3 levels",
          "thorough": "all lists of up to 4 members over 24 member kinds in 6 contexts"}
TOOLS = ["z80", "wlalink"]

def D(name, t, size): return ("d", name, t, size)
def I(name, s, t="", count=1, size=None, start=None, dotted=False): return ("inst", name, s, t, count, size, start, dotted)

P = M.Struct("P", [D("x", "DB", 1), D("y", "DW", 2)])
Q = M.Struct("Q", [D("v", "DW", 2), I("p", "P")], 8)
R = M.Struct("R", [I("q", "Q", " 2", 2), D("t", "DB", 1), ("union", [(None, [D("u1", "DB", 1)]), ("un", [D("u2", "DW", 2)])])])
BASE = {"P": P, "Q": Q, "R": R}

def kinds(i):
    a = "m%d" % i
    return [
        ("db", D(a, "DB", 1)), ("dw", D(a, "DW", 2)), ("ds3", D(a, "DS 3", 3)), ("dsw2", D(a, "DSW 2", 4)), (".dw", ("dot", a, ".DW", 2)), ("skip", D(".", "DB", 1)),
        ("P", I(a, "P")), ("P2", I(a, "P", " 2", 2)), ("P1size", I(a, "P", " SIZE 5", 1, 5)), ("P2size0", I(a, "P", " SIZE 4 COUNT 2 STARTFROM 0", 2, 4, 0)),
        ("Pfrom3", I(a, "P", " COUNT 2 STARTFROM 3", 2, None, 3)), (".P", I(a, "P", "", dotted=True)), (".P2", I(a, "P", " 2", 2, dotted=True)),
        ("Q", I(a, "Q")), ("Q2", I(a, "Q", " 2", 2)), ("R", I(a, "R")), ("R2", I(a, "R", " COUNT 2", 2)),
        ("un", ("union", [(None, [D(a + "x", "DB", 1)]), (None, [D(a + "y", "DW", 2), D(a + "z", "DB", 1)])])),
        ("unn", ("union", [(a + "f", [D("x", "DW", 2), D("y", "DW", 2)]), (a + "g", [D("x", "DB", 1)])])),
        ("uni", ("union", [(None, [I(a + "p", "P")]), (a + "h", [I("q", "P", " 2", 2), D("r", "DB", 1)])])),
        ("unu", ("union", [(None, [D(a + "x", "DB", 1), ("union", [(None, [D(a + "y", "DW", 2)]), (a + "i", [D("z", "DB", 1)])])]), (None, [D(a + "v", "DW", 2)])])),
        ("unskip", ("union", [(None, [D(".", "DS 3", 3), D(a + "x", "DB", 1)]), (a + "j", [("dot", "k", ".DB", 1), D("n", "DW", 2)])])),
        ("un3", ("union", [(a + "f", [D("x", "DW", 2), D("y", "DW", 2)]), (a + "g", [D("x", "DB", 1)]), (a + "h", [D("x", "DW", 2), D("z", "DB", 1)])])),
        ("un3b", ("union", [(a + "f", [D("x", "DB", 1)]), (a + "g", [D("x", "DS 5", 5)]), (a + "h", [D("x", "DW", 2)]), (None, [D(a + "y", "DB", 1), D(a + "z", "DW", 2)])])),
        ("anonP", I(None, "P")), ("anonQ", I(None, "Q")),
    ]
ANON = {"anonP", "anonQ"}
KINDS = [kinds(i) for i in range(4)]

def declare(s):
    return ".STRUCT %s%s\n%s.ENDST\n" % (s.name, " SIZE %d" % s.given if s.given else "", M.text(s.members))

def world(src, more=""):
    return {"files": {"a.s": ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 0 $1000\nSLOT 1 $8000 $1000\n.ENDME\n.ROMBANKSIZE $1000\n.ROMBANKS 1\n.EMPTYFILL $E5\n.BANK 0 SLOT 0\n.ORG 0\n" + src, "l": "[objects]\na.o\n"},
            "steps": [("z80", ["-o", "a.o", "a.s"]), ("wlalink", ["-r", "-S", "l", "o.bin"])], "reads": ["o.bin", "o.sym"]}

def table(names, sizes=True, pads=()):
    """(source, expected bytes) of a table of the names' values and sizes"""
    rows = []; exp = b""
    for n, v, s in names:
        rows.append(".DW %s%s" % (n, ", _sizeof_" + n if sizes else ""))
        exp += (v & 0xFFFF).to_bytes(2, "little") + (s.to_bytes(2, "little") if sizes else b"")
    for n, v in pads:
        rows.append(".DW _paddingof_" + n); exp += v.to_bytes(2, "little")
    return "\n".join(rows) + "\n", exp

def pads(ms, S, prefix=""):
    """paddings of the named instances"""
    out = []
    for m in ms:
        if m[0] != "inst" or m[1] is None: continue
        one = m[5] or M.padded(S[m[2]], S); pad = one - M.content(S[m[2]].members, S)
        first = 1 if m[6] is None else m[6]
        if pad: out += [(prefix + m[1] + (".%d" % (first + i) if m[4] > 1 else ""), pad) for i in range(m[4])]
    return out

def check(exp, at, syms=None, what="", names=None):
    def judge(res):
        if not res.ok: return "refused: %s" % res.outs[-1].decode("latin1")[-400:]
        rom = res.files["o.bin"]
        got = rom[at:at + len(exp)]
        if got != exp:
            i = next(i for i in range(len(exp)) if got[i] != exp[i])
            n = ""
            if names and i // 4 < len(names) and not what.startswith("bytes"): n = " (%s of %s)" % ("size" if i % 4 > 1 else "value", names[i // 4][0])
            return "%s%s: byte %d is %02x instead of %02x\nexpected %s\ngot      %s" % (what, n, i, got[i], exp[i], exp.hex(" ")[:600], got.hex(" ")[:600])
        if syms is not None:
            have = {}
            for l in res.files["o.sym"].decode("latin1").split("[labels]")[1].split("[definitions]")[0].split("\n"):
                p = l.split()
                if len(p) == 2 and not p[1].startswith(("RAM_USAGE", "SECTION")): have[p[1]] = int(p[0].split(":")[1], 16)
            want = {n: v for n, v, s in syms}
            for n in have:
                if n not in want: return "unexpected label %s" % n
    return judge

def lazy(key, make, states=None):
    """make() gives (program, judge); it is called only where the case is run"""
    cell = []
    def prog():
        w, j = make(); cell[:] = [j]
        return w
    return Case(key, prog, lambda res: cell[0](res), states=states)

_size = {}
def size_of(tag, m):
    if tag not in _size: _size[tag] = M.content([m], BASE)
    return _size[tag]

def conts(tag, ms, total=None):
    """the contexts of one member list"""
    S = BASE
    head = "".join(declare(s) for s in S.values())
    if total is None: total = M.content(ms, S)
    s = M.Struct("S", ms)
    T = dict(S); T["S"] = s
    def offsets():
        lay, n = M.layout(ms, S)
        t, exp = table([("S." + a, b, c) for a, b, c in lay], sizes=False)
        return world(head + declare(s) + t + ".DW _sizeof_S\n"), check(exp + n.to_bytes(2, "little"), 0, what="offsets of the structure")
    def enum():
        E = M.subst(ms, "e")
        lay, n = M.layout(E, S, "", 0xC000)
        t, exp = table(lay, pads=pads(E, S))
        return world(head + ".ENUM $C000\n" + M.text(E) + ".ENDE\n" + t), check(exp, 0, what="enumeration", names=lay)
    def desc():
        E = M.subst(ms, "e")
        lay, n = M.descending(E, S, 0xC000)
        t, exp = table(lay, pads=pads(E, S))
        return world(head + ".ENUM $C000 DESC\n" + M.text(E) + ".ENDE\n" + t), check(exp, 0, what="descending enumeration", names=lay)
    def ram():
        E = M.subst(ms, "e")
        lay, n = M.layout(E, S, "", 0x8010)
        t, exp = table(lay, pads=pads(E, S))
        return world(head + '.RAMSECTION "r" SLOT 1 BANK 0 ORGA $8010 FORCE RETURNORG\n' + M.text(E) + ".ENDS\n" + t), check(exp, 0, lay, what="RAM section", names=lay)
    def instances():
        inst = [I("ka", "S"), I("kb", "S", " 2", 2), I("kc", "S", " SIZE %d COUNT 2 STARTFROM 0" % (total + 2), 2, total + 2, 0)]
        lay, n = M.layout(inst, T, "", 0x8020)
        t, exp = table(lay, pads=pads(inst, T))
        return world(head + declare(s) + '.RAMSECTION "r" SLOT 1 BANK 0 ORGA $8020 FORCE RETURNORG\n' + M.text(inst) + ".ENDS\n" + t), check(exp, 0, lay, what="instances", names=lay)
    yield lazy(tag + ": enum", enum, [tag + "e"])
    yield lazy(tag + ": enum desc", desc, [tag + "d"])
    if total:
        yield lazy(tag + ": struct", offsets, [tag])
        yield lazy(tag + ": ramsection", ram, [tag + "r"])
        yield lazy(tag + ": instances", instances, [tag + "i"])
        yield lazy(tag + ": dstruct", lambda: dstruct(tag, head + declare(s), s, T), [tag + "v"])

def dstruct(tag, head, s, T):
    one = M.content(s.members, T)
    src = []; exp = bytearray(); labels = []
    # named values, in reverse order, every leaf that has a name and is not dotted
    lay, _ = M.layout(s.members, T)
    lv = named(s.members, T)
    def new(size): b = bytearray(b"\xe5" * size); return b
    b = new(one); rows = []
    for i, (n, off, size) in enumerate(reversed(lv)):
        v = [(i * 16 + j + 1) & 0xFF for j in range(size)]
        rows.append("%s .DB %s" % (n, ", ".join(map(str, v))))
    for i, (n, off, size) in enumerate(reversed(lv)):
        b[off:off + size] = bytes((i * 16 + j + 1) & 0xFF for j in range(size))
    src.append(".DSTRUCT da INSTANCEOF S VALUES\n" + "\n".join(rows) + "\n.ENDST\n"); labels.append(("da", len(exp))); exp += b
    # padded, one member only, without the others
    b = new(one + 3); rows = []
    if lv:
        n, off, size = lv[-1]; rows.append("%s: .DB %s" % (n, ", ".join(str(j + 7) for j in range(size)))); b[off:off + size] = bytes(j + 7 for j in range(size))
    src.append(".DSTRUCT dc INSTANCEOF S SIZE %d VALUES\n" % (one + 3) + "\n".join(rows) + "\n.ENDST\n"); labels.append(("dc", len(exp))); exp += b
    # values in order
    le = M.leaves(s.members, T)
    if le:
        b = new(one); vals = []
        for i, (n, off, size) in enumerate(le):
            v = 17 + i
            if size > 2: v = "z" * size; b[off:off + size] = v.encode(); vals.append('"%s"' % v)
            else: b[off:off + size] = v.to_bytes(size, "little"); vals.append(str(v))
        src.append(".DSTRUCT dd INSTANCEOF S DATA " + ", ".join(vals) + "\n"); labels.append(("dd", len(exp))); exp += b
        k = len(le) // 2
        b = new(one + 1); b2 = exp[-one:]
        for n, off, size in le[:k]: b[off:off + size] = b2[off:off + size]
        src.append(".DSTRUCT df INSTANCEOF S SIZE %d DATA " % (one + 1) + ", ".join(vals[:k]) + "\n") if k else None
        if k: labels.append(("df", len(exp))); exp += b
        src.append(".DSTRUCT INSTANCEOF S NOLABELS DATA " + ", ".join(vals) + "\n"); exp += b2
        src.append(".DSTRUCT INSTANCEOF S DATA " + ", ".join(vals) + "\n"); exp += b2
    src.append(".DSTRUCT INSTANCEOF S VALUES\n.ENDST\n"); exp += new(one)
    names = []; syms = []
    for n, at in labels:
        whole = one + {"dc": 3, "df": 1}.get(n, 0)
        names.append((n, at, whole)); names += [(n + "." + a, at + o, z) for a, o, z in lay]
    syms = names + [x for n, at in labels for x in alias(s.members, T, n + ".", at)]
    t, e2 = table(names)
    return world(head + "".join(src) + t), check(bytes(exp) + e2, 0, syms, what="bytes of initialised instances (%d bytes, then values and sizes of %s)" % (len(exp), " ".join(x[0] for x in names)[:200]))

def named(ms, S, prefix="", off=0):
    """members that can be given values by name, without overlapping each other: the first branch of every union"""
    out = []; cur = off
    for m in ms:
        if m[0] == "d":
            if m[1] != ".": out.append((prefix + m[1], cur, m[3]))
            cur += m[3]
        elif m[0] == "inst":
            if m[7]: continue
            one = m[5] or M.padded(S[m[2]], S)
            for i in range(m[4]):
                p = prefix if m[1] is None else prefix + m[1] + "." + ("%d." % ((1 if m[6] is None else m[6]) + i) if m[4] > 1 else "")
                out += named(S[m[2]].members, S, p, cur + i * one)
            cur += one * m[4]
        elif m[0] == "union":
            pre, sub = m[1][0]
            out += named(sub, S, prefix + (pre + "." if pre else ""), cur)
            cur += max(M.content(x, S) for _, x in m[1])
    return out

def alias(ms, S, prefix, off):
    """.DSTRUCT lets arr.x stand for arr.<first>.x"""
    out = []; cur = off
    for m in ms:
        if m[0] == "d": cur += m[3]
        elif m[0] == "inst":
            s = S[m[2]]; one = m[5] or M.padded(s, S); f = 1 if m[6] is None else m[6]
            p = prefix if m[1] is None else prefix + m[1] + "."
            if m[4] > 1:
                out += M.layout(s.members, S, p, cur)[0]
                out += alias(s.members, S, p, cur)
                for i in range(m[4]): out += alias(s.members, S, p + "%d." % (f + i), cur + i * one)
            else: out += alias(s.members, S, p, cur)
            if not m[7]: cur += one * m[4]
        elif m[0] == "union":
            for pre, sub in m[1]: out += alias(sub, S, prefix + (pre + "." if pre else ""), cur)
            cur += max(M.content(x, S) for _, x in m[1])
    return out

TYPES = [("DB", 1), ("BYT", 1), ("BYTE", 1), ("DW", 2), ("WORD", 2), ("ADDR", 2), ("DL", 3), ("LONG", 3), ("FARADDR", 3), ("DD", 4), ("DS 5", 5), ("DSB 5", 5), ("DSW 3", 6), ("DSL 2", 6), ("DSD 2", 8),
         ("DS 1+2", 3), ("DSW KK", 4), ("DS 0", 0)]

def cases(tier):
    depth = 3 if tier == "quick" else 4
    for n in range(1, depth + 1):
        for ks in itertools.product(*(range(len(kinds(i))) for i in range(n))):
            ms = [KINDS[i][k] for i, k in enumerate(ks)]
            if sum(1 for a, _ in ms if a in ANON) > 1 and len({a for a, _ in ms if a in ANON}) < sum(1 for a, _ in ms if a in ANON): continue   # the same names twice
            yield from conts("+".join(a for a, _ in ms), [m for _, m in ms], sum(size_of(a, m) for a, m in ms))
    # data types, plain, dotted, in lower case, with a colon
    for t, z in TYPES:
        for form in ("%s %s", "%s: %s", "%s  .%s", "%s: .%s"):
            for low in (0, 1):
                tt = t.lower() if low and "KK" not in t else t
                dot = "." in form
                line = lambda n: form % (n, tt) + "\nz%s DB\n" % n
                src = ".DEFINE KK 2\n.STRUCT S\n" + line("a") + ".ENDST\n.ENUM $C000\n" + line("a") + ".ENDE\n.RAMSECTION \"r\" SLOT 1 BANK 0 ORGA $8000 FORCE RETURNORG\n" + line("g") + ".ENDS\n"
                o = 0 if dot else z
                rows = ".DW S.a, S.za, _sizeof_S, a, za, _sizeof_a, g, zg, _sizeof_g\n"
                exp = b"".join((v & 0xFFFF).to_bytes(2, "little") for v in (0, o, o + 1, 0xC000, 0xC000 + o, z, 0x8000, 0x8000 + o, z))
                if z == 0: continue
                yield Case("type %s%s" % (form % ("a", tt), ""), world(src + rows), check(exp, 0, what="type"))
    # all instance options in all orders
    for cnt in (None, 1, 2, 3):
        for size in (None, 3, 4):
            for start in (None, 0, 1, 5):
                opts = [o for o in ((" COUNT %d" % cnt if cnt else None), (" SIZE %d" % size if size else None), (" STARTFROM %d" % start if start is not None else None)) if o]
                forms = {"".join(p) for p in itertools.permutations(opts)}
                if cnt: forms |= {"".join([" %d" % cnt] + [o for o in opts if "COUNT" not in o])}
                for f in sorted(forms):
                    ms = [I("aa", "P", f, cnt or 1, size, start), D("zz", "DB", 1)]
                    yield from conts("options%s" % f, ms)
    # enumerations that go on, exported ones
    for desc in (0, 1):
        for exp in (0, 1):
            for startv in (0, 1, 0x10, 0xFF, 0x7FFF, 0xC000):
                for k, (kn, m) in enumerate(kinds(0)):
                    if exp == 0: continue
                    ms = M.subst([m], "e")
                    lay, n = (M.descending if desc else lambda a, b, c: M.layout(a, b, "", c))(ms, BASE, startv)
                    if not lay or min(v for _, v, _ in lay) < 0: continue
                    t, e = table(lay)
                    src = "".join(declare(s) for s in BASE.values()) + ".ENUM $%x%s EXPORT\n" % (startv, " DESC" if desc else "") + M.text(ms) + ".ENDE\n"
                    w = run.multi([("z80", "a", world(src)["files"]["a.s"] + '.SECTION "s" FREE\nnop\n.ENDS\n', "o"), ("z80", "b", world(t.replace(", _sizeof_", "\n.DW _sizeof_"))["files"]["a.s"].replace(".ORG 0", ".ORG $100"), "o")])
                    yield Case("exported enum %s at %x%s" % (kn, startv, " desc" if desc else ""), w, check(e, 0x100, what="enumeration used in another file", names=lay))
    # alignment inside RAM sections
    for al in (2, 4, 8):
        for seq in itertools.product(("DB", "DW", "DS 3", ".ALIGN 2", ".ALIGN 4", ".ALIGN 8"), repeat=3):
            if any(s.startswith(".ALIGN") and al % int(s[7:]) for s in seq): continue
            ms = []
            for i, s in enumerate(seq):
                ms.append(("align", int(s[7:])) if s[0] == "." else D("m%d" % i, s, {"DB": 1, "DW": 2, "DS 3": 3}[s]))
            ms.append(D("last", "DB", 1))
            lay, n = M.layout(ms, BASE, "", 0x8040)
            t, exp = table(lay)
            yield Case("align %d %s" % (al, "+".join(seq)), world('.RAMSECTION "r" SLOT 1 BANK 0 ALIGN %d ORGA $8040 FORCE RETURNORG\n' % al + M.text(ms) + ".ENDS\n" + t), check(exp, 0, lay, what="RAM section", names=lay))
    yield from conditionals()
    yield from values()

def conditionals():
    """conditional blocks inside the declarations"""
    for shape in itertools.product((None, "T", "F", "TE", "FE"), repeat=3):
        lines = []; seen = []
        for i, s in enumerate(shape):
            a, b = "ma%d" % i, "mb%d" % i
            if s is None: lines.append("%s DB" % a); seen.append((a, 1)); continue
            lines += [".IF %d == 1" % (s[0] == "T"), "%s DW" % a] + ([".ELSE", "%s DB" % b] if "E" in s else []) + [".ENDIF"]
            if s[0] == "T": seen.append((a, 2))
            elif "E" in s: seen.append((b, 1))
        if not seen: continue
        body = "\n".join(lines) + "\n"; total = sum(n for _, n in seen)
        val = "\n".join(re.sub(r"(m.\d) D(.)", lambda m: "%s .D%s %d" % (m[1], m[2], int(m[1][2]) + 3), l) for l in lines) + "\n"
        off = []; o = 0; data = b""
        for a, n in seen:
            off.append((a, o, n)); o += n; data += (int(a[2]) + 3).to_bytes(n, "little")
        t, e = table([("S." + a, o, n) for a, o, n in off])
        yield Case("conditional members %s: struct" % (shape,), world(".STRUCT S\n" + body + ".ENDST\n" + t + ".DW _sizeof_S\n.DSTRUCT da INSTANCEOF S VALUES\n" + val + ".ENDST\n.DB $77\n"),
                   check(e + total.to_bytes(2, "little") + data + b"\x77", 0, what="bytes"))
        t, e = table([(a, o + 0xC000, n) for a, o, n in off])
        yield Case("conditional members %s: enum" % (shape,), world(".ENUM $C000\n" + body + ".ENDE\n" + t), check(e, 0, what="enumeration"))
        t, e = table([(a, o + 0x8000, n) for a, o, n in off])
        yield Case("conditional members %s: ramsection" % (shape,), world('.RAMSECTION "r" SLOT 1 BANK 0 ORGA $8000 FORCE RETURNORG\n' + body + ".ENDS\n" + t), check(e, 0, what="RAM section"))

def values():
    """values given in every order, too few, over several fields, too many"""
    fields = [("a", 0, 1), ("b", 1, 2), ("c", 3, 3), ("n", 6, 3), ("n.x", 6, 1), ("n.y", 7, 2), ("r", 9, 6), ("r.1", 9, 3), ("r.2", 12, 3), ("r.2.x", 12, 1), ("r.2.y", 13, 2), ("g", 15, 3), ("g.h", 15, 3), ("i", 15, 2)]
    head = declare(P) + ".STRUCT S\na DB\nb DW\nc DS 3\nn INSTANCEOF P\nr INSTANCEOF P 2\n.UNION g\nh DL\n.NEXTU\ni DW\n.ENDU\n.ENDST\n"
    forms = [("one", lambda n: [(".DB", [17 + i for i in range(n)])]), ("short", lambda n: [(".DB", [17 + i for i in range(n - 1)])] if n > 1 else []),
             ("split", lambda n: [(".DB", [17 + i]) for i in range(n)]), ("over", lambda n: [(".DB", [17 + i for i in range(n + 1)])]), ("lines", lambda n: [(".DB", [17]), (".DSB", [n - 1, 5])] if n > 1 else [(".DSB", [1, 5])])]
    def emit(seq):
        b = bytearray(b"\xe5" * 18); rows = []; over = False
        for (name, off, size), (fn, f) in seq:
            parts = f(size); by = b""
            for d, v in parts: by += bytes(v) if d == ".DB" else bytes([v[1]]) * v[0]
            over |= len(by) > size
            b[off:off + len(by)] = by[:18 - off]
            if not parts: rows.append(name + ":"); continue
            rows.append("%s: %s %s" % (name, parts[0][0], ", ".join(map(str, parts[0][1]))))
            rows += ["   %s %s" % (d, ", ".join(map(str, v))) for d, v in parts[1:]]
        return "\n".join(rows) + "\n", bytes(b), over
    for n in (1, 2, 3):
        for fs in itertools.permutations(fields, n):
            if any(x is not y and x[1] < y[1] + y[2] and y[1] < x[1] + x[2] for x in fs for y in fs): continue
            for how in itertools.product(forms, repeat=n) if n < 3 else [(forms[0], forms[2], forms[1]), (forms[4], forms[1], forms[0])]:
                rows, b, over = emit(list(zip(fs, how)))
                key = "values %s" % " ".join("%s/%s" % (f[0], h[0]) for f, h in zip(fs, how))
                w = world(head + ".DB $11\n.DSTRUCT da INSTANCEOF S VALUES\n" + rows + ".ENDST\n.DB $77\n")
                if over: yield Case(key, w, lambda res: "more data than the field has room for is accepted" if res.ok else None)
                else: yield Case(key, w, check(b"\x11" + b + b"\x77", 0, what="bytes"))
