"""O02: symbol files.  Programs whose every line carries a marker that is found again in the ROM: each label, symbol, breakpoint, definition and section
listed in the symbol file must be where its marker is, and the address-to-line table must name, for each address, the line that has its marker."""
import itertools, re, zlib
from .. import run
from ..check import Case
from ..model import lines as M

ID = "O02"
LEVEL = "model_checking"
TOOLS = ["wlalink", "z80", "gb", "6502", "8080", "huc6280", "65816"]
RULE = "distinct (program, symbol format)"
BOUNDS = {"quick": "all programs of one of 12 containers (kinds of section, code outside sections, appended sections, RAM sections) and 1-2 of 43 pieces (labels, children, locals, data, references, macros, repetitions, includes, structures, symbols, breakpoints, definitions), single pieces also for 10 processors and memory maps (LOROM, HIROM, .BASE) and in every format, pairs of a kept and a dropped section with -d, pairs over two objects and over an object and a library",
          "thorough": "also all pairs of containers with one piece each and all triples of pieces in a section and in an appended section"}

def program(ps, link):
    files, steps, objs, libs = {}, [], "", ""
    for p in ps:
        files.update(p.text()); files.update(p.extra)
        o = "%s%d.o" % ("l" if p.lib else "o", ps.index(p))
        steps.append(("wla-" + p.lay.cpu, ["-i", "-l" if p.lib else "-o", o, p.main]))
        if p.lib: libs += "bank 0 slot 0 %s\n" % o
        else: objs += o + "\n"
    files["l"] = "[objects]\n" + objs + ("[libraries]\n" + libs if libs else "")
    return {"files": files, "steps": [(t[4:] if t.startswith("wla-") else t, a) for t, a in steps] + [("wlalink", list(link) + ["l", "o.bin"])], "reads": ["o.bin", "o.sym"]}

def find(pat, rom):
    r = re.compile(b"".join(b"." if x is None else re.escape(bytes([x])) for x in pat), re.S)
    out = [m.start() for m in r.finditer(rom)]
    if len(out) != 1: raise LookupError("marker %s is in the ROM %d times" % (" ".join("??" if x is None else "%02x" % x for x in pat), len(out)))
    return out[0]

def parse(t):
    s, cur = {}, None
    for l in t.decode("latin1").split("\n"):
        if l.startswith("[") and l.endswith("]"): cur = l[1:-1]; s.setdefault(cur, []); continue
        if cur and l: s[cur].append(l)
    return s

AUTO = re.compile(r"(SECTIONSTART_|SECTIONEND_|RAM_USAGE_)")

def check(ps, res, fmt):
    if any(res.rcs): return "refused: " + res.outs[-1][:300].decode("latin1")
    try:
        return judge(ps, res.files["o.bin"], res.files["o.sym"], fmt)
    except LookupError as x:
        return str(x)

def judge(ps, rom, t, fmt):
    lay = ps[0].lay
    K = lay.bank
    def mem(off, slot): return lay.slots[slot][0] + off % K
    def adr(pat, slot, o=0, base=lay.base): a = find(pat, rom) + o; return "%02x:%04x" % (a // K + base, mem(a, slot))
    sb = lay.base if lay.snes else 0                    # (whether the banks of symbols and breakpoints have the base isn't documented)
    every = lambda k: [x for p in ps for x in getattr(p, k)]
    for e in every("gone"):
        try: find(e.pat, rom)
        except LookupError: continue
        return "a section that nothing refers to is in the ROM"
    want = sorted("%s %s" % (adr(l[1], l[3], *l[4:]), l[0]) for l in every("labels") + every("locals"))
    R = lay.slots[3][0]
    for u, a in every("ram"): want += ["%02x:%04x R%d" % (lay.base, a, u), "%02x:%04x Q%d" % (lay.base, a + 1, u)]
    if fmt.endswith("-s"):
        if lay.snes: want = ["00" + l[:2] + l[3:] for l in want]
        return diff("labels", want, [l for l in t.decode("latin1").split("\n") if l and l[0] != ";" and not AUTO.search(l)])
    if fmt == "-sE":
        return diff("labels", ["%s: equ %04xH" % (l.split(" ")[1], int(l[3:7], 16)) for l in want], [l for l in t.decode("latin1").split("\n") if l and not AUTO.search(l)])
    s = parse(t)
    r = diff("labels", want, [l for l in s.get("labels", []) if not AUTO.search(l)])
    if r: return r
    r = diff("symbols", ["%s %s" % (adr(m, sl, 0, sb), n) for n, m, sl in every("symbols")], s.get("symbols", []))
    if r: return r
    r = diff("breakpoints", [adr(m, sl, 0, sb) for m, sl in every("breaks")], s.get("breakpoints", []))
    if r: return r
    dw = []
    for n, v in every("defs"):
        if isinstance(v, tuple): v = mem(find(v[0], rom), v[2]) + v[1]
        dw.append("%08x %s" % (v, n))
    r = diff("definitions", dw, [l for l in s.get("definitions", []) if "_sizeof_" not in l and not AUTO.search(l) and not re.search(r" (st\d+\.|WLA_)", l)])
    if r: return r
    secs = {}
    for n, a, b, slot, app in every("secs"):
        x, y = find(a, rom), find(b, rom) + 2
        if not app: secs[n] = [x, y, slot]
    # (an appended section becomes part of the one it is appended to)
    for n, a, b, slot, app in every("secs"):
        if app:
            x = find(a, rom)
            for k, v in secs.items():
                if v[1] == x: v[1] = find(b, rom) + 2
    sw = ["%08x %02x:%04x %04x %08x %s" % (x, x // K + lay.base, x % K, mem(x, slot), y - x, n) for n, (x, y, slot) in secs.items()]
    r = diff("sections", sw, s.get("sections", []))
    if r: return r
    r = diff("ramsections", ["%02x:%04x %04x %08x ram%d" % (lay.base, a - R, a, 4, u) for u, a in every("ram")], s.get("ramsections", []))
    if r: return r
    if "-A" not in fmt: return None
    text = {}
    for p in ps:
        text.update((f, x.encode()) for f, x in p.text().items()); text.update(p.extra)
    files = {}
    for l in s["source files v2"]:
        m = re.match(r"([0-9a-f]{4}):([0-9a-f]{4}) ([0-9a-f]{8}) (\S+) $", l)
        files[m[1] + ":" + m[2]] = m[4]
        if "%08x" % zlib.crc32(text[m[4]]) != m[3]: return "checksum of %s" % m[4]
    if s["rom checksum"] != ["%08x" % zlib.crc32(rom)]: return "ROM checksum %s" % s["rom checksum"]
    got = {}
    for l in s.get("addr-to-line mapping v2", []):
        m = re.match(r"([0-9a-f]{8}) ([0-9a-f]{2}):([0-9a-f]{4}) ([0-9a-f]{4}) ([0-9a-f]{4}:[0-9a-f]{4}):([0-9a-f]{8})$", l)
        if not m: return "unexpected line %r" % l
        a = int(m[1], 16)
        if a in got: return "address %08x is listed twice" % a
        if (int(m[2], 16) - lay.base) * K + int(m[3], 16) != a: return "%s: bank and offset aren't those of the address" % l
        got[a] = (files.get(m[5], m[5]), int(m[6], 16), int(m[4], 16))
    for e in every("ems"):
        a = find(e.pat, rom) + e.o
        if e.sec is None:
            if a in got: return "code outside sections at %08x is in the table" % a
            continue
        if a not in got: return "line %d of %s at %08x isn't listed" % (e.line, e.file, a)
        f, l, ma = got.pop(a)
        if f != e.file or not e.lo <= l <= e.line: return "%08x was made by line %d of %s, but line %d of %s is listed" % (a, e.line, e.file, l, f)
        for b in range(a + 1, a + e.n):
            if b in got and got[b][0] == f and l <= got[b][1] <= e.line and got[b][2] == ma + b - a: got.pop(b)
        if ma != mem(a, e.slot): return "%08x: memory address %04x, expected %04x" % (a, ma, mem(a, e.slot))
    if got: return "nothing known is at %s" % sorted(got.items())[:3]

def diff(what, want, got):
    w, g = sorted(want), sorted(got)
    if w != g: return "%s: expected %s, listed %s" % (what, [x for x in w if x not in g][:3] or "(once) " + str([x for x in g if g.count(x) > 1][:3]), [x for x in g if x not in w][:3])

FMT = {"-S -A": ("-r", "-S", "-A"), "-S": ("-r", "-S"), "-s": ("-r", "-s"), "-sE": ("-r", "-sE"), "-d -S -A": ("-r", "-d", "-S", "-A"), "-d -s": ("-r", "-d", "-s")}

def case(structs, fmt, lay="z80"):
    """structs: [(kind, struct)] of each object"""
    key = "%s %s %s" % (lay, fmt, " | ".join(k + " ".join("%s(%s)" % (c, ",".join(b)) for c, b in st) for k, st in structs))
    box = []
    def make():
        if not box:
            box.append([])
            for i, (k, st) in enumerate(structs):
                p = M.build(st, lay, "%s.s" % "abc"[i], 0x1F + i * 0x50, i * 300, None if k == "l" else 0xA7); p.lib = k == "l"; box[0].append(p)
        return program(box[0], FMT[fmt])
    return Case(key, make, lambda res: check(box[0], res, fmt), n=1, steps=1 + len(structs))

def cases(tier):
    P = list(M.PIECES); C = [c for c in M.CONT if c not in ("libsec", "dead", "keep", "header")]
    one = lambda *st: [("o", list(st))]
    for c in C:
        for x in P:
            for f in ("-S -A", "-S", "-s", "-sE"): yield case(one((c, [x])), f)
            for l in M.LAYOUTS:
                if l == "z80": continue
                for f in ("-S -A", "-s"): yield case(one((c, [x])), f, l)
        for x, y in itertools.product(P, repeat=2): yield case(one((c, [x, y])), "-S -A")
    for x, y in itertools.product(P, repeat=2):
        if y != "deflab":
            for f in ("-d -S -A", "-d -s"): yield case(one(("keep", [x]), ("dead", [y])), f)
            yield case(one(("dead", [y]), ("keep", [x])), "-d -S -A")
        for c in ("free", "appended", "mixed"):
            yield case([("o", [(c, [x])]), ("o", [("free", [y])])], "-S -A")
            yield case([("o", [(c, [x])]), ("l", [("libsec", [y])])], "-S -A")
        if tier == "thorough":
            for c in C:
                for d in C:
                    if (c, d) not in (("force", "force"), ("plain", "plain"), ("plain2", "plain2"), ("mixed", "mixed")): yield case(one((c, [x]), (d, [y])), "-S -A")
    if tier == "thorough":
        for x in itertools.product(P, repeat=3): yield case(one(("appended", list(x))), "-S -A"); yield case(one(("free", list(x))), "-S -A")
