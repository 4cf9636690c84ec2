"""T01: wlab.  Every length up to a bound, every byte at every column, and every option combination: the text wlab prints is assembled and must
give the file back; the addresses it prints must be those of the bytes on the line."""
import itertools, os, re
from .. import build
from ..check import Case
from .. import run
from ..run import Res

ID = "T01"
LEVEL = "model_checking"
RULE = "distinct (file content, option string, file name, assembler)"
BOUNDS = {"quick": "all lengths 0..280 and around $200, $1000, $8000 and $10000 in all 12 option combinations (of each, all orders of letters for short files), every byte value at every column of a line, every pair of neighbouring bytes, 16 assemblers, odd file names, refused options, files around every power of two from 128 KB to 1 MB",
          "thorough": "as quick with all lengths up to 4200 and files up to 8 MB"}
TOOLS = ["wlab", "wlalink"] + sorted(build.ARCH)

def execute(w, prog):
    w.clean()
    name, opts, cpu = prog["name"], prog["opts"], prog["cpu"]; data = prog["files"][name]
    if name != os.path.basename(name): os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "wb") as f: f.write(data)
    T = run.TOOLS
    r = Res()
    rc = w.spawn([T["wlab"]] + ([opts] if opts is not None else []) + [name], limit=90.0)
    r.rcs.append(rc)
    with open(w.out_path, "rb") as f: text = f.read()
    r.files["text"] = text
    if rc != 0: return r
    n = len(data); bank = 16
    while bank < n + 1: bank *= 2
    head = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 0 $%x\n.ENDME\n.ROMBANKSIZE $%x\n.ROMBANKS 1\n.EMPTYFILL $A5\n.BANK 0 SLOT 0\n.ORG 0\n" % (bank, bank)
    with open("a.s", "wb") as f: f.write(head.encode() + text)
    with open("l", "w") as f: f.write("[objects]\na.o\n")
    for argv in ([T[cpu], "-o", "a.o", "a.s"], [T["wlalink"], "-r", "l", "o.bin"]):
        rc = w.spawn(argv, limit=90.0); r.rcs.append(rc)
        with open(w.out_path, "rb") as f: r.outs.append(f.read(4000))
        if rc: return r
    with open("o.bin", "rb") as f: r.files["o.bin"] = f.read()
    return r

def prog(name, data, opts, cpu):
    """(the real steps are made by execute: the output of the first becomes the source of the second)"""
    return {"files": {name: data}, "name": name, "opts": opts, "cpu": cpu, "reads": [],
            "steps": [("wlab", ([opts] if opts is not None else []) + [name])]}

LINE = re.compile(rb"^\.DB (.*?)(?:    ; \$([0-9a-f]+)(?:-\$([0-9a-f]+))?)?$")

def case(key, name, data, opts, cpu="z80"):
    def judge(res):
        if res.rcs[0] != 0: return "wlab ends with %r" % res.rcs[0]
        text = res.files["text"]
        if any(res.rcs): return "the text is refused: " + res.outs[-1].decode("latin1")[:200]
        rom = res.files["o.bin"]
        exp = data + b"\xa5" * (len(rom) - len(data))
        if rom != exp:
            k = next(i for i in range(len(exp)) if i >= len(rom) or rom[i] != exp[i])
            return "byte $%x is $%02x, expected $%02x" % (k, rom[k], exp[k])
        at = 0
        for l in text.split(b"\n"):
            m = LINE.match(l)
            if not m: continue
            n = m.group(1).count(b",") + 1
            if ("a" in opts) != (m.group(2) is not None): return "addresses are %sprinted" % ("not " if "a" in opts else "")
            if m.group(2) is not None:
                a = int(m.group(2), 16); e = int(m.group(3) or m.group(2), 16)
                if (a, e) != (at, at + n - 1): return "a line with bytes $%x-$%x says %r" % (at, at + n - 1, l[-20:])
            at += n
        if (b"; this file" in text) == ("p" in opts): return "header printed: %r" % (b"; this file" in text)
    return Case(key, prog(name, data, opts, cpu), judge, steps=len(data), n=1)

def bad(key, name, data, opts):
    def judge(res):
        if res.rcs[0] <= 0: return "wlab ends with %r" % res.rcs[0]
        if b".DB" in res.files["text"]: return "and prints data"
    return Case(key, prog(name, data, opts, "z80"), judge)

def pattern(n, k): return bytes((i * 7 + k * 31 + (i >> 8)) & 255 for i in range(n))

def cases(tier):
    deep = tier != "quick"
    # large files first: they take longest
    for k in range(17, 24 if deep else 21):
        for m in "bdh":
            for d, o in ((-3, m), (1, "a" + m)) if k < 20 or deep else ((1, "a" + m),):
                yield case("big:2^%d%+d:-%s" % (k, d, o), "f.bin", pattern((1 << k) + d, k), "-" + o)
    combos = ["-" + "".join(x) for m in "bdh" for x in ((m,), (m, "a"), ("p", m), ("a", "p", m))]
    for o in combos:
        lens = set(range(0, 4200 if deep else 281))
        for b in (0x200, 0x1000, 0x8000): lens |= set(range(b - 9, b + 10))
        lens |= {0xffff, 0x10000, 0x10001, 0x10009} | ({0x1ffff, 0x20003} if deep else set())
        for n in sorted(lens):
            yield case("len:%d:%s" % (n, o), "f.bin", pattern(n, n), o)
        for v in range(256):
            for col in range(8):
                d = bytearray(pattern(8, 3)); d[col] = v
                if col == 0: yield case("byte:%d:%s" % (v, o), "f.bin", bytes([v]), o)
                yield case("byte:%d@%d:%s" % (v, col, o), "f.bin", bytes(d), o)
                if deep: yield case("tail:%d@%d:%s" % (v, col, o), "f.bin", pattern(8, 1) + bytes(d[:col + 1]), o)
        pairs = bytes(b for x in range(256) for y in range(256) for b in ((x, y) if x != y else (x,)))
        yield case("pairs:" + o, "f.bin", pairs[:0x10000], o)
        yield case("pairs2:" + o, "f.bin", pairs[0x10000:], o)
        for cpu in sorted(build.ARCH):
            yield case("cpu:%s:%s" % (cpu, o), "f.bin", bytes(range(256)) + b"\0\n\r\x1a\xff;", o, cpu)
    letters = "abdhp"
    for k in range(1, 5):
        for x in itertools.product(letters, repeat=k):
            o = "-" + "".join(x); modes = [c for c in x if c in "bdh"]
            if len(modes) == 1: yield case("opt:" + o, "f.bin", pattern(19, 2), o)
            else: yield bad("badopt:" + o, "f.bin", pattern(19, 2), o)
    for o in (None, "-", "b", "h", "-x", "-bx", "-xh", "--h", "-h ", "-H", "-A", ""):
        yield bad("badopt:%r" % o, "f.bin", b"abc", o)
    for nm in ["a", "a.b.c", "x;y", "x'y", "sp ace", "x\"y", "a/*b", "b*/c", "sub/f", "per%d", "q\\", "x\\n", "$f", ".DB 5", "a@b", "#z", "[x]", "é", "x" * 200, "\\", "/*", "//"]:
        if nm == "//": continue
        for o in combos: yield case("name:%s:%s" % (nm, o), ("./" + nm if nm[0] != "/" else "." + nm), pattern(11, 5), o)
