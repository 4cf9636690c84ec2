"""O04: list files.  The same programs as in O02: every line's bytes carry a marker that is found again in the ROM, and the list file of each source file
must have all its lines in order, and at each line that made bytes those bytes and the place they are at."""
import itertools, re
from .. import run
from ..check import Case
from ..model import lines as M
from .o02 import find, program

ID = "O04"
LEVEL = "model_checking"
TOOLS = ["wlalink", "z80", "gb", "6502", "8080", "huc6280", "65816"]
RULE = "distinct (program, link options)"
BOUNDS = {"quick": "all programs of one of 12 containers and 1-2 of 43 pieces (as in O02, with files that are included many times and by many objects), single pieces also for 11 processors and memory maps, 6 kinds of line ends and 7 kinds of file names, pairs of a kept and a dropped section, pairs over two objects and over an object and a library, bank headers",
          "thorough": "also all pairs of containers with one piece each and all triples of pieces in a section and in an appended section"}

class Row:
    __slots__ = ("line", "base", "bank", "slot", "pc", "off", "data", "text", "at")

def parse(t, width, based):
    """[(text or None, Row or None)]"""
    ls = t.decode("latin1").split("\n")
    if not ls[0].startswith("; WLALINK") or ls[-1] != "": raise LookupError("no list file header or end: %r" % ls[:1])
    rows, last = [], None
    pre = re.compile(r"([ \d]{5}) " + (r"([0-9A-F]{4}) " if based else "()") + r"([0-9A-F]{4}) ([0-9A-F]{4}) ([0-9A-F]{4}) ([0-9A-F]{4})   ((?:[0-9A-F]{2} )+)( *)(.*)$", re.S)
    for l in ls[4:-1]:
        if l[:width].strip(" ") == "" and len(l) >= width: rows.append((l[width:], None)); last = None; continue
        m = pre.match(l[:width])
        if m:
            r = Row(); r.line = int(m[1]); r.base = int(m[2], 16) if based else 0
            r.bank, r.slot, r.pc, r.off = (int(x, 16) for x in m.group(3, 4, 5, 6)); r.data = bytes.fromhex(m[7])
            if m[9]: raise LookupError("unexpected text in %r" % l)
            rows.append((l[width:] if len(l) >= width else None, r)); last = r; continue
        if last and re.match(r"([0-9A-F]{2} )+$", l): last.data += bytes.fromhex(l); continue
        raise LookupError("unexpected line %r" % l)
    return rows

def align(rows, src):
    """gives each row the number of the source line it is written at; a row that is behind its line has no text, or, if it is long, an empty one"""
    def go(i, n):
        while i < len(rows):
            t, r = rows[i]
            if t is None: r.at = None
            elif t == "" and r is not None:
                if n < len(src) and src[n] == "":
                    r.at = n + 1
                    if go(i + 1, n + 1): return True
                r.at = None
            else:
                if n >= len(src) or src[n] != t: return False
                n += 1
                if r is not None: r.at = n
            i += 1
        return n == len(src)
    return go(0, 0)

def lst(f):
    d, s, n = f.rpartition("/")
    return d + s + (n.rpartition(".")[0] or n) + ".lst"

def check(ps, res):
    if any(res.rcs): return "refused: " + res.outs[-1][:300].decode("latin1")
    lay = ps[0].lay; K = lay.bank; rom = res.files["o.bin"]
    hdr = [e for p in ps for e in p.hdr]
    based = lay.cpu == "65816"; width = 65 if based else 60
    try:
        if hdr:                                       # (a section in front of the first bank isn't in the memory map)
            n = find(hdr[-1].pat, rom) + len(hdr[-1].pat)
            head, rom = rom[:n], rom[n:]
        text = {}
        for p in ps: text.update(p.text())
        for f in text:
            want = [e for p in ps for e in p.ems if e.file == f]
            hd = [e for e in hdr if e.file == f]
            t = res.files.get(lst(f))
            if t is None:
                if want or hd: return "%s has no list file" % f
                continue
            src = text[f].replace("\r\n", "\n").split("\n"); t = t.replace(b"\r", b"")   # (line ends aren't judged)
            if src[-1] == "": src.pop()
            elif not t.endswith(b"\n"): t += b"\n"
            rows = parse(t, width, based)
            if not align(rows, src): return "%s: the list file's lines aren't those of the source file" % f
            rows = [r for _, r in rows if r is not None]
            at = {(r.line, r.at) for r in rows}; spots = {}
            for e in want:
                a = find(e.pat, rom) + e.o
                for b in range(a, a + e.n): spots[b] = e
            done = set()
            for r in list(rows):
                es = [e for e in hd if e.lo <= r.line <= e.line]
                if not es: continue
                rows.remove(r)                     # (the same line can be elsewhere, too)
                e = next((e for e in es if e.lo == e.line and r.data == bytes(e.pat) or e.lo < e.line and r.data in bytes(e.pat)), None)
                if e is None:
                    if any(e.lo <= r.line <= e.line for e in want): rows.append(r); continue
                    return "%s: line %d shows %s, but the bank's header has %s" % (f, r.line, r.data.hex(), bytes(es[0].pat).hex())
                if e.direct and r.at is not None and r.at != r.line: return "%s: line %d's bytes are shown at the text of line %d" % (f, r.line, r.at)
                if e.lo == e.line: hd.remove(e)
            if any(e.direct and e.lo == e.line for e in hd): return "%s: the bytes of a line of a bank's header aren't shown" % f
            for r in rows:
                a = r.bank * K + r.off
                if r.data != rom[a:a + len(r.data)]: return "%s: line %d shows %s, but the ROM has %s at %x" % (f, r.line, r.data[:12].hex(), rom[a:a + 12].hex(), a)
                for b in range(a, a + len(r.data)):
                    e = spots.get(b)
                    if e is None: return "%s: line %d shows %x, where nothing of this file is known to be" % (f, r.line, b)
                    if not e.lo <= r.line <= e.line: return "%s: %x was made by line %d, but is shown as line %d's" % (f, b, e.line, r.line)
                    if e.direct and r.at is not None and r.at != r.line: return "%s: line %d's bytes are shown at the text of line %d" % (f, r.line, r.at)
                    if r.slot != e.slot or r.pc != lay.slots[e.slot][0] + r.off or r.base != lay.base: return "%s: line %d is shown in slot %d, at %x, base %x" % (f, r.line, r.slot, r.pc, r.base)
                    if b in done: return "%s: %x is shown twice" % (f, b)
                    done.add(b)
            for e in want:
                if not e.direct: continue
                a = find(e.pat, rom) + e.o
                if any(b not in done for b in range(a, a + e.n)): return "%s: line %d's bytes at %x aren't all shown" % (f, e.line, a)
                if e.line - e.lo == 0 and (e.line, e.line) not in at: return "%s: nothing is shown at the text of line %d" % (f, e.line)
    except LookupError as x:
        return str(x)

# what the files are called, and how their lines end
NAMES = {"": lambda i: "abc"[i] + ".s", "noext": lambda i: "abc"[i], "dots": lambda i: "a.%d.s" % i, "dir": lambda i: "d/%s.s" % "abc"[i], "dirdot": lambda i: "d.x/%s" % "abc"[i], "dot": lambda i: "./%s.s" % "abc"[i],
         "dotnoext": lambda i: "./%s" % "abc"[i]}
ENDS = {"": lambda t: t, "crlf": lambda t: t.replace("\n", "\r\n"), "noeol": lambda t: t[:-1], "crlfnoeol": lambda t: t.replace("\n", "\r\n")[:-2], "lines": lambda t: t + "\n\n\n", "tabs": lambda t: "".join("\t" + l + "\t\n" if l else "\n" for l in t[:-1].split("\n"))}

def case(structs, opts=(), lay="z80", names="", ends=""):
    key = "%s %s%s%s" % (lay, "".join(z + " " for z in (names, ends) if z), "".join(o + " " for o in opts), " | ".join(k + " ".join("%s(%s)" % (c, ",".join(b)) for c, b in st) for k, st in structs))
    box = []
    def make():
        if not box:
            box.append([])
            for i, (k, st) in enumerate(structs):
                p = M.build(st, lay, NAMES[names](i), 0x1F + i * 0x50, i * 300, None if k == "l" else 0xA7); p.lib = k == "l"; p.end = ENDS[ends]; box[0].append(p)
        pr = program(box[0], ("-r", "-i") + tuple(opts))
        pr["reads"] = ["o.bin"] + [lst(f) for p in box[0] for f in p.text()]
        return pr
    return Case(key, make, lambda res: check(box[0], res), n=1, steps=1 + len(structs))

def cases(tier):
    P = list(M.PIECES); C = [c for c in M.CONT if c not in ("libsec", "dead", "keep", "header")]
    one = lambda *st: [("o", list(st))]
    for c in C:
        for x in P:
            for l in M.LAYOUTS: yield case(one((c, [x])), (), l)
            yield case(one((c, [x])), ("-S", "-A"))
            for e in ENDS: yield case(one((c, [x])), (), "z80", "", e)
            for n in NAMES: yield case(one((c, [x])), (), "z80", n)
        for x, y in itertools.product(P, repeat=2): yield case(one((c, [x, y])))
    for x, y in itertools.product(P, repeat=2):
        if y != "deflab":
            yield case(one(("keep", [x]), ("dead", [y])), ("-d",))
            yield case(one(("dead", [y]), ("keep", [x])), ("-d",))
        for c in ("free", "appended", "mixed"):
            yield case([("o", [(c, [x])]), ("o", [("free", [y])])])
            yield case([("o", [(c, [x])]), ("l", [("libsec", [y])])])
        if tier == "thorough":
            for c in C:
                for d in C:
                    if (c, d) not in (("force", "force"), ("plain", "plain"), ("plain2", "plain2"), ("mixed", "mixed")): yield case(one((c, [x]), (d, [y])))
    for x in M.NOLABEL:
        for l in M.LAYOUTS: yield case(one(("header", [x]), ("free", ["db"])), (), l)
        for y in P:
            yield case(one(("header", [x]), ("free", [y])))
            yield case(one(("free", [y]), ("header", [x])))
            yield case([("o", [("header", [x])]), ("o", [("free", [y])])])
        for y in M.NOLABEL: yield case(one(("header", [x, y]), ("free", ["db"])))
    if tier == "thorough":
        for x in itertools.product(P, repeat=3): yield case(one(("appended", list(x)))); yield case(one(("free", list(x))))
