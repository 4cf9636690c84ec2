"""L07: all short arrangements of labels, children, data, gaps, sections, macros, includes and banks are linked, and the generated size, section and RAM usage labels
are compared with what a model of the layout measures, both in the symbol file and in bytes that use them."""
import itertools, re
from ..check import Case
from .l01 import lazy

ID = "L07"
LEVEL = "model_checking"
RULE = "distinct arrangements"
BOUNDS = {"quick": "all sequences of up to 5 of 13 items (labels of all kinds, data, gaps, sections, macros, includes, banks); all pairs of 10 section contents in 9 kinds of sections over 1 and 2 objects; all sequences of up to 3 of 10 kinds of variables in RAM sections, enumerations and structures; all sets of RAM sections over banks and slots; all sets of 3 sections with section labels",
          "thorough": "as quick, with sequences of 6 items, triples of section contents and sequences of 4 kinds of variables"}
TOOLS = ["z80", "wlalink"]
ASSUMPTIONS = ["a label outside sections with the same address as the first label of a section behind it may have size 0 or the size up to the next address with a label"]

HEAD = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 0 $1000\nSLOT 1 $C000 $1000\nSLOT 2 $0100 $100 \"low\"\n.ENDME\n.ROMBANKSIZE $1000\n.ROMBANKS 3\n.EMPTYFILL $E5\n"
MAC = ".MACRO mm\n.DB 6\n\\1: .DB 1, 2\n.ENDM\n.MACRO first\n\\1: .DB 1, 2\n.ENDM\n.MACRO iso ISOLATED\n.DB 1\n@c: .DB 2\n- .DB 3\n.ENDM\n"

def parse(sym):
    lab = {}; dfn = {}; cur = None
    for l in sym.split("\n"):
        if l.startswith("["): cur = l
        p = l.split()
        if cur == "[labels]" and len(p) == 2: lab.setdefault(p[1], []).append((int(p[0].split(":")[0], 16), int(p[0].split(":")[1], 16)))
        if cur == "[definitions]" and len(p) == 2: dfn.setdefault(p[1], []).append(int(p[0], 16))
    return lab, dfn

# ---- sequences of items
ITEMS = "Lc_adDg[]mniB"
def seq_program(seq):
    """(files, {label: set of allowed sizes}, global labels) or None if the sequence doesn't make sense"""
    src = []; files = {}; bank = 0; pc = 0; used = set(); labels = []; sec = None; n = 0; secs = 0; start = {}; end = {}
    def lab(name): labels.append((name, bank * 4096 + pc, sec, len(labels)))
    def byte(k):
        nonlocal pc
        for _ in range(k): used.add(bank * 4096 + pc); pc += 1
    prev = None; moved = True; child = 0
    for t in seq:
        n += 1
        if t == "L": src.append("L%d:" % n); lab("L%d" % n); child = 1
        elif t == "c":
            if not child: return None
            src.append("@c%d:" % n)
        elif t == "_": src.append("_l%d:" % n); lab("_l%d" % n); child = 1
        elif t == "a": src.append("-" if n % 2 else "__")
        elif t == "d": src.append(".DB $%x" % n); byte(1)
        elif t == "D": src.append("ld hl, $1234"); byte(3)
        elif t == "g":
            if sec is not None or prev in ("g", None): return None
            pc += 2; src.append(".ORG $%x" % pc)
        elif t == "[":
            if sec is not None: return None
            sec = secs; secs += 1; start[sec] = bank * 4096 + pc; src.append('.SECTION "s%d" FORCE' % sec)
        elif t == "]":
            if sec is None or bank * 4096 + pc == start[sec]: return None
            end[sec] = bank * 4096 + pc; sec = None; src.append(".ENDS")
        elif t == "m":
            src.append("mm M%d" % n if n % 2 else "first M%d" % n)
            if n % 2: byte(1)
            lab("M%d" % n); byte(2); child = 1
        elif t == "n":
            if seq.count("n") > 1: return None
            src.append("iso"); byte(3)
        elif t == "i":
            files["i%d" % n] = "I%d: .DB 1\n" % n; src.append('.INCLUDE "i%d"' % n); lab("I%d" % n); byte(1); child = 1
        elif t == "B":      # a label at the end of this bank, then the next bank
            if sec is not None or bank: return None
            pc = 4095; src.append(".ORG $FFF\nE%d: .DB 1\n.BANK 1 SLOT 0\n.ORG 0" % n); lab("E%d" % n); byte(1); bank = 1; pc = 0; child = 1
        prev = t
    if sec is not None or not labels: return None
    want = {}
    for name, a, s, o in labels:
        if s is not None:
            nxt = [b for m, b, t, p in labels if t == s and p > o]
            want[name] = {(nxt[0] if nxt else end[s]) - a}
        else:
            stop = a
            while stop in used and stop // 4096 == a // 4096: stop += 1
            z = [b for m, b, t, p in labels if (t is None and p > o) or (t is not None and b > a)]
            sizes = {min([stop] + z) - a}
            if any(t is not None and b == a and p > o for m, b, t, p in labels): sizes.add(0)
            want[name] = sizes
    return src, files, want

def seq_case(seq):
    def make():
        src, files, want = seq_program(seq)
        glob = [x for x in want if x[0] != "_"]
        fs = dict(files)
        fs["a.s"] = HEAD + MAC + ".BANK 0 SLOT 0\n.ORG 0\n" + "\n".join(src) + "\n.BANK 2 SLOT 0\n.ORG 0\n" + "".join(".DW _sizeof_%s\n" % x for x in glob)
        fs["l"] = "[objects]\na.o\n"
        return {"files": fs, "steps": [("z80", ["-o", "a.o", "a.s"]), ("wlalink", ["-r", "-S", "l", "o.bin"])], "reads": ["o.bin", "o.sym"]}, lambda res: seq_judge(res, want, glob)
    return lazy("items " + seq, make)

def seq_judge(res, want, glob):
    if not res.ok: return "refused: %s" % res.outs[-1][-300:].decode("latin1")
    lab, dfn = parse(res.files["o.sym"].decode("latin1")); rom = res.files["o.bin"]
    got = {k[8:]: v for k, v in dfn.items() if k.startswith("_sizeof_")}
    for x in want:
        if len(got.get(x, ())) != 1: return "_sizeof_%s is %d times in the symbol file" % (x, len(got.get(x, ())))
        if got[x][0] not in want[x]: return "_sizeof_%s is %d instead of %s" % (x, got[x][0], sorted(want[x]))
    for x in got:
        if x not in want: return "there is a definition _sizeof_%s" % x
    for k, x in enumerate(glob):
        v = int.from_bytes(rom[0x2000 + 2 * k:0x2002 + 2 * k], "little")
        if v != got[x][0]: return "the code gets %d as _sizeof_%s" % (v, x)

# ---- sections: contents and kinds, over files
CONT = ["Ld", "dLd", "LdL", "LcdLdd", "dd", "LLd", "dL", "LddcdL_d", "nL", "aLadad"]
KINDS = {"FREE": "", "FORCE": "", "SEMIFREE": "", "SUPERFREE": "", "SIZE 20 FREE": "size", "ALIGN 8 FREE": "", "FREE PRIORITY 9": "", "APPENDTO \"s0\"": "app", "OVERWRITE": ""}

def sec_case(contents, kinds, objs, order):
    """contents, kinds: of each section; objs: which object each is in; order: link order of the objects"""
    def make():
        srcs = {}; want = {}; lens = {}; labs = {}
        for i, (c, k) in enumerate(zip(contents, kinds)):
            t = []; pos = 0; L = []
            for n, x in enumerate(c):
                if x == "L": t.append("S%d_%d:" % (i, n)); L.append(("S%d_%d" % (i, n), pos))
                elif x == "_": t.append("_l%d_%d:" % (i, n)); L.append(("_l%d_%d" % (i, n), pos))
                elif x == "c": t.append("@c%d:" % n)
                elif x == "a": t.append("+" if n % 2 else "__")
                elif x == "n": t.append("iso"); pos += 3
                else: t.append(".DB $%d%d" % (i, n)); pos += 1
            org = ".BANK %d SLOT 0\n.ORG $%x\n" % (i % 2, 0x40 * i + (0 if k != "FORCE" else 3))
            srcs.setdefault(objs[i], []).append('%s.SECTION "s%d" %s RETURNORG\n%s\n.ENDS\n' % (org, i, k, "\n".join(t)))
            lens[i] = pos; labs[i] = L
        fs = {}; steps = []
        for o in sorted(srcs):
            fs["%s.s" % "ab"[o]] = HEAD + MAC + "".join(srcs[o]); steps.append(("z80", ["-x", "-o", "%s.o" % "ab"[o], "%s.s" % "ab"[o]]))
        if 2 not in srcs: pass
        ref = [x for i in labs for x, p in labs[i] if x[0] == "S"]
        fs["r.s"] = HEAD + ".BANK 2 SLOT 0\n.ORG 0\n" + "".join(".DW _sizeof_%s\n" % x for x in ref) + ".DB 0\n"
        steps.append(("z80", ["-o", "r.o", "r.s"]))
        fs["l"] = "[objects]\n" + "".join("%s.o\n" % "ab"[o] for o in order if o in srcs) + "r.o\n"
        steps.append(("wlalink", ["-r", "-S", "l", "o.bin"]))
        def judge(res):
            if not res.ok: return "refused: %s" % res.outs[-1][-300:].decode("latin1")
            lab, dfn = parse(res.files["o.sym"].decode("latin1")); rom = res.files["o.bin"]
            app = [i for i, k in enumerate(kinds) if KINDS[k] == "app"]
            at = {i: lab[L[0][0]][0][1] - L[0][1] for i, L in labs.items() if L}
            groups = [[i] for i in range(len(kinds)) if i not in app]
            if app:     # in the order of their addresses behind section 0
                if any(i not in at for i in app): return None
                groups[0] += sorted(app, key=lambda i: at[i])
            for g in groups:
                seq = []; pos = 0
                for i in g:
                    if i in at and at[i] != at.get(g[0], at[i] - pos) + pos: return "section %d is at %x" % (i, at[i])
                    seq += [(x, pos + p) for x, p in labs[i]]; pos += lens[i]
                    if KINDS[kinds[i]] == "size": pos = 20
                for n, (x, p) in enumerate(seq): want[x] = (seq[n + 1][1] if n + 1 < len(seq) else pos) - p
                s = "SECTIONSTART_s%d" % g[0]; e = "SECTIONEND_s%d" % g[0]
                if len(lab.get(s, ())) != 1 or len(lab.get(e, ())) != 1: return "%s or %s is missing" % (s, e)
                # SECTIONEND is after the last byte written (SIZE adds unused bytes)
                if lab[e][0][1] - lab[s][0][1] not in (pos, sum(lens[i] for i in g)) or (g[0] in at and lab[s][0][1] != at[g[0]]): return "%s is %x and %s is %x, the section has %d bytes" % (s, lab[s][0][1], e, lab[e][0][1], pos)
            for i in app:
                if "SECTIONSTART_s%d" % i in lab or "SECTIONEND_s%d" % i in lab: return "the appended section %d still has its own start and end labels" % i
            return seq_judge(res, {x: {v} for x, v in want.items()}, ref)
        return {"files": fs, "steps": steps, "reads": ["o.bin", "o.sym"]}, judge
    return lazy("sections %s in %s, objects %s linked %s" % (contents, kinds, objs, order), make)

# ---- variables
# kind: (text, size by which it advances, [(name, size)], labels)
ST = ".STRUCT st\nx DB\ny DW\n.ENDST\n.STRUCT s7 SIZE 7\nq INSTANCEOF st\nr DB\n.ENDST\n"
def _st(n): return [(n, 3), (n + ".x", 1), (n + ".y", 2)]
def _s7(n): return [(n, 7)] + _st(n + ".q") + [(n + ".r", 1)]
VARS = {
    "db": lambda n: ("%s DB" % n, 1, [(n, 1)]),
    "dw": lambda n: ("%s DW" % n, 2, [(n, 2)]),
    "dsb": lambda n: ("%s DSB 3" % n, 3, [(n, 3)]),
    "dsw": lambda n: ("%s DSW 2" % n, 4, [(n, 4)]),
    "dotted": lambda n: ("%s .DSB 4\n%s_1 DB\n%s_2 .DW\n%s_3 DSB 3" % (n, n, n, n), 4, [(n, 4), (n + "_1", 1), (n + "_2", 2), (n + "_3", 3)]),
    "inst": lambda n: ("%s INSTANCEOF st" % n, 3, _st(n)),
    "inst2": lambda n: ("%s INSTANCEOF st 2" % n, 6, [(n, 6)] + _st(n + ".1") + _st(n + ".2")),
    "inst0": lambda n: ("%s INSTANCEOF s7 2 STARTFROM 0" % n, 14, [(n, 14)] + _s7(n + ".0") + _s7(n + ".1")),
    "instsize": lambda n: ("%s INSTANCEOF st 2 STARTFROM 0 SIZE 5" % n, 10, [(n, 10)] + [(a, 5 if b == 3 else b) for k in "01" for a, b in _st("%s.%s" % (n, k))]),
    "union": lambda n: (".UNION %s\naa DW\nbb DB\n.NEXTU %s_u\ncc DSB 5\n.ENDU" % (n, n), 5, [(n, 3), (n + ".aa", 2), (n + ".bb", 1), (n + "_u", 5), (n + "_u.cc", 5)]),
}
def var_case(kinds, where):
    def make():
        items = [VARS[k]("v%d" % i) for i, k in enumerate(kinds)]
        body = "".join(t + "\n" for t, s, L in items); total = sum(s for t, s, L in items)
        want = dict(x for t, s, L in items for x in L)
        insym = True
        if where == "ram": src = '.RAMSECTION "r" BANK 0 SLOT 1 RETURNORG\n' + body + ".ENDS\n"
        elif where == "enum": src = ".ENUM $C000\n" + body + ".ENDE\n"; insym = False
        elif where == "export": src = ".ENUM $C000 EXPORT\n" + body + ".ENDE\n"
        elif where == "struct": src = ".STRUCT big\n" + body + ".ENDST\n"; want = {"big." + x: s for x, s in want.items()}; want["big"] = total; insym = False
        elif where == "sized": src = ".STRUCT big SIZE %d\n" % (total + 2) + body + ".ENDST\n"; want = {"big." + x: s for x, s in want.items()}; want["big"] = total + 2; insym = False
        elif where == "nested":
            src = ".STRUCT big\n" + body + '.ENDST\n.RAMSECTION "r" BANK 0 SLOT 1 RETURNORG\nw DB\nn INSTANCEOF big 2\ne DW\n.ENDS\n'
            want = {"n.%d.%s" % (k, x): s for k in (1, 2) for x, s in want.items()}; want.update({"n.1": total, "n.2": total, "n": 2 * total, "w": 1, "e": 2})
        elif where == "dstruct":
            src = ".STRUCT big\n" + body + ".ENDST\n.BANK 1 SLOT 0\n.ORG 0\n.DSTRUCT n INSTANCEOF big VALUES\n.ENDST\n.DB 1\n"
            want = {"n." + x: s for x, s in want.items()}; want["n"] = total
        use = sorted(want)
        fs = {"a.s": HEAD + ST + src + ".BANK 2 SLOT 0\n.ORG 0\n" + "".join(".DW _sizeof_%s\n" % x for x in use) + ".DB $77\n", "l": "[objects]\na.o\n"}
        def judge(res):
            if not res.ok: return "refused: %s" % res.outs[-1][-300:].decode("latin1")
            lab, dfn = parse(res.files["o.sym"].decode("latin1")); rom = res.files["o.bin"]
            for k, x in enumerate(use):
                v = int.from_bytes(rom[0x2000 + 2 * k:0x2002 + 2 * k], "little")
                if v != want[x]: return "the code gets %d as _sizeof_%s instead of %d" % (v, x, want[x])
            if rom[0x2000 + 2 * len(use)] != 0x77: return "the sizes aren't words"
            got = {k[8:]: v for k, v in dfn.items() if k.startswith("_sizeof_")}
            if insym:
                for x in want:
                    if got.get(x) != [want[x]]: return "_sizeof_%s is %s in the symbol file instead of %d" % (x, got.get(x), want[x])
            for x in got:       # (.DSTRUCT gives the first of several instances also without its number)
                if x not in want and not (where == "dstruct" and any("%s.%s%s" % (m.group(1), k, m.group(2)) in want for k in "01" for m in [re.match(r"(n\.v\d)(\..*)", x)])): return "there is a definition _sizeof_%s" % x
            if where in ("ram", "nested"):
                for x in want:
                    if x not in lab: return "there is no label %s" % x
        return {"files": fs, "steps": [("z80", ["-o", "a.o", "a.s"]), ("wlalink", ["-r", "-S", "l", "o.bin"])], "reads": ["o.bin", "o.sym"]}, judge
    return lazy("variables %s in %s" % (" ".join(kinds), where), make)

# ---- RAM usage
RAMS = [("FREE", 0, 1, 3), ("FREE", 1, 1, 2), ("FREE ALIGN 4", 0, 1, 1), ("FORCE ORG $20", 0, 1, 4), ("FREE", 0, 2, 5), ("SEMIFREE ORG $10", 3, 2, 1), ("FREE", 255, 1, 7), ("FREE RETURNORG KEEP", 0, 2, 2)]
def ram_case(sel, objs, noise):
    def make():
        srcs = {}
        for i in sel:
            k, b, s, n = RAMS[i]
            k = k.replace("FORCE ORG $20", "ORG $20 FORCE").replace("SEMIFREE ORG $10", "ORG $10 SEMIFREE")
            srcs.setdefault(objs[i], []).append('.RAMSECTION "r%d" BANK %d SLOT %d %s\nv%d DSB %d\n.ENDS\n' % (i, b, s, k, i, n))
        fs = {}; steps = []
        for o in (0, 1):
            fs["%s.s" % "ab"[o]] = HEAD + "".join(srcs.get(o, ())) + ("A%d: .DB 1, 2, 3\n.ENUM $C800\ne%d DB\n.ENDE\n" % (o, o) if noise else "")
            steps.append(("z80", ["-o", "%s.o" % "ab"[o], "%s.s" % "ab"[o]]))
        fs["l"] = "[objects]\na.o\nb.o\n"
        if noise: fs["b.s"] = fs["b.s"].replace("A1:", ".BANK 1 SLOT 0\n.ORG 0\nA1:"); fs["a.s"] = fs["a.s"].replace("A0:", ".BANK 0 SLOT 0\n.ORG 0\nA0:")
        steps.append(("wlalink", ["-r", "-S", "l", "o.bin"]))
        def judge(res):
            if not res.ok: return "refused: %s" % res.outs[-1][-300:].decode("latin1")
            lab, dfn = parse(res.files["o.sym"].decode("latin1"))
            want = {}
            for i in sel:
                k, b, s, n = RAMS[i]
                if "v%d" % i not in lab: return "there is no label v%d" % i
                a = lab["v%d" % i][0][1]; key = ("low" if s == 2 else str(s), b); lo, hi = want.get(key, (1 << 30, -1))
                want[key] = (min(lo, a), max(hi, a + n - 1))
                if lab["v%d" % i][0][0] != b: return "v%d is in bank %d" % (i, lab["v%d" % i][0][0])
            exp = {}
            for (s, b), (lo, hi) in want.items(): exp["RAM_USAGE_SLOT_%s_BANK_%d_START" % (s, b)] = [(b, lo)]; exp["RAM_USAGE_SLOT_%s_BANK_%d_END" % (s, b)] = [(b, hi)]
            got = {k: v for k, v in lab.items() if k.startswith("RAM_USAGE")}
            if got != exp: return "the RAM usage labels are %s instead of %s" % (sorted(got.items()), sorted(exp.items()))
        return {"files": fs, "steps": steps, "reads": ["o.sym"]}, judge
    return lazy("RAM sections %s in objects %s%s" % (sel, objs, " with code" if noise else ""), make)

# ---- options
def option_case(seq, asm, link):
    def make():
        src, files, want = seq_program(seq)
        fs = dict(files); fs["l"] = "[objects]\na.o\n"
        fs["a.s"] = HEAD + MAC + ST + '.RAMSECTION "r" BANK 0 SLOT 2 RETURNORG\nv DB\nw INSTANCEOF st\n.ENDS\n.BANK 0 SLOT 0\n.ORG 0\n' + "\n".join(src) + "\n"
        def judge(res):
            if not res.ok: return "refused: %s" % res.outs[-1][-300:].decode("latin1")
            lab, dfn = parse(res.files["o.sym"].decode("latin1")); got = {k[8:]: v for k, v in dfn.items() if k.startswith("_sizeof_")}
            exp = {} if link else dict(want)
            if not link or not asm: pass
            if not link: exp.update({"v": {1}, "w": {3}, "w.x": {1}, "w.y": {2}})
            if asm: exp = {x: s for x, s in exp.items() if x[0] not in "vw"}; got = {x: s for x, s in got.items() if x[0] not in "vw"}
            if set(got) != set(exp): return "the sizes are those of %s instead of %s" % (sorted(got), sorted(exp))
            for x in exp:
                if got[x][0] not in exp[x]: return "_sizeof_%s is %d instead of %s" % (x, got[x][0], sorted(exp[x]))
        return {"files": fs, "steps": [("z80", ["-s"] * asm + ["-o", "a.o", "a.s"]), ("wlalink", ["-r", "-S"] + ["-D"] * link + ["l", "o.bin"])], "reads": ["o.sym"]}, judge
    return lazy("options%s%s, items %s" % (" -s" if asm else "", " -D" if link else "", seq), make)

def seqs(n):
    for k in range(1, n + 1):
        for s in itertools.product(ITEMS, repeat=k):
            if s[0] in "]cg" or "L" not in s and "_" not in s and "m" not in s and "i" not in s: continue
            s = "".join(s)
            o = 0
            for c in s:
                o += (c == "[") - (c == "]")
                if o < 0 or o > 1: break
            if o or "[]" in s: continue
            if "gg" in s or s.count("B") > 1 or "aa" in s: continue
            yield s

def cases(tier):
    deep = tier != "quick"
    for s in seqs(6 if deep else 5):
        if len(s) == (6 if deep else 5) and s[-1] in "a": continue
        if seq_program(s): yield seq_case(s)
    for s in seqs(3):
        if seq_program(s):
            for a, l in ((0, 1), (1, 0), (1, 1), (0, 0)): yield option_case(s, a, l)
    for c in itertools.product(CONT, repeat=2):
        for k in itertools.product(KINDS, repeat=2):
            if KINDS[k[0]] == "app" or c == ("nL", "nL"): continue
            for objs in ((0, 0), (0, 1)):
                for order in ((0, 1), (1, 0)) if objs == (0, 1) else ((0, 1),):
                    yield sec_case(c, k, objs, order)
    for c in itertools.product(CONT if deep else CONT[:5], repeat=3):
        if c.count("nL") > 1: continue
        for k in (("FREE", 'APPENDTO "s0"', 'APPENDTO "s0"'), ("FREE", "FREE", "FREE"), ("FORCE", "SUPERFREE", 'APPENDTO "s0"')):
            for objs in ((0, 0, 0), (0, 1, 0), (1, 0, 1)):
                for order in ((0, 1), (1, 0)) if 1 in objs else ((0, 1),): yield sec_case(c, k, objs, order)
    for n in range(1, 5 if deep else 4):
        for ks in itertools.product(VARS, repeat=n):
            for w in ("ram", "enum", "export", "struct", "sized", "nested", "dstruct"): yield var_case(ks, w)
    for m in range(1, 1 << len(RAMS)):
        sel = tuple(i for i in range(len(RAMS)) if m >> i & 1)
        for objs in ([0] * 8, [0, 1] * 4, [0, 0, 1, 1] * 2):
            for noise in (0, 1): yield ram_case(sel, tuple(objs), noise)
