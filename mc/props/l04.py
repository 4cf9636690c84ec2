"""L04: all reference graphs over up to 3 or 4 sections, with every kind of reference, section, keep mark and file, are linked with discarding on;
which sections are kept is compared with the graph's reachable set, and the kept code, labels and references are checked in the ROM and symbol file."""
import itertools
from ..check import Case

ID = "L04"
LEVEL = "model_checking"
RULE = "distinct (reference graph, kinds of references, kinds of sections, files)"
BOUNDS = {"quick": "all graphs over plain code and 3 sections; all graphs over 4 sections with at most one root; all pairs of 18 kinds of references in 6 shapes; all pairs of 16 kinds of sections in 5 shapes; all distributions of 4 nodes over 4 files; appended sections",
          "thorough": "as quick, with all graphs over plain code and 4 sections, and all triples of kinds of references"}
TOOLS = ["z80", "wlalink"]
ASSUMPTIONS = ["sections that nothing outside their own cycle refers to may be kept or removed", "what only unused definitions refer to may be kept or removed"]

def w16(v): return (v & 0xFFFF).to_bytes(2, "little")
# kind: (text in the referring section, text outside sections, bytes), with {t} the label of the target and {u} a unique suffix; calculated with (address, bank, size of the label)
REFS = {
    "dw": (".DW {t}", "", lambda a, b, n: w16(a)),
    "call": ("ld hl, {t}", "", lambda a, b, n: b"\x21" + w16(a)),
    "calc": (".DW {t}+1", "", lambda a, b, n: w16(a + 1)),
    "calc2": (".DW ({t}*2)-{t}", "", lambda a, b, n: w16(a)),
    "bank": (".DB :{t}", "", lambda a, b, n: bytes([b])),
    "low": (".DB <{t}", "", lambda a, b, n: bytes([a & 255])),
    "high": (".DB >{t}, 1", "", lambda a, b, n: bytes([a >> 8, 1])),
    "diff": (".DB {t}_end-{t}", "", lambda a, b, n: bytes([3])),
    "child": (".DW {t}@c", "", lambda a, b, n: w16(a + 1)),
    "sizeof": (".DW _sizeof_{t}", "", lambda a, b, n: w16(3)),
    "def": (".DW D{u}", ".DEFINE D{u} {t}+2\n", lambda a, b, n: w16(a + 2)),
    "def2": (".DW E{u}+1", ".DEFINE D{u} {t}+2\n.DEFINE E{u} D{u}*2\n", lambda a, b, n: w16(a * 2 + 5)),
    "mydef": (".DEFINE F{u} {t}+3\n.DW F{u}", "", lambda a, b, n: w16(a + 3)),
    "bits": (".BITS 16 DATA {t}\n.ENDBITS", "", lambda a, b, n: (a & 0xFFFF).to_bytes(2, "big")),
    "dstruct": (".DSTRUCT v{u} INSTANCEOF ST VALUES\nx .DW {t}\n.ENDST", "", lambda a, b, n: w16(a)),
    "macro": ("mm {t}", "", lambda a, b, n: w16(a) * 2),
    "rept": (".REPT 2\n.DB lobyte({t})\n.ENDR", "", lambda a, b, n: bytes([a & 255]) * 2),
    "data2": (".DW 1, {t}, 2, {t}", "", lambda a, b, n: w16(1) + w16(a) + w16(2) + w16(a)),
}
MAYBE = {"def", "def2"}     # the definition stands outside sections and may count as a reference from there
NOREF = {"diff"}            # the assembler may compute the difference of two labels of a section itself, which then isn't a reference

TYPES = {      # name: (text after the section's name, always kept)
    "free": ("FREE", 0), "semifree": ("SEMIFREE", 0), "semisubfree": ("SEMISUBFREE", 0), "superfree": ("SUPERFREE", 0), "freekeep": ("FREE KEEP", 1), "superkeep": ("SUPERFREE KEEP", 1),
    "semikeep": ("SEMIFREE ALIGN 4 KEEP", 1), "force": ("FORCE", 1), "overwrite": ("OVERWRITE", 1), "prio": ("FREE PRIORITY 5", 0), "align": ("FREE ALIGN 8", 0), "window": ("FREE WINDOW $10 $3FF", 0),
    "bang": ("FREE", 1), "unique": ("FREE", 0), "keepsemisub": ("SEMISUBFREE KEEP", 1), "size": ("SIZE 40 FREE", 0),
}

LIBHEAD = ".STRUCT ST\nx DW\n.ENDST\n.MACRO mm\n.DW \\1, \\1\n.ENDM\n"
HEAD = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 0 $800\nSLOT 1 $8000 $400\n.ENDME\n.ROMBANKSIZE $800\n.ROMBANKS 2\n.EMPTYFILL $E5\n" + LIBHEAD

def refs_text(src, refs):
    """(text inside, text outside, [(target, bytes function)])"""
    ins = []; outs = ""; exp = []
    for k, (t, kind) in enumerate(refs):
        a, b, f = REFS[kind]
        u = "%s_%d" % (src, k)
        lab = "L%d" % t if isinstance(t, int) else t
        ins.append(a.format(t=lab, u=u)); outs += b.format(t=lab, u=u); exp.append((t, f))
    return "\n".join(ins), outs, exp

def make(key, n, root, edges, types=None, where=None, after=None, n_states=None, flags=("-d",), extra_may=()):
    """root: [(target, kind)], edges: {i: [(j, kind)]}, types: name of each section's kind, where: file number of plain code, 0, 1, ... (0, 1 objects; 2, 3 libraries)"""
    types = types or ["free"] * n; where = where or [0] * (n + 1); after = after or {}
    def prog():
        parts = {}
        def put(f, t): parts.setdefault(f, []).append(t)
        it, ot, exp = refs_text("r", root)
        lib = lambda f: f >= 2
        put(where[0], ot)
        put(where[0], ".BANK 0 SLOT 0\n.ORG 0\n.DB $5A, $A5\n%s\n.DB $77\n" % it)
        want = [("r", exp)]
        for i in range(n):
            it, ot, exp = refs_text(str(i), edges.get(i, ()))
            f = where[i + 1]; t, keep = TYPES[types[i]]
            put(f, ot)
            name = {"bang": "!s%d", "unique": "__s%d"}.get(types[i], "s%d") % i
            org = "" if lib(f) else ".BANK 0 SLOT 0\n.ORG $%x\n" % (0x200 + i * 0x40 if types[i] in ("force", "overwrite", "semifree", "semikeep") else 0x700 if "semisub" in types[i] else 0)
            if i in after: t += " %s \"s%d\"" % (after[i][1], after[i][0])
            put(f, '%s.SECTION "%s" %s RETURNORG\nL%d: .DB $%X\n@c: .DB $5A, $%X\nL%d_end:\n%s\n.DB $77\n.ENDS\n' % (org, name, t, i, 0xA0 + i, 0xC0 + i, i, it))
            want.append((i, exp))
        files = {}; steps = []; objs = []; libs = []
        for f in sorted(parts):
            nm = "abcd"[f]
            files[nm + ".s"] = (LIBHEAD if lib(f) else HEAD) + "".join(parts[f]); steps.append(("z80", ["-l" if lib(f) else "-o", nm + ".o", nm + ".s"]))
            (libs if lib(f) else objs).append(nm + ".o")
        if not objs: files["z.s"] = HEAD; steps.insert(0, ("z80", ["-o", "z.o", "z.s"])); objs = ["z.o"]
        files["l"] = "[objects]\n" + "\n".join(objs) + "\n" + ("[libraries]\n" + "".join("BANK 0 SLOT 0 %s\n" % x for x in libs) if libs else "")
        steps.append(("wlalink", ["-r", "-S"] + list(flags) + ["l", "o.bin"]))
        cell["want"] = want
        return {"files": files, "steps": steps, "reads": ["o.bin", "o.sym"]}
    cell = {}
    def judge(res):
        if not res.ok: return "refused: %s" % res.outs[-1][-300:].decode("latin1")
        # reference graph
        group = list(range(n))
        for i, (t, how) in after.items():
            if how == "APPENDTO": group = [group[t] if g == group[i] else g for g in group]
        always = {group[i] for i in range(n) if TYPES[types[i]][1]} if flags else set(group)
        if "-d" not in flags: always = set(group)
        R = {group[t] for t, k in root if k not in NOREF}; E = {(group[i], group[j]) for i in edges for j, k in edges[i] if group[i] != group[j] and k not in NOREF}
        mayE = E | {(group[i], group[j]) for i in edges for j, k in edges[i] if k in NOREF}; mayR = {group[t] for t, k in root}
        may = {group[j] for i in edges for j, k in edges[i] if k in MAYBE} | {group[j] for j in extra_may}
        low = set(always) | R
        while True:
            more = {j for i, j in E if i in low} - low
            if not more: break
            low |= more
        high = set(group)
        while True:
            new = {g for g in high if g in always or g in mayR or g in may or any(i in high and j == g and i != j for i, j in mayE)}
            if new == high: break
            high = new
        # what happened
        rom = res.files["o.bin"]; lab = {}; txt = res.files["o.sym"].decode("latin1").split("[labels]")[1].split("\n\n")[0]
        for l in txt.split("\n"):
            p = l.split()
            if len(p) == 2: lab[p[1]] = tuple(int(x, 16) for x in p[0].split(":"))
        kept = set()
        for i in range(n):
            sig = bytes([0xA0 + i, 0x5A, 0xC0 + i])
            at = [k for k in range(len(rom)) if rom[k:k + 3] == sig]
            name = "L%d" % i
            if len(at) > 1: return "section %d is in the ROM %d times" % (i, len(at))
            if bool(at) != (name in lab): return "section %d is %s, its label is %s" % (i, "in the ROM" if at else "not in the ROM", "in the symbol file" if name in lab else "not in the symbol file")
            if at:
                kept.add(i)
                if lab[name][0] * 0x800 + lab[name][1] != at[0]: return "%s is %02x:%04x, the section is at %x" % (name, *lab[name], at[0])
        for i in range(n):
            if (i in kept) and group[i] not in high: return "section %d is kept although nothing refers to it (kept: %s)" % (i, sorted(kept))
            if (i not in kept) and group[i] in low: return "section %d is discarded although it is referred to or marked to be kept (kept: %s)" % (i, sorted(kept))
        for i, exp in cell["want"]:
            if i != "r" and i not in kept: continue
            pos = 2 if i == "r" else lab["L%d" % i][0] * 0x800 + lab["L%d" % i][1] + 3
            if i == "r" and rom[:2] != b"\x5a\xa5": return "the plain code is not at 0"
            for t, f in exp:
                b = f(*(lab["L%d" % t][1::-1] if t in kept else (0, 0)), 0)      # (not kept: it's a difference)
                if rom[pos:pos + len(b)] != b: return "a reference from %s to section %d holds %s instead of %s" % (i, t, rom[pos:pos + len(b)].hex(" "), b.hex(" "))
                pos += len(b)
            if rom[pos] != 0x77: return "the code of %s doesn't end with 77" % i
        return None
    return Case(key, prog, judge, steps=3, states=[key])

def graphs(n, roots):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for r in roots:
        for m in range(1 << len(pairs)):
            E = {}
            for k, (i, j) in enumerate(pairs):
                if m >> k & 1: E.setdefault(i, []).append((j, "dw"))
            yield r, m, E

def cases(tier):
    deep = tier != "quick"
    for r, m, E in graphs(3, [c for k in range(4) for c in itertools.combinations(range(3), k)]):
        yield make("graph of 3, roots %s, edges %d" % (r, m), 3, [(t, "dw") for t in r], E)
        if m % 8 == 0: yield make("graph of 3 without -d, roots %s, edges %d" % (r, m), 3, [(t, "dw") for t in r], E, flags=())
    for r, m, E in graphs(4, [c for k in range(5) for c in itertools.combinations(range(4), k)] if deep else [(), (0,)]):
        yield make("graph of 4, roots %s, edges %d" % (r, m), 4, [(t, "dw") for t in r], E)
    # kinds of references
    K = list(REFS)
    for a in K:
        for b in K:
            k = "%s, %s" % (a, b)
            yield make("kinds %s: plain to 0 to 1" % k, 3, [(0, a)], {0: [(1, b)]})
            yield make("kinds %s: 0 to 1 to 2" % k, 3, [], {0: [(1, a)], 1: [(2, b)]})
            yield make("kinds %s: plain to 0, 0 and 2 to 1, 2 to 0" % k, 3, [(0, "dw")], {0: [(1, a)], 2: [(1, b), (0, b)]})
            yield make("kinds %s: two references" % k, 3, [(2, a), (1, b)], {2: [(1, a), (1, b)], 0: [(2, b), (1, a)]})
            yield make("kinds %s: itself" % k, 3, [(1, a)], {0: [(0, b)], 1: [(1, b)], 2: [(2, a), (1, b)]})
            yield make("kinds %s: cycle" % k, 3, [(2, a)], {0: [(1, a)], 1: [(2, b)], 2: [(0, b)]})
            if deep:
                for c in K:
                    yield make("kinds %s, %s: chain" % (k, c), 3, [(0, a)], {0: [(1, b)], 1: [(2, c)]})
                    yield make("kinds %s, %s: unused" % (k, c), 4, [(0, a)], {0: [(1, b)], 3: [(2, c), (1, c)]})
    # kinds of sections
    for a in TYPES:
        for b in TYPES:
            for s, (r, E) in enumerate([([], {0: [(1, "dw")]}), ([(0, "dw")], {0: [(1, "dw")]}), ([], {}), ([(1, "calc")], {1: [(2, "dw")]}), ([], {2: [(0, "dw"), (1, "calc")]})]):
                for c in ("free", "force"):
                    yield make("sections %s, %s, %s: shape %d" % (a, b, c, s), 3, r, E, types=[a, b, c])
    # files
    for where in itertools.product(range(4), repeat=4):
        if where[0] >= 2: continue      # (libraries hold sections only)
        for s, (r, E) in enumerate([([(0, "dw")], {0: [(1, "calc")]}), ([], {0: [(1, "dw")], 1: [(2, "call")]}), ([(2, "bank")], {2: [(0, "data2")], 0: [(1, "low")]}), ([], {}), ([(1, "calc2")], {0: [(2, "dw")], 2: [(0, "dw")]}),
                                    ([(0, "mydef")], {0: [(1, "mydef")], 2: [(1, "mydef")]}), ([(0, "sizeof")], {0: [(2, "sizeof")], 1: [(2, "dw")]}), ([(1, "child")], {0: [(2, "macro")], 1: [(2, "bits")]})]):
            yield make("files %s: shape %d" % (where, s), 3, r, E, where=list(where))
    # definitions made in another section or another file
    yield from definitions()
    # sections appended to others
    for n, after in ((2, {1: (0, "APPENDTO")}), (3, {1: (0, "APPENDTO"), 2: (0, "APPENDTO")}), (3, {1: (0, "APPENDTO"), 2: (1, "APPENDTO")}), (3, {2: (1, "APPENDTO")})):
        for r, m, E in graphs(n, [c for k in range(n + 1) for c in itertools.combinations(range(n), k)]):
            yield make("%s, roots %s, edges %d" % (", ".join("%d %s %d" % (i, h, t) for i, (t, h) in after.items()), r, m), n, [(t, "dw") for t in r], E, after=after)
    yield from ram()

def definitions():
    """section 0 defines K from a label in section 1; plain code, section 2 or section 1 uses K; in one or two files"""
    for user in ("plain", "2", "1", "none"):
        for zero in (0, 1):                # is section 0 itself referred to
            for two in (0, 1, 2):
                for chain in (0, 1, 2):
                    for use in (".DW K", ".DW K+1", "ld hl, K", ".DB >K, 0"):
                        d = ".DEFINE K L1+2" + (" EXPORT" if two else "") + "\n"
                        if chain: d = ".DEFINE K0 L1+1\n.DEFINE K K0+1" + (" EXPORT" if two else "") + "\n"
                        if chain == 2: d = ".DEFINE K K0+1" + (" EXPORT" if two else "") + "\n"
                        val = lambda a: {".DW K": w16(a + 2), ".DW K+1": w16(a + 3), "ld hl, K": b"\x21" + w16(a + 2), ".DB >K, 0": bytes([(a + 2) >> 8, 0])}[use]
                        sec = lambda i, body, k="FREE": '.SECTION "s%d" %s RETURNORG\nL%d: .DB $A%d, $5A, $C%d\n%s\n.DB $77\n.ENDS\n' % (i, k, i, i, i, body)
                        P = {0: ".BANK 0 SLOT 0\n.ORG 0\n.DB $5A, $A5\n" + (use + "\n" if user == "plain" else "") + (".DW L0\n" if zero else "") + ".DW L2\n.DB $77\n"}
                        s0 = (".DEFINE K0 L1+1\n" if chain == 2 else "") + sec(0, d); s1 = sec(1, use if user == "1" else ""); s2 = sec(2, use if user == "2" else "")
                        fs = {"a.s": HEAD + P[0] + (s0 if two != 1 else "") + s2 + (s1 if two != 2 else "")}
                        if two: fs["b.s"] = HEAD + (s0 if two == 1 else s1)
                        # the definition comes first in the same file, so that it is known when used
                        if not two: fs["a.s"] = HEAD + s0 + P[0] + s2 + s1
                        steps = [("z80", ["-o", f[0] + ".o", f]) for f in sorted(fs)]
                        if two == 2 or (two == 1): pass
                        fs["l"] = "[objects]\n" + "\n".join(f[0] + ".o" for f in sorted(fs)) + "\n"
                        steps.append(("wlalink", ["-r", "-S", "-d", "l", "o.bin"]))
                        def judge(res, user=user, zero=zero, val=val):
                            if not res.ok: return "refused: %s" % res.outs[-1][-300:].decode("latin1")
                            rom = res.files["o.bin"]; at = [rom.find(bytes([0xA0 + i, 0x5A, 0xC0 + i])) for i in range(3)]
                            need = user in ("plain", "2")
                            if need and at[1] < 0: return "section 1 is discarded although a used definition refers to it"
                            if at[2] < 0: return "section 2 is discarded"
                            if zero and at[0] < 0: return "section 0 is discarded"
                            if not zero and at[0] >= 0: return "section 0 is kept although nothing refers to it"
                            if user == "plain" and rom[2:2 + len(val(at[1]))] != val(at[1]): return "plain code has %s instead of %s" % (rom[2:6].hex(" "), val(at[1]).hex(" "))
                            if user == "2" and rom[at[2] + 3:at[2] + 3 + len(val(at[1]))] != val(at[1]): return "section 2 has %s instead of %s" % (rom[at[2] + 3:at[2] + 7].hex(" "), val(at[1]).hex(" "))
                        yield Case("definition in section 0, used in %s with %s, 0 %s, files %d, chain %d" % (user, use, "kept" if zero else "unused", two, chain), {"files": fs, "steps": steps, "reads": ["o.bin"]}, judge)

RAM = {"": 0, "KEEP": 1, "SEMIFREE": 0, "SEMISUBFREE": 0, "FORCE": 1, "FREE": 0, "ALIGN 4": 0, "PRIORITY 3": 0}

def ram():
    """RAM sections 0..2 used by plain code, by a kept and by an unused section"""
    for ks in itertools.product(RAM, repeat=2):
        for use in itertools.product(("", "p", "k", "u", "pk", "kind"), repeat=2):
            for d in (1, 0):
                src = HEAD + ".BANK 0 SLOT 0\n.ORG 0\n.DB $5A, $A5\n"
                refs = lambda who: "".join(".DW v%d%s\n" % (i, "+1" if who == "k" and i else "") for i in (0, 1) if who in use[i] or (who == "k" and use[i] == "kind"))
                src += refs("p") + ".DW LK\n.DB $77\n"
                src += '.SECTION "k" FREE RETURNORG\nLK: .DB $A1, $5A\n' + refs("k") + '.DB $77\n.ENDS\n.SECTION "u" FREE RETURNORG\nLU: .DB $A2, $5A\n' + refs("u") + '.DB $77\n.ENDS\n'
                for i, k in enumerate(ks):
                    src += '.RAMSECTION "r%d" BANK 0 SLOT 1 %s%s RETURNORG\nv%d DW\nx%d DB\n.ENDS\n' % (i, "ORGA $%x " % (0x8100 + i * 16) if k in ("SEMIFREE", "SEMISUBFREE", "FORCE") else "", k, i, i)
                def judge(res, ks=ks, use=use, d=d):
                    if not res.ok: return "refused: %s" % res.outs[-1][-300:].decode("latin1")
                    rom = res.files["o.bin"]; sym = res.files["o.sym"].decode("latin1"); lab = {}
                    for l in sym.split("[labels]")[1].split("\n\n")[0].split("\n"):
                        p = l.split()
                        if len(p) == 2: lab[p[1]] = int(p[0].split(":")[1], 16)
                    for i in (0, 1):
                        keep = not d or RAM[ks[i]] or "p" in use[i] or "k" in use[i]
                        for n in ("v%d" % i, "x%d" % i):
                            if keep and n not in lab: return "RAM section %d is discarded (%s)" % (i, sorted(lab))
                            if not keep and n in lab: return "RAM section %d is kept although nothing refers to it" % i
                        if ('r%d' % i in [l.split()[-1] for l in sym.split("\n") if l and "[" not in l]) != bool(keep): return "RAM section %d is %s in the symbol file's sections" % (i, "missing" if keep else "listed")
                    if d and b"\xa2\x5a" in rom: return "the unused section is kept"
                    exp = b"\x5a\xa5" + b"".join(w16(lab["v%d" % i]) for i in (0, 1) if "p" in use[i]) + w16(lab["LK"]) + b"\x77"
                    if rom[:len(exp)] != exp: return "plain code holds %s instead of %s" % (rom[:len(exp)].hex(" "), exp.hex(" "))
                    exp = b"\xa1\x5a" + b"".join(w16(lab["v%d" % i] + i) for i in (0, 1) if "k" in use[i]) + b"\x77"
                    at = rom.find(b"\xa1\x5a")
                    if rom[at:at + len(exp)] != exp: return "the kept section holds %s instead of %s" % (rom[at:at + len(exp)].hex(" "), exp.hex(" "))
                yield Case("RAM sections %s, used by %s%s" % (ks, use, "" if d else ", without -d"), {"files": {"a.s": src, "l": "[objects]\na.o\n"}, "steps": [("z80", ["-o", "a.o", "a.s"]), ("wlalink", ["-r", "-S"] + ["-d"] * d + ["l", "o.bin"])], "reads": ["o.bin", "o.sym"]}, judge)
