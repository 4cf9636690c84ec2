"""T03: every rewrite of comments, whitespace, line splitting and letter case at every position of feature-covering programs must leave the ROM and the labels as they are,
and errors placed behind any text, rewritten or not, must name the right line."""
import itertools, re
from ..check import Case
from .. import corpus, frags

ID = "T03"
LEVEL = "model_checking"
RULE = "distinct rewritten programs"
BOUNDS = {"quick": "22 corpus programs and 59 feature fragments: every rewrite of about 70 at every position of every line, every pair of whole-program rewrites; errors for the assembler and the linker behind every ordered pair of fragments and behind every rewrite; every sequence of up to 5 (behind code: 4) of 10 pieces of comments and space that can stand between two lines",
          "thorough": "as quick, with every pair of rewrites at neighbouring positions and on neighbouring lines, and errors behind all triples of 25 fragments"}
TOOLS = corpus.CPUS + ["wlalink"]
ASSUMPTIONS = ["whitespace around + and - outside parentheses is not varied where it may separate values", "a * comment starts at the beginning of a line"]

LEX = re.compile(r'''(?P<com>;.*|//.*|/\*.*?\*/)|(?P<str>"(?:\\.|[^"\\])*")|(?P<chr>'.')|(?P<ws>[ \t]+)|(?P<word>[.\\@#$%&A-Za-z_0-9!?]+:*)|(?P<op>.)''')
def lex(line): return [(m.lastgroup, m.group()) for m in LEX.finditer(line)]
def join(ps): return "".join(t for k, t in ps)

ENDS = [" ", "\t", " \t  ", "\r", " \r", ";", " ; c", "\t; c d ", ";c", " // c", "//c", " //", " /* c */", "/* c */", "/**/", " /***/", " /* a * b / c */", " ; \"x", " ; 'x", " // \"x\" 'y'", " /* \" */", " /* ' */", " ; /* c", " // /* c", " /* ; */", " /* // */",
        " /* c */ ; d", " /* c */ /* d */", " ; c // d", " // c ; d", " ; * c", " ; \\", " /*\n*/", " /* a\n b\n\n c */", " /*/ c */", " /* c **/", " /* :: @ - */", "; -", " ;;;; c", " /* .DB 1 */", " ; .ENDS"]
BEFORE = ["\n", " \n", "\t\n", "\r\n", "; c\n", "  ; c\n", "* c\n", "*\n", "// c\n", "\t// c\n", "/* c */\n", "  /* c */\n", "/* a\n b\n*/\n", "/* a\n ; b */\n", "; /* c\n", "* \"c\n", "* 'c\n", "// /* c\n", "/* \"\n*/\n", "/**/\n", "/***/\n", "; c */\n", "* c */\n", "* /* c\n", "/*\n*\n*/\n",
          "\n\n; c\n\n", ".ENDASM\nbla don't [, .DB 1\n.ASM\n", ".ENDASM\n.DB 1\n.ENDASM\n.IF\n.ASM\n.ENDM\n.ASM\n", "/* c */ /* d */\n", "/*/ c */\n", "/* a */ ; b\n", ".endasm\n.MACRO\n.asm\n"]
LEAD = [" ", "\t", "     ", " \t ", "/* c */ ", "/* a\n b */ "]
SPACE = ["  ", "\t", " \t ", " /* c */ "]
COMMA = [", ", " ,", " , ", ",\t", "  ,  ", ", /* c */ ", " /* c */, ", ",/* c */", ", \\\n  ", ",\\\n", ", \\ \n\t", ", \\ ; c\n "]
WHOLE = {      # name: what it does to a whole line's pieces -> text
    "crlf": lambda ps: join(ps) + "\r", "trail": lambda ps: join(ps) + " \t", "comment": lambda ps: join(ps) + " ; it's \"c", "slash": lambda ps: join(ps) + "//c", "block": lambda ps: join(ps) + " /* * */",
    "lead": lambda ps: lead(ps, "\t "), "wide": lambda ps: join([(k, " \t" if k == "ws" and i else t) for i, (k, t) in enumerate(ps)]), "blank": lambda ps: "\n" + join(ps), "star": lambda ps: "* it's \"c\n" + join(ps), "multi": lambda ps: "/* a\n b */\n" + join(ps),
    "upper": lambda ps: case(ps, str.upper), "lower": lambda ps: case(ps, str.lower), "mixed": lambda ps: case(ps, lambda s: "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s))), "commas": lambda ps: join([(k, (" ,\t" if splits(ps) else ",\t") if t == "," else t) for k, t in ps]),
    "split": lambda ps: split(ps), "parens": lambda ps: join([(k, "( " if t == "(" else " )" if t == ")" else t) for k, t in ps]),
}
def lead(ps, w): return w + join(ps) if ps and ps[0][0] != "ws" else join(ps)
def is_directive(ps, i): return ps[i][0] == "word" and ps[i][1][0] == "." and len(ps[i][1]) > 1 and ps[i][1][1].isalpha() and (i == 0 or (ps[i - 1][0] == "ws" and (i == 1 or ps[i - 2][1][-1] == ":" or i == 2)))
def case(ps, f): return join([(k, f(t) if is_directive(ps, i) else t) for i, (k, t) in enumerate(ps)])
LISTS = (".db", ".dw", ".dl", ".dd", ".byt", ".byte", ".word", ".long", ".row", ".data")
def splits(ps):      # may commas of this line be followed by a line break
    return any(k == "word" and t.lower() in LISTS for k, t in ps) and not any(k == "com" for k, t in ps)
def split(ps): return join([(k, ", \\\n" if t == "," else t) for k, t in ps]) if splits(ps) else join(ps)

def in_block(lines):
    """line numbers within multi-line comments of the original"""
    r = set(); on = False
    for i, l in enumerate(lines):
        if on: r.add(i)
        for m in re.finditer(r"/\*|\*/|;.*|//.*", l):
            if m.group() == "/*" and not on: on = True; r.add(i)
            elif m.group() == "*/" and on: on = False
    return r

def rewrites(line, ctx):
    """all (name, text) of one line"""
    ps = lex(line)
    if not ps: yield from (("before %r" % b, b + line) for b in BEFORE if not ctx or "ASM" not in b.upper()); return
    star = line.startswith("*")
    if not star:
        for e in ENDS:
            if not any(k == "com" for k, t in ps) or not e.lstrip().startswith("/"): yield "end %r" % e, line + e
        if not line.startswith((" ", "\t")) and ps[0][0] != "com":
            for l in LEAD: yield "lead %r" % l, l + line
    for b in BEFORE:
        if not ctx or "ASM" not in b.upper(): yield "before %r" % b, b + line
    if star: return
    lab = ps[0][0] == "word" and ps[0][1].endswith(":")
    for i, (k, t) in enumerate(ps):
        if k == "com": break
        pre = join(ps[:i]); post = join(ps[i + 1:])
        if k == "ws" and i and i + 1 < len(ps):
            for s in SPACE: yield "space %d %r" % (i, s), pre + s + post
            if i == 1 and lab: yield "newline after the label", pre + "\n" + post
        if t == ",":
            for c in COMMA:
                if (c[0] == "," and "\\" not in c) or (splits(ps) and i + 1 < len(ps)): yield "comma %d %r" % (i, c), pre + c + post.lstrip()
        if t == "(": yield "paren %d" % i, pre + "( " + post
        if t == ")" : yield "paren %d" % i, pre + " )" + post
        if is_directive(ps, i):
            for n, f in (("upper", str.upper), ("lower", str.lower), ("mixed", lambda s: "".join(c.upper() if j % 2 else c.lower() for j, c in enumerate(s)))): yield "case %d %s" % (i, n), pre + f(t) + post
    if lab and len(ps) == 1: yield "space before the colon's end", line + " "

# ---- programs: (name, cpu, unit, kind, lines, files, link, flags)
def programs():
    for n in frags.F:
        yield n, "z80", "a", "o", frags.source([n]).split("\n"), frags.FILES, "[objects]\n%s.o\n", ["-r"], len(frags.HEAD.split("\n")) - 1, []
    for n, p in corpus.P.items():
        for u, k, s in p["units"]:
            others = [(x, kk) for x, kk, ss in p["units"] if x != u]
            link = p["link"] or "[objects]\n" + "".join(x + ".o\n" for x, kk, ss in p["units"])
            fs = corpus.files(p)
            yield "%s %s" % (n, u), p["cpu"], u, k, s.rstrip("\n").split("\n"), fs, re.sub(r"(?m)(^|\s)%s\.o$" % u, r"\g<1>%s.o", link), p["lflags"], 0, others

def world(pr, variants):
    """base program and every variant, each linked; reads vK.bin and vK.sym"""
    name, cpu, u, k, lines, files, link, flags, first, others = pr
    fs = {n: d for n, d in files.items() if n != u + ".s" and n != "l"}; steps = [(cpu, ["-" + kk, x + ".o", x + ".s"]) for x, kk in others]; reads = []
    for i, text in enumerate(["\n".join(lines)] + variants):
        fs["v%d.s" % i] = (text + "\n").encode("latin1"); fs["l%d" % i] = link % ("v%d" % i)
        steps += [(cpu, ["-" + k, "v%d.o" % i, "v%d.s" % i]), ("wlalink", ["-S"] + flags + ["l%d" % i, "v%d.bin" % i])]; reads += ["v%d.bin" % i, "v%d.sym" % i]
    return {"files": fs, "steps": steps, "reads": reads, "keep_going": True}

def syms(b):
    t = re.sub(r"\bv\d+\.s(?=_|\b)", "v.s", b.decode("latin1"))
    return re.findall(r"\[(?:labels|definitions|breakpoints|symbols)\]\n(?:[^\[\n].*\n)*", t)

def differ(res, names, others):
    out = []; n0 = others
    if res.files["v0.bin"] is None: return "the program itself is refused: %s" % res.outs[n0][-200:].decode("latin1")
    for i, n in enumerate(names, 1):
        a, b = res.files["v0.bin"], res.files["v%d.bin" % i]
        o = res.outs[n0 + 2 * i] + res.outs[n0 + 2 * i + 1]
        if b is None: out.append((n, "refused: %s" % o[-200:].decode("latin1", "replace")))
        elif a != b: out.append((n, "another ROM: %s" % next(("%x: %02x instead of %02x" % (j, y, x) for j, (x, y) in enumerate(zip(a, b)) if x != y), "%d bytes instead of %d" % (len(b), len(a)))))
        elif syms(res.files["v0.sym"]) != syms(res.files["v%d.sym" % i]): out.append((n, "other labels"))
        elif min(res.rcs[n0 + 2 * i:n0 + 2 * i + 2]) < 0: out.append((n, "crash"))
    return out or None

def chunks(l, n):
    for i in range(0, len(l), n): yield l[i:i + n]

def lazy_world(key, pr, made, n):
    cell = []
    def prog():
        v = made(); cell[:] = [[x for x, t in v]]
        return world(pr, [t for x, t in v])
    return Case(key, prog, lambda res: differ(res, cell[0], len(pr[9])), steps=2 * n, n=n)

BLOCK = re.compile(r"(?i)^\s*\.(macro|if\w*|rept|repeat|while|ramsection|enum|struct|union|nextu|rombankmap|memorymap|snesheader|s[md]+sheader|smdheader|gbheader|snesnativevector|snesemuvector|asciitable|dstruct\b(?!.*data))\b")
def nested(lines):
    """line numbers inside of blocks"""
    r = set(); d = 0
    for i, l in enumerate(lines):
        if re.match(r"(?i)^\s*\.(end(?!s\b|asm|b)\w+|enda)\b", l): d -= d > 0; r.add(i)
        elif d: r.add(i)
        if BLOCK.match(l): d += 1
    return r

def with_line(lines, i, text): return "\n".join(lines[:i] + [text] + lines[i + 1:])

def cases(tier):
    deep = tier != "quick"
    allp = list(programs())
    for pr in allp:
        name, lines, first = pr[0], pr[4], pr[8]
        block = in_block(lines); deepl = nested(lines)
        todo = [i for i in range(first, len(lines)) if i not in block]
        for i in todo:
            rs = list(rewrites(lines[i], i in deepl))
            for c in chunks(rs, 40):
                yield lazy_world("%s, line %d, %s..." % (name, i + 1, c[0][0]), pr, lambda c=c, i=i, lines=lines, name=name: [("%s | %s, line %d" % (n, name, i + 1), with_line(lines, i, t)) for n, t in c], len(c))
            if deep and pr[0] in frags.F:
                for j in todo[todo.index(i) + 1:][:1]:
                    r2 = list(rewrites(lines[j], j in deepl))
                    for n1, t1 in rs:
                        yield lazy_world("%s, line %d, %s, and line %d" % (name, i + 1, n1, j + 1), pr, lambda t1=t1, i=i, j=j, r2=r2, lines=lines, name=name, n1=n1: [("%s and %s | %s, line %d" % (n1, n, name, i + 1), with_line(with_line(lines, i, t1).split("\n"), j + t1.count("\n"), t)) for n, t in r2], len(r2))
        # whole programs
        def whole(a, b, lines=lines, block=block, todo=todo):
            out = list(lines)
            for w in (a, b):
                if w is None: continue
                for i in todo:
                    if out[i].startswith("*") or not out[i]: continue
                    if "\n" in out[i] or w in ("blank", "star", "multi") or not any(k == "com" for k, t in lex(out[i])) or w not in ("comment", "slash", "block"):
                        parts = out[i].split("\n"); parts[-1] = WHOLE[w](lex(parts[-1])); out[i] = "\n".join(parts)
            return "\n".join(out)
        pairs = [(a, b) for a in WHOLE for b in [None] + list(WHOLE) if a != b and not (a in ("comment", "slash", "crlf") and b in ("trail", "slash", "block", "comment", "crlf", "split", "commas", "wide")) and not (b in ("upper", "lower", "mixed") and a in ("upper", "lower", "mixed")) and not (a == "split" and b)]
        for c in chunks(pairs, 40):
            yield lazy_world("%s, every line, %s..." % (name, c[0]), pr, lambda c=c, whole=whole, name=name: [("every line %s %s | %s" % (*x, name), whole(*x)) for x in c], len(c))
    yield from errors(deep)
    yield from gaps(deep)

ERRS = {"xyzzy 1": "z80", ".FAIL \"here\"": "z80", ".DB nosuchlabel": "link", "ld hl, nosuchlabel + 1": "link"}
def err_case(key, texts, err):
    """texts: [(name, text)]; each is followed by the error"""
    files = dict(frags.FILES); steps = []
    for i, (n, t) in enumerate(texts):
        files["v%d.s" % i] = t + err + "\n.DB 1\n.DB 2\n"; files["l%d" % i] = "[objects]\nv%d.o\n" % i
        steps += [("z80", ["-o", "v%d.o" % i, "v%d.s" % i]), ("wlalink", ["-r", "l%d" % i, "o.bin"])]
    def judge(res):
        out = []
        for i, (n, t) in enumerate(texts):
            n += " | %s" % key
            line = t.count("\n") + 1; o = res.outs[2 * i] + (res.outs[2 * i + 1] if ERRS[err] == "link" else b""); o = o.decode("latin1")
            if res.rcs[2 * i + (ERRS[err] == "link")] == 0: out.append((n, "the error isn't found")); continue
            if ERRS[err] == "link" and res.rcs[2 * i]: out.append((n, "refused: " + o[-200:])); continue
            got = [int(x) for x in re.findall(r"(?m)^(?:v%d\.o: )?v%d\.s:(\d+): [A-Z_]*(?!WARN)[A-Z_]+:" % (i, i), o)]
            if not got: out.append((n, "no line is named: " + o[-200:]))
            elif any(g != line for g in got): out.append((n, "line %d is named instead of %d" % (next(g for g in got if g != line), line)))
        return out or None
    return Case(key, {"files": files, "steps": steps, "keep_going": True}, judge, steps=2 * len(texts), n=len(texts))

# ---- everything that can stand between two lines
GAP = ["\n", " ", "a", "*", "/", "/*", "*/", ";", "//", "\""]
def is_gap(t, column):
    """whether the text is only white space and comments, none of them left open (a newline follows)"""
    i = 0; n = len(t); line0 = column == 0
    while i < n:
        c = t[i]
        if c == "\n": i += 1; line0 = True; continue
        if c == " ": i += 1; line0 = False; continue
        if t.startswith("/*", i):
            e = t.find("*/", i + 2)
            if e < 0: return False
            i = e + 2; line0 = False; continue
        if c == ";" or t.startswith("//", i) or (c == "*" and line0):
            e = t.find("\n", i); i = n if e < 0 else e; continue
        return False
    return True

MAP = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOTSIZE $100\nSLOT 0 0\n.ENDME\n.ROMBANKSIZE $100\n.ROMBANKS 1\n.BANK 0\n.ORG 0\n"
def gap_case(key, first, ts):
    files = {}; steps = []; reads = []
    for i, t in enumerate(ts):
        files["g%d.s" % i] = MAP + first + t + "\n.DB 6\n"; files["e%d.s" % i] = MAP + first + t + "\n.DB 6,300\n"; files["f%d.s" % i] = MAP + first + t + "\n.DB nosuch\n"
        for c in "gf":
            files["l%s%d" % (c, i)] = "[objects]\n%s%d.o\n" % (c, i)
        steps += [("z80", ["-o", "g%d.o" % i, "g%d.s" % i]), ("wlalink", ["-r", "lg%d" % i, "g%d.bin" % i]), ("z80", ["-o", "e.o", "e%d.s" % i]), ("z80", ["-o", "f%d.o" % i, "f%d.s" % i]), ("wlalink", ["-r", "lf%d" % i, "f.bin"])]
        reads.append("g%d.bin" % i)
    want = b"\5\6" if first else b"\6\0"
    def judge(res):
        out = []
        for i, t in enumerate(ts):
            n = "gap %r%s" % (t, " behind code" if first else ""); rc = res.rcs[5 * i:5 * i + 5]; line = (MAP + first + t).count("\n") + 2
            b = res.files["g%d.bin" % i]
            if rc[0] or rc[1] or b is None: out.append((n, "refused: " + (res.outs[5 * i] + res.outs[5 * i + 1])[-160:].decode("latin1"))); continue
            if b[:2] != want: out.append((n, "the ROM starts with %s" % b[:2].hex())); continue
            for k, x in ((2, "e"), (4, "f")):
                o = res.outs[5 * i + k].decode("latin1"); got = {int(q) for q in re.findall(r"\b%s%d\.s:(\d+):" % (x, i), o)}
                if rc[k] == 0: out.append((n, "the error behind it isn't found"))
                elif got != {line}: out.append((n, "an error in line %d is reported in %r" % (line, sorted(got))))
        return out or None
    return Case(key, {"files": files, "steps": steps, "reads": reads, "keep_going": True}, judge, steps=5 * len(ts), n=len(ts))

def gaps(deep):
    for first in ("", ".DB 5"):
        seen = {""}; line = []
        for n in range(1, 6 if deep or not first else 5):
            for x in itertools.product(GAP, repeat=n):
                t = "".join(x)
                if t in seen: continue
                seen.add(t)
                if is_gap(t, len(first)): line.append(t)
        for c in chunks(line, 60): yield gap_case("gaps %r %r" % (first, c[0]), first, c)

def errors(deep):
    N = list(frags.F)
    for e in ERRS:
        for a in N:
            for c in chunks([(b, frags.source([a, b])) for b in N], 30):
                yield err_case("error %s behind %s, %s..." % (e, a, c[0][0]), c, e)
        for a in N:
            lines = frags.source([a]).rstrip("\n").split("\n"); block = in_block(lines); deepl = nested(lines); vs = []
            for i in range(len(frags.HEAD.split("\n")) - 1, len(lines)):
                if i not in block:
                    vs += [("line %d %s" % (i + 1, n), with_line(lines, i, t) + "\n") for n, t in rewrites(lines[i], i in deepl) if "\n" in t]
            for c in chunks(vs, 30): yield err_case("error %s behind rewritten %s, %s..." % (e, a, c[0][0]), c, e)
    if deep:
        for t in itertools.product(N[::2], repeat=2):
            for c in chunks([("%s %s %s" % (t + (x,)), frags.source(list(t) + [x])) for x in N[::2]], 25): yield err_case("error behind %s, %s, ..." % t, c, "xyzzy 1")
