"""X03: conditional assembly keeps exactly the branch whose condition holds."""
import itertools
from .. import run
from ..check import Case
from ..model import expr as M
from ..model.gen_expr import parens, render

ID = "X03"
LEVEL = "model_checking"
TOOLS = ["6502", "wlalink"]
RULE = ("every chain shape (0..2 .ELIF, with/without .ELSE), every truth assignment, every nesting position up to depth 3, in several contexts; every condition "
        "text over the operator set up to 3 operands; every directive sequence up to length 5 for balance; states = distinct chains / conditions / sequences")
BOUNDS = {"quick": "nesting depth 3 with the innermost chains reduced; conditions of 3 operands", "thorough": "full depth 3; conditions of 4 operands; sequences of length 6"}
HEAD = run.memmap(0x2000)
START = ".BANK 0\n.ORG 0\n"

# ---- chains: ("C", [conds], has_else, {branch: [nested chains]})
def shapes(maxelif=2):
    for e in range(maxelif + 1):
        for els in (False, True):
            for truth in itertools.product((0, 1), repeat=e + 1):
                yield (truth, els)

def nbranches(s):
    return len(s[0]) + (1 if s[1] else 0)

class R:
    """renders a chain and computes its bytes"""
    def __init__(self, condf=None, emit=None):
        self.n = 0; self.out = []; self.bytes = []; self.condf = condf or (lambda b, k: ".%s %d" % ("IF" if k == 0 else "ELIF", b)); self.steps = 0
        self.emit = emit or (lambda n: ".DB %d" % n)
    def byte(self, live):
        self.n = (self.n + 1) & 0xff
        self.out.append(self.emit(self.n))
        if live: self.bytes.append(self.n)
    def chain(self, node, live):
        (truth, els), nest = node
        taken = next((i for i, t in enumerate(truth) if t), len(truth) if els else -1)
        for i in range(nbranches(node[0])):
            self.steps += 1
            if i < len(truth): self.out.append(self.condf(truth[i], i))
            else: self.out.append(".ELSE")
            lv = live and i == taken
            kids = nest.get(i, ())
            if not kids or self.n % 2: self.byte(lv)
            for k in kids:
                self.chain(k, lv)
                self.byte(lv)
        self.out.append(".ENDIF")

def leafs(maxelif=2):
    for s in shapes(maxelif):
        yield (s, {})

def nestings(inner, outer_max=2):
    inner = list(inner)
    for s in shapes(outer_max):
        for b in range(nbranches(s)):
            for k in inner:
                yield (s, {b: (k,)})

def doubles(outer_max, inner_max):
    inner = list(leafs(inner_max))
    for s in shapes(outer_max):
        n = nbranches(s)
        for a in inner:
            for b in inner:
                for i, j in itertools.combinations(range(n), 2):
                    yield (s, {i: (a,), j: (b,)})
                yield (s, {0: (a, b)})

def deep(tier):
    if tier == "quick":
        mid = [(s, {b: (k,)}) for s in shapes(1) for b in range(nbranches(s)) for k in leafs(1)]
        return nestings(mid, 1)
    mid = [(s, {b: (k,)}) for s in shapes(2) for b in range(nbranches(s)) for k in leafs(1)]
    return nestings(mid, 2)

def good(res, want, what):
    if res.rcs != [0, 0]:
        return "%s: a valid program was rejected: rc=%s %r" % (what, res.rcs, res.outs[-1][:300])
    b = res.files["o.bin"]
    if b is None: return "no output"
    if b[:len(want)] != bytes(want):
        i = next(i for i in range(len(want)) if i >= len(b) or b[i] != want[i])
        return "%s: byte %d is $%02x, the model says $%02x (%s)" % (what, i, b[i], want[i], list(b[max(0, i - 6):i + 6]))
    return None

SEP = [0xEE, 0xED]
def chain_cases(name, gen, wrap=None, condf=None, per=40):
    """several chains per program, separated by marker bytes"""
    batch = []; k = 0
    def mk(batch, k):
        src = []; want = []; steps = 0; st = []
        for node in batch:
            r = R(condf); r.chain(node, True)
            src += r.out + [".DB $EE, $ED"]; want += r.bytes + SEP; steps += r.steps; st.append("%s %r" % (name, node))
        text, want = (wrap or (lambda s, w: (HEAD + START + s, w)))("\n".join(src) + "\n", want)
        return Case("%s#%d" % (name, k), run.one("6502", text), lambda res: good(res, want, name), steps=steps, states=st, n=len(batch))
    for node in gen:
        batch.append(node)
        if len(batch) == per:
            yield mk(batch, k); batch = []; k += 1
    if batch: yield mk(batch, k)

def w_macro(s, w): return (HEAD + ".MACRO M1\n" + s + ".ENDM\n" + START + "M1\n.DB 9\nM1\n", w + [9] + w)
def w_macroarg(s, w): return (HEAD + ".MACRO M1\n" + s.replace(".IF 0", ".IF \\1").replace(".IF 1", ".IF \\2").replace(".ELIF 0", ".ELIF \\1 == \\2").replace(".ELIF 1", ".ELIF \\1 < \\2") + ".ENDM\n" + START + "M1 0, 1\n.DB 9\nM1 0 5\n", w + [9] + w)
def w_rept(s, w): return (HEAD + START + ".REPT 2\n" + s + ".ENDR\n.DB 9\n", w + w + [9])
def w_while(s, w): return (HEAD + START + ".DEFINE wi 0\n.WHILE wi < 2\n" + s + ".REDEFINE wi wi+1\n.ENDR\n.DB 9\n", w + w + [9])
def w_section(s, w): return (HEAD + START + ".SECTION \"S\" FORCE\n" + s + ".ENDS\n", w)
def w_outer(s, w): return (HEAD + START + ".IF 0\n" + s + ".ELSE\n" + s + ".ENDIF\n.IFDEF nothing\n" + s + ".ENDIF\n.DB 9\n", w + [9])
def w_lower(s, w): return (HEAD + START + s.replace(".IF", ".if").replace(".ELIF", ".elif").replace(".ELSE", ".Else").replace(".ENDIF", ".endif"), w)

NOISE = [
    ("string", ".DB \".ENDIF\", \".ELSE\"\n.DB \".IF 1\""), ("dotif", ".IF \".a\" == \".b\"\n.DB 1\n.ENDIF"), ("dotifelse", ".IF \".a\" == \".a\"\n.DB 1\n.ELSE\n.DB 2\n.ENDIF"),
    ("ifexists", ".IFEXISTS \".x\"\n.DB 1\n.ENDIF"), ("ifdef", ".IFDEF NAME1\n.DB 1\n.ELSE\n.DB 2\n.ENDIF"), ("ifndef", ".IFNDEF NAME1\n.DB 1\n.ENDIF"),
    ("ifs", ".IFEQ 1 1\n.ENDIF\n.IFNEQ 1 1\n.ENDIF\n.IFGR 1 1\n.ENDIF\n.IFLE 1 1\n.ENDIF\n.IFGREQ 1 1\n.ENDIF\n.IFLEEQ 1 1\n.ENDIF"),
    ("ifdefm", ".IFDEFM \\1\n.DB 1\n.ELSE\n.DB 2\n.ENDIF\n.IFNDEFM \\2\n.ENDIF"), ("comment", "; .ENDIF\n/* .ELSE\n.ENDIF */\n.DB 1 ; .ELSE"),
    ("garbage", "this is not code\n.NOSUCHDIRECTIVE 1 2 3\n&&& )(\nlda ((((\n"), ("label", "LBL1:\nLBL1:\n.DEFINE NAME1 1\n.DEFINE NAME1 2"), ("undef", ".UNDEFINE MARK"),
    ("redef", ".REDEFINE MARK 99"), ("macro", ".MACRO MM\n.DB 1\n.ENDM\nMM"), ("rept", ".REPT 3\n.DB 1\n.IF 1\n.ENDIF\n.ENDR\n.BREAK"), ("include", ".INCLUDE \"nofile\"\n.INCBIN \"nofile\""),
    ("org", ".ORG $100\n.BANK 7\n.SECTION \"x\"\n.ENDS\n.STRUCT a\n.ENDST"), ("fail", ".FAIL \"no\"\n.ASSERT 0 == 1"), ("undefcond", ".IF undefinedname == 2\n.DB 1\n.ELIF undefinedname\n.ENDIF"), ("empty", ""),
    ("nested", ".IF 1\n.IF 1\n.DB 1\n.ELSE\n.ENDIF\n.ELIF 1\n.IF 0\n.ENDIF\n.ELSE\n.DB 2\n.ENDIF"), ("quotes", ".DB \"a\\\"b.ENDIF\"\n.DB 'x'\n.DB ';'"), ("stringdef", ".IFDEF DOTS\n.DB 1\n.ENDIF"), ("chars", ".DB ','\n.DB 1,,2"), ("braces", ".DB \"{nodef}\"\n.INCLUDE \"{nodef+}.s\"\n.DB {nodef}, {\"a\n.SECTION \"x{\" FREE"), ("args", ".DB \"\\9\", \\9\n.DB \"{\\9}\"\n\\8"),
]

def noise_cases():
    for name, text in NOISE:
        for (truth, els) in shapes(2):
            n = nbranches((truth, els))
            taken = next((i for i, t in enumerate(truth) if t), len(truth) if els else -1)
            out = []; want = []
            for i in range(n):
                out.append((".IF %d" if i == 0 else ".ELIF %d") % truth[i] if i < len(truth) else ".ELSE")
                if i == taken:
                    out.append(".DB %d" % (i + 1)); want.append(i + 1)
                else: out.append(text)
            out.append(".ENDIF")
            out.append(".IFDEF NAME1\n.DB 77\n.ELSE\n.DB 66\n.ENDIF\n.DB MARK\n.DEFINE NAME1 3\nLBL1: .DB <LBL1")
            body = ".DEFINE DOTS \".IF\"\n.DEFINE MARK 5\n" + "\n".join(out) + "\n"
            want = want + [66, 5, len(want) + 2]
            if name == "ifdefm" or "ifdefm" in name:
                src = HEAD + ".MACRO OM\n" + "\n".join(out) + "\n.ENDM\n.DEFINE MARK 5\n" + START + "OM 1\n"
                src = src.replace("LBL1: .DB <LBL1", ".DB %d" % want[-1])
            else: src = HEAD + START + body
            yield Case("noise/%s/%s%s" % (name, "".join(map(str, truth)), "e" if els else ""), run.one("6502", src), (lambda w: lambda res: good(res, w, "skipped code"))(want), steps=n)

# ---- condition texts
def cond_texts(tier):
    cmpo = ["==", "!=", "<", ">", "<=", ">="]; logic = ["&&", "||"]; ar = ["+", "-", "*", "&", "|", "<<"]
    ops = cmpo + logic + ar
    v2 = [("1", "2"), ("2", "2"), ("0", "0"), ("C5", "3"), ("CM2", "-2"), ("0", "C5"), ("'A'", "65"), ("$FFFF", "65535"), ("CM2", "1"), ("1.5", "1.5"), ("1.5", "1")]
    for shape in parens(2):
        for o in ops:
            for v in v2:
                for sp in (False, True): yield render(v, (o,), shape, sp)
    v3 = [("1", "2", "3"), ("3", "2", "1"), ("0", "C5", "1"), ("CM2", "0", "0"), ("2", "2", "1"), ("1", "0", "1")]
    for shape in parens(3):
        for o in itertools.product(ops, repeat=2):
            for v in v3: yield render(v, o, shape, True)
    v4 = [("1", "2", "0", "1"), ("C5", "3", "3", "0"), ("0", "0", "1", "2")]
    ops4 = ["==", "<", ">=", "&&", "||", "+"] if tier == "quick" else ["==", "!=", "<", ">=", "&&", "||", "+", "&"]
    for shape in parens(4) if tier != "quick" else [()] + [s for s in parens(4) if len(s) == 2]:
        for o in itertools.product(ops4, repeat=3):
            for v in v4: yield render(v, o, shape, True)
    for x in ("0", "1", "C5", "(1 == 2)", "(1 < 2)", "(0)", "(C5 - 5)", "(C5 && 0)"):
        yield "!" + x
        yield "-" + x if x[0] != "-" else x
        for o in cmpo + logic:
            yield "!%s %s 1" % (x, o); yield "1 %s !%s" % (o, x); yield "!%s %s !0" % (x, o); yield "(!%s) %s (1 == 1)" % (x, o); yield "!(%s %s 1)" % (x, o)
    strs = ['"abc"', '"abd"', '"ab"', '""', '"ABC"', "SD", '"a b"', '"xyz"']
    for a, b in itertools.product(strs, strs):
        for o in cmpo:
            yield "%s %s %s" % (a, o, b)
        for o in ("==", "!="):
            yield "%s %s %s && 1 == 1" % (a, o, b); yield "0 || %s %s %s" % (a, o, b); yield "1 == 2 || (%s %s %s)" % (a, o, b); yield "(%s %s %s) && 2" % (a, o, b); yield "1 < 2 && %s %s %s && C5" % (a, o, b)
    for n, d in (("C5", 1), ("SD", 1), ("NOPE", 0), ("LABEL1", 0), ("CMD", 1), ("CZ", 1)):
        for t, v in (("defined(%s)" % n, d), ("!defined(%s)" % n, 1 - d), ("defined(%s) && 1" % n, d), ("defined(%s) == 1" % n, d), ("defined(%s) || 0" % n, d), ("1 == 2 || defined(%s)" % n, d), ("defined(%s) && defined(C5)" % n, d), ("(defined(%s) + 1) == 2" % n, d)):
            yield (t, v)
    for f, d in (("x.txt", 1), ("nofile", 0), ("d/y.txt", 1), ("d", None)):
        if d is None: continue
        for t, v in (('exists("%s")' % f, d), ('!exists("%s")' % f, 1 - d), ('exists("%s") && 1' % f, d), ('0 == 0 && exists("%s")' % f, d), ('exists("%s") == exists("x.txt")' % f, d)):
            yield (t, v)

DEFS = ".DEFINE C5 5\n.DEFINE CM2 -2\n.DEFINE SD \"xyz\"\n.DEFINE CZ 0\n"
ENV = {"C5": 5, "CM2": -2, "SD": "xyz", "CZ": 0}
FILES = {"x.txt": "x", "d/y.txt": "y"}

def cond_cases(tier):
    def mk(k, batch):
        out = []; want = []
        for i, (t, v) in enumerate(batch):
            tv = 1 if v else 0
            m = i % 4
            if m == 0: out.append(".IF %s\n.DB 1\n.ELSE\n.DB 0\n.ENDIF" % t)
            elif m == 1: out.append(".IF 0\n.DB 9\n.ELIF %s\n.DB 1\n.ELSE\n.DB 0\n.ENDIF" % t)
            elif m == 2: out.append(".IF %s\n.DB 1\n.ENDIF\n.IF 1 == 2\n.DB 8\n.ENDIF" % t)
            else: out.append(".IF %s\n.DB 1\n.ELIF 1\n.DB 0\n.ELSE\n.DB 9\n.ENDIF" % t)
            if m == 2: want += ([1] if tv else [])
            else: want.append(tv)
            out.append(".DB $EE"); want.append(0xEE)
        src = HEAD + DEFS + START + "LABEL1:\n" + "\n".join(out) + "\n"
        def judge(res):
            m = good(res, want, "condition")
            if m and res.rcs == [0, 0]:
                b = res.files["o.bin"]; p = 0
                for i, (t, v) in enumerate(batch):
                    q = b.find(b"\xee", p)
                    got = list(b[p:q]); w = ([1] if v else ([] if i % 4 == 2 else [0]))
                    if got != w: return [("cond/" + t, "condition %s: the model says %s, assembled %s" % (t, bool(v), got))]
                    p = q + 1
            if m and res.rcs and res.rcs[0] != 0:
                import re
                q = re.search(rb"a\.s:(\d+)", res.outs[0])
                if q: return [("condline", m + " source: " + src.split("\n")[int(q.group(1)) - 1])]
            return m
        return Case("cond#%d" % k, run.one("6502", src, asm_args=["-D", "CMD=3"], files=FILES), judge, steps=len(batch), states=["cond " + t for t, _ in batch], n=len(batch))
    batch = []; k = 0; seen = set()
    for x in cond_texts(tier):
        if isinstance(x, tuple): t, v = x
        else:
            t = x
            try: v, _ = M.evaluate(t, ENV, notmask=None)
            except (M.Reject, M.Undef): continue
            if isinstance(v, str) or v != int(v): continue
        if t in seen or "--" in t: continue
        seen.add(t); batch.append((t, v))
        if len(batch) == 100:
            yield mk(k, batch); batch = []; k += 1
    if batch: yield mk(k, batch)
    for t in ('"a" == 1', 'NOPE == 1', 'LABEL1', 'NOPE', '1 == "1"', ''):
        yield Case("cond/reject/%s" % t, run.one("6502", HEAD + DEFS + START + ".DB 1\n.IF %s\n.DB 1\n.ENDIF\n" % t), lambda res: None if res.rcs[0] > 0 else "a condition without a value was accepted", steps=1)

# ---- two operand forms
def form_cases():
    vals = [("1", 1), ("2", 2), ("C5", 5), ("-2", -2), ("CM2", -2), ("1+1", 2), ("0", 0), ("(2*3)-1", 5), ("$7F", 127), ("65535", 65535)]
    strs = [('"abc"', "abc"), ('"abd"', "abd"), ('""', ""), ("SD", "xyz"), ('"xyz"', "xyz"), ('"AB"', "AB")]
    F = {"IFEQ": lambda a, b: a == b, "IFNEQ": lambda a, b: a != b, "IFGR": lambda a, b: a > b, "IFGREQ": lambda a, b: a >= b, "IFLE": lambda a, b: a < b, "IFLEEQ": lambda a, b: a <= b}
    def prog(items, key):
        out = []; want = []
        for i, (t, v) in enumerate(items):
            if i % 3 == 0: out.append("%s\n.DB 1\n.ELSE\n.DB 0\n.ENDIF" % t)
            elif i % 3 == 1: out.append("%s\n.DB 1\n.ELIF 1\n.DB 0\n.ELSE\n.DB 9\n.ENDIF" % t)
            else: out.append("%s\n.DB 1\n.ENDIF" % t)
            want += ([1] if v else ([] if i % 3 == 2 else [0])) + [0xEE]
            out.append(".DB $EE")
        def judge(res):
            m = good(res, want, key)
            if m and res.rcs == [0, 0]:
                b = res.files["o.bin"]; p = 0
                for i, (t, v) in enumerate(items):
                    q = b.find(b"\xee", p); got = list(b[p:q])
                    if got != ([1] if v else ([] if i % 3 == 2 else [0])): return [("form/" + t, "%s: the model says %s, assembled %s" % (t, bool(v), got))]
                    p = q + 1
            return m
        return Case(key, run.one("6502", HEAD + DEFS + START + "LABEL1:\n" + "\n".join(out) + "\n", asm_args=["-D", "CMD=3"], files=FILES), judge, steps=len(items), states=[key + t for t, _ in items], n=len(items))
    for f, fn in F.items():
        for case in (str.upper, str.lower):
            for sep in (" ", ", "):
                yield prog([(".%s %s%s%s" % (case(f), a, sep, b), fn(x, y)) for (a, x), (b, y) in itertools.product(vals, vals) if not (sep == " " and b[0] in "-(")], "form/%s/%r" % (case(f), sep))
                yield prog([(".%s %s%s%s" % (case(f), a, sep, b), fn(x, y)) for (a, x), (b, y) in itertools.product(strs, strs)], "form/%s/str/%r" % (case(f), sep))
    names = [("C5", 1), ("SD", 1), ("NOPE", 0), ("CMD", 1), ("CZ", 1), ("LABEL1", 0), ("C", 0), ("C55", 0), ("c5", 0)]
    for case in (str.upper, str.lower):
        yield prog([(".%s %s" % (case("IFDEF"), n), d) for n, d in names] + [(".%s %s" % (case("IFNDEF"), n), not d) for n, d in names], "form/ifdef/" + case("A"))
        yield prog([('.%s "%s"' % (case("IFEXISTS"), n), d) for n, d in (("x.txt", 1), ("nofile", 0), ("d/y.txt", 1), ("a.s", 1), ("d/x.txt", 0))] * 3, "form/ifexists/" + case("A"))
    # macro arguments
    for na in range(0, 12):
        items = []
        for k in range(1, 13):
            items.append((".IFDEFM \\%d" % k, na >= k)); items.append((".IFNDEFM \\%d" % k, na < k))
        out = []; want = []
        for i, (t, v) in enumerate(items):
            out.append("%s\n.DB %d\n.ELSE\n.DB %d\n.ENDIF" % (t, 2 * i + 1, 2 * i)); want.append(2 * i + 1 if v else 2 * i)
        src = HEAD + ".MACRO MM\n" + "\n".join(out) + "\n.ENDM\n" + START + "MM " + ", ".join(str(x + 1) for x in range(na)) + "\n.DB 99\n"
        yield Case("form/ifdefm/%d" % na, run.one("6502", src), (lambda w: lambda res: good(res, w, ".IFDEFM"))(want + [99]), steps=len(items), n=len(items))
    # history of definitions
    for hist in itertools.product(("def", "undef", "redef"), repeat=3):
        st = 0; out = []; want = []; ok = True
        for h in hist:
            if h == "def":
                if st: ok = False; break
                out.append(".DEFINE HH 1"); st = 1
            elif h == "undef":
                if not st: ok = False; break
                out.append(".UNDEFINE HH"); st = 0
            else: out.append(".REDEFINE HH 2"); st = 1
            out.append(".IFDEF HH\n.DB 1\n.ELSE\n.DB 0\n.ENDIF\n.IFNDEF HH\n.DB 1\n.ELSE\n.DB 0\n.ENDIF\n.IF defined(HH)\n.DB 1\n.ELSE\n.DB 0\n.ENDIF")
            want += [st, 1 - st, st]
        if ok: yield Case("form/history/" + "-".join(hist), run.one("6502", HEAD + START + "\n".join(out) + "\n"), (lambda w: lambda res: good(res, w, "history"))(want), steps=3)

# ---- inside multi-line directives
def inner_cases():
    for (truth, els) in shapes(2):
        n = nbranches((truth, els)); taken = next((i for i, t in enumerate(truth) if t), len(truth) if els else -1)
        def chain(f):
            return "\n".join(((".IF %d" if i == 0 else ".ELIF %d") % truth[i] if i < len(truth) else ".ELSE") + "\n" + f(i) for i in range(n)) + "\n.ENDIF\n"
        size = 0 if taken < 0 else taken + 2
        key = "".join(map(str, truth)) + ("e" if els else "")
        J = lambda w: lambda res: good(res, w, "inside a directive")
        yield Case("inner/struct/" + key, run.one("6502", HEAD + ".STRUCT SS\na DB\n" + chain(lambda i: "b%d DSB %d" % (i, i + 2)) + "z DW\n.ENDST\n" + START + ".DB _sizeof_SS, SS.z\n"), J([3 + size, 1 + size]))
        yield Case("inner/enum/" + key, run.one("6502", HEAD + ".ENUM $10\na DB\n" + chain(lambda i: "b%d DSB %d" % (i, i + 2)) + "z DB\n.ENDE\n" + START + ".DB a, z\n"), J([0x10, 0x11 + size]))
        yield Case("inner/ramsection/" + key, run.one("6502", run.memmap(0x2000).replace(".ENDME", "SLOTSIZE $100\nSLOT 1 $C0\n.ENDME") + ".RAMSECTION \"R\" SLOT 1 BANK 0\na DB\n" + chain(lambda i: "b%d DSB %d" % (i, i + 2)) + "z DB\n.ENDS\n" + START + ".DB a, z\n"), J([0xC0, 0xC1 + size]))
        yield Case("inner/rombankmap/" + key, run.one("6502", ".MEMORYMAP\nDEFAULTSLOT 0\nSLOTSIZE $100\nSLOT 0 0\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL 2\n" + chain(lambda i: "BANKSIZE $%x\nBANKS 2" % ((i + 1) * 16)) + ("" if taken >= 0 else "BANKSIZE $100\nBANKS 2\n") + ".ENDRO\n" + START + ".DB 5\n.BANK 1\n.ORG 0\n.DB 6\n"),
                   (lambda s: lambda res: None if res.rcs == [0, 0] and len(res.files["o.bin"]) == 2 * s and res.files["o.bin"][0] == 5 and res.files["o.bin"][s] == 6 else "wrong bank sizes: rc=%s %r len=%s" % (res.rcs, res.outs[-1][:200], len(res.files.get("o.bin") or b"")))(16 * (taken + 1) if taken >= 0 else 256))
        yield Case("inner/include/" + key, run.one("6502", HEAD + START + chain(lambda i: ".INCLUDE \"f%d.i\"" % i) + ".DB 9\n", files={"f%d.i" % i: ".IF 1\n.DB %d\n.ELSE\n.DB 7\n.ENDIF\n" % (i + 1) for i in range(n)}), J(([taken + 1] if taken >= 0 else []) + [9]))

# ---- balance
def balance_cases(tier):
    alpha = [("I1", ".IF 1"), ("I0", ".IF 0"), ("L0", ".ELIF 0"), ("L1", ".ELIF 1"), ("E", ".ELSE"), ("F", ".ENDIF"), ("D", None)]
    for n in range(1, 6 if tier == "quick" else 7):
        for seq in itertools.product(alpha, repeat=n):
            stack = []; ok = True; want = []; undefd = False; cnt = 0; lines = []
            live = lambda: all(s[0] for s in stack)
            for name, text in seq:
                if name == "D":
                    cnt += 1; lines.append(".DB %d" % cnt)
                    if live(): want.append(cnt)
                    continue
                lines.append(text)
                if name[0] == "I": stack.append([name == "I1", name == "I1", False])
                elif not stack: ok = False; break
                elif name[0] == "L":
                    if stack[-1][2]: undefd = True; break
                    c = name == "L1"
                    stack[-1][0] = c and not stack[-1][1]; stack[-1][1] = stack[-1][1] or c
                elif name == "E":
                    if stack[-1][2]: undefd = True; break
                    stack[-1][0] = not stack[-1][1]; stack[-1][1] = True; stack[-1][2] = True
                else: stack.pop()
            if undefd: continue
            if not ok and len(lines) < n: continue   # a shorter sequence already decides it
            if ok and stack: ok = False
            src = HEAD + START + "\n".join(lines) + ("\n" if ok else "\n") + (".DB $AA\n" if ok else "")
            key = "balance/" + " ".join(x for x, _ in seq)
            if ok: yield Case(key, run.one("6502", src), (lambda w: lambda res: good(res, w, "balanced"))(want + [0xAA]), steps=n)
            else: yield Case(key, run.asm_only("6502", src, reads=["a.o"]), lambda res: None if res.rcs[0] > 0 else "unbalanced conditional blocks were accepted", steps=n)

def cases(tier):
    yield from chain_cases("chains", leafs(2))
    yield from chain_cases("nested2", nestings(leafs(2), 2))
    yield from chain_cases("double", doubles(1, 1) if tier == "quick" else doubles(2, 2))
    yield from chain_cases("nested3", deep(tier))
    for nm, w in (("macro", w_macro), ("macroarg", w_macroarg), ("rept", w_rept), ("while", w_while), ("section", w_section), ("outer", w_outer), ("lower", w_lower)):
        yield from chain_cases(nm, itertools.chain(leafs(2), nestings(leafs(1), 1 if tier == "quick" else 2)), wrap=w, per=16)
    forms = [(".IFEQ 1 1", ".IFEQ 1 2"), (".IFDEF C5", ".IFDEF NOPE"), (".IFNDEF NOPE", ".IFNDEF C5"), (".IFGR 2 1", ".IFGR 1 1"), (".IFEXISTS \"a.s\"", ".IFEXISTS \"nofile\""), (".IFNEQ 1 2", ".IFNEQ 1 1"), (".IFLE 1 2", ".IFLE 2 2"), (".IFGREQ 2 2", ".IFGREQ 1 2"), (".IFLEEQ 2 2", ".IFLEEQ 3 2")]
    for t, f in forms:
        yield from chain_cases("forms" + t, itertools.chain(leafs(2), nestings(leafs(1), 1)), wrap=lambda s, w: (HEAD + DEFS + START + s, w), condf=(lambda t, f: lambda b, k: (t if b else f) if k == 0 else ".ELIF %d == 1" % b)(t, f), per=16)
    yield from noise_cases()
    yield from cond_cases(tier)
    yield from form_cases()
    yield from inner_cases()
    yield from balance_cases(tier)
