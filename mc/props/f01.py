"""F01: programs of macros, repeats, whiles and conditionals against an interpreter that expands them."""
import itertools
from .. import run
from ..check import Case
from .. import cells

ID = "F01"
LEVEL = "model_checking"
CPU = "z80"
TOOLS = ["wlalink", CPU]
RULE = "distinct program (nesting or sequence of constructs, or argument kind x access form) whose output was compared with the expansion"
BOUNDS = {"quick": "all nestings of up to 3 of 33 constructs and all (outer; first, second) arrangements of them, all argument kinds x access forms x positions, the malformed programs of a list",
          "thorough": "as quick with also all nestings of 4 constructs"}
ASSUMPTIONS = ["inner repeat index names and named arguments differ from those around them; .ENDR, .BREAK and .CONTINUE stand in the same macro as their .REPEAT"]

class Stop(Exception): pass
class Brk(Exception): pass
class Cont(Exception): pass

class Prog:
    """builds source text and the expected bytes of nested constructs"""
    def __init__(self):
        self.macros = []; self.defs = []; self.n = 0
    def fresh(self):
        self.n += 1; return self.n

# A construct: make(P, level, ctx, inner) -> (lines, run(env, out)), where inner(ctx) -> (lines, run).
# env: dict(args=list or None, names={}, calls={}, at=int) ; out: bytearray; addresses are offsets in out + ORG
ORG = 0x100
def val(x): return x & 0xff

def ev(env, e):
    """e: int | ('arg', n) | ('nargs',) | ('at',) | ('name', s)"""
    if isinstance(e, int): return e
    k = e[0]
    if k == "arg": return env["args"][e[1] - 1]
    if k == "nargs": return len(env["args"])
    if k == "at": return env["at"]
    return env["names"][e[1]]
def txt(e):
    if isinstance(e, int): return str(e)
    k = e[0]
    return {"arg": "\\%d" % e[1] if k == "arg" else "", "nargs": "NARGS", "at": "\\@", "name": e[1] if k == "name" else ""}[k]

def emit(ctx, mark):
    """a line that shows everything visible"""
    atoms = [mark] + list(ctx["atoms"])
    line = ".DB " + ", ".join(txt(a) for a in atoms)
    def go(env, out):
        for a in atoms: out.append(val(ev(env, a)))
    return [line], go

def seq(*parts):
    lines = [l for p in parts for l in p[0]]
    fs = [p[1] for p in parts]
    def go(env, out):
        if len(out) > 3000: raise Stop()
        for f in fs: f(env, out)
    return lines, go

def rept(P, lv, ctx, inner, count, idx=None, brk=None, cont=None, brk_at_end=False, kw=".REPEAT", nest=False):
    name = "Ix%d" % P.fresh() if idx else None
    c2 = dict(ctx, atoms=ctx["atoms"] + ([("name", name)] if name else []))
    a = emit(c2, 0xA0 + lv); h = inner(c2); z = emit(c2, 0xB0 + lv)
    ctl = []
    word = ".BREAK" if brk is not None else ".CONTINUE"
    at = brk if brk is not None else cont
    if at is not None:
        ctl = [".IF %s == %d" % (name, at)] + ([".IF 1", ".IFDEF Abc", ".ELSE", word, ".ENDIF", ".ENDIF"] if nest else [word]) + [".ENDIF"]
    lines = ["%s %s%s" % (kw, txt(count), " INDEX " + name if name else "")] + a[0] + ([] if brk_at_end else ctl) + h[0] + z[0] + (ctl if brk_at_end else []) + [".ENDR"]
    def go(env, out):
        n = ev(env, count)
        for i in range(n):
            if name: env["names"][name] = i
            a[1](env, out)
            if at is not None and not brk_at_end and i == at:
                if brk is not None: break
                continue
            h[1](env, out); z[1](env, out)
            if at is not None and brk_at_end and i == at and brk is not None: break
        if name: env["names"].pop(name, None)
    return lines, go

def wh(P, lv, ctx, inner, start, brk=None, cont=None):
    name = "Wc%d" % P.fresh()
    c2 = dict(ctx, atoms=ctx["atoms"] + [("name", name)])
    a = emit(c2, 0xC0 + lv); h = inner(c2); z = emit(c2, 0xD0 + lv)
    P.defs.append(".DEFINE %s 0" % name)
    ctl = []
    if cont is not None: ctl = [".IF %s == %d" % (name, cont), ".CONTINUE", ".ENDIF"]
    if brk is not None: ctl = [".IF %s == %d" % (name, brk), ".BREAK", ".ENDIF"]
    lines = [".REDEFINE %s %d" % (name, start), ".WHILE %s > 0" % name] + a[0] + [".REDEFINE %s = %s - 1" % (name, name)] + ctl + h[0] + z[0] + [".ENDR"]
    def go(env, out):
        env["names"][name] = start
        while env["names"][name] > 0:
            a[1](env, out); env["names"][name] -= 1
            if cont is not None and env["names"][name] == cont: continue
            if brk is not None and env["names"][name] == brk: break
            h[1](env, out); z[1](env, out)
    return lines, go

def iff(P, lv, ctx, inner, cond, pred, where):
    a = emit(ctx, 0xE0 + lv); h = inner(ctx); z = emit(ctx, 0xE8 + lv)
    x = seq(a, h) if where == 0 else a; y = z if where == 0 else seq(h, z)
    lines = [".IF " + cond] + x[0] + [".ELSE"] + y[0] + [".ENDIF"]
    def go(env, out): (x if pred(env) else y)[1](env, out)
    return lines, go

def call(P, lv, ctx, inner, args, names=(), paren=False, shift=0, rec=None, lab=False, iso="", style=0):
    """args: [(text, fn(env)->value)]"""
    k = P.fresh(); m = "Mac%d" % k
    nms = ["N%d%s" % (k, x) for x in names]
    atoms = [("nargs",), ("at",)] + [("arg", i + 1) for i in range(len(args))] + [("name", x) for x in nms]
    c2 = dict(ctx, atoms=[a for a in ctx["atoms"] if a[0] == "name"] + atoms, margs=len(args))
    L = "Lm%d" % k
    pre = emit(c2, 0x10 + lv)
    n2 = len(args) - shift
    c3 = dict(c2, atoms=[a for a in ctx["atoms"] if a[0] == "name"] + [("nargs",), ("at",)] + [("arg", i + 1) for i in range(n2)] + [("name", x) for x in nms[:n2]], margs=n2)
    h = inner(c3); post = emit(c3, 0x20 + lv)
    body = list(pre[0])
    if lab: body = [L + "\\@:"] + body
    body += [".SHIFT"] * shift
    if rec: body += [".IF \\1 > 0", " %s \\1-1" % m, ".ENDIF"]
    body += h[0] + post[0]
    if lab: body += [".DW " + L + "\\@"]
    if lab == 2: body += [".DB \"\\@\", \"x\""]
    head = ".MACRO %s%s%s" % (m, ("(%s)" % ",".join(nms) if style else " ARGS " + ", ".join(nms)) if nms else "", " " + iso if iso else "")
    P.macros.append([head] + body + [".ENDM"])
    at = ", ".join(t for t, _ in args)
    lines = [" %s%s" % (m, "(%s)" % at if paren else " " + at if at else "")]
    def enter(env, out, vals):
        n = env["calls"].get(m, 0); env["calls"][m] = n + 1
        e2 = dict(env, args=list(vals), at=n, names=env["names"])
        for x in nms: env["names"].pop(x, None)
        for x, v in zip(nms, vals): env["names"][x] = v
        here = ORG + len(out)
        pre[1](e2, out)
        for _ in range(shift): e2["args"].pop(0)
        for x in nms: env["names"].pop(x, None)
        for x, v in zip(nms, e2["args"]): env["names"][x] = v
        if rec and e2["args"][0] > 0: enter(e2, out, [e2["args"][0] - 1])
        h[1](e2, out); post[1](e2, out)
        if lab: out += bytes((here & 0xff, here >> 8))
        if lab == 2: out += b"%dx" % n
        if len(out) > 3000: raise Stop()
        for x in nms: env["names"].pop(x, None)
    def go(env, out): enter(env, out, [f(env) for _, f in args])
    return lines, go

lit = lambda n: (str(n), lambda e: n)
def W():
    D = {}
    D["R0"] = lambda P, l, c, i: rept(P, l, c, i, 0)
    D["R1"] = lambda P, l, c, i: rept(P, l, c, i, 1, kw=".REPT")
    D["R2"] = lambda P, l, c, i: rept(P, l, c, i, 2)
    D["R0i"] = lambda P, l, c, i: rept(P, l, c, i, 0, idx=1, kw=".rept")
    D["R2i"] = lambda P, l, c, i: rept(P, l, c, i, 2, idx=1)
    D["Rb0"] = lambda P, l, c, i: rept(P, l, c, i, 3, idx=1, brk=0)
    D["Rb1"] = lambda P, l, c, i: rept(P, l, c, i, 3, idx=1, brk=1, nest=True)
    D["Rbe"] = lambda P, l, c, i: rept(P, l, c, i, 3, idx=1, brk=1, brk_at_end=True)
    D["Rc0"] = lambda P, l, c, i: rept(P, l, c, i, 2, idx=1, cont=0)
    D["Rc1"] = lambda P, l, c, i: rept(P, l, c, i, 2, idx=1, cont=1)
    D["Rcn"] = lambda P, l, c, i: rept(P, l, c, i, 3, idx=1, cont=1, nest=True)
    D["Ra"] = lambda P, l, c, i: rept(P, l, c, i, ("arg", 1), idx=1) if c.get("margs") else None
    D["Rn"] = lambda P, l, c, i: rept(P, l, c, i, next(a for a in reversed(c["atoms"]) if a[0] == "name")) if any(a[0] == "name" for a in c["atoms"]) else None
    D["W0"] = lambda P, l, c, i: wh(P, l, c, i, 0)
    D["W2"] = lambda P, l, c, i: wh(P, l, c, i, 2)
    D["Wb"] = lambda P, l, c, i: wh(P, l, c, i, 3, brk=1)
    D["Wc"] = lambda P, l, c, i: wh(P, l, c, i, 3, cont=1)
    D["Wc0"] = lambda P, l, c, i: wh(P, l, c, i, 2, cont=0)
    D["I1"] = lambda P, l, c, i: iff(P, l, c, i, "1", lambda e: True, 0)
    D["I0"] = lambda P, l, c, i: iff(P, l, c, i, "0", lambda e: False, 0)
    D["E0"] = lambda P, l, c, i: iff(P, l, c, i, "0", lambda e: False, 1)
    D["In"] = lambda P, l, c, i: iff(P, l, c, i, "NARGS == 1", lambda e: len(e["args"]) == 1, 0) if "margs" in c else None
    D["Ix"] = lambda P, l, c, i: (lambda a: iff(P, l, c, i, "%s == 1" % txt(a), lambda e: ev(e, a) == 1, 1))(c["atoms"][-1]) if c["atoms"] and c["atoms"][-1][0] != "nargs" else None
    D["M0"] = lambda P, l, c, i: call(P, l, c, i, [], lab=2)
    D["M1"] = lambda P, l, c, i: call(P, l, c, i, [lit(2)], lab=1)
    D["M3"] = lambda P, l, c, i: call(P, l, c, i, [lit(1), ("2+3", lambda e: 5), ("(4)", lambda e: 4)])
    D["Mp"] = lambda P, l, c, i: call(P, l, c, i, [lit(3), lit(1)], paren=True, names="ab", style=1)
    D["Mn"] = lambda P, l, c, i: call(P, l, c, i, [lit(1), lit(2)], names="ab", lab=1)
    D["Mx"] = lambda P, l, c, i: (lambda A: call(P, l, c, i, [(txt(a), lambda e, a=a: ev(e, a)) for a in A] + [("1+" + txt(A[-1]), lambda e: 1 + ev(e, A[-1]))], names="ab"))([a for a in c["atoms"] if a != ("at",)][-2:]) if [a for a in c["atoms"] if a != ("at",)] else None
    D["Ms"] = lambda P, l, c, i: call(P, l, c, i, [lit(7), lit(1), lit(2)], shift=1)
    D["Mt"] = lambda P, l, c, i: call(P, l, c, i, [lit(7), lit(8), lit(2)], shift=2, names="abc", lab=1)
    D["Mr"] = lambda P, l, c, i: call(P, l, c, i, [lit(2)], rec=True, lab=1)
    D["Mi"] = lambda P, l, c, i: call(P, l, c, i, [lit(1)], iso="ISOLATED", names="a", lab=1)
    return D
WR = W()

def build(tree):
    """tree: (name, tree|None) or (name, [t1, t2]) -> (source, expected) or None when a construct does not apply"""
    P = Prog(); bad = []
    def inner(t, lv):
        if t is None: return lambda ctx: emit(ctx, 0xF0)
        if isinstance(t, list):
            return lambda ctx: seq(*[make(x, lv, ctx) for x in t])
        return lambda ctx: make(t, lv, ctx)
    def make(t, lv, ctx):
        r = WR[t[0]](P, lv, ctx, inner(t[1], lv + 1))
        if r is None: bad.append(1); return [], lambda e, o: None
        return r
    lines, go = seq(emit({"atoms": []}, 1), make(tree, 0, {"atoms": []}), emit({"atoms": []}, 2))
    if bad: return None
    out = bytearray(); env = {"args": None, "names": {}, "calls": {}, "at": None}
    try: go(env, out)
    except (Stop, RecursionError): return None
    src = run.memmap(0x2000) + "\n".join(P.defs) + "\n" + "\n".join("\n".join(m) for m in P.macros) + "\n.BANK 0\n.ORG $%x\n" % ORG + "\n".join(lines) + "\n"
    return src, bytes(out)

def tname(t):
    if t is None: return "."
    if isinstance(t, list): return "[" + ",".join(map(tname, t)) + "]"
    return t[0] + ("" if t[1] is None else "(" + tname(t[1]) + ")")

def tree_case(t):
    b = build(t)
    if b is None: return None
    src, exp = b
    def judge(res):
        if not res.ok: return "%s: refused: %s\nexpansion: %s" % (tname(t), res.outs[-1].decode("latin1")[:300], exp.hex(" "))
        got = res.files["o.bin"][ORG:ORG + len(exp) + 8]
        if got == exp + bytes(8): return None
        return "%s: got %s, the expansion is %s" % (tname(t), got.hex(" "), exp.hex(" "))
    return Case("tree:" + tname(t), lambda: run.one(CPU, src), judge, steps=tname(t).count("(") + 1)

def trees(tier):
    N = list(WR)
    for n in range(1, 4 if tier != "thorough" else 5):
        for c in itertools.product(N, repeat=n):
            t = None
            for x in reversed(c): t = (x, t)
            yield t
    for a, b, c in itertools.product(N, repeat=3): yield (a, [(b, None), (c, None)])

# ---------------------------------------------------------------- arguments
ADDR = 0x1234
KINDS = {   # name: (text, 16-bit value or None, bytes as data, type number)
 "num": ("77", 77, None, 1), "neg": ("-3", -3, None, 1), "hex": ("$1f", 0x1f, None, 1), "chr": ("'c'", 99, None, 1), "calc": ("3*4+1", 13, None, 1), "spc": ("3 + 4", 7, None, 1), "par": ("(3+4)*2", 14, None, 1),
 "bin": ("%101", 5, None, 1), "def": ("Dnum", 1000, None, 1), "defc": ("Dnum+1", 1001, None, 1), "str": ("\"Hey\"", None, b"Hey", 2), "strc": ("\"a, b\"", None, b"a, b", 2), "dstr": ("Dstr", None, b"Word", 2),
 "lab": ("Llate", ADDR, None, 3), "labc": ("Llate+2", ADDR + 2, None, 4), "early": ("Learly", 0x40, None, 3), "ha": ("#0", 0, None, 0), "fn": ("max(3, 9)", 9, None, 1)}
ACC = {  # access: (text(n, name), fn(value) -> value, works for strings)
 "pos": (lambda n, m: "\\%d" % n, lambda v: v), "name": (lambda n, m: m, lambda v: v), "pos+1": (lambda n, m: "\\%d+1" % n, lambda v: v + 1), "1+pos": (lambda n, m: "1+\\%d" % n, lambda v: v + 1),
 "(pos)": (lambda n, m: "(\\%d)" % n, lambda v: v), "pos*2": (lambda n, m: "\\%d*2" % n, lambda v: 2 * v), "name+1": (lambda n, m: m + "+1", lambda v: v + 1), "name*2": (lambda n, m: m + "*2", lambda v: v * 2), "pos+pos": (lambda n, m: "\\%d+\\%d" % (n, n), lambda v: 2 * v),
 "lo": (lambda n, m: "<\\%d" % n, lambda v: v & 0xff), "hi": (lambda n, m: ">\\%d" % n, lambda v: v >> 8 & 0xff), "neg": (lambda n, m: "-\\%d" % n, lambda v: -v), "neg name": (lambda n, m: "-" + m, lambda v: -v), "minus": (lambda n, m: "3-\\%d" % n, lambda v: 3 - v)}
PRE = ".DEFINE Dnum 1000\n.DEFINE Dstr \"Word\"\n"
def args_items(tier):
    """[(macro text, call text, bytes)]"""
    k = 0
    for an, (at, av, ab, ty) in KINDS.items():
        for pos in (1, 2, 3):
            for others in ((("5", "6"),) if tier != "thorough" else (("5", "6"), ("Llate", "\"s\""))):
                argl = list(others); argl.insert(pos - 1, at)
                for sh in range(pos):
                    for par in (0, 1):
                        for acc, (f, g) in ACC.items():
                            if av is None and acc not in ("pos", "name"): continue
                            if par and acc not in ("pos", "name"): continue
                            k += 1; m = "Am%d" % k; nm = ["P%d%s" % (k, x) for x in "abc"]
                            use = f(pos - sh, nm[pos - 1 - sh])
                            mac = ".MACRO %s ARGS %s\n%s %s %s\n.ENDM\n" % (m, ", ".join(nm), ".SHIFT\n" * sh, ".DB" if av is None else ".DW", use)
                            exp = ab if av is None else (g(av) & 0xffff).to_bytes(2, "little")
                            yield mac, "%s(%s)" % (m, ", ".join(argl)) if par else "%s %s" % (m, ", ".join(argl)), exp
        for pos in (1, 2):
            k += 1; m = "At%d" % k
            argl = ["9", at] if pos == 2 else [at, "9"]
            if ty is not None:
                mac = ".MACRO %s\n.IF \\?%d == ARG_IMMEDIATE\n.DB 0\n.ELIF \\?%d == ARG_NUMBER\n.DB 1\n.ELIF \\?%d == ARG_STRING\n.DB 2\n.ELIF \\?%d == ARG_LABEL\n.DB 3\n.ELIF \\?%d == ARG_PENDING_CALCULATION\n.DB 4\n.ENDIF\n.ENDM\n" % (m, pos, pos, pos, pos, pos)
                yield mac, "%s %s" % (m, ", ".join(argl)), bytes((ty,))
        # passed on to another macro
        for f in ("\\1", "Pw%d" % k):
            k += 1; m = "Ap%d" % k
            if f != "\\1": f = "Pw%d" % k
            mac = ".MACRO %si\n%s \\2\n.ENDM\n.MACRO %s ARGS Pw%d\n %si 1, %s\n.DB NARGS\n.ENDM\n" % (m, ".DB" if av is None else ".DW", m, k, m, f)
            yield mac, "%s %s" % (m, at), (ab if av is None else (av & 0xffff).to_bytes(2, "little")) + b"\1"
    # names in strings and labels
    more = [(".MACRO Sa\n.DB \"\\@\"\n.DB \"\\1<\"\n.ENDM\n", "Sa 5", b"05<"), (".MACRO Sb ARGS Sq\n.DB {\"v{Sq}{Sq+1}\"}\n.ENDM\n", "Sb 5", b"v56"), (".MACRO Sc\n.DB \"\\.\"\n.ENDM\n", "Sc", b"Sc"),
            (".MACRO Sd\nLd{\\1}:\n.DB 1\n.DW Ld{\\1}-Ld{\\1}, 7\n.ENDM\n", "Sd 5", b"\1\0\0\7\0"), (".MACRO Se ARGS A1e\nLe{A1e}:\n.DB Le3-Le{A1e}\n.ENDM\n", "Se 3", b"\0"),
            (".MACRO Sf\n ld a, \\1\n ld \\2, \\1\n.ENDM\n", "Sf 3, \"b\"", b"\x3e\3\6\3"), (".MACRO Sg\n ld \\1, 5\n ld \\2, \\3\n.ENDM\n", "Sg \"c\", \"hl\", $1234", b"\x0e\5\x21\x34\x12"),
            (".MACRO Sh\n.REDEFINE \\1 = ?1 + 1\n.ENDM\n.DEFINE Dsh 4\n", "Sh &Dsh\n Sh &Dsh\n.DB Dsh", b"\6"), (".MACRO Si ARGS x1, x2, x3\n.IFDEF x3\n.DB 3\n.ELSE\n.DB NARGS\n.ENDIF\n.ENDM\n", "Si 1, 2\n Si 1\n Si 1,2,3\n Si", b"\2\1\3\0"),
            (".MACRO Sj\n.DB 1\n.ENDM\n", "Sj\n.IFDEF NARGS\n.DB 9\n.ENDIF", b"\1"), (".MACRO Sk ARGS kk\n.DB kk\n.ENDM\n", "Sk 1\n.IFDEF kk\n.DB 9\n.ENDIF", b"\1"), (".MACRO Sl ARGS ll\n.DB ll\n.ENDM\n.DEFINE ll 66\n", "Sl 1\n.DB ll", b"\1\x42"),
            (".MACRO Sm ARGS mm\n.IF mm > 0\n Sm mm-1\n.ENDIF\n.DB mm\n.ENDM\n", "Sm 2", b"\0\1\2"), (".MACRO Sn ARGS nn, np\n.SHIFT\n.DB nn, NARGS\n.IFDEF np\n.DB 8\n.ENDIF\n.ENDM\n", "Sn 2, 3", b"\3\1"),
            (".MACRO So\n.REPT NARGS\n.DB \\1\n.SHIFT\n.ENDR\n.ENDM\n", "So 4, 5, 6\n So\n So 7", b"\4\5\6\7"), (".MACRO Sp\n.WHILE NARGS > 0\n.DB \\1\n.SHIFT\n.ENDR\n.DB NARGS\n.ENDM\n", "Sp 4, 5, 6\n Sp\n Sp 7", b"\4\5\6\0\0\7\0"),
            (".MACRO Sq1 ARGS qa\n.REPT 2 INDEX qi\n.DB qa, qi\n.ENDR\n.ENDM\n", "Sq1 4\n Sq1 5", b"\4\0\4\1\5\0\5\1"), (".MACRO Sr\n.DB \\1\n.ENDM\n", ".REPT 3 INDEX ri\n Sr ri*ri\n.ENDR", b"\0\1\4"),
            ("", ".REPEAT 3 INDEX Cx\nSb_{Cx}:\n.DB Sb_{Cx}-Sb_0\n.ENDR\n.DB Sb_2-Sb_1", b"\0\1\2\1"), ("", ".REPEAT 3 INDEX Cx\nSc_{%.3x{Cx+10}}:\n.DB 1\n.ENDR\n.DB Sc_00c-Sc_00a", b"\1\1\1\2"),
            ("", ".REPT 2 INDEX Ia\n.REPT 2 INDEX Ib\n.DB Ia*16+Ib\n.ENDR\n.ENDR", b"\0\1\x10\x11"), ("", ".REPT 3 INDEX Ia\n.REPT Ia INDEX Ib\n.DB Ia*16+Ib\n.ENDR\n.ENDR", b"\x10\x20\x21"),
            (".MACRO Ss\n.MACRO Ssin\n.DB 7\n.ENDM\n.ENDM\n", "", b"")][:-1]
    yield from more

def args_cases(tier):
    items = list(args_items(tier)); size = 0x8000
    for i in range(0, len(items), 300):
        part = items[i:i + 300]
        mac = "".join(m for m, _, _ in part)
        yield from cells.batch(CPU, "args", [(c, e) for _, c, e in part], cell=16, count=300, pre=PRE + mac + ".ORG $40\nLearly:\n", post=".BANK 1\n.ORG $%x\nLlate:\n" % ADDR, size=size) if False else batch2(part, i)

def batch2(part, i):
    def prog():
        src = [run.memmap(0x8000, banks=2), ".EMPTYFILL $ED\n", PRE] + [m for m, _, _ in part] + [".BANK 1\n.ORG $40\nLearly:\n.BANK 0\n"]
        for j, (_, c, _) in enumerate(part): src.append(".ORG $%x\n%s\n" % (j * 16, c if c.startswith(".") or "\n" in c and c[0] == "." else " " + c))
        src.append(".BANK 1\n.ORG $%x\nLlate:\n" % ADDR)
        return run.one(CPU, "".join(src))
    def judge(res):
        if not res.ok: return "refused: %s" % res.outs[-1].decode("latin1")[:400]
        rom = res.files["o.bin"]; bad = []
        for j, (m, c, e) in enumerate(part):
            got = rom[j * 16:j * 16 + 16]
            if got != e + b"\xed" * (16 - len(e)):
                bad.append(("args:" + c, "%r with %r gives %s, expected %s" % (c, m, got.rstrip(b"\xed").hex(" "), e.hex(" "))))
        return bad[:4] or None
    yield Case("args:%d" % i, prog, judge, steps=len(part), states=["args:%s:%s" % (m, c) for m, c, _ in part], n=len(part))

def refusals():
    M1 = ".MACRO Ma\n.DB \\1\n.ENDM\n"
    L = [(M1, "Ma"), (".MACRO Ma\n.DB \\2\n.ENDM\n", "Ma 1"), (".MACRO Ma ARGS a1\n.DB a1\n.ENDM\n", "Ma"), (M1, "Ma 1\n.DB NARGS"), (".MACRO Ma ARGS a1\n.DB a1\n.ENDM\n", "Ma 1\n.DB a1"), ("", ".SHIFT"), ("", ".ENDM"), ("", ".ENDR"), ("", ".BREAK"), ("", ".CONTINUE"),
         ("", ".REPT -1\n.DB 1\n.ENDR"), ("", ".REPT 0\n.DB 1"), ("", ".WHILE 1 == 0\n.DB 1"), ("", ".REPT Lx\n.DB 1\n.ENDR\nLx:"), ("", ".REPT\n.DB 1\n.ENDR"), ("", ".WHILE\n.DB 1\n.ENDR"), ("", ".MACRO Mu\n.DB 1"), (".MACRO Ma\n.ENDM\n.MACRO Ma\n.ENDM\n", "Ma"),
         ("", "Nomac 1"), (".MACRO Ma\n.SHIFT\n.SHIFT\n.ENDM\n", "Ma 1"), (".MACRO Ma\n.SHIFT\n.ENDM\n", "Ma"), (".MACRO Ma\n.DB 1\n.SHIFT\n.DB \\1\n.ENDM\n", "Ma 1"), ("", ".MACRO\n.ENDM"), ("", ".REPT 2 INDEX\n.DB 1\n.ENDR"), (".MACRO Ma\n.DB \\0\n.ENDM\n", "Ma 1"), ("", ".REPT 2 INDEX Ii\n.DB 1\n.ENDR\n.DB Ii"),
         ("", ".DB \\1"), ("", ".REPT 2 INDEX Ii\n.ENDR\n.DB Ii"), ("", ".REPT 0 INDEX Ii\n.ENDR\n.DB Ii")]
    for pre, t in L: yield cells.refuse(CPU, "bad", t if t.startswith(".") else t, pre=pre)

def ns_cases():
    """macros of included files: the arguments live in the file's namespace"""
    for inc, call in (('.INCLUDE "n.s"', "mm"), ('.INCLUDE "n.s" NAMESPACE "ns"', "ns.mm"), ('.INCLUDE "n.s" NAMESPACE "ns" ISOLATED', "ns.mm"), ('.INCLUDE "n.s" ISOLATED', None)):
        if call is None: continue
        for body, exp in ((".DB aa, bb\n.SHIFT\n.DB aa, NARGS", b"\1\2\2\1"), (".DB bb\n.SHIFT\n.SHIFT\n.IFDEF aa\n.DB 9\n.ENDIF", b"\2"), (".REPT 2 INDEX ii\n.DB ii, aa\n.SHIFT\n.ENDR", b"\0\1\1\2"), (".DB \\@, \\1, bb", b"\0\1\2")):
            for twice in (0, 1):
                src = run.memmap(0x200) + inc + "\n.BANK 0\n.ORG 0\n" + (" %s 1, 2\n" % call) * (1 + twice)
                e = exp + (exp if body[4] != "\\" else b"\1" + exp[1:]) * twice
                def judge(res, e=e, inc=inc, body=body):
                    if not res.ok: return "%s, %r refused: %s" % (inc, body, res.outs[-1].decode("latin1")[:300])
                    if res.files["o.bin"][:16] != e + bytes(16 - len(e)): return "%s, %r: got %s, expected %s" % (inc, body, res.files["o.bin"][:16].hex(" "), e.hex(" "))
                yield Case("ns:%s:%s:%d" % (inc, body, twice), lambda src=src, body=body: run.one(CPU, src, files={"n.s": ".MACRO mm ARGS aa, bb\n" + body + "\n.ENDM\n"}), judge)

def cases(tier):
    yield from ns_cases()
    yield from args_cases(tier)
    yield from refusals()
    for t in trees(tier):
        c = tree_case(t)
        if c is not None: yield c
