"""L05: label scopes.  Every program of a few label definitions in every arrangement of sections, namespaces, macros and files;
at each place every visible label is referred to and must give that label's address, and every invisible one must be refused."""
import itertools
from .. import run
from ..check import Case

ID = "L05"
LEVEL = "model_checking"
TOOLS = ["wlalink", "z80"]
RULE = "distinct arrangement of label definitions (with the references that resolve at each place) or reference that must be refused"
BOUNDS = {"quick": "4 definitions of named labels (global, local, child, grandchild) or of unnamed ones, 3 of both, in all arrangements of plain code, sections, namespaces, macros of every isolation mode (nested, called once or twice) and included files; two objects with up to 2 definitions in each of 2 scopes",
          "thorough": "as quick with 5 definitions outside structures, 4 mixed ones, and every refused reference (quick: those of up to 3 definitions)"}
CPU = "z80"
NAMED = ["A", "E", "_x", "@c", "@@d"]
UNNAMED = ["-", "--", "+", "++", "__"]
REFS_N = ["A", "E", "_x", "@c", "@@d", "A@c", "E@c", "_x@c", "A@c@d", "E@c@d"]
REFS_U = ["-", "--", "+", "++", "_b", "_f"]
LONG = ["---", "+++", "------", "++++++"]
HEAD = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $0 $8000\n.ENDME\n.ROMBANKSIZE $8000\n.ROMBANKS 1\n.BANK 0 SLOT 0\n"
FORMS = [("  .DW %s\n", 2, 0), ("  .DW %s+1\n", 2, 1), ("  .DB <%s, >%s\n", 2, 0), ("  .DW 2+%s\n", 2, 2), ("  .DB 0\n  jp %s\n", 2, 0), (".DW %s-3\n", 2, -3)]
MODES = {"M": "ISOLATED", "m": "", "L": "ISOLATELOCAL", "U": "ISOLATEUNNAMED"}

class Ctx:
    def __init__(self, iso, n): self.iso = iso; self.n = n; self.parents = [None] * 4

class Orphan(Exception): pass

class Name(str):
    """a full label name and the include namespace it was defined in"""
    inc = None

class Walk:
    """expands the tree; nodes: ('d', name), ('s', ns or None, body), ('m', mode, times, body), ('i', namespace, body)
    events: [kind, ...]; every place for references is a path in the tree"""
    def __init__(self, tree, nfile=0):
        self.ev = []; self.ctx = [Ctx("", None)]; self.runs = 0; self.secs = 0; self.sec = None; self.nfile = nfile; self.inc = None; self.mac = 0
        self.places = {}                       # path -> [event index]
        self.go(tree, ())
    def place(self, path):
        self.places.setdefault(path, []).append(len(self.ev))
        self.ev.append(("r", path, self.sec, self.scope()))
    def scope(self):
        c = self.ctx[-1]
        return (c, tuple(c.parents), self.sec, self.inc)
    def go(self, body, path):
        self.place(path + (0,))
        for i, n in enumerate(body):
            p = path + (i,)
            if n[0] == "d": self.define(n[1])
            elif n[0] == "s":
                self.secs += 1; old = self.sec; self.sec = ("s%d" % self.secs, n[1]); self.ev.append(("open", self.sec)); self.go(n[2], p); self.ev.append(("close", self.sec)); self.sec = old
            elif n[0] == "m":
                for _ in range(n[2]):
                    if MODES[n[1]]: self.runs += 1; self.ctx.append(Ctx(n[1], self.runs))
                    self.go(n[3], p)
                    if MODES[n[1]]: self.ctx.pop()
            elif n[0] == "i":
                old = self.inc; self.inc = n[1]; self.go(n[2], p); self.inc = old
            self.place(path + (i + 1,))
    def anon(self): return self.ctx[-1].n if self.ctx[-1].iso in ("M", "U") else None
    def loc(self, c): return c.n if c.iso in ("M", "L") else None
    @staticmethod
    def full(name, parents, inc):
        """(what a child of a label on the other side of an .INCLUDE with a NAMESPACE is called isn't documented: not judged)"""
        n = 0
        while name[n] == "@": n += 1
        if n: 
            if parents[n - 1] is None or parents[n - 1].inc != inc: raise Orphan()
            name = parents[n - 1] + name[n - 1:]
        r = Name(name); r.inc = inc
        return r
    def define(self, name):
        c = self.ctx[-1]
        if name in UNNAMED or name in LONG:
            self.ev.append(("u", name, self.sec, self.anon())); return
        n = len(name) - len(name.lstrip("@"))
        f = self.full(name, c.parents, self.inc)
        c.parents[n] = f
        for k in range(n + 1, 4): c.parents[k] = None
        self.ev.append(("l", self.key(f, c, self.sec, self.inc), name))
    def key(self, f, c, sec, inc):
        """the identity of a label"""
        if f[0] == "_": return ("loc", self.nfile, sec[0] if sec else None, f, self.loc(c))
        if sec and sec[1]: return ("ns", sec[1], f)
        return ("glob", (inc + "." if inc else "") + f)

class Prog:
    """all the files of one program"""
    def __init__(self, trees):
        self.trees = trees
        self.walks = [Walk(t, i) for i, t in enumerate(trees)]
        self.labels = {}; self.dup = False; self.order = []
        for i, w in enumerate(self.walks):
            for j, e in enumerate(w.ev):
                if e[0] == "l":
                    if e[1] in self.labels: self.dup = True
                    self.labels.setdefault(e[1], (i, j))
    def target(self, i, j, ref):
        """(file, event) of the label that `ref` at event j of file i selects, or None"""
        w = self.walks[i]; e = w.ev[j]; c, parents, sec, inc = e[3]
        if ref in REFS_U or ref in LONG:
            name = {"_b": "__", "_f": "__"}.get(ref, ref)
            anon = c.n if c.iso in ("M", "U") else None
            c2 = [k for k, x in enumerate(w.ev) if x[0] == "u" and x[1] == name and x[2] == sec and x[3] == anon]
            if ref[0] == "-" or ref == "_b": c2 = [k for k in c2 if k < j]; return (i, c2[-1]) if c2 else None
            c2 = [k for k in c2 if k > j]; return (i, c2[0]) if c2 else None
        ns = None; f = ref
        if "." in ref: ns, f = ref.split(".")
        if f[0] == "@":
            try: f = Walk.full(f, parents, inc)
            except Orphan: return "orphan"
        ks = []
        if f[0] == "_":
            ks = [("loc", i, sec[0] if sec else None, f, w.loc(c)), ("loc", i, None, f, w.loc(c))]
            if ns: return "orphan"
        elif ns: ks = [("ns", ns, f), ("glob", ns + "." + f)]
        else:
            if sec and sec[1]: ks.append(("ns", sec[1], f))
            if inc:
                if not (sec and sec[1]): ks.append(("glob", inc + "." + f))
                else: return "orphan"
                if ("glob", f) in self.labels and ("glob", inc + "." + f) not in self.labels: return "orphan"
            ks.append(("glob", f))
        for k in ks:
            if k in self.labels: return self.labels[k]
        return None
    def forward(self, i, j, ref):
        """a reference to a later label that hides one before it"""
        w = self.walks[i]
        if ref in REFS_U or ref in LONG or ref[0] == "_": return False
        t = self.target(i, j, ref)
        if t is None or t == "orphan": return False
        k = self.walks[t[0]].ev[t[1]][1]
        if k[0] == "loc": return False
        if t[0] == i and t < (i, j): return False
        if t[0] != i: return k[0] == "ns" and ("glob", k[2]) in self.labels
        k = self.labels.get(("glob", k[2] if k[0] == "ns" else k[1].split(".")[-1]))
        return k is not None and k[0] == i and k < (i, j)
    def refs(self, refs):
        """-> {(file, path): [ref]} that resolve in every expansion, {(file, path): [ref]} that don't in all of them"""
        good, bad = {}, {}
        for i, w in enumerate(self.walks):
            for path, evs in w.places.items():
                for r in refs:
                    t = [self.target(i, j, r) for j in evs]
                    if "orphan" in t: continue
                    (bad if None in t else good).setdefault((i, path), []).append(r)
        return good, bad
    def emit(self, use, turn=0):
        """use: {(file, path): [ref]} -> files, expected image pieces"""
        files = []; self.use = use
        self.form = {}
        n = turn
        for k, rs in sorted(use.items()):
            for q, r in enumerate(rs):
                # only the linker knows such labels
                if turn >= 0 and any(self.forward(k[0], j, r) for j in self.walks[k[0]].places[k[1]]): self.form[(k, q)] = FORMS[0]; continue
                self.form[(k, q)] = FORMS[n % len(FORMS)] if r not in REFS_U and r not in LONG else [FORMS[0], FORMS[4]][n % 2]
                n += 1
        incs = {}; self.tags = {}
        for i, t in enumerate(self.trees):
            self.macs = []; self.tags[i] = []; body = self.text(t, i, (), incs)
            files.append(HEAD + "".join(self.macs) + ".ORG $%x\n" % (i * 0x400) + body)
        return files, incs
    def rtext(self, i, path):
        out = []
        for q, r in enumerate(self.use.get((i, path), [])):
            f = self.form[((i, path), q)][0]
            out.append(f.replace("%s", r))
        return "".join(out)
    def text(self, body, i, path, incs):
        o = [self.rtext(i, path + (0,))]
        for k, n in enumerate(body):
            p = path + (k,)
            if n[0] == "d": o.append("%s%s\n  .DB $F%d\n" % (n[1], ":" if n[1] not in UNNAMED and n[1] not in LONG else "", k))
            elif n[0] == "s":
                self.tags[i].append("%d.%s" % (i, "_".join(map(str, p))))
                o.append(".SECTION \"@S%d.%s\"%s FORCE RETURNORG\n%s.ENDS\n.ORG @E%d.%s\n" % (i, "_".join(map(str, p)), " NAMESPACE \"%s\"" % n[1] if n[1] else "", self.text(n[2], i, p, incs), i, "_".join(map(str, p))))
            elif n[0] == "m":
                nm = "mac%d_%s" % (i, "_".join(map(str, p)))
                t = self.text(n[3], i, p, incs)
                self.macs.append(".MACRO %s %s\n%s.ENDM\n" % (nm, MODES[n[1]], t))
                o.append((" %s\n" % nm) * n[2])
            elif n[0] == "i":
                nm = "inc%d_%s.i" % (i, "_".join(map(str, p)))
                incs[nm] = self.text(n[2], i, p, incs)
                o.append(".INCLUDE \"%s\" NAMESPACE \"%s\"\n" % (nm, n[1]))
            o.append(self.rtext(i, path + (k + 1,)))
        return "".join(o)
    def layout(self):
        """addresses of labels and of every reference: sections are FORCEd where they stand"""
        self.addr = {}; self.cells = []
        for i, w in enumerate(self.walks):
            pc = i * 0x400
            for j, e in enumerate(w.ev):
                if e[0] in ("l", "u"): self.addr[(i, j)] = pc; pc += 1
                elif e[0] == "r":
                    for q, r in enumerate(self.use.get((i, e[1]), [])):
                        f = self.form[((i, e[1]), q)]
                        k = pc
                        if "jp" in f[0]: k += 2; pc += 4
                        else: pc += 2
                        self.cells.append((k, (i, j), r, f[2]))
            self.end = pc
    def fix_orgs(self, files, incs):
        """fills in section names and the .ORG after each section"""
        for i, w in enumerate(self.walks):
            pc = i * 0x400; opens = []
            k = 0
            for j, e in enumerate(w.ev):
                if e[0] in ("l", "u"): pc += 1
                elif e[0] == "r":
                    for q, r in enumerate(self.use.get((i, e[1]), [])): pc += 4 if "jp" in self.form[((i, e[1]), q)][0] else 2
                elif e[0] == "close":
                    opens.append((e[1][0], pc))
            # sections close in the order of their places in the tree; they are numbered in the order they open, which is the same here
            names = self.tags[i]
            for (nm, at), tag in zip(opens, names):
                sub = lambda t: t.replace("@S%s\"" % tag, "%d%s\"" % (i, nm), 1).replace("@E%s\n" % tag, "$%x\n" % at, 1)
                files[i] = sub(files[i])
                for k in incs: incs[k] = sub(incs[k])
        return files, incs

def build(trees, use, turn=0):
    p = Prog(trees)
    files, incs = p.emit(use, turn)
    files, incs = p.fix_orgs(files, incs)
    p.layout()
    return p, files, incs

def world(files, incs):
    if len(files) == 1: return run.one(CPU, files[0], files=incs)
    return run.multi([(CPU, "f%d" % i, f, "o") for i, f in enumerate(files)], files=incs)

def show(t):
    r = []
    for n in t:
        if n[0] == "d": r.append(n[1])
        elif n[0] == "s": r.append("[%s %s]" % (n[1] or "", show(n[2])))
        elif n[0] == "m": r.append("%s%d(%s)" % (n[1], n[2], show(n[3])))
        else: r.append("{%s %s}" % (n[1], show(n[2])))
    return " ".join(r)

def key(trees): return " | ".join(show(t) for t in trees)

def batch(tag, progs, refs, refuse, extra=()):
    """progs: iterable of lists of trees"""
    for trees in progs:
        try: p = Prog(trees)
        except Orphan: continue
        k = "%s:%s" % (tag, key(trees))
        if p.dup:
            q, files, incs = build(trees, {})
            def judge(res, k=k):
                if res.rcs[-1] > 0: return None
                return "a label is defined twice in one scope, but exit codes are %r" % res.rcs
            yield Case("dup:" + k, world(files, incs), judge)
            continue
        good, bad = p.refs(list(refs) + list(extra))
        n = sum(len(v) * len(p.walks[f].places[pt]) for (f, pt), v in good.items())
        # every written form of a reference comes to every place
        for turn in range(len(FORMS)) if n <= 12 else (0, 1, 2) if n <= 40 else (0, 3):
            def prog(trees=trees, good=good, turn=turn):
                q, files, incs = build(trees, good, turn)
                return world(files, incs)
            def judge(res, trees=trees, good=good, turn=turn):
                if not res.ok: return "valid references were refused: " + res.outs[-1].decode("latin1")[:300]
                q, files, incs = build(trees, good, turn)
                rom = res.files["o.bin"]
                for at, (i, j), r, d in q.cells:
                    t = q.target(i, j, r); exp = (q.addr[t] + d) & 0xffff
                    got = int.from_bytes(rom[at:at + 2], "little")
                    if got != exp: return "%r at address $%x of file %d is $%x, expected $%x (labels: %s)" % (r, at, i, got, exp, {q.walks[a].ev[b][1]: hex(v) for (a, b), v in q.addr.items()})
            yield Case("%s/%d" % (k, turn), prog, judge, steps=n)
        if not refuse: continue
        # what exists, but not here
        exist = {x[1] for w in p.walks for x in w.ev if x[0] == "u"} | {x[2] for w in p.walks for x in w.ev if x[0] == "l"}
        if "__" in exist: exist |= {"_b", "_f"}
        count = sum(x[0] in "ul" for w in p.walks for x in w.ev)
        for (i, path), rs in bad.items():
            for r in rs:
                if refuse == 1 and count > 1 and r not in exist and r.split(".")[-1] not in exist: continue
                def prog(trees=trees, i=i, path=path, r=r):
                    q, files, incs = build(trees, {(i, path): [r]})
                    return world(files, incs)
                def judge(res, r=r):
                    if res.rcs[-1] > 0: return None
                    return "%r has no visible definition, but exit codes are %r" % (r, res.rcs)
                yield Case("nodef:%s:%s:%d%s" % (k, r, i, path), prog, judge)

def D(*a): return [("d", x) for x in a]

def templates():
    """functions from 4 definitions to a tree"""
    d = lambda x: ("d", x)
    S = lambda *b: ("s", None, list(b)); N = lambda *b: ("s", "n", list(b)); K = lambda *b: ("s", "k", list(b))
    M = lambda mode, times, *b: ("m", mode, times, list(b)); I = lambda *b: ("i", "n", list(b))
    t = {}
    t["sec1"] = lambda a, b, c, e: [d(a), S(d(b), d(c)), d(e)]
    t["sec2"] = lambda a, b, c, e: [S(d(a), d(b)), S(d(c), d(e))]
    t["sec3"] = lambda a, b, c, e: [S(d(a)), d(b), S(d(c)), d(e)]
    t["ns1"] = lambda a, b, c, e: [d(a), N(d(b), d(c)), d(e)]
    t["ns2"] = lambda a, b, c, e: [N(d(a), d(b)), N(d(c)), d(e)]
    t["ns3"] = lambda a, b, c, e: [N(d(a), d(b)), K(d(c)), S(d(e))]
    for m in MODES:
        t["mac" + m] = lambda a, b, c, e, m=m: [d(a), M(m, 1, d(b), d(c)), d(e)]
        t["twice" + m] = lambda a, b, c, e, m=m: [d(a), M(m, 2, d(b), d(c)), d(e)]
        t["macsec" + m] = lambda a, b, c, e, m=m: [S(d(a), M(m, 1, d(b)), d(c)), d(e)]
        for m2 in ("M", "m"):
            t["nest%s%s" % (m, m2)] = lambda a, b, c, e, m=m, m2=m2: [d(a), M(m, 1, d(b), M(m2, 1, d(c)), d(e))]
    t["macs"] = lambda a, b, c, e: [M("M", 1, d(a), d(b)), M("M", 1, d(c), d(e))]
    t["inc"] = lambda a, b, c, e: [d(a), I(d(b), d(c)), d(e)]
    t["incsec"] = lambda a, b, c, e: [d(a), I(S(d(b), d(c))), d(e)]
    return t

def cases(tier):
    deep = tier != "quick"
    ex = ["n.A", "n.A@c", "n.E", "k.A"]
    # plain code
    for n in (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4):
        yield from batch("plain", ([D(*c)] for c in itertools.product(NAMED, repeat=n)), REFS_N, 2 if n <= 3 else 0)
        yield from batch("plain", ([D(*c)] for c in itertools.product(UNNAMED, repeat=n)), REFS_U, 2 if n <= 3 else 0)
    yield from batch("plainmix", ([D(*c)] for c in itertools.product(NAMED + UNNAMED, repeat=3)), REFS_N + REFS_U, False)
    for name, t in templates().items():
        e = ex if name.startswith(("ns", "inc")) else ()
        yield from batch(name, ([t(*c)] for c in itertools.product(NAMED, repeat=4)), REFS_N, 2 if deep else 0, e)
        if not name.startswith("ns"): yield from batch(name, ([t(*c)] for c in itertools.product(UNNAMED[:1] + UNNAMED[2:3] + ["__"] + (["--"] if deep else []), repeat=4)), REFS_U, 2 if deep else 0)
        # with fewer definitions: what isn't visible must be refused
        names = ["A", "_x", "@c", "-", "+", "__"]
        strip = lambda tr: [(n[:-1] + (strip(n[-1]),)) if n[0] != "d" else n for n in tr if n[0] != "d" or n[1] is not None]
        few = [c for c in itertools.product([None] + names, repeat=4) if 1 <= sum(x is not None for x in c) <= (3 if deep else 2)]
        # every other unnamed label: alone and together with its like
        more = [c for u in ["--", "++"] + LONG for c in itertools.product([None, u], repeat=4) if 1 <= sum(x is not None for x in c) <= 2]
        yield from batch(name + "/long", ([strip(t(*c))] for c in more), REFS_U[:4] + LONG, 2, e)
        yield from batch(name + "/few", ([strip(t(*c))] for c in few), ["A", "_x", "@c", "A@c"] + REFS_U, 2 if deep else 1, e)
    # two objects
    X = ["A", "_x", "@c", "-"]
    S = lambda b: [("s", None, b)]; N = lambda b: [("s", "n", b)]
    shapes = [lambda a, b: D(a, b), lambda a, b: S(D(a, b)), lambda a, b: D(a) + S(D(b)), lambda a, b: N(D(a, b)), lambda a, b: D(a) + N(D(b))]
    for s1, s2 in itertools.product(shapes, repeat=2):
        yield from batch("two", ([s1(a, b), s2(c, e)] for a, b, c, e in itertools.product(X, repeat=4)), ["A", "_x", "@c", "A@c", "-", "+"], False, ["n.A", "n.A@c"])
    for s1, s2 in itertools.product(shapes[:2] + shapes[3:4], repeat=2):
        one = lambda s, a, b: [(n[:-1] + ([m for m in n[-1] if m[1] is not None],)) if n[0] == "s" else n for n in s(a, b) if n[0] != "d" or n[1] is not None]
        yield from batch("two/few", ([one(s1, a, None), one(s2, b, None)] for a, b in itertools.product(X + [None], repeat=2)), ["A", "_x", "-", "+"], 2, ["n.A"])
    yield from nsforward()
    yield from parent(tier)
    yield from child(tier)

def nsforward():
    for r in ("A", "A@c"):
        for f, size, d in FORMS:
            if "jp" in f: continue
            src = HEAD + ".ORG 0\n.DB 1\nA: .DB 2\n@c: .DB 3\n.ORG 16\n.SECTION \"s\" NAMESPACE \"n\" FORCE\n" + f.replace("%s", r) + "A: .DB 5\n@c: .DB 6\n.ENDS\n"
            def judge(res, exp=18 + (r != "A") + d):
                if not res.ok: return "refused: " + res.outs[-1].decode("latin1")[:300]
                got = int.from_bytes(res.files["o.bin"][16:18], "little")
                if got != exp: return "the reference is $%x, expected $%x: the label of the section's namespace hides the other" % (got, exp)
            one = HEAD + ".ORG 32\n.SECTION \"t\" NAMESPACE \"n\" FORCE\n.DB 5\nA: .DB 5\n@c: .DB 6\n.ENDS\n"
            two = src.replace("A: .DB 5\n@c: .DB 6\n.ENDS", ".ENDS")
            def judge2(res, exp=33 + (r != "A") + d):
                if not res.ok: return "refused: " + res.outs[-1].decode("latin1")[:300]
                got = int.from_bytes(res.files["o.bin"][16:18], "little")
                if got != exp: return "the reference is $%x, expected $%x: the label of the section's namespace hides the other" % (got, exp)
            yield Case("nsobject:%s:%s" % (r, f.strip() % ((r,) * f.count("%s"))), run.multi([(CPU, "a", one, "o"), (CPU, "b", two, "o")]), judge2)
            yield Case("nsforward:%s:%s" % (r, f.strip() % ((r,) * f.count("%s"))), run.one(CPU, src), judge)

def parent(tier):
    """__label__ is the last parent label"""
    for seq in itertools.product(["A", "E", "_x", "@c", "@@d", "-", "__"], repeat=4):
        try: p = Prog([D(*seq)])
        except Orphan: continue
        if p.dup or seq[0] in UNNAMED or seq[0][0] == "@": continue
        src = [HEAD + ".ORG 0\n"]; exp = []; at = {}
        pc = 0; last = None
        for x in seq:
            if x[0] != "@" and x not in UNNAMED: last = pc
            src.append("%s%s .DB 1\n .DW __label__\n jp __label__\n" % (x, ":" if x not in UNNAMED else "")); exp += [(pc + 1, last), (pc + 4, last)]; pc += 6
        def judge(res, exp=exp):
            if not res.ok: return "refused: " + res.outs[-1].decode("latin1")[:300]
            for a, v in exp:
                if int.from_bytes(res.files["o.bin"][a:a + 2], "little") != v: return "__label__ at $%x is $%x, expected $%x" % (a, int.from_bytes(res.files["o.bin"][a:a + 2], "little"), v)
        yield Case("parent:%s" % " ".join(seq), run.one(CPU, "".join(src)), judge, steps=len(seq))

def child(tier):
    """macros with CHILDLABELS make children of the label before the call"""
    for parents in itertools.product(["P", "Q", "P:\n@z"], repeat=2):
        if parents[0][0] == parents[1][0]: continue
        for body in (["c"], ["c", "e"], ["c", "@g"], ["c", "@g", "e"], ["c", "@g", "e", "@g"]):
            m = [".MACRO mm CHILDLABELS\n"]
            for x in body:
                m.append("%s: .DB 1\n .DW ?%s\n jp ?%s\n" % (x, x, x))
            m.append(".ENDM\n")
            src = [HEAD + "".join(m) + ".ORG 0\n"]; pc = 0; exp = []; names = []
            for p in parents:
                src.append("%s: .DB 1\n mm\n" % p); pc += 1; last = None
                base = p.replace(":\n", "")
                if "\n" in p: base = p[0] + "@z"; pc += 0
                for x in body:
                    if x[0] != "@": last = x
                    nm = base + ("@" + x if x[0] != "@" else "@" + last + x)
                    names.append((nm, pc)); exp += [(pc + 1, pc), (pc + 4, pc)]; pc += 6
            for nm, a in names: src.append(".DW %s\n" % nm); exp.append((pc, a)); pc += 2
            def judge(res, exp=exp):
                if not res.ok: return "refused: " + res.outs[-1].decode("latin1")[:300]
                for a, v in exp:
                    if int.from_bytes(res.files["o.bin"][a:a + 2], "little") != v: return "the reference at $%x is $%x, expected $%x" % (a, int.from_bytes(res.files["o.bin"][a:a + 2], "little"), v)
            yield Case("child:%s:%s" % (",".join(parents).replace("\n", " "), ",".join(body)), run.one(CPU, "".join(src)), judge, steps=len(exp))
