"""R03: the assembler, built with address and undefined-behaviour sanitizers, is given every truncation of feature-covering sources, every replacement,
removal and insertion of one token by each of an alphabet at every place of them, every directive with every short sequence of operands, and every
special byte at every place; it must always end with success or with a message and an error code, without an object file."""
import itertools, json, os, re
from .. import corpus, frags, run
from ..check import Case

ID = "R03"
LEVEL = "model_checking"
RULE = "distinct source files given to an assembler"
TOOLS = []
BOUNDS = {"quick": "59 feature-covering sources: each cut at every character; each token replaced by, and each space extended by, each of 32 texts; each name, number and string made 21 lengths around 2^5..2^11; each byte replaced by each of 6 special bytes; every directive with no, each single (10 contexts) and every pair of 10 (1 context) of 19 operands; the header lines likewise; every mnemonic of 16 CPUs with 32 operand texts and every third cut of every instruction form",
          "thorough": "the same with 57 texts, 12 special bytes, all pairs of 19 operands in all 10 contexts, and every cut of every instruction form"}
ASSUMPTIONS = ["a program may loop without end by itself (.WHILE with a condition that stays true): the source with .WHILE is only cut, not changed",
               "invalid memory use is what AddressSanitizer and UndefinedBehaviorSanitizer notice; signed overflow and over-wide shifts in calculations are not counted"]
MORE_TOOLS = {"asan": corpus.CPUS}
FILES = dict(frags.FILES)
LOOPS = ("while",)
HEAD = frags.HEAD.replace("$400", "$100").replace("$C000 $100", "$C000 $100")

def bad(rc, out, obj, text=""):
    if rc == -999: return "the assembler does not end"
    if rc < 0: return "the assembler ends with signal %d" % -rc
    if rc == 97 or b"ERROR: AddressSanitizer" in out or b"runtime error:" in out:
        i = max(out.find(b"ERROR: AddressSanitizer"), out.find(b"runtime error:"), 0); i = out.rfind(b"\n", 0, i) + 1
        m = re.findall(rb"#\d+ \S+ in (\S+) \S*/(\w+\.c:\d+)", out)
        return "memory error: " + out[i:i + 200].decode("utf-8", "replace") + " @ " + " ".join("%s(%s)" % (a.decode(), b.decode()) for a, b in m[:3])
    if rc > 0 and not out.strip() and b".fail" not in text.lower(): return "exit code %d without any message" % rc
    if rc > 0 and obj: return "exit code %d, but there is an object file" % rc

def encode(text): return text if isinstance(text, bytes) else text.encode("latin1")

def group(cpu, key, tests):
    def prog():
        f = dict(FILES); st = []
        for i, (sub, text, args) in enumerate(tests):
            f["%d.s" % i] = encode(text)
            st.append((cpu + "@asan", list(args) + ["-o", "%d.o" % i, "%d.s" % i]))
        return {"files": f, "steps": st, "reads": ["%d.o" % i for i in range(len(tests))], "keep_going": True}
    def judge(res):
        r = []
        for i, (sub, rc, out) in enumerate(zip([t[0] for t in tests], res.rcs, res.outs)):
            b = bad(rc, out, res.files["%d.o" % i] is not None, encode(tests[i][1]))
            if b: r.append((sub, b))
        return r or None
    return Case(key, prog, judge, steps=len(tests), states=[(key, t[0]) for t in tests], n=len(tests))

def chunks(cpu, key, tests, k=48):
    it = iter(tests); n = 0
    while True:
        part = list(itertools.islice(it, k))
        if not part: return
        yield group(cpu, "%s %s/%d" % (cpu, key, n), part); n += 1

LEX = re.compile(r'"[^"\n]*"|\'.\'|\.?[A-Za-z_0-9$%@\\#&!?]+:*|\s+|.', re.S)
ALPHA = ["", "0", "-1", "5", "$", "$100", "%", "1.5", "'", "'a'", '"', '""', '"ab"', '"d.bin"', "(", ")", "[", "]", "{", "}", ",", "+", "-", "*", "/", "<", ">", ":", "=", "==", "!", "~", "^", "#", "&", "|", "@", "\\", "\\1", "\\@", "?", ";", "/*", ".", "x", "s", "lab:", "_l:", "\n", ".DB", ".ENDM", ".ENDS", ".IF", "NARGS", "n" * 300]

DIRS = sorted(set("""16BIT 24BIT 8BIT ACCU ADDR ALIGN ARRAYDB ARRAYDD ARRAYDEF ARRAYDEFINE ARRAYDL ARRAYDW ARRAYIN ARRAYOUT ASC ASCIITABLE ASCSTR ASCTABLE ASM ASSERT BACKGROUND BANK BANKHEADER BANKSIZE BASE BITS BLOCK BR BREAK BREAKPOINT
BYT BYTE CHANGEFILE COMPUTECHECKSUM CONTINUE DATA DB DBCOS DBM DBRND DBSIN DD DDM DEF DEFINE DL DLM DS DSB DSD DSL DSTRUCT DSW DW DWCOS DWM DWRND DWSIN E ELIF ELSE EMPTYFILL ENDA ENDASM ENDB ENDBITS ENDE ENDIF ENDM ENDME ENDR ENDRO ENDS ENDST ENDU ENUM
ENUMID EQU EXPORT FAIL FARADDR FCLOSE FILTER FOPEN FREAD FSEEK FSIZE FTELL FUNCTION HEX I IF IFDEF IFDEFM IFEQ IFEXISTS IFGR IFGREQ IFLE IFLEEQ IFNDEF IFNDEFM IFNEQ INC INCBIN INCDIR INCLUDE IND INDEX INPUT LONG M MACRO MEMORYMAP NAME NEXTU
OUTNAME ORG ORGA PRINT PRINTT PRINTV RAMSECTION REDEF REDEFINE REPEAT REPT ROMBANKMAP ROMBANKS ROMBANKSIZE ROW SECTION SEED SEEDRANDOM SHIFT SLOT STRINGMAP STRINGMAPTABLE STRUCT SYM SYMBOL TABLE UNBACKGROUND UNDEF UNDEFINE UNION WDC WORD
MAP SDSCTAG SMSTAG SMSHEADER COMPUTESMSCHECKSUM""".split()) - {"OUTNAME", "CHANGEFILE", "I"})
OPERANDS = ["1", "-1", "300", "x", '"d.bin"', '"ab"', "'", '"', "(", ",", "=", "\\1", "@", "{", "lab:", "NAMESPACE", "SIZE", "END", "DB"]
CONTEXT = {"plain": ("x:\n", "\n.DB 1\n"), "section": ('.SECTION "s" FREE\nx:\n', "\n.DB 1\n.ENDS\n"), "macro": (".DEFINE x 5\n.MACRO m\n", "\n.ENDM\n m 1, x\n.DB 1\n"), "struct": (".STRUCT t\n", "\nx DW\n.ENDST\n.DB 1\n"), "enum": (".ENUM 5\nx DB\n", "\n.ENDE\n"),
           "ramsection": ('.RAMSECTION "r" SLOT 2 BANK 0\nx DB\n', "\n.ENDS\n"), "if": (".DEFINE x 1\n.IF x == 1\n", "\n.ELSE\n.DB 2\n.ENDIF\n"), "false": (".IF 1 == 2\n", "\n.ELSE\n.DB 2\n.ENDIF\n"), "table": (".TABLE DB, DW\n", "\n.ROW 1, 2\n"), "repeat": ("x:\n.REPT 2\n", "\n.ENDR\n")}
BYTES = [0, 9, 13, 34, 39, 40, 44, 64, 92, 123, 125, 255]
QUICK_BYTES = [0, 34, 40, 92, 123, 125]
QUICK_ALPHA = ["", "0", "-1", "$", "1.5", "'", '""', '"ab"', "(", ")", "[", "{", "}", ",", "-", "*", "<", ":", "=", "!", "@", "\\", "\\1", ";", "/*", ".", "x", "_l:", "\n", ".ENDM", ".IF", "n" * 300]
LENGTHS = [32, 63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 509, 510, 511, 512, 513, 1023, 1024, 1025, 2047, 2049]
INSTR = ["", " ", " ,", " #", " (", " ()", " [", " x", " 5,", " (5", " #x,", " a,", " a,(", " d0,-(a", " x,x,x", " \"ab\"", " '", " <", " :x", " -", " 99999999999", " .b", ".w", ".l", ".", " {x", " #<", " (x),", " [x],y", " 1.5", " n" + "n" * 600]

M68K = "ABCD ADD ADDA ADDI ADDQ ADDX AND ANDI ASL ASR BCC BCHG BCLR BEQ BRA BSET BSR BTST CHK CLR CMP CMPA CMPI CMPM DBRA DIVS DIVU EOR EXG EXT JMP JSR LEA LINK LSL LSR MOVE MOVEA MOVEM MOVEP MOVEQ MULS NBCD NEG NOP NOT OR PEA RESET ROL RTE SBCD SCC STOP SUB SWAP TAS TRAP TST UNLK".split()
A68 = ["MOVE.W -(A0),(A1)+", "MOVEM.L D0-D3/A2,-(A7)", "MOVE.L (4,PC,D0.W),$1000.W", "LEA (x,A2),A3", "ADDQ.B #1,(5,A0,D1.L)", "MOVE #5,CCR", "LINK A6,#-4", "BTST #3,D2", "DBRA D1,x", "EXG D0,A1"]

def forms(cpu):
    if cpu == "68000": return A68
    with open(os.path.join(SPEC, cpu + ".forms")) as f: return [re.sub(r"\{\w+\}", "5", json.loads(l)[0]) for l in f if l.startswith("[")]

def mnemonics(cpu):
    return M68K if cpu == "68000" else list(dict.fromkeys(re.match(r"[A-Za-z0-9]*", f).group() for f in forms(cpu)))

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec")

def cases(tier):
    fr = {n: frags.source([n])[len(frags.HEAD):] for n in frags.F}
    def cuts():
        for n, t in fr.items():
            for i in range(len(t)): yield "%s cut at %d" % (n, i), HEAD + t[:i], []
    yield from chunks("z80", "cut", cuts())
    def tokens():
        for n, t in fr.items():
            if n in LOOPS: continue
            ts = LEX.findall(t)
            for i, x in enumerate(ts):
                for a in ALPHA if tier != "quick" else QUICK_ALPHA:
                    if a == x: continue
                    if not x.isspace(): yield "%s token %d = %r" % (n, i, a), HEAD + "".join(ts[:i] + [a] + ts[i + 1:]), []
                    elif a: yield "%s token %d insert %r" % (n, i, a), HEAD + "".join(ts[:i] + [x, a, x] + ts[i + 1:]), []
    yield from chunks("z80", "token", tokens())
    def lengths():
        for n, t in fr.items():
            if n in LOOPS: continue
            ts = LEX.findall(t)
            for i, x in enumerate(ts):
                if not x[:1].isalnum() and x[:1] not in '".$%_@': continue
                for k in LENGTHS:
                    long = '"%s"' % ("n" * k) if x[0] == '"' else "n" * k if x[0].isalpha() or x[0] in "_@" else x[0] + "0" * (k - 1) + "1" if x[0] != "." else ".n" + "n" * k
                    yield "%s token %d of %d" % (n, i, k), HEAD + "".join(ts[:i] + [long] + ts[i + 1:]), []
    yield from chunks("z80", "length", lengths())
    def bytewise():
        for n, t in fr.items():
            if n in LOOPS: continue
            t = (HEAD + t).encode(); h = len(HEAD)
            for i in range(h, len(t)):
                for b in BYTES if tier != "quick" else QUICK_BYTES: yield "%s byte %d = %d" % (n, i - h, b), t[:i] + bytes([b]) + t[i + 1:], []
    yield from chunks("z80", "byte", bytewise())
    def heads():
        ts = LEX.findall(HEAD)
        for i, x in enumerate(ts):
            if x.isspace(): continue
            for a in ALPHA: yield "head token %d = %r" % (i, a), "".join(ts[:i] + [a] + ts[i + 1:]) + ".DB 1\n", []
        for i in range(len(HEAD)):
            yield "head cut at %d" % i, HEAD[:i], []
            yield "head byte %d" % i, HEAD[:i] + HEAD[i + 1:], []
    yield from chunks("z80", "head", heads())
    def directives():
        for c, (a, b) in CONTEXT.items():
            for d in DIRS:
                ops = itertools.chain([()], itertools.product(OPERANDS, repeat=1), itertools.product(OPERANDS if tier != "quick" else OPERANDS[:10], repeat=2) if c == "plain" or tier != "quick" else ())
                for o in ops:
                    if d in ("BACKGROUND", "INCBIN") and tier == "quick" and len(o) > 1: continue
                    yield "%s: .%s %s" % (c, d, " ".join(o)), HEAD + a + ".%s %s" % (d, " ".join(o)) + b, []
    yield from chunks("z80", "directive", directives())
    for cpu in corpus.CPUS:
        def code():
            for m in mnemonics(cpu):
                for o in INSTR: yield "%s%s" % (m, o), HEAD + "x:\n%s%s\n.DB 1\n" % (m, o), []
            seen = set()
            for f in forms(cpu):
                for i in range(1, len(f) + 1):
                    if f[:i] in seen: continue
                    seen.add(f[:i])
                    if tier != "quick" or len(seen) % 3 == 0: yield "cut " + f[:i], HEAD + "x:\n" + f[:i] + "\n", []
        yield from chunks(cpu, cpu, code())
