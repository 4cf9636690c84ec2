"""D04: .INCBIN over all ranges of small files, and all sequences of file operations, against a cursor on a byte string."""
import itertools
from .. import run
from ..check import Case
from ..cells import batch, refuse, head, FILL

ID = "D04"
LEVEL = "model_checking"
TOOLS = ["wlalink", "z80", "68000"]
RULE = "distinct .INCBIN statements (file, SKIP, READ, SWAP, FILTER, FILTERSIZE) and file operation sequences whose bytes, or refusal, were compared with the model"
BOUNDS = {"quick": "files of 1-7 bytes (and an empty one), SKIP -1..8, READ -8..8 without 0, with and without SWAP, FILTER and FILTERSIZE 1-4; all sequences of up to 3 of 16 file operations and all continuations of 16 openings",
          "thorough": "as quick with sequences of up to 4 file operations and two processors"}
DATA = bytes([0x80, 0x01, 0xff, 0x0a, 0x00, 0x7f, 0x1a, 0x0d])
MAC = ".MACRO inc\n.REDEFINE _out (\\1+\\2)&$%s\n.ENDM\n.MACRO nth\n.REDEFINE _out \\2*10+\\3\n.ENDM\n.MACRO same\n.REDEFINE _out \\1\n.ENDM\n"

def rng(n, skip, read):
    """-> (lo, hi), None when refused, 'any' when the range is empty (both refusing and no bytes are fine)"""
    s = skip or 0
    if s < 0 or s > n: return None
    if s == n: return "any" if not read or read < 0 and s + -read == n else None
    hi = n if read is None else s + read if read > 0 else n + read
    if hi < s or hi > n: return None
    return (s, hi) if hi > s else "any"

def incbin(cpu, be):
    ok = []; files = {"f%d.bin" % n: DATA[:n] for n in range(8)}
    files["big.bin"] = bytes((i * 7 + (i >> 8)) & 255 for i in range(1000))
    order = "big" if be else "little"
    def out(vals, k): return b"".join((v & (1 << 8 * k) - 1).to_bytes(k, order) for v in vals)
    for n in range(0, 8):
        for skip in [None] + list(range(-1, 9)):
            for read in [None] + [x for x in range(-8, 9) if x]:
                r = rng(n, skip, read)
                opts = ([] if skip is None else ["SKIP %d" % skip]) + ([] if read is None else ["READ %d" % read])
                for swap in (0, 1):
                    for flt in (None, "inc", "nth", "same", 2, 3, 4):
                        fs = flt if isinstance(flt, int) else 1
                        o = opts + (["SWAP"] if swap else []) + ([] if flt is None else ["FILTER " + ("same" if fs > 1 else flt)] + (["FILTERSIZE %d" % fs] if fs > 1 else []))
                        if (n + (skip or 0) + (read or 0)) % 3 == 1: o = o[::-1]
                        t = ".INCBIN \"f%d.bin\" %s" % (n, " ".join(o))
                        if r == "any": continue
                        d = None if r is None else DATA[r[0]:r[1]]
                        if d is not None and (swap and fs == 1 and len(d) % 2 or len(d) % fs): d = None
                        if d is None:
                            if flt in (None, "inc", 3): yield refuse(cpu, "incbin:" + cpu, t, pre=MAC % "FF", files=files)
                            continue
                        if swap and fs == 1: d = b"".join(d[i:i + 2][::-1] for i in range(0, len(d), 2))
                        if flt == "inc": d = bytes((c + i) & 255 for i, c in enumerate(d))
                        elif flt == "nth": d = bytes((i * 10 + 1) & 255 for i in range(len(d)))
                        elif fs > 1: d = out([int.from_bytes(d[i:i + fs], "big" if swap else "little") for i in range(0, len(d), fs)], fs)
                        ok.append((t, d))
                if r not in (None, "any"):
                    ok.append((".INCBIN \"f%d.bin\" %s FSIZE S_%d FREADSIZE R_%d\n.DB S_%d, R_%d" % (n, " ".join(opts), len(ok), len(ok), len(ok), len(ok)), DATA[r[0]:r[1]] + bytes([n, r[1] - r[0]])))
    yield from batch(cpu, "incbin:" + cpu, ok, cell=32, pre=MAC % "FF", files=files, post=".ORG $7f00\n.INCBIN \"big.bin\" SKIP 900\n")
    big = files["big.bin"]
    for a, b in ((0, 1000), (1, 999), (500, 500), (999, 1), (256, 512)):
        yield from batch(cpu, "incbig:" + cpu, [(".INCBIN \"big.bin\" SKIP %d READ %d" % (a, b), big[a:a + b])], cell=1024, files=files)
    for t in (".INCBIN \"nosuch.bin\"", ".INCBIN \"f3.bin\" READ 0", ".INCBIN \"f3.bin\" FILTER nosuch", ".INCBIN \"f4.bin\" FILTER same FILTERSIZE 0", ".INCBIN \"f4.bin\" FILTER same FILTERSIZE 5", ".INCBIN"):
        yield refuse(cpu, "incbin:" + cpu, t, pre=MAC % "FF", files=files)

OPS = [("read", "p"), ("read", "q"), ("tell", "p"), ("tell", "q"), ("seek", "p", 0, "START"), ("seek", "p", 2, "START"), ("seek", "p", 9, "START"), ("seek", "p", -1, "CURRENT"), ("seek", "p", 1, "CURRENT"), ("seek", "q", -1, "END"), ("seek", "p", 0, "END"), ("seek", "p", -4, "END"),
       ("size", "p"), ("size", "q"), ("close", "p"), ("open", "p", 3), ("open", "q", 5)]
def fops(seq):
    h = {}; t, b = [], b""
    for j, o in enumerate(seq):
        if o[0] == "open":
            t.append(".FOPEN \"f%d.bin\" %s" % (o[2], o[1])); h[o[1]] = [o[2], 0]; continue
        t.append({"read": ".FREAD %s v%d" % (o[1], j), "tell": ".FTELL %s v%d" % (o[1], j), "size": ".FSIZE %s v%d" % (o[1], j), "close": ".FCLOSE %s" % o[1]}.get(o[0]) or ".FSEEK %s %d %s" % (o[1], o[2], o[3]))
        if o[1] not in h: return t, None
        f = h[o[1]]
        if o[0] == "read":
            if f[1] >= f[0]: return t, None
            t.append(".DB v%d" % j); b += DATA[f[1]:f[1] + 1]; f[1] += 1
        elif o[0] == "tell": t.append(".DB v%d" % j); b += bytes([f[1]])
        elif o[0] == "size": t.append(".DB v%d" % j); b += bytes([f[0]])
        elif o[0] == "close": del h[o[1]]
        else:
            p = {"START": 0, "CURRENT": f[1], "END": f[0]}[o[3]] + o[2]
            if p < 0: return t, None
            f[1] = p
    return t, b

def files_ops(tier):
    files = {"f3.bin": DATA[:3], "f5.bin": DATA[:5], "f0.bin": b""}
    n = 3 if tier == "quick" else 4
    seqs = [c for k in range(1, n + 1) for c in itertools.product(OPS, repeat=k)]
    seqs += [(("open", "p", 3), ("open", "q", 5)) + c for k in range(1, n + 1) for c in itertools.product(OPS[:14], repeat=k)]
    seqs += [(("open", "p", 0), c, d) for c in OPS for d in OPS]
    seen = set()
    for c in seqs:
        t, b = fops(c)
        k = "\n".join(t)
        if k in seen: continue
        seen.add(k)
        if b is None: yield refuse("z80", "file", k, files=files)
        else:
            def judge(res, b=b, t=t):
                if not res.ok: return "valid file operations were refused: %s: %s" % (t, res.outs[-1].decode("latin1")[:200])
                if res.files["o.bin"][:len(b) + 2] != b + b"\x77" + bytes([FILL]): return "%s gives %s, expected %s" % (t, res.files["o.bin"][:len(b) + 2].hex(" "), b.hex(" ") + " 77")
            yield Case("file:" + k, run.one("z80", head(0x100) + ".ORG 0\n" + k + "\n.DB $77\n", files=files), judge, steps=len(c))

def cases(tier):
    yield from incbin("z80", 0)
    yield from incbin("68000", 1)
    yield from files_ops(tier)
