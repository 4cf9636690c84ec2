"""Many small independent pieces of source in one program, each in a cell of its own; and programs that must be refused."""
from . import run
from .check import Case

FILL = 0xED
def head(size=0x8000, extra="", fill=FILL):
    return run.memmap(size) + ".EMPTYFILL $%02X\n%s.BANK 0\n" % (fill, extra)

def batch(cpu, tag, items, cell=16, pre="", count=400, files=None, asm_args=(), post="", size=0x8000, lib=None, link_args=("-r",)):
    """items: [(source text, {bytes, ...} or bytes)] -> Cases.  `pre` is put after the header, `post` at the end, `lib`: (source of a second object)"""
    count = min(count, (size - 2 * cell) // cell)
    for i in range(0, len(items), count):
        part = items[i:i + count]
        def prog(part=part):
            src = [head(size), pre]
            for j, (t, _) in enumerate(part):
                src.append(".ORG $%x\n %s\n" % (j * cell + cell, t))
            src.append(post)
            if lib is None:
                return run.one(cpu, "".join(src), files=files, asm_args=asm_args, link_args=link_args)
            return run.multi([(cpu, "a", "".join(src), "o"), (cpu, "b", lib, "o")], files=files, asm_args=asm_args, link_args=link_args)
        def judge(res, part=part):
            if not res.ok:
                return "a program of valid statements was refused (exit codes %r): %s\nthe %d statements begin with: %s" % (
                    res.rcs, res.outs[-1].decode("latin1")[:400], len(part), part[0][0])
            rom = res.files["o.bin"]; bad = []
            for j, (t, exp) in enumerate(part):
                if isinstance(exp, (bytes, bytearray)): exp = {bytes(exp)}
                got = rom[j * cell + cell:j * cell + 2 * cell]
                if not any(got == e + bytes([FILL]) * (cell - len(e)) for e in exp):
                    bad.append(("%s:%s" % (tag, t), "%s: %r gives %s, expected %s" % (cpu, t, got.rstrip(bytes([FILL])).hex(" "), " or ".join(sorted(e.hex(" ") for e in exp)))))
                    if len(bad) > 3: break
            return bad or None
        yield Case("%s:%d:%s" % (tag, i, part[0][0]), prog, judge, steps=len(part), states=["%s:%s" % (tag, t) for t, _ in part], n=len(part))

def refuse(cpu, tag, text, pre="", post="", files=None, asm_args=(), lib=None, why="it must be refused", link_args=("-r",), size=0x8000):
    src = head(size) + pre + ".ORG $10\n " + text + "\n" + post
    prog = run.one(cpu, src, files=files, asm_args=asm_args, link_args=link_args) if lib is None else run.multi([(cpu, "a", src, "o"), (cpu, "b", lib, "o")], files=files, asm_args=asm_args, link_args=link_args)
    def judge(res):
        if res.rcs and res.rcs[-1] > 0: return None
        if res.ok: return "%s: %r was accepted and gave %s; %s" % (cpu, text, res.files["o.bin"][0x10:0x30].rstrip(bytes([FILL])).hex(" "), why)
        return "%s: %r: abnormal end %r" % (cpu, text, res.rcs)
    return Case("%s:refuse:%s" % (tag, text), prog, judge, steps=1)
