"""Reference layout of .STRUCT / .ENUM / .RAMSECTION members.
Members: ("d", name or ".", text, size)  ("dot", name, text, size)  ("inst", name or None, struct, count text, count, size or None, start or None, dotted)
("union", [(prefix or None, [members])])  ("align", n)."""

class Struct:
    def __init__(self, name, members, size=None):
        self.name = name; self.members = members; self.given = size

def content(ms, S):
    """number of bytes the members take"""
    return layout(ms, S)[1]

def padded(s, S):
    c = content(s.members, S)
    return s.given if s.given else c

def inst(m, S, prefix, off, out):
    _, name, sn, _, count, size, start, dotted = m
    s = S[sn]; one = size or padded(s, S); raw = content(s.members, S)
    if name is not None: out.append((prefix + name, off, one * count))
    first = 1 if start is None else start
    for i in range(count):
        p = prefix if name is None else prefix + name + "."
        if count > 1:
            p = p + "%d" % (first + i)
            out.append((p, off + i * one, one))
            p += "."
        sub, _ = layout(s.members, S, p, off + i * one)
        out.extend(sub)
    return 0 if dotted else one * count

def layout(ms, S, prefix="", off=0):
    """([(name, offset, size)], bytes taken)"""
    out = []; cur = off
    for m in ms:
        if m[0] in ("d", "dot"):
            if m[1] != ".": out.append((prefix + m[1], cur, m[3]))
            if m[0] == "d": cur += m[3]
        elif m[0] == "inst": cur += inst(m, S, prefix, cur, out)
        elif m[0] == "union": cur += union(m, S, prefix, cur, out)
        elif m[0] == "align": cur += -(cur - off) % m[1]
    return out, cur - off

def union(m, S, prefix, cur, out):
    big = 0
    for pre, sub in m[1]:
        p = prefix + (pre + "." if pre else "")
        l, n = layout(sub, S, p, cur)
        if pre: out.append((prefix + pre, cur, n))
        out.extend(l); big = max(big, n)
    return big

def descending(ms, S, start):
    out = []; cur = start
    for m in ms:
        if m[0] in ("d", "dot"):
            if m[0] == "d": cur -= m[3]
            if m[1] != ".": out.append((m[1], cur, m[3]))
        else:
            tmp = []
            n = inst(m, S, "", 0, tmp) if m[0] == "inst" else union(m, S, "", 0, tmp)
            cur -= n
            out.extend((a, b + cur, c) for a, b, c in tmp)
    return out, start - cur

def text(ms):
    out = []
    for m in ms:
        if m[0] in ("d", "dot"): out.append("%s %s" % (m[1], m[2]))
        elif m[0] == "align": out.append(".ALIGN %d" % m[1])
        elif m[0] == "inst":
            t = "%s%sINSTANCEOF %s%s" % (m[1] + " " if m[1] else "", "." if m[7] else "", m[2], m[3])
            out.append(t)
        else:
            for i, (p, sub) in enumerate(m[1]):
                out.append((".NEXTU" if i else ".UNION") + (" " + p if p else ""))
                out.append(text(sub).rstrip("\n")) if sub else None
            out.append(".ENDU")
    return "\n".join(out) + "\n"

def leaves(ms, S, prefix="", off=0):
    """data members an instance stores, in order: [(name, offset, size)] without dotted ones, unions and padding; None if there is a union"""
    out = []; cur = off
    for m in ms:
        if m[0] == "d": out.append((prefix + m[1] if m[1] != "." else None, cur, m[3])); cur += m[3]
        elif m[0] == "inst" and not m[7]:
            _, name, sn, _, count, size, start, _ = m
            s = S[sn]; one = size or padded(s, S)
            for i in range(count):
                p = prefix if name is None else prefix + name + "."
                if count > 1: p += "%d." % ((1 if start is None else start) + i)
                sub = leaves(s.members, S, p, cur + i * one)
                if sub is None: return None
                out.extend(sub)
            cur += one * count
        elif m[0] == "union": return None
    return out

def subst(ms, sfx):
    """the same members with other names"""
    out = []
    for m in ms:
        if m[0] in ("d", "dot"): out.append((m[0], m[1] if m[1] == "." else m[1] + sfx) + m[2:])
        elif m[0] == "inst": out.append((m[0], m[1] and m[1] + sfx) + m[2:])
        elif m[0] == "union": out.append((m[0], [(p and p + sfx, subst(sub, sfx)) for p, sub in m[1]]))
        else: out.append(m)
    return out
