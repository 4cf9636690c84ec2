"""Reference model of the documented calculation language (doc/arithmetics.rst, doc/functions.rst).

parse_eval(text, env, mode) reads an expression with its own precedence-climbing parser and evaluates it with
real numbers, as the documentation says.  Raises Reject where the tools must refuse (division by zero, ...)
and Undef where the documentation promises nothing (results that do not fit in 32 bits, shifts by more than 31 ...).
"""
import math, re

class Reject(Exception): pass
class Undef(Exception): pass

TOK = re.compile(r"\s*(?:(\d+\.\d+)|\$([0-9a-fA-F]+)|0x([0-9a-fA-F]+)|([0-9][0-9a-fA-F]*)h|%([01]+)|0b([01]+)|(\d+)|'(\\?.)'|\"([^\"]*)\"|([A-Za-z_.@?][A-Za-z0-9_.]*)|(<<|>>|<=|>=|==|!=|&&|\|\||[-+*/#^&~|<>()!,:]))")

PREC = {"||": 10, "&&": 20, "|": 30, "~": 40, "&": 50, "==": 60, "!=": 60, "<": 70, ">": 70, "<=": 70, ">=": 70,
        "<<": 80, ">>": 80, "+": 90, "-": 90, "*": 100, "/": 100, "#": 100, "^": 100}

def toks(s):
    out = []; i = 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ValueError("model cannot read %r at %d" % (s, i))
        g = m.groups()
        if g[0] is not None: out.append(("n", float(g[0])))
        elif g[1] is not None: out.append(("n", s32(int(g[1], 16))))
        elif g[2] is not None: out.append(("n", s32(int(g[2], 16))))
        elif g[3] is not None: out.append(("n", s32(int(g[3], 16))))
        elif g[4] is not None: out.append(("n", s32(int(g[4], 2))))
        elif g[5] is not None: out.append(("n", s32(int(g[5], 2))))
        elif g[6] is not None: out.append(("n", int(g[6])))
        elif g[7] is not None:
            c = g[7]
            out.append(("n", {"\\t": 9, "\\n": 10, "\\r": 13, "\\0": 0}[c] if len(c) == 2 else ord(c)))
        elif g[8] is not None: out.append(("s", g[8]))
        elif g[9] is not None: out.append(("id", g[9]))
        else: out.append(("o", g[10]))
        i = m.end()
    return out

def s32(v):
    return v - (1 << 32) if v >= (1 << 31) else v

def I(x):
    """C conversion of a real number to int (truncation)"""
    if isinstance(x, str): raise Undef("string as a number")
    if x != x or math.isinf(x): raise Undef("nan")
    t = math.trunc(x)
    if not -(1 << 31) <= t < (1 << 31): raise Undef("int range")
    return t

def cround(d):
    i = I(d); delta = d - i
    if delta < 0: return i - 1 if delta <= -0.5 else i
    return i if delta < 0.5 else i + 1

def dom(f, lo=None, hi=None):
    def g(x):
        if lo is not None and x < lo or hi is not None and x > hi: raise Reject("domain")
        try: return f(x)
        except (ValueError, OverflowError): raise Undef("domain")
    return g

def cpow(a, b):
    try: return math.pow(a, b)
    except (ValueError, OverflowError, ZeroDivisionError): raise Undef("pow")

F1 = {"abs": math.fabs, "sign": lambda x: 0.0 if x == 0 else (-1.0 if x < 0 else 1.0),
      "ceil": lambda x: math.ceil(x), "floor": lambda x: math.floor(x), "round": cround,
      "sqrt": dom(math.sqrt, lo=0), "cos": math.cos, "sin": math.sin, "tan": math.tan, "acos": dom(math.acos, -1, 1),
      "asin": dom(math.asin, -1, 1), "atan": math.atan, "cosh": dom(math.cosh), "sinh": dom(math.sinh), "tanh": math.tanh,
      "log": dom(math.log), "log10": dom(math.log10),
      "lobyte": lambda x: I(x) & 255, "hibyte": lambda x: (I(x) >> 8) & 255, 
      "bankbyte": lambda x: (I(x) >> 16) & 255, "loword": lambda x: I(x) & 0xffff, "hiword": lambda x: (I(x) >> 16) & 0xffff}
F2 = {"min": lambda a, b: b if b < a else a, "max": lambda a, b: b if b > a else a, "pow": cpow, "atan2": math.atan2}
F3 = {"clamp": lambda v, lo, hi: lo if v < lo else (hi if v > hi else v)}

def binop(o, a, b):
    if o in ("==", "!=", "<", ">", "<=", ">="):
        if isinstance(a, str) != isinstance(b, str): raise Reject("string against number")
        if isinstance(a, str):
            a = a.encode(); b = b.encode()
        return 1 if {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o] else 0
    if isinstance(a, str) or isinstance(b, str): raise Undef("string")
    if o == "+": return a + b
    if o == "-": return a - b
    if o == "*": return a * b
    if o == "/":
        if b == 0: raise Reject("division by zero")
        return a / b
    if o == "#":
        if I(b) == 0: raise Reject("modulo by zero")
        return int(math.fmod(I(a), I(b)))
    if o == "^": return cpow(a, b)
    if o == "&": return I(a) & I(b)
    if o == "|": return I(a) | I(b)
    if o == "~": return I(a) ^ I(b)
    if o in ("<<", ">>"):
        n = I(b)
        if not 0 <= n <= 31: raise Undef("shift count")
        if o == ">>": return I(a) >> n
        r = I(a) << n
        if not -(1 << 31) <= r < (1 << 31): raise Undef("shift overflow")
        return r
    if o == "&&": return 1 if a != 0 and b != 0 else 0
    if o == "||": return 1 if a != 0 or b != 0 else 0
    raise ValueError(o)

class P:
    def __init__(self, text, env, funcs=None, notmask=0xffffffff):
        self.t = toks(text); self.i = 0; self.env = env; self.funcs = funcs or {}; self.nops = 0; self.notmask = notmask
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)
    def nx(self):
        x = self.peek(); self.i += 1; return x
    def expr(self, minp=0):
        a = self.unary()
        while True:
            k, o = self.peek()
            if k != "o" or o not in PREC or PREC[o] < minp: return a
            self.nx()
            b = self.expr(PREC[o] + 1)
            self.nops += 1
            a = binop(o, a, b)
    def unary(self):
        k, o = self.peek()
        if k == "o" and o == "-":
            self.nx(); v = self.unary()
            if isinstance(v, str): raise Undef("string")
            return -v
        if k == "o" and o == "+":
            self.nx(); return self.unary()
        if k == "o" and o == "<":
            self.nx(); self.nops += 1; return I(self.unary()) & 255
        if k == "o" and o == ">":
            self.nx(); self.nops += 1; return (I(self.unary()) >> 8) & 255
        if k == "o" and o in ("!", "~"):
            # in a condition: logical not; in data: the bits of the item being defined are flipped
            self.nx(); self.nops += 1; v = I(self.unary())
            return (1 if v == 0 else 0) if self.notmask is None else I(s32((v ^ self.notmask) & 0xffffffff))
        return self.prim()
    def prim(self):
        k, v = self.nx()
        if k in ("n", "s"): return v
        if k == "o" and v == "(":
            x = self.expr(); assert self.nx() == ("o", ")"); return x
        if k == "id":
            if self.peek() == ("o", "("):
                self.nx(); a = []
                if self.peek() != ("o", ")"):
                    a.append(self.expr())
                    while self.peek() == ("o", ","):
                        self.nx(); a.append(self.expr())
                assert self.nx() == ("o", ")")
                self.nops += 1
                f = v.lower()
                if v in self.funcs: return self.funcs[v](*a)
                if f in F1 and len(a) == 1: return F1[f](*a)
                if f in F2 and len(a) == 2: return F2[f](*a)
                if f in F3 and len(a) == 3: return F3[f](*a)
                raise ValueError("model: function %s/%d" % (v, len(a)))
            if v in self.env: return self.env[v]
            raise ValueError("model: unknown name " + v)
        raise ValueError("model: unexpected %r" % (v,))

def evaluate(text, env=(), funcs=None, notmask=0xffffffff):
    """-> (value, number of operator applications)"""
    p = P(text, dict(env), funcs, notmask)
    v = p.expr()
    if p.i != len(p.t): raise ValueError("model: trailing input in %r" % text)
    if not isinstance(v, str) and (v != v or math.isinf(v)): raise Undef("nan")
    return v, p.nops
