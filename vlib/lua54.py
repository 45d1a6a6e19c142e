"""A small independent model of Picotron's (Lua 5.4) expressions: parses and evaluates constant
expressions. UNK marks results that are runtime-specific (the model refuses to say)."""
import math, re, struct


class Err(Exception):
    """the runtime would raise an error here"""


class Syn(Exception):
    pass


class _Unk:
    def __repr__(m):
        return "UNK"


UNK = _Unk()
TOK = re.compile(rb"""
  (?P<ws>\s+|--\[\[.*?\]\]|--[^\n]*)
 |(?P<num>0[xX](?:[0-9a-fA-F]*\.?[0-9a-fA-F]*)(?:[pP][+-]?\d+)?|0[bB][01]*\.?[01]*|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)
 |(?P<name>[A-Za-z_][A-Za-z_0-9]*)
 |(?P<str>"(?:\\z\s*|\\.|[^"\\])*"|'(?:\\z\s*|\\.|[^'\\])*'|\[(?P<eq>=*)\[.*?\](?P=eq)\])
 |(?P<op>>>>|<<>|>><|\^\^|\.\.|<<|>>|<=|>=|==|~=|!=|[-+*/\\%^&|~<>#(),={}\[\].;])
""", re.X | re.S)


def lex(b):
    out, i = [], 0
    while i < len(b):
        mt = TOK.match(b, i)
        if not mt or mt.end() == i:
            raise Syn(f"lex at {b[i:i+20]!r}")
        i = mt.end()
        k = mt.lastgroup if mt.lastgroup != "eq" else "str"
        if mt.group("str"):
            k = "str"
        if k != "ws":
            out.append((k, mt.group(0)))
    out.append(("eof", b""))
    return out


def wrap(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def num(t):
    t = t.decode().lower()
    if t.startswith("0x"):
        if "." in t or "p" in t:
            mant, _, ex = t[2:].partition("p")
            ip, _, fp = mant.partition(".")
            if not ip and not fp:
                raise Syn("num")
            from fractions import Fraction
            v = Fraction(int((ip + fp) or "0", 16), 16 ** len(fp))
            e = int(ex or 0)
            if v == 0:
                return 0.0
            if e > 5000:
                return math.inf
            if e < -9000:
                return 0.0
            v = v * Fraction(2) ** e
            try:
                return float(v)
            except OverflowError:
                return math.inf
        return wrap(int(t[2:], 16))
    if t.startswith("0b"):
        ip, _, fp = t[2:].partition(".")
        if "." in t:
            return int((ip + fp) or "0", 2) / (1 << len(fp))
        return wrap(int(ip, 2))
    if any(c in t for c in ".e"):
        return float(t)
    v = int(t)
    return v if v < 1 << 63 else float(t)


def string(t):
    if t[:1] == b"[":
        n = t.index(b"[", 1) + 1
        s = t[n:-n].replace(b"\r\n", b"\n")
        return s[1:] if s[:1] == b"\n" else s
    s, out, i = t[1:-1], bytearray(), 0
    simple = dict(zip(b"abfnrtv\\\"'\n", b"\a\b\f\n\r\t\v\\\"'\n"))
    while i < len(s):
        c = s[i]
        i += 1
        if c != 92:
            out.append(c)
            continue
        c = s[i]
        i += 1
        if c in simple:
            out.append(simple[c])
        elif c == ord("x"):
            out.append(int(s[i:i + 2], 16))
            i += 2
        elif c == ord("z"):
            while i < len(s) and s[i:i + 1].isspace():
                i += 1
        elif c == ord("u"):
            e = s.index(b"}", i)
            v = int(s[i + 1:e], 16)
            i = e + 1
            if v < 0x80:
                out.append(v)
            else:
                # the original utf8 (up to 2^31)
                tail, first = [], 0x3f
                while True:
                    tail.append(0x80 | (v & 0x3f))
                    v >>= 6
                    first >>= 1
                    if v <= first:
                        break
                out.append(((~first << 1) & 0xff) | v)
                out += bytes(reversed(tail))
        elif chr(c).isdigit():
            mt = re.match(rb"\d{1,3}", s[i - 1:])
            out.append(int(mt.group(0)))
            i += len(mt.group(0)) - 1
        else:
            raise Syn("escape")
    return bytes(out)


PREC = {"or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "!=": (3, 3), "==": (3, 3),
        "|": (4, 4), "~": (5, 5), "^^": (5, 5), "&": (6, 6), "<<": (7, 7), ">>": (7, 7), ">>>": (7, 7), "<<>": (7, 7), ">><": (7, 7),
        "..": (9, 8), "+": (10, 10), "-": (10, 10), "*": (11, 11), "/": (11, 11), "\\": (11, 11), "%": (11, 11), "^": (14, 13)}
UNARY = 12


class P:
    def __init__(m, toks, env=None):
        m.t, m.i, m.env = toks, 0, env or {}

    def peek(m):
        return m.t[m.i]

    def eat(m, v):
        if m.t[m.i][1] != v:
            raise Syn(f"expected {v}, got {m.t[m.i]}")
        m.i += 1

    def expr(m, lim=0):
        """-> thunk"""
        k, v = m.peek()
        if k == "op" and v in (b"-", b"~", b"#") or v == b"not":
            m.i += 1
            op, sub = v.decode(), m.expr(UNARY)
            left = lambda: un(op, sub())
        else:
            left = m.primary()
        while True:
            k, v = m.peek()
            o = v.decode("latin-1")
            if k not in ("op", "name") or o not in PREC or PREC[o][0] <= lim:
                return left
            m.i += 1
            right = m.expr(PREC[o][1])
            left = (lambda o, a, b: lambda: bino(o, a, b))(o, left, right)

    def primary(m):
        k, v = m.peek()
        m.i += 1
        if k == "num":
            x = num(v)
            return lambda: x
        if k == "str":
            x = string(v)
            return lambda: x
        if v == b"(":
            e = m.expr()
            m.eat(b")")
            return e
        if k == "name":
            if v in (b"true", b"false", b"nil"):
                x = {b"true": True, b"false": False, b"nil": None}[v]
                return lambda: x
            if m.peek()[1] == b"(":
                m.i += 1
                args = []
                if m.peek()[1] != b")":
                    args.append(m.expr())
                    while m.peek()[1] == b",":
                        m.i += 1
                        args.append(m.expr())
                m.eat(b")")
                name = v.decode()
                return lambda: call(name, [a() for a in args])
            if m.peek()[0] == "str":
                a, name = string(m.peek()[1]), v.decode()
                m.i += 1
                return lambda: call(name, [a])
            if v in m.env:
                x = m.env[v]
                return lambda: x
        raise Syn(f"unexpected {v!r}")


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def toint(v):
    if isinstance(v, int):
        return v
    if v == v and not math.isinf(v) and v == math.floor(v) and -2 ** 63 <= v < 2 ** 63:
        return int(v)
    raise Err("no integer representation")


def arith(a, b):
    for v in (a, b):
        if isinstance(v, bytes):
            raise _U()      # (string arithmetic coercions: not modelled)
        if not isnum(v):
            raise Err("arithmetic on a non-number")


def plain(v):
    # (a mid() of mixed types is only known numerically)
    return UNK if isinstance(v, tuple) else v


class _U(Exception):
    pass


def un(op, a):
    a = plain(a)
    if op == "not":
        return UNK if a is UNK else a is None or a is False
    if a is UNK:
        return UNK
    if op == "#":
        if isinstance(a, bytes):
            return len(a)
        raise Err("length")
    if isinstance(a, bytes):
        return UNK
    if not isnum(a):
        raise Err("arith")
    if op == "-":
        return wrap(-a) if isinstance(a, int) else -a
    return wrap(~toint(a))


def bino(op, fa, fb):
    a = plain(fa())
    if op in ("and", "or"):
        if a is UNK:
            return UNK
        truthy = not (a is None or a is False)
        return (plain(fb()) if truthy else a) if op == "and" else (a if truthy else plain(fb()))
    b = plain(fb())
    if a is UNK or b is UNK:
        return UNK
    if op in ("==", "~=", "!="):
        if isnum(a) and isnum(b):
            e = a == b
        else:
            e = type(a) is type(b) and a == b
        return e if op == "==" else not e
    if op in ("<", ">", "<=", ">="):
        if isnum(a) and isnum(b) or isinstance(a, bytes) and isinstance(b, bytes):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        raise Err("compare")
    if op == "..":
        r = []
        for v in (a, b):
            if isinstance(v, bytes):
                r.append(v)
            elif isinstance(v, float):
                return UNK
            elif isnum(v):
                r.append(b"%d" % v)
            else:
                raise Err("concat")
        return r[0] + r[1]
    try:
        arith(a, b)
    except _U:
        return UNK
    both = isinstance(a, int) and isinstance(b, int)
    if op in "+-*" and len(op) == 1:
        if both:
            return wrap(a + b if op == "+" else a - b if op == "-" else a * b)
        a, b = float(a), float(b)
        return a + b if op == "+" else a - b if op == "-" else a * b
    if op == "/":
        return UNK if b == 0 else fdiv(float(a), float(b))
    if op == "\\":
        if b == 0:
            return UNK
        if both:
            return wrap(a // b)
        r = fdiv(float(a), float(b))
        if math.isinf(r) or r != r:
            return r
        return math.copysign(float(math.floor(r)), r)
    if op == "%":
        if b == 0:
            return UNK
        if both:
            return a % b
        a, b = float(a), float(b)
        if math.isinf(a) or a != a or b != b:
            return math.nan
        if math.isinf(b):
            r = a
        else:
            r = math.fmod(a, b)
        if r * b < 0:
            r += b
        return r
    if op == "^":
        return UNK
    a, b = toint(a), toint(b)
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op in ("~", "^^"):
        return a ^ b
    if op in (">>", "<<"):
        if op == ">>":
            b = -b
        if b < 0:
            if a < 0:
                return UNK if b > -(1 << 63) else UNK   # (Picotron's own shift-right of negatives)
            return a >> min(-b, 64)
        return wrap(a << b) if b < 64 else 0
    return UNK


def fdiv(a, b):
    try:
        return a / b
    except OverflowError:
        return math.inf if (a < 0) == (b < 0) else -math.inf


def call(name, args):
    args = [plain(a) for a in args]
    if any(a is UNK for a in args):
        return UNK
    if name in ("flr", "ceil", "abs") and len(args) == 1 and isnum(args[0]):
        a = args[0]
        if name == "abs":
            if isinstance(a, int):
                return UNK if a == -2 ** 63 else abs(a)
            return UNK if a == 0 and math.copysign(1, a) < 0 or a != a else abs(a)
        if isinstance(a, int):
            return a
        if a != a or math.isinf(a):
            return UNK
        r = math.floor(a) if name == "flr" else math.ceil(a)
        return r if -2 ** 63 <= r < 2 ** 63 else UNK
    if any(isinstance(a, float) and a != a for a in args):
        return UNK
    if name == "max" and len(args) == 2 and all(map(isnum, args)):
        return args[0] if args[0] > args[1] else args[1]
    if name == "min" and len(args) == 2 and all(map(isnum, args)):
        return args[0] if args[0] < args[1] else args[1]
    if name == "mid" and len(args) == 3 and all(map(isnum, args)):
        # (which of several equal numbers is returned is checked numerically only)
        r = sorted(args)[1]
        return ("mid", float(r) if isinstance(r, float) else r) if len({type(a) for a in args}) > 1 or 0 in args else r
    return UNK


def evaluate(text, env=None):
    """expression text (bytes) -> value, UNK or ('error',)"""
    p = P(lex(text), env)
    th = p.expr()
    if p.peek()[0] != "eof":
        raise Syn(f"trailing {p.peek()}")
    try:
        return th()
    except Err:
        return ("error",)


def same(a, b):
    if isinstance(a, tuple) and a and a[0] == "mid":
        a = a[1]
        return isnum(b) and a == b or isinstance(b, tuple) and b[0] == "mid" and b[1] == a
    if isinstance(b, tuple) and b and b[0] == "mid":
        return same(b, a)
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return struct.pack("<d", a) == struct.pack("<d", b) or a != a and b != b
    return a == b
