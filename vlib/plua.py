"""Independent PICO-8 Lua lexer, parser and name resolver (written from the language's published
rules; shares nothing with the tool). Operates on p8 strings (one char per PICO-8 char)."""

KEYWORDS = set("and break do else elseif end false for function goto if in local nil not or "
               "repeat return then true until while".split())
OPS = sorted([
    ">>>=", "<<>=", ">><=", "...", "..=", "^^=", "<<=", ">>=", ">>>", "<<>", ">><",
    "==", "~=", "!=", "<=", ">=", "..", "+=", "-=", "*=", "/=", "\\=", "%=", "^=", "|=", "&=",
    "<<", ">>", "^^", "::",
    "+", "-", "*", "/", "\\", "%", "^", "#", "&", "~", "|", "<", ">", "=", "(", ")", "{", "}",
    "[", "]", ";", ":", ",", ".", "@", "$", "?"], key=lambda s: -len(s))
COMPOUND = {"+=", "-=", "*=", "/=", "\\=", "%=", "^=", "..=", "|=", "&=", "^^=", "<<=", ">>=", ">>>=", "<<>=", ">><="}


class LuaErr(Exception):
    def __init__(m, msg, pos=None):
        m.pos = pos
        super().__init__(msg if pos is None else f"{msg} @ {pos}")


class Tok:
    __slots__ = ("t", "s", "a", "b", "line", "nl", "val")

    def __init__(m, t, s, a, b, line, nl):
        m.t, m.s, m.a, m.b, m.line, m.nl = t, s, a, b, line, nl  # nl: a newline precedes it
        m.val = None

    def __repr__(m):
        return f"{m.t}:{m.s!r}"


def is_id_start(c):
    return c.isascii() and (c.isalpha() or c == "_") or c >= "\x80" or c in "\x1e\x1f"


def is_id_char(c):
    return is_id_start(c) or c in "0123456789"


ESC = {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13, "\\": 92, '"': 34, "'": 39, "\n": 10,
       # p8scii control escapes
       "*": 1, "#": 2, "-": 3, "|": 4, "+": 5, "^": 6}


def lex(src, comments=None):
    """-> list of Tok, terminated by an eof token. fills `comments` with (start, end, text)"""
    toks = []
    i, n, line, nl = 0, len(src), 0, True
    while True:
        while i < n:
            c = src[i]
            if c == "\n":
                line += 1
                nl = True
                i += 1
            elif c in " \t\r\v\f":
                i += 1
            elif src.startswith("--", i) or src.startswith("//", i):
                j = i + 2
                lvl = _long_open(src, j) if src[i] == "-" else None
                if lvl is not None:
                    _, e = _long_body(src, j, lvl)
                else:
                    e = src.find("\n", i)
                    e = n if e < 0 else e
                if comments is not None:
                    comments.append((i, e, src[i:e]))
                k = src.count("\n", i, e)
                line += k       # (line breaks inside block comments don't end shorthands)
                i = e
            else:
                break
        if i >= n:
            toks.append(Tok("eof", "", n, n, line, nl))
            return toks
        c = src[i]
        a = i
        aline = line
        val = None
        if is_id_start(c):
            while i < n and is_id_char(src[i]):
                i += 1
            s = src[a:i]
            t = "kw" if s in KEYWORDS else "name"
        elif c in "0123456789" or (c == "." and i + 1 < n and src[i + 1] in "0123456789"):
            i = _number_end(src, i)
            if src.startswith(".", i):
                raise LuaErr("malformed number", a)
            t = "num"
        elif c in "'\"":
            val, i = _short_string(src, i)
            t = "str"
            line += src.count("\n", a, i)
        elif c == "[" and _long_open(src, i) is not None:
            val, i = _long_body(src, i, _long_open(src, i))
            t = "str"
            line += src.count("\n", a, i)
        else:
            for op in OPS:
                if src.startswith(op, i):
                    break
            else:
                raise LuaErr(f"bad char {c!r}", i)
            i += len(op)
            t = "op"
        tok = Tok(t, src[a:i], a, i, aline, nl)
        tok.val = val
        toks.append(tok)
        nl = False


def _number_end(src, i):
    n = len(src)
    digs = "0123456789"
    if src[i] == "0" and i + 1 < n and src[i + 1] in "xX":
        digs = "0123456789abcdefABCDEF"
        i += 2
    elif src[i] == "0" and i + 1 < n and src[i + 1] in "bB":
        digs = "01"
        i += 2
    dot = False
    while i < n and (src[i] in digs or (src[i] == "." and not dot)):
        if src[i] == ".":
            dot = True
        i += 1
    return i


def _long_open(src, i):
    if i >= len(src) or src[i] != "[":
        return None
    j = i + 1
    while j < len(src) and src[j] == "=":
        j += 1
    if j < len(src) and src[j] == "[":
        return j - i - 1
    return None


def _long_body(src, i, lvl):
    a = i + lvl + 2
    close = "]" + "=" * lvl + "]"
    e = src.find(close, a)
    if e < 0:
        raise LuaErr("unterminated long bracket", i)
    body = src[a:e]
    body = body.replace("\r\n", "\n").replace("\n\r", "\n").replace("\r", "\n")
    if body.startswith("\n"):
        body = body[1:]
    return body, e + len(close)


def _short_string(src, i):
    q = src[i]
    i += 1
    out = []
    n = len(src)
    while True:
        if i >= n:
            raise LuaErr("unterminated string", i)
        c = src[i]
        i += 1
        if c == q:
            return "".join(out), i
        if c == "\n":
            raise LuaErr("newline in string", i)
        if c != "\\":
            out.append(c)
            continue
        if i >= n:
            raise LuaErr("unterminated string", i)
        c = src[i]
        i += 1
        if c in ESC:
            out.append(chr(ESC[c]))
        elif c == "z":
            while i < n and src[i] in " \t\r\n\v\f":
                i += 1
        elif c == "x":
            if not (len(src[i:i + 2]) == 2 and all(d in "0123456789abcdefABCDEF" for d in src[i:i + 2])):
                raise LuaErr("bad hex escape", i)
            out.append(chr(int(src[i:i + 2], 16)))
            i += 2
        elif c in "0123456789":
            j = i
            while j < n and j < i + 2 and src[j] in "0123456789":
                j += 1
            v = int(src[i - 1:j])
            if v > 255:
                raise LuaErr("bad decimal escape", i)
            out.append(chr(v))
            i = j
        else:
            raise LuaErr(f"bad escape {c!r}", i)


def numval(s):
    """exact 16.16 value (0..2^32-1) of a PICO-8 numeral, or None if it isn't exactly representable
    (rounding of inexact decimals is left to the real interpreter)"""
    from fractions import Fraction
    t = s.lower()
    base, digs = 10, "0123456789"
    if t.startswith("0x"):
        base, digs, t = 16, "0123456789abcdef", t[2:]
    elif t.startswith("0b"):
        base, digs, t = 2, "01", t[2:]
    ip, _, fp = t.partition(".")
    v = Fraction(0)
    for ch in ip:
        v = v * base + digs.index(ch)
    k = Fraction(1, base)
    for ch in fp:
        v += digs.index(ch) * k
        k /= base
    v *= 65536
    return v


def count_tokens(toks):
    """PICO-8's documented rule: commas, periods, colons, semicolons, `local`, `end`, closing brackets
    and comments are free; a bracket pair, a string, a number, a name, a keyword or an operator is 1;
    a minus/tilde glued to a numeral in prefix position is part of the numeral."""
    n = 0
    for i, t in enumerate(toks):
        if t.t == "eof":
            break
        if t.t in ("op", "kw") and t.s in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local"):
            continue
        if t.s in ("-", "~") and t.t == "op" and toks[i + 1].t == "num" and toks[i + 1].a == t.b and i > 0:
            p = toks[i - 1]
            if p.t not in ("num", "str", "name") and p.s not in (")", "]", "}", ";", "end"):
                continue
        n += 1
    return n


# ---------------------------------------------------------------- parser

class N:
    def __init__(m, k, a, **kw):
        m.k = k
        m.a = a  # first token index
        m.__dict__.update(kw)

    def __repr__(m):
        return f"<{m.k}>"


class Var:
    """a local declaration"""
    __slots__ = ("name", "tok", "kind", "func", "scope_end", "uses", "assigns", "order")

    def __init__(m, name, tok, kind, func):
        m.name, m.tok, m.kind, m.func = name, tok, kind, func
        m.uses, m.assigns = [], []

    def __repr__(m):
        return f"Var({m.name}@{m.tok})"


class Scope:
    def __init__(m, parent, func):
        m.parent, m.func, m.vars = parent, func, []
        m.labels, m.gotos = {}, []

    def find(m, name):
        s = m
        while s:
            for v in reversed(s.vars):
                if v.name == name:
                    return v
            s = s.parent


BIN = {"or": (1, 1), "and": (2, 2),
       "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "!=": (3, 3), "==": (3, 3),
       "|": (4, 4), "^^": (5, 5), "~": (5, 5), "&": (6, 6),
       "<<": (7, 7), ">>": (7, 7), ">>>": (7, 7), "<<>": (7, 7), ">><": (7, 7),
       "..": (9, 8), "+": (10, 10), "-": (10, 10),
       "*": (11, 11), "/": (11, 11), "\\": (11, 11), "%": (11, 11), "^": (14, 13)}
UNARY_PRI = 12
UNARY = {"-", "not", "#", "~", "@", "%", "$"}


class Parser:
    """refs[tok index] = ('local', Var, mode) | ('global', name, mode) | ('member', name, mode) | ('label', obj)
    mode: 'decl' | 'use' | 'assign' """

    def __init__(m, src, lua54=False):
        m.src = src
        m.lua54 = lua54
        m.comments = []
        m.toks = lex(src, m.comments)
        m.p = 0
        m.refs = {}
        m.vars = []
        m.funcs = []
        m.scope = None
        m.func = None
        m.labels = []
        m.shortline = None
        m.goto_stack = []
        m.events = []     # (tok index, 'decl'/'use'/'assign', ...)

    # -- helpers
    @property
    def t(m):
        return m.toks[m.p]

    def adv(m):
        t = m.toks[m.p]
        m.p += 1
        return t

    def at(m, *ss):
        t = m.toks[m.p]
        return t.t in ("op", "kw") and t.s in ss

    def accept(m, s):
        if m.at(s):
            m.p += 1
            return True
        return False

    def expect(m, s):
        if not m.accept(s):
            raise LuaErr(f"expected {s!r} near {m.t.s!r}", m.t.a)

    def name(m):
        if m.t.t != "name":
            raise LuaErr(f"expected name near {m.t.s!r}", m.t.a)
        m.p += 1
        return m.p - 1

    def open(m, func=None):
        m.scope = Scope(m.scope, func or m.func)
        return m.scope

    def close(m):
        for v in m.scope.vars:
            v.scope_end = m.p
        s = m.scope
        m.scope = s.parent
        for ni in s.gotos:
            d = s.labels.get(m.toks[ni].s)
            if d is not None:
                m.refs[ni] = ("label", d, "use")
            elif s.parent is not None and s.parent.func is s.func:
                s.parent.gotos.append(ni)
            else:
                raise LuaErr(f"no visible label {m.toks[ni].s!r}", m.toks[ni].a)

    def declare(m, ti, kind):
        v = Var(m.toks[ti].s, ti, kind, m.func)
        m.scope.vars.append(v)
        m.vars.append(v)
        m.refs[ti] = ("local", v, "decl")
        return v

    # -- program
    def parse(m):
        f = N("function", 0, params=[], name=None, parent=None, vararg=True, kind="main")
        m.funcs.append(f)
        m.func = f
        m.open()
        f.body = m.block()
        if m.t.t != "eof":
            raise LuaErr(f"unexpected {m.t.s!r}", m.t.a)
        m.close()
        f.end = m.p
        return f

    def block_end(m):
        t = m.t
        return t.t == "eof" or (t.t == "kw" and t.s in ("end", "else", "elseif", "until"))

    def line_end(m):
        return m.shortline is not None and (m.t.nl or m.t.t == "eof")

    def block(m):
        out = []
        while True:
            while m.at(";") and not m.line_end():
                m.p += 1
            if m.block_end() or m.line_end():
                break
            s = m.stmt()
            out.append(s)
            if s.k == "return":
                while m.at(";") and not m.line_end():
                    m.p += 1
                if not (m.block_end() or m.line_end()):
                    raise LuaErr(f"return must be last, near {m.t.s!r}", m.t.a)
                break
        return out

    def scoped_block(m):
        m.open()
        b = m.block()
        m.close()
        return b

    def long_block(m, *ends):
        save, m.shortline = m.shortline, None
        b = m.scoped_block()
        m.shortline = save
        return b

    def stmt(m):
        t = m.t
        a = m.p
        if t.t == "kw":
            k = t.s
            if k == "if":
                return m.s_if()
            if k == "while":
                m.p += 1
                c = m.expr()
                if m.accept("do"):
                    b = m.long_block()
                    m.expect("end")
                    return N("while", a, cond=c, body=b, short=False, e=m.p)
                if m.toks[a + 1].s != "(" or m.toks[m.p - 1].s != ")" or m.t.nl or m.t.line != m.toks[a].line:
                    raise LuaErr("expected do", m.t.a)
                b = m.short_block()
                return N("while", a, cond=c, body=b, short=True, e=m.p)
            if k == "do":
                m.p += 1
                b = m.long_block()
                m.expect("end")
                return N("do", a, body=b, e=m.p)
            if k == "for":
                return m.s_for()
            if k == "repeat":
                m.p += 1
                save, m.shortline = m.shortline, None
                m.open()
                b = m.block()
                m.expect("until")
                m.shortline = save
                c = m.expr()
                m.close()
                return N("repeat", a, body=b, cond=c, e=m.p)
            if k == "function":
                m.p += 1
                ni = m.name()
                target = m.var_ref(ni)
                names = [ni]
                method = False
                while m.at("."):
                    m.p += 1
                    mi = m.name()
                    m.refs[mi] = ("member", m.toks[mi].s, "use")
                    names.append(mi)
                    target = N("member", a, obj=target, tok=mi)
                if m.accept(":"):
                    mi = m.name()
                    m.refs[mi] = ("member", m.toks[mi].s, "use")
                    names.append(mi)
                    target = N("member", a, obj=target, tok=mi)
                    method = True
                m.assign_mark(target)
                f = m.funcbody(a, method, names)
                return N("funcstat", a, target=target, func=f, names=names, method=method, e=m.p)
            if k == "local":
                m.p += 1
                if m.accept("function"):
                    ni = m.name()
                    v = m.declare(ni, "localfunc")
                    f = m.funcbody(a, False, [ni])
                    return N("localfunc", a, var=v, func=f, e=m.p)
                nis = [m.name()]
                while m.accept(","):
                    nis.append(m.name())
                vals = []
                if m.accept("="):
                    vals = m.exprs()
                vs = [m.declare(i, "local") for i in nis]
                return N("local", a, vars=vs, vals=vals, e=m.p)
            if k == "return":
                m.p += 1
                vals = []
                if not (m.block_end() or m.at(";") or m.line_end()):
                    vals = m.exprs()
                return N("return", a, vals=vals, e=m.p)
            if k == "break":
                m.p += 1
                return N("break", a, e=m.p)
            if k == "goto":
                m.p += 1
                ni = m.name()
                m.scope.gotos.append(ni)
                return N("goto", a, tok=ni, e=m.p)
            raise LuaErr(f"unexpected {k!r}", t.a)
        if m.at("::"):
            m.p += 1
            ni = m.name()
            m.refs[ni] = ("label", ni, "decl")
            if m.scope.labels.setdefault(m.toks[ni].s, ni) != ni:
                raise LuaErr(f"duplicate label {m.toks[ni].s!r}", m.toks[ni].a)
            s = m.scope.parent
            while m.lua54 and s and s.func is m.scope.func:   # (Lua 5.4 forbids hiding a label of an enclosing block)
                if m.toks[ni].s in s.labels:
                    raise LuaErr(f"label {m.toks[ni].s!r} is already defined in an enclosing block", m.toks[ni].a)
                s = s.parent
            m.expect("::")
            return N("label", a, tok=ni, e=m.p)
        if m.at("?"):
            return m.print_()
        # expression statement
        e = m.suffixed()
        if m.at("=", ","):
            targets = [e]
            while m.accept(","):
                targets.append(m.suffixed())
            m.expect("=")
            for x in targets:
                m.assign_mark(x)
            vals = m.exprs()
            return N("assign", a, targets=targets, vals=vals, e=m.p)
        if m.t.t == "op" and m.t.s in COMPOUND:
            op = m.adv().s
            m.assign_mark(e, compound=True)
            v = m.expr()
            return N("opassign", a, target=e, op=op, val=v, e=m.p)
        if e.k != "call":
            raise LuaErr(f"unexpected near {m.t.s!r}", m.t.a)
        return N("callstat", a, call=e, e=m.p)

    def assign_mark(m, e, compound=False):
        if e.k == "var":
            k, v, _ = m.refs[e.tok]
            m.refs[e.tok] = (k, v, "assign")
        elif e.k == "member":
            m.refs[e.tok] = ("member", m.toks[e.tok].s, "assign")
        elif e.k != "index":
            raise LuaErr("cannot assign", m.toks[e.a].a)

    def print_(m):
        a = m.p
        m.p += 1
        save, m.shortline = m.shortline, 1
        vals = []
        if not m.line_end():
            vals = m.exprs()
        m.shortline = save
        if not (m.t.nl or m.t.t == "eof"):
            raise LuaErr("expected eol after ?", m.t.a)
        m.one_line(a + 1)
        return N("print", a, vals=vals, e=m.p)

    def one_line(m, a):
        """the tokens from a on must be on one line, as the end of a line ends shorthands"""
        for t in m.toks[a:m.p]:
            if t.nl:
                raise LuaErr("line break in shorthand", t.a)

    def short_block(m):
        save, m.shortline = m.shortline, 1
        a = m.p
        b = m.scoped_block()
        m.shortline = save
        m.one_line(a)
        return b

    def s_if(m):
        a = m.p
        m.p += 1
        c = m.expr()
        if m.at("then", "do"):
            m.p += 1
            clauses = [(c, m.long_block())]
            els = None
            while True:
                if m.accept("elseif"):
                    c = m.expr()
                    if not (m.accept("then") or m.accept("do")):
                        raise LuaErr("expected then", m.t.a)
                    clauses.append((c, m.long_block()))
                elif m.accept("else"):
                    els = m.long_block()
                    m.expect("end")
                    break
                else:
                    m.expect("end")
                    break
            return N("if", a, clauses=clauses, els=els, short=False, e=m.p)
        if m.toks[a + 1].s != "(" or m.toks[m.p - 1].s != ")" or m.t.nl or m.t.line != m.toks[a].line:
            raise LuaErr("expected then", m.t.a)
        b = m.short_block()
        els = None
        if m.at("else") and not m.t.nl:
            m.p += 1
            els = m.short_block()
        return N("if", a, clauses=[(c, b)], els=els, short=True, e=m.p)

    def s_for(m):
        a = m.p
        m.p += 1
        nis = [m.name()]
        if m.accept("="):
            vals = m.exprs()
            if len(vals) not in (2, 3):
                raise LuaErr("bad for", m.t.a)
            kind = "fornum"
        else:
            while m.accept(","):
                nis.append(m.name())
            m.expect("in")
            vals = m.exprs()
            kind = "forin"
        m.expect("do")
        save, m.shortline = m.shortline, None
        m.open()
        vs = [m.declare(i, "for") for i in nis]
        m.open()
        b = m.block()
        m.close()
        m.close()
        m.shortline = save
        m.expect("end")
        return N(kind, a, vars=vs, vals=vals, body=b, e=m.p)

    def funcbody(m, a, method, names):
        f = N("function", a, params=[], vararg=False, parent=m.func, names=names, kind="func", method=method)
        m.funcs.append(f)
        savef, m.func = m.func, f
        save, m.shortline = m.shortline, None
        m.open(f)
        if method:
            v = Var("self", None, "self", f)
            m.scope.vars.append(v)
            m.vars.append(v)
            f.self = v
        m.expect("(")
        if not m.at(")"):
            while True:
                if m.accept("..."):
                    f.vararg = True
                    break
                f.params.append(m.declare(m.name(), "param"))
                if not m.accept(","):
                    break
        m.expect(")")
        f.bstart = m.p
        f.body = m.block()
        m.close()
        m.shortline = save
        m.expect("end")
        m.func = savef
        f.e = m.p
        return f

    def exprs(m):
        out = [m.expr()]
        while m.at(",") :
            m.p += 1
            out.append(m.expr())
        return out

    def expr(m, limit=0):
        a = m.p
        t = m.t
        if t.t in ("op", "kw") and t.s in UNARY:
            m.p += 1
            e = N("unop", a, op=t.s, x=m.expr(UNARY_PRI), e=m.p)
            e.e = m.p
        else:
            e = m.simple()
        while True:
            t = m.t
            if t.t not in ("op", "kw") or t.s not in BIN or m.line_end():
                break
            lp, rp = BIN[t.s]
            if lp <= limit:
                break
            m.p += 1
            r = m.expr(rp)
            e = N("binop", a, op=t.s, l=e, r=r, e=m.p)
        return e

    def simple(m):
        t = m.t
        a = m.p
        if t.t in ("num", "str"):
            m.p += 1
            return N(t.t, a, tok=a, e=m.p)
        if t.t == "kw" and t.s in ("nil", "true", "false"):
            m.p += 1
            return N(t.s, a, e=m.p)
        if m.at("..."):
            m.p += 1
            if not m.func.vararg:
                raise LuaErr("cannot use ... here", t.a)
            return N("vararg", a, e=m.p)
        if m.at("{"):
            return m.table()
        if m.at("function"):
            m.p += 1
            return m.funcbody(a, False, None)
        if m.at("?"):
            return m.print_()
        return m.suffixed()

    def var_ref(m, ti):
        nm = m.toks[ti].s
        v = m.scope.find(nm)
        if v is not None:
            m.refs[ti] = ("local", v, "use")
            return N("var", ti, tok=ti, var=v, e=m.p)
        env = m.scope.find("_ENV")
        if nm == "_ENV":
            m.refs[ti] = ("env", None, "use")
        else:
            m.refs[ti] = ("global", env, "use")
        return N("var", ti, tok=ti, var=None, env=env, e=m.p)

    def suffixed(m):
        a = m.p
        if m.at("("):
            m.p += 1
            save, m.shortline = m.shortline, m.shortline
            x = m.expr()
            m.expect(")")
            e = N("paren", a, x=x, e=m.p)
        elif m.t.t == "name":
            e = m.var_ref(m.name())
        else:
            raise LuaErr(f"unexpected {m.t.s!r}", m.t.a)
        while True:
            if m.line_end():
                return e
            t = m.t
            if m.at("."):
                m.p += 1
                ni = m.name()
                m.refs[ni] = ("member", m.toks[ni].s, "use")
                e = N("member", a, obj=e, tok=ni, e=m.p)
            elif m.at("["):
                m.p += 1
                k = m.expr()
                m.expect("]")
                e = N("index", a, obj=e, key=k, e=m.p)
            elif m.at(":"):
                m.p += 1
                ni = m.name()
                m.refs[ni] = ("member", m.toks[ni].s, "use")
                args = m.args()
                e = N("call", a, func=e, method=ni, args=args, e=m.p)
            elif m.at("(", "{") or t.t == "str":
                args = m.args()
                e = N("call", a, func=e, method=None, args=args, e=m.p)
            else:
                return e

    def args(m):
        t = m.t
        a = m.p
        if t.t == "str":
            m.p += 1
            return [N("str", a, tok=a, e=m.p)]
        if m.at("{"):
            return [m.table()]
        m.expect("(")
        if m.accept(")"):
            return []
        out = m.exprs()
        m.expect(")")
        return out

    def table(m):
        a = m.p
        m.expect("{")
        items = []
        while not m.at("}"):
            if m.t.t == "name" and m.toks[m.p + 1].t == "op" and m.toks[m.p + 1].s == "=":
                ni = m.name()
                m.refs[ni] = ("member", m.toks[ni].s, "assign")
                m.p += 1
                items.append(("name", ni, m.expr()))
            elif m.at("["):
                m.p += 1
                k = m.expr()
                m.expect("]")
                m.expect("=")
                items.append(("key", k, m.expr()))
            else:
                items.append(("item", None, m.expr()))
            if not (m.accept(",") or m.accept(";")):
                break
        m.expect("}")
        return N("table", a, items=items, e=m.p)


def parse(src, lua54=False):
    p = Parser(src, lua54)
    p.root = p.parse()
    return p


def children(n):
    """direct sub-nodes of an AST node"""
    for k, v in n.__dict__.items():
        if k in ("parent", "var", "vars", "params", "self", "env"):
            continue
        yield from _sub(v)


def _sub(v):
    if isinstance(v, N):
        yield v
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from _sub(x)


def walk(n):
    yield n
    for c in children(n):
        yield from walk(c)


def canon(p):
    """the program's structure as nested tuples, regardless of layout and of shorthand/longhand forms"""
    T = p.toks

    def c(n, v=None):
        if isinstance(n, (list, tuple)):
            return tuple(c(x) for x in n)
        if not isinstance(n, N):
            return n.name if isinstance(n, Var) else n
        k = n.k
        if k in ("num", "str", "var", "member"):
            s = T[n.tok].s
            return (k, s) if k != "member" else (k, c(n.obj), s)
        if k in ("if", "while"):
            def cond(x):
                x = c(x)
                return x[1] if n.short and x[0] == "paren" else x
            if k == "while":
                return (k, cond(n.cond), c(n.body))
            return (k, tuple((cond(x), c(b)) for x, b in n.clauses), None if n.els is None else c(n.els))
        if k == "paren":
            return (k, c(n.x))
        if k == "table":
            return (k, tuple((t, T[x].s if t == "name" else c(x) if t == "key" else None, c(v)) for t, x, v in n.items))
        if k == "label":
            return (k, T[n.tok].s)
        if k == "goto":
            return (k, T[n.tok].s)
        if k == "call":
            return (k, c(n.func), T[n.method].s if n.method is not None else None, c(n.args))
        if k == "function":
            return (k, tuple(x.name for x in n.params), n.vararg, c(n.body))
        if k == "localfunc":
            return (k, n.var.name, c(n.func))
        if k == "funcstat":
            return (k, tuple(T[i].s for i in n.names), n.method, c(n.func))
        if k in ("local", "fornum", "forin"):
            return (k, tuple(x.name for x in n.vars), c(n.vals)) + ((c(n.body),) if k != "local" else ())
        return (k,) + tuple(c(n.__dict__[x]) for x in ("op", "l", "r", "x", "obj", "key", "target", "targets", "val", "vals", "call", "body", "cond") if x in n.__dict__)
    return c(p.root.body)


def blocks(p):
    """(statement, depth) for all statements"""
    out = []

    def block(b, d):
        for s in b:
            out.append((s, d))
            inner(s, d)

    def inner(n, d):
        for k, v in n.__dict__.items():
            if k in ("parent", "var", "vars", "params", "self", "env"):
                continue
            if k == "body" or k == "els" and v is not None:
                block(v, d + 1)
            elif k == "clauses":
                for x, b in v:
                    inner(x, d)
                    block(b, d + 1)
            else:
                for x in _sub(v):
                    inner(x, d)
    block(p.root.body, 0)
    return out
