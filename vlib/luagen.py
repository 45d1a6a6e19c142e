"""Random generator of terminating, deterministic PICO-8 programs.

mode 'safe': anything goes (string/identifier mixing, key enumeration, _ENV, metamethods with side
             effects) - what safe minification must preserve.
mode 'full': obeys the documented assumptions of full minification.
"""
import random
from . import plua
from .tool import CHARSET

NL, LOCK, UNLOCK = "\x00NL", "\x00LOCK", "\x00UNLOCK"

NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "n", "o", "x", "y", "z", "foo", "bar", "data", "value", "_t",
         "obj", "player", "update_all", "k", "v", "idx", "tmp", "e2", "lend", "nott", "ifx", "_", "o_o", "hp", "A1", "res"]
UNAMES = ["\x80x", "\x97", "h\xffi", "\x8b\x8b", "\x1ea", "_\x1f", "\xb0", "\xfe9"]
MEMBERS = ["x", "y", "hp", "foo", "a", "b", "name", "next_one", "val", "w", "h", "i", "e", "speed", "color_", "kind", "z1"]
BUILTIN_LOCALS = ["t", "map", "count", "line", "time", "all_", "min", "sub", "print"]
BUILTINS_USED = ["flr", "ceil", "abs", "min", "max", "mid", "sgn", "sqrt", "sub", "tostr", "tonum", "ord", "chr", "split",
                 "add", "del", "deli", "count", "all", "foreach", "pairs", "ipairs", "pack", "unpack", "select", "type",
                 "setmetatable", "getmetatable", "rawget", "rawset", "rawequal", "cocreate", "coresume", "costatus", "yield",
                 "spr", "circfill", "btn", "printh", "print", "rnd", "next", "rawlen", "shl", "shr", "band", "bor", "bxor",
                 "bnot", "lshr", "rotl", "rotr", "cos", "sin", "atan2", "stat", "pset", "rectfill", "mget", "poke", "peek", "inext",
                 "assert", "srand", "sfx", "fget"]


class Ty:
    """type descriptors"""
    def __init__(m, k, **kw):
        m.k = k
        m.__dict__.update(kw)


NUM, STR, BOOL, ARR = Ty("n"), Ty("s"), Ty("b"), Ty("a")


class Var:
    def __init__(m, name, ty, local, const=False):
        m.name, m.ty, m.local, m.const = name, ty, local, const


_join_cache = {}


def can_join(a, b):
    k = (a, b)
    r = _join_cache.get(k)
    if r is None:
        try:
            ts = plua.lex(a + b)
            r = len(ts) == 3 and ts[0].s == a and ts[1].s == b
        except (plua.LuaErr, ValueError):
            r = False
        # what the (stricter) real lexer calls a malformed number
        if r and a[0] in "0123456789." and a not in ("...", "..", ".") and (b[0] in ".xXbB" or plua.is_id_char(b[0])):
            r = False
        if len(_join_cache) < 200000:
            _join_cache[k] = r
    return r


COMMENTS = ["-- note", "--[[ multi\nline ]]", "--[==[ deep ]] ]==]", "// slashes", "--", "--[[]]", "-- if x then", "--[[ \"q ]]",
            "-- \x80\x97 smile", "--todo: a=1"]
ICOMMENTS = ["--[[c]]", "--[[ a,b=1 ]]", "--[[]]", "--[=[ ]] ]=]"]


def render(atoms, rng, style=None):
    """style: None -> pick. 0 = tidy lines, 1 = dense, 2 = wild"""
    if style is None:
        style = rng.choice([0, 0, 1, 2, 2])
    out = []
    prev = None
    lock = 0
    pend_nl = False
    R = rng.random
    for at in atoms:
        if at == LOCK:
            lock += 1
            continue
        if at == UNLOCK:
            lock -= 1
            continue
        if at == NL:
            pend_nl = True
            continue
        sep = ""
        if pend_nl:
            if style == 2 and R() < 0.15:
                sep = " " + rng.choice(["-- eol", "// eol2", "--[[x]]"]) + "\n"
            elif style == 2 and R() < .1:
                sep = "\r\n"
            else:
                sep = "\n"
            if style == 0:
                sep += "  " * rng.randrange(3)
            pend_nl = False
        elif prev is not None:
            need = not can_join(prev, at)
            if style == 1:
                sep = " " if need else ""
            elif style == 0:
                sep = " " if need or R() < 0.5 else ""
            else:
                r = R()
                if r < 0.08 and not lock:
                    sep = rng.choice(["\n", "\n\n", "\r\n", "\n\t", " \n "])
                elif r < 0.12 and not lock:
                    sep = " " + rng.choice(COMMENTS) + "\n"
                elif r < 0.16:
                    sep = " " + rng.choice(ICOMMENTS) + " "
                elif r < 0.4:
                    sep = rng.choice([" ", "  ", "\t"])
                else:
                    sep = " " if need else ""
        out.append(sep)
        out.append(at)
        prev = at
    if pend_nl or R() < .5:
        out.append("\n")
    return "".join(out)


def quote(s, rng, allow_long=True):
    """a literal spelling for the p8 string s"""
    if allow_long and rng.random() < .12 and "\r" not in s and "]" not in s and not s.startswith("\n") and "\0" not in s:
        if rng.random() < .3:
            return "[=[" + s + "]=]"
        if "[[" not in s:
            return "[[" + ("\n" if rng.random() < .2 else "") + s + "]]"
    q = rng.choice("\"'")
    out = []
    for i, c in enumerate(s):
        o = ord(c)
        if c == q:
            out.append("\\" + c)
        elif c == "\\":
            out.append("\\\\")
        elif c == "\n":
            out.append(rng.choice(["\\n", "\\10" if not s[i + 1:i + 2].isdigit() else "\\n"]))
        elif c == "\r":
            out.append("\\r")
        elif c == "\0":
            out.append("\\0" if not s[i + 1:i + 2].isdigit() else "\\000")
        elif rng.random() < .03:
            out.append("\\x%02x" % o)
        elif rng.random() < .03:
            out.append("\\%03d" % o)
        else:
            out.append(c)
    return q + "".join(out) + q


def numlit(rng, small=False):
    r = rng.random()
    if small or r < .45:
        return str(rng.randrange(0, 12))
    if r < .55:
        return str(rng.choice([0, 1, 16, 100, 127, 128, 255, 256, 1000, 4095, 8192, 32767]))
    if r < .7:
        return rng.choice(["0.5", ".5", "1.5", "0.25", "2.75", "0.1", "3.14", "0.0001", "10.01", "1.", "00.5", "7.50"])
    if r < .8:
        return rng.choice(["0x10", "0xff", "0X1F", "0x.8", "0x7fff.ffff", "0x1.4", "0xffff", "0x0.0001", "0x8000"])
    if r < .86:
        return rng.choice(["0b101", "0b1.1", "0b11111111", "0B10"])
    if r < .93:
        return str(rng.randrange(0, 32768))
    return "%d.%d" % (rng.randrange(0, 200), rng.randrange(0, 1000))


def strval(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(["", "a", "foo", "x", "hp", "b", "hello", "a,b,c", "1,2,3", "key", "12", "3.5", "end", "-- no", "]]", "it's", 'say "hi"',
                           "\\", "?", "name", "y", "v"])
    if r < .7:
        return "".join(rng.choice("abcxyz01 _-.,'\"") for _ in range(rng.randrange(1, 8)))
    if r < .85:
        return "".join(chr(rng.randrange(32, 127)) for _ in range(rng.randrange(1, 6)))
    return "".join(chr(rng.choice([rng.randrange(128, 256), rng.randrange(1, 32), 10, 32, 65, 0, 48])) for _ in range(rng.randrange(1, 5)))


class Gen:
    def __init__(m, rng, mode="safe", meta=True, size=None, env=False, many=False, noreorder_meta=False, builtins_over=True):
        m.rng = rng
        m.mode = mode
        m.meta = meta
        m.env = env and mode == "safe"
        m.many = many
        m.scopes = [{}]
        m.globals = {}
        m.infn = 0
        m.loop = 0
        m.depth = 0
        m.labels = 0
        m.budget = size if size is not None else rng.choice([8, 15, 25, 40])
        m.allow_over = builtins_over
        m.over = set()
        m.n_over = 0
        m.fn_depth_loop = []
        m.vararg = False
        m.nsuffix = 0
        m.names = list(NAMES)
        if rng.random() < .35:
            m.names += UNAMES
        if many:
            m.names += ["name%d" % i for i in range(120)]
        rng.shuffle(m.names)
        m.names = m.names[:rng.choice([8, 16, 40, 200])]
        m.varlocals = 0

    # ---- helpers
    def r(m):
        return m.rng.random()

    def pick(m, xs):
        return m.rng.choice(xs)

    def visible(m):
        out = dict(m.globals)
        for s in m.scopes:
            out.update(s)
        return out

    def vars_of(m, k, pred=None, writable=False):
        return [v for v in m.visible().values() if v is not None and v.ty.k == k and (pred is None or pred(v)) and
                not (writable and v.const)]

    def local_count(m):
        return sum(len(s) for s in m.scopes)

    def new_name(m, local=True):
        r = m.r()
        if local and r < .04:
            nm = m.pick(BUILTIN_LOCALS)
        else:
            nm = m.pick(m.names)
        return nm

    def decl_local(m, name, ty, const=False):
        m.scopes[-1][name] = Var(name, ty, True, const)

    def has_builtin(m, nm):
        """can the builtin be called by this name here?"""
        if nm in m.over or nm in m.globals:
            return False
        return not any(nm in s for s in m.scopes)

    def B(m, nm):
        return nm if m.has_builtin(nm) else None

    def push(m):
        m.scopes.append({})

    def pop(m):
        m.scopes.pop()

    # ---- expressions: ('prec', atoms). returns atoms with needed parens by own precedence table
    def paren(m, e):
        return ["("] + e[1] + [")"]

    def sub(m, e, minprec):
        """operand requiring at least minprec"""
        if e[0] < minprec or m.r() < .08:
            return m.paren(e)
        return e[1]

    def num(m, d=0):
        rng = m.rng
        r = m.r()
        if d > 3 or r < .22:
            return (20, [numlit(rng)])
        if r < .5:
            vs = m.vars_of("n")
            if vs:
                return (20, [m.pick(vs).name])
            return (20, [numlit(rng)])
        if r < .56:
            recs = m.vars_of("r", lambda v: any(t.k == "n" for t in v.ty.fields.values()))
            if recs:
                v = m.pick(recs)
                f = m.pick([f for f, t in v.ty.fields.items() if t.k == "n"])
                return (20, m.fieldref(v.name, f))
        if r < .62:
            arrs = m.vars_of("a")
            if arrs:
                v = m.pick(arrs)
                if m.r() < .5:
                    return (12, ["#", v.name])
                return (20, ["(", v.name, "[", str(m.rng.randrange(1, 4)), "]", "or", numlit(m.rng, True), ")"])
        if r < .69:
            c = m.call("n", d)
            if c:
                return c
        if r < .75:
            b = m.builtin_num(d)
            if b:
                return b
        if r < .79:
            x = m.num(d + 1)
            op = m.pick(["-", "-", "~"])
            return (12, [op] + m.sub(x, 12))
        if r < .83:
            # and/or conditional
            c = m.boolean(d + 1)
            a, b = m.num(d + 1), m.num(d + 1)
            return (1, m.sub(c, 3) + ["and"] + m.sub(a, 3) + ["or"] + m.sub(b, 2))
        if r < .86:
            s = m.string(d + 1)
            if s[0] >= 20 and s[1][0][0] not in "\"'[":
                return (12, ["#"] + m.sub(s, 12))
            return (12, ["#"] + (["("] + s[1] + [")"] if s[0] < 12 else s[1]))
        if r < .885:
            vs = m.vars_of("s")
            if vs and m.B("ord"):
                return (1, ["ord", "(", m.pick(vs).name, ")", "or", numlit(m.rng, True)])
        # binary
        op = m.pick(["+", "+", "-", "-", "*", "*", "/", "\\", "%", "^", "&", "|", "^^", "<<", ">>", ">>>", "<<>", ">><", "~"])
        lp, rp = plua.BIN[op]
        a, b = m.num(d + 1), m.num(d + 1)
        if op == "^":
            b = (20, [m.pick(["2", "3", "0", "1"])])
        lowl = lp if lp == rp else lp  # left operand must bind at least as tight as lp
        if op == "^":
            return (13, m.sub(a, 14) + [op] + m.sub(b, 12))
        return (lp, m.sub(a, lp) + [op] + m.sub(b, rp + 1))

    def builtin_num(m, d):
        rng = m.rng
        nm = m.pick(["flr", "ceil", "abs", "min", "max", "mid", "sgn", "sqrt", "tonum", "shl", "shr", "band", "bor", "bxor", "bnot",
                     "lshr", "rotl", "rotr", "cos", "sin", "atan2", "rnd", "btn", "mget", "stat"])
        if not m.B(nm):
            return None
        n = {"flr": 1, "ceil": 1, "abs": 1, "min": 2, "max": 2, "mid": 3, "sgn": 1, "sqrt": 1, "bnot": 1, "cos": 1, "sin": 1, "tonum": 1, "rnd": 1,
             "btn": 1, "stat": 1}.get(nm, 2)
        args = []
        for i in range(n):
            if i:
                args.append(",")
            if nm == "sqrt":
                args += [numlit(rng, True)]
            else:
                args += m.num(d + 1)[1]
        return (20, [nm, "("] + args + [")"])

    def fieldref(m, base, f):
        if m.mode == "safe" and m.r() < .25:
            return [base, "[", quote(f, m.rng), "]"]
        return [base, ".", f]

    def string(m, d=0):
        r = m.r()
        if d > 3 or r < .35:
            return (20, [quote(strval(m.rng), m.rng)])
        if r < .55:
            vs = m.vars_of("s")
            if vs:
                return (20, [m.pick(vs).name])
        if r < .6:
            c = m.call("s", d)
            if c:
                return c
        if r < .65 and m.B("tostr"):
            return (20, ["tostr", "("] + m.num(d + 1)[1] + [")"])
        if r < .72 and m.B("sub"):
            s = m.string(d + 1)
            return (20, ["sub", "("] + s[1] + [",", numlit(m.rng, True)] + ([",", numlit(m.rng, True)] if m.r() < .6 else []) + [")"])
        if r < .76 and m.B("chr"):
            return (20, ["chr", "(", str(m.rng.randrange(32, 120)), ")"])
        if r < .8 and m.B("type"):
            return (20, ["type", "("] + m.any(d + 1)[1] + [")"])
        a = m.string(d + 1) if m.r() < .7 else m.num(d + 1)
        b = m.string(d + 1) if m.r() < .7 else m.num(d + 1)
        return (8, m.sub(a, 9) + [".."] + m.sub(b, 8))

    def boolean(m, d=0):
        r = m.r()
        if d > 3 or r < .12:
            return (20, [m.pick(["true", "false"])])
        if r < .25:
            vs = m.vars_of("b")
            if vs:
                return (20, [m.pick(vs).name])
        if r < .62:
            op = m.pick(["<", ">", "<=", ">=", "==", "~=", "!="])
            if m.r() < .85:
                a, b = m.num(d + 1), m.num(d + 1)
            else:
                a, b = m.string(d + 1), m.string(d + 1)
            return (3, m.sub(a, 4) + [op] + m.sub(b, 4))
        if r < .74:
            x = m.boolean(d + 1)
            return (12, ["not"] + m.sub(x, 12))
        if r < .78:
            c = m.call("b", d)
            if c:
                return c
        if r < .81:
            a, b = m.any(d + 2), m.any(d + 2)
            return (3, m.sub(a, 4) + [m.pick(["==", "~=", "!="])] + m.sub(b, 4))
        op = m.pick(["and", "or"])
        p = 2 if op == "and" else 1
        a, b = m.boolean(d + 1), m.boolean(d + 1)
        return (p, m.sub(a, p) + [op] + m.sub(b, p + 1))

    def any(m, d=0):
        r = m.r()
        if r < .5:
            return m.num(d)
        if r < .75:
            return m.string(d)
        if r < .92:
            return m.boolean(d)
        if r < .96:
            return (20, ["nil"])
        vs = [v for v in m.visible().values() if v is not None]
        if vs:
            return (20, [m.pick(vs).name])
        return m.num(d)

    def of(m, ty, d=0):
        k = ty.k
        if k == "n":
            return m.num(d)
        if k == "s":
            return m.string(d)
        if k == "b":
            return m.boolean(d)
        if k == "a":
            vs = m.vars_of("a")
            if vs and m.r() < .3:
                return (20, [m.pick(vs).name])
            return (20, m.arrlit(d))
        if k == "r":
            return (20, m.reclit(ty, d))
        if k == "f":
            return (0, m.funclit(ty))
        return (20, ["nil"])

    def arrlit(m, d=0):
        n = m.rng.randrange(0, 5)
        out = ["{"]
        for i in range(n):
            out += m.num(d + 2)[1]
            if i < n - 1 or m.r() < .2:
                out += [m.pick([",", ",", ";"])]
        return out + ["}"]

    def reclit(m, ty, d=0):
        out = ["{"]
        items = []
        for f, t in ty.fields.items():
            e = m.of(t, d + 2)[1]
            if m.mode == "safe" and m.r() < .2:
                items.append(["[", quote(f, m.rng, False), "]", "="] + e)
            else:
                items.append([f, "="] + e)
        if m.r() < .15:
            items.insert(m.rng.randrange(len(items) + 1), m.num(d + 2)[1])
        for i, it in enumerate(items):
            out += it
            if i < len(items) - 1 or m.r() < .15:
                out += [m.pick([",", ",", ",", ";"])]
        return out + ["}"]

    def call(m, retk, d):
        fs = m.vars_of("f", lambda v: v.ty.ret.k == retk)
        ms = []
        for v in m.vars_of("r"):
            for f, t in v.ty.fields.items():
                if t.k == "m" and t.ret.k == retk:
                    ms.append((v, f, t))
        if not fs and not ms or d > 2:
            return None
        if ms and (not fs or m.r() < .4):
            v, f, t = m.pick(ms)
            if m.r() < .7:
                return (20, [v.name, ":", f] + m.args(t.args, d))
            return (20, [v.name, ".", f] + m.args([None] + t.args, d, v.name))
        v = m.pick(fs)
        return (20, [v.name] + m.args(v.ty.args, d))

    def args(m, tys, d, selfname=None):
        if len(tys) == 1 and tys[0] is not None and m.r() < .3:
            if tys[0].k == "s":
                return [quote(strval(m.rng), m.rng)]
            if tys[0].k == "a":
                return m.arrlit(d)
        out = ["("]
        for i, t in enumerate(tys):
            if i:
                out.append(",")
            if t is None:
                out.append(selfname)
            else:
                out += m.of(t, d + 1)[1]
        return out + [")"]

    # ---- functions
    def rand_ty(m, scalar=False):
        r = m.r()
        if r < .6:
            return NUM
        if r < .8:
            return STR
        if r < .9 or scalar:
            return BOOL
        return ARR

    def fn_ty(m):
        return Ty("f", args=[m.rand_ty() for _ in range(m.pick([0, 1, 1, 2, 2, 3]))], ret=m.pick([NUM, NUM, STR, BOOL]))

    def funcbody(m, ty, selfty=None, size=None, selfname=None):
        """( params ) body end"""
        save = (m.scopes, m.loop, m.budget, m.vararg, m.fn_depth_loop)
        m.scopes = m.scopes + [{}]
        m.loop = 0
        m.vararg = False
        m.infn += 1
        m.depth += 1
        if selfty is not None:
            m.decl_local("self", selfty)
        params = []
        used = set()
        for t in ty.args:
            nm = m.new_name()
            while nm in used or nm == "self" or nm == "print":
                nm = m.pick(NAMES) + str(m.rng.randrange(9))
            used.add(nm)
            m.decl_local(nm, t)
            params.append(nm)
        atoms = ["("]
        extra = m.r() < .1
        atoms += sum(([p, ","] for p in params), [])
        if extra:
            atoms.append("...")
            m.vararg = True
        elif params:
            atoms.pop()
        atoms.append(")")
        body = m.block(size if size is not None else m.pick([0, 1, 2, 3]), own_scope=False)
        r = m.r()
        ret = ["return"] + m.of(ty.ret, 1)[1]
        if m.r() < .08:
            ret += [","] + m.num(2)[1]
        if m.r() < .1:
            ret.append(";")
        if r < .12:
            c = m.boolean(2)[1]
            body += ["if"] + c + ["then", "return"] + m.of(ty.ret, 2)[1] + ["end"]
        atoms += body + ret + ["end"]
        m.infn -= 1
        m.depth -= 1
        m.scopes, m.loop, m.budget, m.vararg, m.fn_depth_loop = save
        return atoms

    def funclit(m, ty):
        return ["function"] + m.funcbody(ty)

    # ---- statements
    def block(m, n, own_scope=True):
        if own_scope:
            m.push()
        m.depth += 1
        out = []
        for _ in range(n):
            if m.budget <= 0 or m.depth > 7:
                break
            m.budget -= 1
            out += m.stmt()
            if m.r() < .08:
                out.append(";")
            if m.r() < .25:
                out.append(NL)
        m.depth -= 1
        if own_scope:
            m.pop()
        return out

    def program(m):
        out = []
        # some initial globals
        for _ in range(m.rng.randrange(1, 5)):
            out += m.s_global() + [NL]
        n = m.budget
        m.budget = n
        out += m.block(n, own_scope=False)
        # final observation of every scalar global / visible local
        for v in list(m.visible().values()):
            if v is not None and v.ty.k in "nsb":
                out += [NL, "printh", "(", v.name, ")"] if m.B("printh") else []
            elif v is not None and v.ty.k == "a" and m.B("foreach") and m.B("printh"):
                out += [NL, "foreach", "(", v.name, ",", "printh", ")"]
        return out

    def tr(m):
        """an observation statement"""
        r = m.r()
        e = m.any(1)[1]
        if r < .3 and m.B("printh"):
            return ["printh", "("] + e + [")"]
        if r < .4 and m.B("printh"):
            return ["printh", quote(strval(m.rng), m.rng)]
        if r < .65 and m.B("print"):
            return [LOCK, "?"] + strip_nl(e) + ([","] + strip_nl(m.num(2)[1]) if m.r() < .3 else []) + [UNLOCK, NL]
        if r < .8 and m.B("spr"):
            return ["spr", "("] + m.num(1)[1] + [","] + m.num(1)[1] + [")"]
        if m.B("print"):
            return ["print", "("] + e + [")"]
        return ["do", "end"]

    def stmt(m):
        r = m.r()
        if r < .17:
            return m.tr()
        if r < .30:
            return m.s_local()
        if r < .40:
            return m.s_assign()
        if r < .46:
            return m.s_opassign()
        if r < .57:
            return m.s_if()
        if r < .63:
            return m.s_for()
        if r < .67:
            return m.s_while()
        if r < .75:
            return m.s_func()
        if r < .78:
            return m.s_record()
        if r < .80:
            return ["do"] + m.block(m.pick([0, 1, 2, 3])) + ["end"]
        if r < .84:
            return m.s_call()
        if r < .87:
            return m.s_array()
        if r < .89:
            return m.s_goto()
        if r < .91:
            return m.s_vararg()
        if r < .93:
            return m.s_coro()
        if r < .95:
            return m.s_closure()
        if r < .965:
            return m.s_meta()
        if r < .98:
            return m.s_special()
        return m.s_global()

    def s_global(m):
        nm = m.new_name(local=False)
        if any(nm in s for s in m.scopes) or nm == "self":
            return m.tr()
        ty = m.rand_ty()
        # a global keeps one type for the whole program
        if nm in m.globals:
            if m.globals[nm] is None or m.globals[nm].ty.k not in "nsba":
                return m.tr()
            ty = m.globals[nm].ty
        e = m.of(ty)[1]
        if m.infn == 0:
            m.globals[nm] = Var(nm, ty, False)
        elif nm not in m.globals:
            return m.tr()
        return [nm, "="] + e

    def s_local(m):
        rng = m.rng
        if m.local_count() > 90:
            return m.tr()
        r = m.r()
        if r < .55:
            n = 1
        else:
            n = m.pick([2, 2, 3])
        names, tys = [], []
        for _ in range(n):
            names.append(m.new_name())
            tys.append(m.rand_ty())
        if m.r() < .1 and n == 1:
            # no initializer, immediately assigned
            nm = names[0]
            ty = tys[0]
            e = m.of(ty)[1]
            if "print" == nm:
                return m.tr()
            pre = ["local", nm]
            m.decl_local(nm, ty)
            return pre + [nm, "="] + e
        fs = m.vars_of("f")
        es = []
        for i, t in enumerate(tys):
            if i:
                es.append(",")
            es += m.of(t)[1]
        if m.r() < .1:
            es += [","] + m.num(2)[1]  # extra value
        out = ["local"] + sum(([x, ","] for x in names), [])[:-1] + ["="] + es
        for nm, t in zip(names, tys):
            m.decl_local(nm, t)
        if m.r() < .15 and names:
            # redeclare through itself
            nm = names[-1]
            if tys[-1].k == "n":
                out += ["local", nm, "=", nm, "+", "1"]
        return out

    def lvalues(m):
        out = []
        for v in m.visible().values():
            if v is None or v.const:
                continue
            if v.ty.k in "nsba":
                out.append(([v.name], v.ty))
            elif v.ty.k == "r":
                for f, t in v.ty.fields.items():
                    if t.k in "nsb":
                        out.append((m.fieldref(v.name, f), t))
        return out

    def s_assign(m):
        lv = m.lvalues()
        if not lv:
            return m.s_global()
        n = m.pick([1, 1, 1, 1, 2, 3])
        ts = [m.pick(lv) for _ in range(n)]
        ts0 = []
        for t in ts:
            if t[0] not in [x[0] for x in ts0]:
                ts0.append(t)
        ts = ts0
        out = sum((t[0] + [","] for t in ts), [])[:-1] + ["="]
        for i, t in enumerate(ts):
            if i:
                out.append(",")
            out += m.of(t[1])[1]
        # runs of assignments, the food of statement merging
        if m.r() < .35:
            for _ in range(m.rng.randrange(1, 4)):
                t = m.pick(lv)
                out += [m.pick([NL, ";"])] + t[0] + ["="] + m.of(t[1])[1]
        return out

    def s_opassign(m):
        lv = [x for x in m.lvalues() if x[1].k in "ns"]
        if not lv:
            return m.tr()
        t = m.pick(lv)
        if t[1].k == "s":
            if m.r() < .3:
                return t[0] + ["="] + t[0] + [".."] + m.sub(m.string(2), 9)
            return t[0] + ["..="] + m.string(1)[1]
        op = m.pick(["+=", "-=", "*=", "/=", "\\=", "%=", "|=", "&=", "^^=", "<<=", ">>=", ">>>=", "<<>=", ">><="])
        if m.r() < .25:
            return t[0] + ["="] + t[0] + [op[:-1]] + m.sub(m.num(2), 12)
        return t[0] + [op] + m.num(1)[1]

    def simple_stmt(m):
        """something that may sit in a shorthand body: no newline inside"""
        r = m.r()
        if r < .35:
            lv = [x for x in m.lvalues() if x[1].k in "nsb"]
            if lv:
                t = m.pick(lv)
                return t[0] + ["="] + strip_nl(m.of(t[1], 2)[1])
        if r < .55:
            lv = [x for x in m.lvalues() if x[1].k == "n"]
            if lv:
                return m.pick(lv)[0] + [m.pick(["+=", "-=", "*="])] + strip_nl(m.num(2)[1])
        if r < .62 and m.loop:
            return ["break"]
        if m.B("printh"):
            return ["printh", "("] + strip_nl(m.any(2)[1]) + [")"]
        return ["do", "end"]

    def s_if(m):
        r = m.r()
        c = m.boolean(1)[1]
        if r < .4:
            # shorthand
            n = m.pick([1, 1, 2])
            m.push()
            body = []
            for i in range(n):
                s = m.simple_stmt()
                body += s
                if s == ["break"]:
                    break
            if m.infn and m.r() < .05 and body[-1:] != ["break"]:
                pass
            out = [LOCK, "if", "("] + strip_nl(c) + [")"] + body
            m.pop()
            if m.r() < .3:
                m.push()
                e = m.simple_stmt()
                out += ["else"] + e
                m.pop()
            return out + [UNLOCK, NL]
        out = ["if"] + (["("] + c + [")"] if m.r() < .3 else c) + ["then"] + m.block(m.pick([0, 1, 1, 2, 3]))
        if m.loop and m.r() < .15:
            out += ["break"]
        while m.r() < .2:
            out += ["elseif"] + m.boolean(1)[1] + ["then"] + m.block(m.pick([0, 1, 2]))
        if m.r() < .4:
            out += ["else"] + m.block(m.pick([0, 1, 1, 2]))
        return out + ["end"]

    def s_for(m):
        r = m.r()
        if m.loop >= 2:
            return m.tr()
        if r < .06 and m.B("printh"):
            return m.s_for_iter()
        m.loop += 1
        m.push()
        if r < .5:
            nm = m.new_name()
            if nm == "print":
                nm = "i"
            a, b = m.rng.randrange(0, 4), m.rng.randrange(0, 6)
            hdr = ["for", nm, "=", str(a), ",", str(b)]
            if m.r() < .35:
                hdr += [","] + m.pick([["1"], ["2"], ["-", "1"], [".5"], ["-", "0.5"], ["0x.8"]])
                if hdr[-2] == "-":
                    hdr[3], hdr[5] = hdr[5], hdr[3]
            m.decl_local(nm, NUM)
            out = hdr + ["do"] + m.block(m.pick([1, 1, 2, 3]))
        else:
            arrs = m.vars_of("a")
            src = [m.pick(arrs).name] if arrs and m.r() < .7 else m.arrlit(1)
            if m.r() < .4 and m.B("all"):
                v = m.new_name()
                if v == "print":
                    v = "v"
                out = ["for", v, "in", "all", "("] + src + [")", "do"]
                m.decl_local(v, NUM)
            elif m.B("ipairs"):
                k, v = m.new_name(), m.new_name()
                if k == v or "print" in (k, v):
                    k, v = "k", "v"
                fnm = "ipairs"
                out = ["for", k, ",", v, "in", fnm, "("] + src + [")", "do"]
                m.decl_local(k, NUM)
                m.decl_local(v, NUM)
            else:
                m.pop()
                m.loop -= 1
                return m.tr()
            # don't grow the array being walked
            hide = [x.name for x in arrs]
            sc = {h: None for h in hide if h not in m.scopes[-1]}
            m.scopes.append(sc)
            out += m.block(m.pick([1, 2, 2]))
            m.scopes.pop()
        m.pop()
        m.loop -= 1
        return out + ["end"]

    def s_for_iter(m):
        """generic for over a custom iterator which tells the state & control value it's given (parentheses cut multiple results)"""
        call = ["itf", "(", m.pick(["1", "2"]), ")"]
        src = m.pick([call, ["("] + call + [")"], ["("] + call + [")"], ["(", "("] + call + [")", ")"], ["("] + call + [")", ",", "5"],
                      ["("] + call + [")", ",", "5", ",", "6"], ["("] + call + [")", ",", "(", "itg", "(", ")", ")"],
                      ["("] + call + [")", ",", "itg", "(", ")"], call + [",", "5"]])
        tgt = m.pick([["ia"], ["ia"], ["ia", ",", "ib"], ["ia", ",", "ib", ",", "ic"]])
        out = ["do", "local", "function", "itf", "(", "k", ")", "return", "function", "(", "st", ",", "ct", ")", "if", "k", ">", "0", "then", "k", "-=", "1",
               "printh", "(", "(", "ct", "or", "'-'", ")", "..", "':'", "..", "(", "st", "or", "'-'", ")", ")", "return", "k", ",", "k", "*", "2", ",", "3", "end", "end",
               ",", "7", ",", "8", "end", "local", "function", "itg", "(", ")", "return", "1", ",", "2", "end",
               "for"] + tgt + ["in"] + src + ["do"]
        for t in tgt:
            if t != ",":
                out += ["printh", "(", t, ")"]
        return out + ["end", "end"]

    def s_while(m):
        if m.loop >= 2:
            return m.tr()
        nm = "cnt" + str(m.rng.randrange(4))
        if any(nm in s for s in m.scopes):
            return m.tr()
        m.push()
        m.decl_local(nm, NUM, const=True)
        m.loop += 1
        n = str(m.rng.randrange(1, 4))
        r = m.r()
        if r < .4:
            out = ["do", "local", nm, "=", n, "while", nm, ">", "0", "do", nm, "-=", "1"] + m.block(m.pick([1, 2])) + ["end", "end"]
        elif r < .6:
            s = m.simple_stmt()
            out = ["do", "local", nm, "=", n, NL, LOCK, "while", "(", nm, ">", "0", ")", nm, "-=", "1"] + ([";"] if s[0] == "(" else []) + s + [UNLOCK, NL, "end"]
        else:
            loc = m.new_name()
            if loc == "print" or loc == nm:
                loc = "q"
            m.push()
            m.decl_local(loc, NUM)
            b = m.block(m.pick([0, 1, 2]), own_scope=False)
            # a `break` or goto in front of the local keeps validity: body locals come first
            out = ["do", "local", nm, "=", n, "repeat", nm, "-=", "1", "local", loc, "="] + m.num(2)[1] + b + \
                  ["until", nm, "<=", "0", "or", loc, "==", numlit(m.rng, True), "and", nm, "<", "2", "end"]
            m.pop()
        m.loop -= 1
        m.pop()
        return out

    def s_func(m):
        if m.depth > 4:
            return m.tr()
        ty = m.fn_ty()
        nm = m.new_name()
        if nm in ("print",):
            nm = "fn"
        r = m.r()
        if r < .4 and m.local_count() < 90:
            # `local function`: itself is visible in the body but must not be called unboundedly
            m.scopes.append({nm: None})
            body = m.funcbody(ty)
            m.scopes.pop()
            m.decl_local(nm, ty)
            return ["local", "function", nm] + body
        if r < .55 and m.local_count() < 90:
            body = m.funcbody(ty)
            m.decl_local(nm, ty)
            return ["local", nm, "=", "function"] + body
        if m.infn or any(nm in s for s in m.scopes) or (nm in m.globals):
            return m.tr()
        if nm in BUILTINS_USED:
            nm += "_"
        m.globals[nm] = None
        body = m.funcbody(ty)
        m.globals[nm] = Var(nm, ty, False)
        if m.r() < .7:
            return ["function", nm] + body
        return [nm, "=", "function"] + body

    def s_record(m):
        if m.local_count() > 90:
            return m.tr()
        fields = {}
        for _ in range(m.rng.randrange(1, 5)):
            fields[m.pick(MEMBERS)] = m.rand_ty(True)
        ty = Ty("r", fields=fields)
        nm = m.new_name()
        if nm in ("print", "self"):
            nm = "rec"
        e = m.reclit(ty, 1)
        if m.r() < .6 or m.infn or any(nm in s for s in m.scopes) or nm in m.globals or nm in BUILTINS_USED:
            m.decl_local(nm, ty)
            out = ["local", nm, "="] + e
        else:
            m.globals[nm] = Var(nm, ty, False)
            out = [nm, "="] + e
        # methods
        for _ in range(m.pick([0, 0, 1, 2])):
            f = m.pick(MEMBERS) + "_m"
            ft = m.fn_ty()
            base = Ty("r", fields={k: v for k, v in fields.items() if v.k in "nsb"})
            if m.r() < .5:
                out += [NL, "function", nm, ":", f] + m.funcbody(ft, base)
            else:
                b = m.funcbody(Ty("f", args=[], ret=ft.ret), None)
                # explicit self parameter
                out += [NL, "function", nm, ".", f]
                out += m.method_explicit(ft, base)
            fields[f] = Ty("m", args=ft.args, ret=ft.ret)
        # key enumeration: only legal when keys aren't renamed
        if m.mode == "safe" and m.r() < .5 and m.B("pairs") and m.B("printh") and m.B("ord"):
            out += [NL, "do", "local", "acc", "=", "0", "for", "kk", ",", "vv", "in", "pairs", "(", nm, ")", "do",
                    "for", "ii", "=", "1", ",", "#", "(", "kk", "..", "''", ")", "do", "acc", "+=", "ord", "(", "kk", "..", "''", ",", "ii", ")",
                    "*", "ii", "end", "end", "printh", "(", "acc", ")", "end"]
        return out

    def method_explicit(m, ft, base):
        save = m.scopes
        body = m.funcbody(ft, base)
        m.scopes = save
        # body starts with "(" params ")"
        if body[1] == ")":
            return ["(", "self"] + body[1:]
        return ["(", "self", ","] + body[1:]

    def s_call(m):
        for k in m.rng.sample(["n", "s", "b"], 3):
            c = m.call(k, 1)
            if c:
                if c[1][0] == "(":
                    return [";"] + c[1]
                return c[1]
        return m.tr()

    def s_array(m):
        arrs = m.vars_of("a")
        if not arrs:
            return m.s_local()
        v = m.pick(arrs).name
        r = m.r()
        if r < .35 and m.B("add"):
            return ["add", "(", v, ","] + m.num(1)[1] + [")"]
        if r < .5 and m.B("deli"):
            return ["deli", "(", v] + ([",", "1"] if m.r() < .5 else []) + [")"]
        if r < .7:
            return [v, "[", "#", v, "+", "1", "]", "="] + m.num(1)[1]
        if r < .85 and m.B("foreach"):
            return ["foreach", "(", v, ",", "function"] + m.funcbody(Ty("f", args=[NUM], ret=NUM), size=1) + [")"]
        return [v, "[", "1", "]", "="] + m.num(1)[1]

    def s_goto(m):
        m.labels += 1
        lab = m.pick(["continue", "skip", "top", "a", "x"]) + (str(m.labels))
        r = m.r()
        if r < .5 and m.loop < 2:
            m.loop += 1
            m.push()
            m.decl_local("gi", NUM)
            b = ["for", "gi", "=", "1", ",", str(m.rng.randrange(1, 5)), "do", "do", "if"] + m.boolean(2)[1] + ["then", "goto", lab, "end"] + \
                m.block(m.pick([1, 2])) + ["end", "::", lab, "::", "end"]
            m.pop()
            m.loop -= 1
            return b
        return ["do"] + [LOCK, "if", "("] + strip_nl(m.boolean(2)[1]) + [")", "goto", lab, UNLOCK, NL] + \
            ["do"] + m.block(m.pick([1, 2])) + ["end", "::", lab, "::"] + ["end"]

    def s_vararg(m):
        if m.infn or not m.B("select") or not m.B("pack") or not m.B("unpack") or not m.B("printh"):
            return m.tr()
        nm = m.new_name()
        if any(nm in s for s in m.scopes) or nm in m.globals or nm in BUILTINS_USED:
            return m.tr()
        m.globals[nm] = None
        r = m.r()
        a = ["function", nm, "(", m.pick(["q", "_p"]), ",", "...", ")", "local", "w", ",", "z", "=", "...", NL]
        a += m.pick([
            ["return", "select", "(", "\"#\"", ",", "...", ")", ",", "..."],
            ["local", "pk", "=", "pack", "(", "...", ")", "return", "unpack", "(", "pk", ")"],
            ["return", "(", "...", ")", ",", "w", ",", "z"],
            ["return", "{", "...", "}", "[", "2", "]", ",", "..."] if False else ["return", "w", ",", "z", ",", "..."],
            ["local", "tb", "=", "{", "n", "=", "1", ",", "...", "}", "return", "#", "tb", ",", "tb", ".", "n"],
        ]) + ["end", NL]
        call = [nm, "(", numlit(m.rng, True)] + sum(([","] + m.num(2)[1] for _ in range(m.rng.randrange(0, 4))), []) + [")"]
        m.globals[nm] = None
        r = m.r()
        if r < .4:
            a += ["printh", "("] + call + [")"]
        elif r < .6:
            a += ["printh", "("] + ["("] + call + [")"] + [")"]
        elif r < .8:
            a += ["printh", "("] + call + [",", "1", ")"]
        else:
            a += ["do", "local", "r1", ",", "r2", ",", "r3", "="] + call + ["printh", "(", "r1", ",", "r2", ",", "r3", ")", "end"]
        return a

    def s_coro(m):
        if not (m.B("cocreate") and m.B("coresume") and m.B("yield") and m.B("printh") and m.B("costatus")) or m.depth > 4 or m.loop > 1:
            return m.tr()
        m.push()
        m.decl_local("cv", NUM)
        save = m.loop
        m.loop = 0
        m.infn += 1
        body = m.block(m.pick([1, 2]))
        m.infn -= 1
        m.loop = save
        out = ["do", "local", "co", "=", "cocreate", "(", "function", "(", "cv", ")"] + body + \
              ["local", "got", "=", "yield", "("] + m.num(2)[1] + [")", "printh", "(", "got", ")", "yield", "(", "cv", ",", "got", ")", "end", ")"]
        out += ["for", "ci", "=", "1", ",", "4", "do", "printh", "(", "coresume", "(", "co", ",", "ci", ")", ")", "end",
                "printh", "(", "costatus", "(", "co", ")", ")", "end"]
        m.pop()
        return out

    def s_closure(m):
        if m.depth > 4 or m.loop > 1 or not m.B("printh") or not m.B("add"):
            return m.tr()
        v = m.pick(["i", "a", "x"])
        m.push()
        m.decl_local("fns", Ty("?"))
        m.decl_local(v, NUM)
        ex = m.num(2)[1]
        out = ["do", "local", "fns", "=", "{", "}", "for", v, "=", "1", ",", "3", "do", "local", "up", "=", v, "add", "(", "fns", ",",
               "function", "(", ")", "up", "+="] + ex + ["return", "up", "+", v, "end", ")", "end",
               "for", "fn", "in", "all" if m.B("all") else "pairs", "(", "fns", ")", "do", "printh", "(", "fn", "(", ")", ")",
               "printh", "(", "fn", "(", ")", ")", "end", "end"] if m.B("all") else m.tr()
        m.pop()
        return out

    def s_meta(m):
        if not m.meta or not m.B("setmetatable") or not m.B("printh") or m.infn:
            return m.tr()
        r = m.r()
        side = m.mode == "safe"
        g = [v.name for v in m.vars_of("n") if not v.const]
        ex = m.num(2)[1]
        if r < .25:
            return ["do", "local", "mt", "=", "setmetatable", "(", "{", "q", "=", "2", "}", ",", "{", "__index", "=", "function",
                    "(", "tt", ",", "kk", ")"] + (["printh", "(", m.pick(g), ")"] if side and g else []) + ["return", "7", "end", ",", "__add", "=",
                    "function", "(", "p", ",", "q", ")", "return", "5", "end", "}", ")",
                    "printh", "(", "mt", ".", "q", ")", "printh", "(", "mt", ".", "zz", ")", "printh", "(", "mt", "+", "1", ")", "end"]
        if r < .5:
            return ["do", "local", "cls", "=", "{", "hi", "=", "function", "(", "self", ")", "return", "self", ".", "vv", "end", "}", NL,
                    "cls", ".", "__index", "=", "cls", "local", "ob", "=", "setmetatable", "(", "{", "vv", "="] + ex + ["}", ",", "cls", ")",
                    "printh", "(", "ob", ":", "hi", "(", ")", ")", "end"]
        if r < .75 and side:
            return ["do", "local", "lg", "=", "setmetatable", "(", "{", "}", ",", "{", "__newindex", "=", "function", "(", "tt", ",", "kk", ",", "vv", ")",
                    "printh", "(", "kk", ")", "printh", "(", "vv", ")", "rawset", "(", "tt", ",", "kk", ",", "vv", ")", "end", "}", ")",
                    "lg", ".", "aa", "="] + ex + [NL, "lg", ".", "bb", "="] + m.num(2)[1] + [NL, "lg", ".", "aa", "=", "3", "end"]
        return ["do", "local", "cl", "=", "setmetatable", "(", "{", "}", ",", "{", "__call", "=", "function", "(", "self", ",", "ar", ")", "return",
                "ar", "*", "2", "end", ",", "__len", "=", "function", "(", ")", "return", "9", "end", ",", "__concat", "=", "function", "(", ")",
                "return", "\"cc\"", "end", ",", "__eq", "=", "function", "(", ")", "return", "true", "end", ",", "__unm", "=", "function", "(", ")",
                "return", "4", "end", "}", ")", "printh", "(", "cl", "("] + ex + [")", ")", "printh", "(", "#", "cl", ")",
                "printh", "(", "cl", "..", "\"\"", ")", "printh", "(", "-", "cl", ")", "end"]

    def s_special(m):
        """odd but legal constructs"""
        rng = m.rng
        opts = ["parens", "swap", "nested_return", "strkeys", "overbuiltin", "emptyloops", "selfrec", "multi_eval"]
        if m.env:
            opts += ["env"] * 8
        if m.mode == "safe":
            opts += ["mix", "mix"]
        o = m.pick(opts)
        P = m.B("printh")
        if not P:
            return m.tr()
        if o == "parens":
            fs = m.call("n", 1)
            if fs:
                return ["printh", "(", "(", "("] + fs[1] + [")", ")", ")"]
            return [";", "(", "printh", ")", "(", "("] + m.num(1)[1] + [")", ")"]
        if o == "swap":
            vs = [v.name for v in m.vars_of("n", writable=True)]
            if len(vs) >= 2:
                a, b = rng.sample(vs, 2)
                return [a, ",", b, "=", b, ",", a]
        if o == "nested_return" and m.infn == 0:
            nm = "nr%d" % rng.randrange(99)
            return ["local", "function", nm, "(", "q", ")", "for", "i", "=", "1", ",", "3", "do", "if", "i", "==", "q", "then", "return", "i", ",",
                    "q", "end", "end", "do", "return", "end", "end", "printh", "(", nm, "(", numlit(rng, True), ")", ")"]
        if o == "strkeys" and m.B("pairs"):
            return ["do", "local", "sk", "=", "{", "[", "\"key 1\"", "]", "=", "1", ",", "[", "\"k-2\"", "]", "=", "2", "}",
                    "for", "i", "=", "1", ",", "2", "do", "sk", "[", "\"zz \"", "..", "i", "]", "=", "i", "end",
                    "local", "sm", "=", "0", "for", "kk", ",", "vv", "in", "pairs", "(", "sk", ")", "do", "sm", "+=", "vv", "*", "#", "kk", "end",
                    "printh", "(", "sm", ")", "end"]
        if o == "overbuiltin" and m.allow_over and m.infn == 0 and m.depth <= 1 and m.n_over < 2:
            b = m.pick(["flr", "abs", "max", "ord", "sgn", "ceil", "mid"])
            if m.B(b):
                m.n_over += 1
                m.over.add(b)
                m.globals[b] = Var(b, Ty("f", args=[NUM], ret=NUM), False)
                return ["function", b, "(", "q", ")", "return", "(", "q", "or", "0", ")", "+", "100", "end",
                        "printh", "(", b, "(", "3", ")", ")"]
        if o == "emptyloops":
            return ["for", "i", "=", "1", ",", "0", "do", "end", "while", "false", "do", "end", "repeat", "until", "true",
                    "if", "nil", "then", "else", "end"]
        if o == "selfrec" and m.local_count() < 90:
            nm = "rc%d" % rng.randrange(99)
            return ["local", "function", nm, "(", "n", ")", "if", "n", "<=", "0", "then", "return", "1", "end", "return", "n", "+", nm, "(", "n", "-", "1", ")",
                    "end", "printh", "(", nm, "(", numlit(rng, True), ")", ")"]
        if o == "multi_eval":
            # evaluation order of a list with side effects
            return ["do", "local", "q", "=", "0", "local", "function", "nx", "(", "s", ")", "q", "+=", "1", "printh", "(", "s", "..", "q", ")", "return", "q", "end",
                    "local", "tt", "=", "{", "nx", "'a'", ",", "zz", "=", "nx", "'b'", ",", "nx", "'c'", "}", "local", "u", ",", "w", "=", "nx", "'d'", ",", "nx", "'e'",
                    "tt", "[", "nx", "'f'", "]", "=", "nx", "'g'", "printh", "(", "u", "-", "w", "*", "tt", ".", "zz", ")", "end"]
        if o == "mix":
            f = m.pick(MEMBERS)
            return ["do", "local", "mx", "=", "{", f, "="] + m.num(2)[1] + ["}", "mx", "[", quote(f, rng, False), "]", "+=", "1",
                    "local", "nm", "=", quote(f[:1], rng), "..", quote(f[1:], rng), "printh", "(", "mx", "[", "nm", "]", ")",
                    "printh", "(", "mx", ".", f, ")", "end"]
        if o == "env":
            g = [v for v in m.globals.values() if v is not None and v.ty.k in "ns" and not any(v.name in s for s in m.scopes)]
            ident = [v for v in g if v.name.isascii()]
            r = m.r()
            if ident and r < .25:
                v = m.pick(ident)
                return ["printh", "(", "_ENV", ".", v.name, ")", "printh", "(", "_ENV", "[", quote(v.name, rng, False), "]", ")"]
            if ident and r < .4:
                v = m.pick(ident)
                return ["_ENV", "[", quote(v.name, rng, False), "]", "="] + m.of(v.ty, 2)[1]
            if r < .6:
                return ["do", "local", "pr", "=", "printh", "local", "_ENV", "=", "{", "foo", "=", "3", ",", "x", "=", numlit(rng), "}", "foo", "+=", "x", "pr", "(", "foo", ")",
                        "pr", "(", "_ENV", ".", "x", ")", "pr", "(", "_ENV", "[", "\"foo\"", "]", ")", "end"]
            if r < .8:
                nm = "ef%d" % rng.randrange(99)
                return ["local", "function", nm, "(", "_ENV", ",", "p", ")", "p", "(", "a", ")", "a", "=", "b", "p", "(", "a", ")", "return", "a", "end",
                        "printh", "(", nm, "(", "{", "a", "=", "1", ",", "b", "=", "2", "}", ",", "printh", ")", ")"]
            return ["for", "_ENV", "in", "all", "(", "{", "{", "x", "=", "1", ",", "pr", "=", "printh", "}", ",", "{", "x", "=", "5", ",", "pr", "=", "printh", "}", "}", ")", "do",
                    "x", "+=", "1", "pr", "(", "x", ")", "end"] if m.B("all") else m.tr()
        return m.tr()


def strip_nl(atoms):
    """atoms that may sit on one locked line (no forced newlines, no multi-line literals)"""
    out = []
    for a in atoms:
        if a in (NL, LOCK, UNLOCK):
            continue
        if "\n" in a:
            a = '"l"'
        out.append(a)
    return out


def program(rng, mode="safe", **kw):
    style = kw.pop("style", None)
    g = Gen(rng, mode, **kw)
    atoms = g.program()
    return render(atoms, rng, style)
