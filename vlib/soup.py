"""Scope-stressing programs: syntactically valid, dense in declarations, shadowing, closures, labels.
They are judged by resolving names (vlib.plua), and are not meant to be run."""

BUILTINS_G = ("btn btnp camera circ circfill clip cls color cos cursor del deli add count print printh rnd sin sub split spr sspr rect "
              "foreach all pairs ipairs next type tostr tonum max min mid flr ceil abs sgn sqrt atan2 t time stat peek poke mget mset "
              "map sfx music pal palt pget pset setmetatable getmetatable rawget rawset select unpack pack cocreate coresume yield "
              "assert chr ord menuitem memcpy memset line oval ovalfill fget fset sget sset srand band bor bxor bnot shl shr run stop").split()
CALLBACKS = ["_init", "_update", "_draw", "_update60"]
META = ["__index", "__newindex", "__call", "__add", "__len", "n"]
SHORT = list("abcdefghijklmnopqrsuvwxyz") + ["_", "ab", "aa", "x1", "a0", "b0", "do_", "If", "A", "B"]
LONG = ["player", "enemies", "speed", "update_all", "draw_hud", "position", "health", "my_table", "my_env", "counter", "update_x", "on_hit", "state", "obj_1", "obj_2", "sprite_x", "and_then", "endx"]
P8ID = ["\x80x", "caf\x9a", "\x1ez"]


class Soup:
    def __init__(m, rng, env=True, p8=True, many=False, consts=False, comments=False):
        m.rng, m.env, m.p8, m.comments = rng, env, p8, comments
        pool = SHORT + LONG + (P8ID if p8 and rng.random() < 0.3 else [])
        m.names = rng.sample(pool, rng.choice([4, 10, 25, len(pool)]))
        if rng.random() < 0.4:
            m.names += rng.sample(BUILTINS_G, 3)
        if many:
            m.names += [f"name{i}" for i in range(rng.choice([30, 80, 200]))]
        m.members = rng.sample(SHORT + LONG, rng.choice([3, 10, 25])) + rng.sample(META, rng.choice([0, 2]))
        m.depth, m.loops, m.labels, m.budget, m.vararg = 0, 0, [], rng.choice([30, 80, 250]), [True]
        m.nl = 0

    def nm(m):
        return m.rng.choice(m.names)

    def mem(m):
        return m.rng.choice(m.members)

    def var(m):
        r = m.rng.random()
        if r < 0.78:
            return m.nm()
        if r < 0.9:
            return m.rng.choice(BUILTINS_G)
        if r < 0.93:
            return m.rng.choice(CALLBACKS)
        return m.nm()

    def lval(m, d=1):
        r = m.rng.random()
        if r < 0.6 or d <= 0:
            return m.var()
        if r < 0.85:
            return m.prefix(d - 1) + "." + m.mem()
        return m.prefix(d - 1) + "[ " + m.expr(d - 1) + "]"

    def prefix(m, d):
        r = m.rng.random()
        if m.env and r < 0.06:
            return "_ENV"
        if d <= 0 or r < 0.6:
            return m.var()
        if r < 0.8:
            return m.prefix(d - 1) + "." + m.mem()
        if r < 0.92:
            return m.call(d - 1)
        return "(" + m.expr(d - 1) + ")"

    def call(m, d):
        r = m.rng.random()
        p = m.prefix(d - 1)
        if r < 0.2:
            p += ":" + m.mem()
        if r > 0.9:
            return p + m.rng.choice([m.string(), m.table(d - 1)])
        return p + "(" + ",".join(m.expr(d - 1) for _ in range(m.rng.choice([0, 1, 1, 2]))) + ")"

    def string(m):
        return m.rng.choice(['"x"', '"a b"', "'q'", '""', "[[z]]", '"%s"' % m.rng.choice(LONG)])

    def num(m):
        return m.rng.choice(["0", "1", "5", "10", "0x10", "2.5", "100", ".5", "30"])

    def table(m, d):
        it = []
        for _ in range(m.rng.choice([0, 1, 2, 3])):
            r = m.rng.random()
            it.append(f"{m.mem()}={m.expr(d - 1)}" if r < 0.55 else f"[ {m.expr(d - 1)}]={m.expr(d - 1)}" if r < 0.65 else m.expr(d - 1))
        return "{" + m.rng.choice([",", ";", ", "]).join(it) + m.rng.choice(["", ","] if it else [""]) + "}"

    def expr(m, d=2):
        r = m.rng.random()
        if d <= 0 or r < 0.35:
            r = m.rng.random()
            if r < 0.7:
                return m.var()
            if r < 0.85:
                return m.num()
            if r < 0.92:
                return m.string()
            if r < 0.95 and m.vararg[-1]:
                return "..."
            return m.rng.choice(["nil", "true", "false"])
        if r < 0.45:
            return m.prefix(d)
        if r < 0.55:
            return m.call(d)
        if r < 0.63:
            return m.table(d)
        if r < 0.7 and m.budget > 0:
            return m.func(d)
        if r < 0.76:
            return m.rng.choice(["-", "not ", "#"]) + m.prefix(d - 1)
        return m.expr(d - 1) + " " + m.rng.choice(["+", "-", "*", "/", "..", "==", "~=", "<", "and", "or", "%", "&", "|", "<<"]) + " " + m.expr(d - 1)

    def cond(m):
        e = m.expr(1)
        return "not " + e if e[0] == "(" else e     # ('if (' could start a shorthand)

    def body(m, n=None):
        """statements of one block (own scope)"""
        m.depth += 1
        m.labels.append([])
        out = []
        n = n if n is not None else m.rng.choice([0, 1, 2, 3, 4]) if m.depth > 1 else 10 ** 6
        while n > 0 and m.budget > 0:
            n -= 1
            if m.depth > 5 and m.rng.random() < 0.6:
                break
            out.append(m.stmt())
        last = m.rng.random()
        if m.depth > 1:
            if last < 0.1:
                out.append("return " + m.expr(1) if last < 0.07 else "return")
            elif last < 0.16 and m.loops:
                out.append("break")
        m.labels.pop()
        m.depth -= 1
        return "\n".join(out) + ("\n" if out else "")

    def func(m, d=2, name="function "):
        ps = [m.nm() for _ in range(m.rng.choice([0, 1, 2, 3]))]
        va = m.rng.random() < 0.15
        ll, m.loops, lb = m.loops, 0, m.labels
        m.labels = []
        m.vararg.append(va)
        b = m.body(m.rng.choice([0, 1, 2, 3]))
        m.vararg.pop()
        m.loops, m.labels = ll, lb
        return name + "(" + ",".join(ps + (["..."] if va else [])) + ")\n" + b + "end"

    def names_(m):
        return ",".join(m.nm() for _ in range(m.rng.choice([1, 1, 1, 2, 3])))

    def exprs(m, d=2):
        return ",".join(m.expr(d) for _ in range(m.rng.choice([1, 1, 2])))

    def stmt(m):
        s = m.stmt_()
        if m.comments and m.rng.random() < 0.2:
            s = m.rng.choice(["-- note\n", "--[[c]] ", "--\n"]) + s
        return s

    def stmt_(m):
        m.budget -= 1
        r = m.rng.random()
        rng = m.rng
        if r < 0.2:
            k = rng.random()
            if k < 0.2:
                return "local " + m.names_()
            if m.env and k < 0.25:
                return rng.choice(["local _ENV={" + f"{m.mem()}={m.expr(0)},{m.mem()}={m.expr(1)}" + "}", "local _ENV=" + m.prefix(1)]) if m.depth > 1 else "local _ENV=_ENV"
            return "local " + m.names_() + "=" + m.exprs()
        if r < 0.38:
            if rng.random() < 0.2:
                return m.lval() + rng.choice(["+=", "-=", "..=", "*=", "|="]) + m.expr(1)
            return ",".join(m.lval() for _ in range(rng.choice([1, 1, 1, 2]))) + "=" + m.exprs()
        if r < 0.47:
            c = m.call(2)
            return c if c[0] != "(" else ";" + c
        if r < 0.57:
            k = rng.random()
            if k < 0.35:
                return m.func(name="local function " + m.nm())
            if k < 0.6:
                return m.func(name="function " + m.var())
            return m.func(name="function " + m.var() + "." + m.mem() + (rng.choice(["", ":" + m.mem()])))
        if r < 0.65:
            k = rng.random()
            if k < 0.3 and m.p8:
                return f"if ({m.expr(0)}) {m.lval(0)}={m.expr(0)}\n"
            s = f"if {m.cond()} then\n{m.body()}"
            if rng.random() < 0.25:
                s += f"elseif {m.expr(1)} then\n{m.body()}"
            if rng.random() < 0.35:
                s += f"else\n{m.body()}"
            return s + "end"
        if r < 0.71:
            m.loops += 1
            e1, e2 = m.expr(1), m.expr(1)
            s = f"for {m.nm()}={e1},{e2} do\n{m.body()}end"
            m.loops -= 1
            return s
        if r < 0.77:
            e = m.exprs(1)
            m.loops += 1
            s = f"for {m.names_() if rng.random() < .9 or not m.env else '_ENV'} in {e} do\n{m.body()}end"
            m.loops -= 1
            return s
        if r < 0.82:
            e = m.cond()
            m.loops += 1
            s = f"while {e} do\n{m.body()}end"
            m.loops -= 1
            return s
        if r < 0.88:
            m.loops += 1
            m.labels.append([])
            b = m.body()
            m.labels.pop()
            m.loops -= 1
            if b.rstrip().endswith("break") or "return" in b.rsplit("\n", 2)[-2:][0]:
                b = "do\n" + b + "end\n"
            # (the condition sees the locals of the body)
            return f"repeat\n{b}until {m.expr(1)}"
        if r < 0.94:
            return f"do\n{m.body()}end"
        # labels: a goto to a label of an enclosing block, placed so that it's valid
        m.nl += 1
        l = rng.choice([m.nm(), f"lab{m.nl}"])
        if l in [x for ls in m.labels for x in ls] or not m.p8:
            l = f"lab{m.nl}"
        m.labels[-1].append(l)
        k = rng.random()
        if k < 0.5:
            return f"do\ndo\n{m.body(1)}end\ngoto {l}\nend\ndo\n{m.body(2)}end\n::{l}::"
        return f"::{l}::\ndo\ndo\n{m.body(1)}end\nif {m.expr(0)} then goto {l} end\nend"


def soup(rng, **kw):
    return Soup(rng, **kw).body()
