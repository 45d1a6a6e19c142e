"""Compares how names resolve in a program and in its renamed version, token by token."""
from . import plua


class Bad(Exception):
    pass


def special_members(p):
    """token index -> 'env' for members of _ENV and keys of tables directly assigned to _ENV"""
    out = {}
    for n in plua.walk(p.root):
        if n.k == "member" and n.obj.k == "var" and p.toks[n.obj.tok].s == "_ENV":
            out[n.tok] = "env"
        if n.k == "call" and n.method is not None and n.func.k == "var" and p.toks[n.func.tok].s == "_ENV":
            out[n.method] = "env"
        names = []
        if n.k == "local":
            names = [v.name for v in n.vars]
        elif n.k == "assign":
            names = [p.toks[t.tok].s if t.k == "var" else "" for t in n.targets]
        for nm, v in zip(names, n.vals if names else []):
            if nm == "_ENV" and v.k == "table":
                for kind, ni, _ in v.items:
                    if kind == "name":
                        out[ni] = "env"
    return out


def aligned(src, out, lua54=False):
    """-> (parser of src, parser of out); raises Bad unless they only differ in names (and strings)"""
    a = plua.parse(src)
    try:
        b = plua.parse(out, lua54)
    except plua.LuaErr as e:
        raise Bad(f"output does not parse: {e}")
    x, y = a.toks, b.toks
    for i in range(min(len(x), len(y))):
        if x[i].t != y[i].t or x[i].t != "name" and x[i].t != "str" and x[i].s != y[i].s:
            raise Bad(f"token {i}: {x[i].s!r} became {y[i].s!r}")
    if len(x) != len(y):
        raise Bad(f"{len(x)} tokens became {len(y)}")
    return a, b


class OneToOne:
    def __init__(m, what):
        m.what, m.f, m.g = what, {}, {}

    def add(m, a, b, pos=""):
        if m.f.setdefault(a, b) != b:
            raise Bad(f"{m.what} {a!r} became both {m.f[a]!r} and {b!r}{pos}")
        if m.g.setdefault(b, a) != a:
            raise Bad(f"{m.what} {m.g[b]!r} and {a!r} both became {b!r}{pos}")


def check(src, out, builtins, callbacks=(), meta=(), as_globals=False, classify=None, stats=None, lua54=False):
    """raises Bad. classify(i, tok, kind) may return 'keep'|'global'|'member'|None to override a token's kind"""
    a, b = aligned(src, out, lua54)
    lv, gl, mb, lb = OneToOne("local"), OneToOne("global"), OneToOne("member"), OneToOne("label")
    env_members = special_members(a)
    keep = set(builtins) | set(callbacks)
    fresh_g, fresh_m = set(), set()
    for i, t in enumerate(a.toks):
        if t.t != "name":
            continue
        ra, rb = a.refs.get(i), b.refs.get(i)
        o, n = t.s, b.toks[i].s
        pos = f" (at token {i}: {' '.join(x.s for x in a.toks[max(0,i-4):i+4])!r})"
        if ra is None or rb is None:
            raise Bad(f"unresolved name {o!r}{pos}")
        ka, kb = ra[0], rb[0]
        if ka != kb:
            raise Bad(f"{ka} {o!r} became a {kb} {n!r}{pos}")
        if stats:
            stats(ka)
        if ka == "env":
            continue
        if ka == "local":
            lv.add(ra[1], rb[1], pos)
            if (o == "_ENV") != (n == "_ENV"):
                raise Bad(f"local {o!r} became {n!r}{pos}")
            continue
        if ka == "label":
            lb.add(ra[1], rb[1], pos)
            continue
        kind = ka
        if ka == "global":
            # the _ENV it's looked up in must be the same one
            if (ra[1] is None) != (rb[1] is None):
                raise Bad(f"global {o!r} is looked up in another _ENV as {n!r}{pos}")
            if ra[1] is not None:
                lv.add(ra[1], rb[1], pos)
        elif i in env_members or as_globals:
            kind = "global"
        if classify:
            kind = classify(i, t, kind) or kind
        if kind == "keep":
            if o != n:
                raise Bad(f"{ka} {o!r} should have been kept but became {n!r}{pos}")
            (gl if ka == "global" else mb).g.setdefault(n, o)
            continue
        if kind == "global":
            if o in keep and ka == "global" and o != n:
                raise Bad(f"builtin {o!r} became {n!r}{pos}")
            if o != n:
                fresh_g.add(n)
            if ka == "member" and o in meta:
                # (kept as a member)
                if o != n:
                    raise Bad(f"special member {o!r} became {n!r}{pos}")
                continue
            gl.add(o, n, pos)
        else:
            if o in meta and o != n:
                raise Bad(f"special member {o!r} became {n!r}{pos}")
            if o != n:
                fresh_m.add(n)
            mb.add(o, n, pos)
    clash = fresh_g & keep
    if clash:
        raise Bad(f"a global was renamed to {clash.pop()!r}, which has a meaning of its own")
    clash = fresh_m & set(meta)
    if clash:
        raise Bad(f"a member was renamed to {clash.pop()!r}, which has a meaning of its own")
    return a, b, lv, gl, mb, lb
