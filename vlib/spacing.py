"""Re-spaces programs at random without changing their tokens, and compares structures of programs."""
from . import plua

WORDS = ["note", "it's", 'say "hi"', "a=b", "end", "]", "x -- y", "if (a) b=1", "[[z", "=", "todo: fix", "\\", "// z", "#x", "then"]


def line_comment(rng, slash=True):
    w = rng.choice(WORDS)
    c = rng.choice(["-- " + w, "--" + w.lstrip("["), "--"] + (["//" + w, "// " + w] if slash else []))
    if c.startswith("--[") and plua._long_open(c, 2) is not None:
        c = "-- " + w
    return c


def block_comment(rng, lines):
    eq = "=" * rng.choice([0, 0, 1, 2])
    w = rng.choice(WORDS)
    if lines:
        w = rng.choice([w + "\n" + rng.choice(WORDS), "\n" + w, w + "\n", "\n\n"])
    t = f"--[{eq}[{w}]{eq}]"
    # (a bracket right before the closing one could end it early)
    return t if t.find(f"]{eq}]") == len(t) - len(eq) - 2 else f"--[{eq}[ {lines and chr(10) or ''} ]{eq}]"


def same(toks, a, b):
    """whether the two tokens written side by side still are these two tokens"""
    try:
        l = plua.lex(a.s + b.s)
    except plua.LuaErr:
        return False
    return len(l) == 3 and l[0].s == a.s and l[1].s == b.s and l[0].t == a.t and l[1].t == b.t


def risky_lines(toks):
    """the lines with (possible) shorthands"""
    bad = set()
    for i, t in enumerate(toks[:-1]):
        if t.s == "?" and t.t == "op" or t.t == "kw" and t.s in ("if", "while") and toks[i + 1].s == "(":
            bad.add(t.line)
    return bad


def scramble(rng, src, comments=0.15, slash=True, indent=True, keep_nl=False):
    """the program with random spacing, or None when that isn't possible"""
    p = plua.parse(src)
    toks = p.toks
    risky = risky_lines(toks)
    free = not risky and not keep_nl
    dense = rng.choice([0.1, 0.5, 0.9])     # chance of no space at all where none is needed
    breaks = rng.choice([0, 0.05, 0.4])     # chance of additional line breaks
    out = []
    for i, t in enumerate(toks):
        prev = toks[i - 1] if i else None
        nl = t.nl
        if i and free:
            nl = rng.random() < (0.5 if nl else breaks)
        may_nl = nl or (i and not nl and prev.line not in risky and t.line not in risky and not keep_nl and rng.random() < breaks)
        com = rng.random() < comments
        if t.t == "eof" or nl or may_nl:
            sep = rng.choice(["", "", " ", "\t"]) if i else ""
            if com and (i or not keep_nl or True):
                for _ in range(rng.choice([1, 1, 2, 3])):
                    sep += " " + (block_comment(rng, rng.random() < 0.4) if rng.random() < 0.4 else line_comment(rng, slash) + "\n")
            if "\n" not in sep and (nl and i or rng.random() < 0.8) and t.t != "eof":
                sep += rng.choice(["\n", "\n", "\n\n", "\n\n\n\n"])
            if indent:
                sep += rng.choice(["", " ", "  ", "\t", "      "]) if "\n" in sep else ""
        elif com:
            sep = rng.choice(["", " "]) + " " + block_comment(rng, False) + rng.choice(["", " "])
        elif rng.random() < dense:
            sep = ""
        else:
            sep = rng.choice([" ", " ", "  ", "\t", " \t "])
        if i == 0 and nl and not com and rng.random() < 0.7:
            sep = ""
        if not sep and i and t.t != "eof" and (not same(toks, prev, t) or not slash and prev.t == "num" and t.t in ("name", "kw")):
            sep = " "
        if not sep and prev is not None and prev.s[-1:] in "-/" and t.s[:1] in "-/":
            sep = " "
        out.append(sep + t.s)
    new = "".join(out)
    try:
        q = plua.parse(new)
    except plua.LuaErr:
        return None
    if [(t.t, t.s) for t in q.toks] != [(t.t, t.s) for t in toks] or shape(q) != shape(p):
        return None
    return new


def shape(p):
    """the structure of a parsed program, with nodes identified by token indices"""
    out = []
    for n in plua.walk(p.root):
        out.append((n.k, n.a, getattr(n, "e", None), getattr(n, "short", None), getattr(n, "op", None)))
    return out


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"at {i}: {x!r} became {y!r}"
    return f"{len(a)} became {len(b)}" if len(a) != len(b) else None
