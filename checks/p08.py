"""C08: kept comments survive minification exactly once."""
import collections, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, luagen, mini, plua, soup, spacing
from vlib.core import Family

PROP = "C08"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: uniquely numbered comments are planted and traced into the output by an independent lexer; the code around is compared with a run without the comments"
RULE = "a case counts as distinct when the (program, options) pair is new and at least one planted comment had to be kept"
ASSUMPTIONS = ["the independent lexer follows PICO-8's comment syntax"]
NO = lambda *xs: ["--no-minify-" + x for x in xs]
TEXTS = ["", " hello", " it's", ' a "b"', " a=b", " end", "]", " x]", "[[z", " -- x", " if (a) b=1", " (c) 2024", " keep:", " $keep:", " \x8b\x91", "=", " then", " \\"]


def comment(rng, i, keep, block, lines):
    """(text to write in the source, text expected in the output)"""
    pre = rng.choice(["$keep:", "$keep:", "keep:"]) if keep else ""
    body = f" id{i};" + rng.choice(TEXTS)
    if not block:
        return f"--{pre}{body}", f"--{body}"
    if lines:
        body += "\n" + rng.choice(TEXTS)
    eq = "=" * rng.choice([0, 0, 1, 2])
    while f"]{eq}]" in body + f"]{eq}]"[:-1]:
        eq += "="
    return f"--[{eq}[{pre}{body}]{eq}]", f"--[{eq}[{body}]{eq}]"


def plant(rng, src, keep, chance, p8):
    """-> (program with comments, same program without, [expected comments in order])"""
    toks = plua.parse(src).toks
    risky = spacing.risky_lines(toks)
    a, b, exp = [], [], []
    for i, t in enumerate(toks):
        gap = src[toks[i - 1].b if i else 0:t.a]
        g2 = gap
        if rng.random() < chance:
            for _ in range(rng.choice([1, 1, 1, 2])):
                k = keep and rng.random() < 0.75
                atend = (t.nl and i) or t.t == "eof"    # (a line ends here anyway)
                block = rng.random() < 0.5 if (atend or i == 0) else True
                prev = toks[i - 1].line if i else 0
                lines = rng.random() < 0.2 and not (prev in risky or t.line in risky)
                c, e = comment(rng, len(exp), k, block, lines)
                if k or not keep:
                    exp.append(e)
                sp = rng.choice(["", " "]) if not (i and toks[i - 1].s in "-/" and toks[i - 1].t == "op" or gap.endswith(("-", "/"))) else " "
                if i and sp == "" and not gap:
                    sp = " "
                if not block:
                    gap = (gap + sp + c + "\n") if rng.random() < 0.5 or not gap.startswith("\n") else sp + c + gap
                else:
                    gap = gap + sp + c if rng.random() < 0.7 or not i else " " + c + gap
                    if not g2:
                        g2 = " "
        a.append(gap + t.s)
        b.append(g2 + t.s)
    return "".join(a), "".join(b)


IDS = re.compile(r" id(\d+);")


def comments_of(code):
    c = []
    plua.lex(code, c)
    out = []
    for _, _, t in c:
        m = IDS.search(t)
        out.append((int(m[1]) if m else None, t))
    return out


def expected_of(new, keep):
    out = []
    for i, t in comments_of(new):
        if keep:
            m = re.match(r"(--\[?=*\[?)(\$?keep:)( id\d+;)", t)
            if not m:
                continue
            t = t.replace(m[2], "", 1)
        out.append((i, t))
    return out


def gen(rng):
    if rng.random() < 0.6:
        return soup.soup(rng, env=False, p8=rng.random() < 0.7)
    return luagen.program(rng, mode="safe", size=rng.choice([10, 30, 60]))


def norm_space(t):
    """comments may be rewritten as block comments or get their lines joined where line breaks cannot stay"""
    m = re.match(r"(?s)--\[(=*)\[(.*)\]\1\]$", t)
    t = m[2] if m else t[2:]
    return re.sub(r"\s+", " ", t)


def case(rng, rec, keep):
    src = gen(rng)
    try:
        new, bare = plant(rng, src, keep, rng.choice([0.02, 0.1, 0.3]), True)
        pa, pb = plua.parse(new), plua.parse(bare)
    except plua.LuaErr as e:
        rec.skip(f"not valid: {str(e)[:20]}")
        return
    if [(t.t, t.s) for t in pa.toks] != [(t.t, t.s) for t in pb.toks] or spacing.shape(pa) != spacing.shape(pb):
        rec.skip("comments changed the program")
        return
    exp = expected_of(new, keep)
    exp_ids = [i for i, _ in exp]
    if len(set(exp_ids)) != len(exp_ids):
        rec.skip("ids clash")
        return
    with mini.Tool(new) as t, mini.Tool(bare) as u:
        for _ in range(3):
            args = [rng.choice(["--minify", "--minify", "--minify-safe-only"])] + rng.choice(mini.FOCI)
            exact = True
            if keep:
                for x in ("rename", "tokens", "lines", "spaces", "consts", "reorder"):
                    if rng.random() < (0.5 if x in ("consts", "reorder") else 0.2):
                        args += NO(x)
            else:
                args += NO("comments", "spaces", "consts", "reorder")
                for x in ("rename", "tokens"):
                    if rng.random() < 0.5:
                        args += NO(x)
            consts, reorder = "--no-minify-consts" not in args, "--no-minify-reorder" not in args
            tokens = "--no-minify-tokens" not in args
            r, code = t.run(*args)
            if r.crashed or r.rc not in (0, 2) or code is None:
                rec.violation("tool-crash" if r.crashed else "rejected", f"valid program refused under {' '.join(args)}", src=new, **r.brief())
                return
            try:
                pc = plua.parse(code)
                got = comments_of(code)
            except plua.LuaErr as e:
                rec.violation("invalid-output", f"{e} under {' '.join(args)}", src=new, out=code, args=args)
                return
            rec.event("comments_expected", len(exp))
            rec.event("mode_%s%s" % ("keep" if keep else "all", "_plain" if not (consts or reorder) else ""))
            rec.eval((new, tuple(args)), nontrivial=bool(exp))
            d = None
            ids = [i for i, _ in got]
            want = dict(exp)
            extra = [x for x in got if x[0] not in want]
            lost = [want[i] for i in exp_ids if i not in ids]
            if extra:
                d = f"comment not to be kept in output: {extra[0][1]!r}"
            elif lost and not consts:
                d = f"comment lost: {lost[0]!r} (of {len(exp)}, {len(lost)} lost)"
            elif len(set(ids)) != len(ids) and not consts and not reorder and not tokens:
                d = f"comment duplicated: {[x for x, n in collections.Counter(ids).items() if n > 1][:3]}"
            elif not reorder and not consts and not tokens and list(dict.fromkeys(ids)) != exp_ids:
                d = "order of comments changed"
            else:
                for i, tx in got:
                    a, b = (tx, want[i]) if keep and not tokens and not reorder and not consts else (norm_space(tx), norm_space(want[i]))
                    if a != b:
                        d = f"text changed: {want[i]!r} became {tx!r}"
                        break
            if d:
                rec.violation("comments", f"under {' '.join(args)}: {d}"[:300], src=new, out=code, args=args)
                return
            # the code around
            r2, code2 = u.run(*args)
            if code2 is not None and not (consts and "--focus-chars" in args):  # (folding depends on the size of what is folded)
                try:
                    q = plua.parse(code2)
                except plua.LuaErr:
                    return
                d = spacing.first_diff([(x.t, x.s) for x in q.toks], [(x.t, x.s) for x in pc.toks])
                if not d and spacing.shape(q) != spacing.shape(pc):
                    d = "structure " + spacing.first_diff(spacing.shape(q), spacing.shape(pc))
                rec.event("code_compared")
                if d:
                    rec.violation("code", f"comments alter the code under {' '.join(args)}: {d}"[:300], src=new, bare=bare, out=code, out2=code2, args=args)
                    return
    rec.sample(new[:300])


def kept(rng, rec):
    case(rng, rec, True)


def all_comments(rng, rec):
    case(rng, rec, False)


FAMILIES = [Family("kept", kept, 700, 40000, need=["comments_expected", "mode_keep_plain", "code_compared"]),
            Family("all", all_comments, 250, 15000, need=["comments_expected", "code_compared"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
