"""C30: reported token, character and compressed-size counts are right."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, carts, luagen, mini, plua, soup
from vlib.core import Family
from vlib.tool import cli, Scratch, p8_to_uni, uni_to_p8

PROP = "C30"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the counts printed by real runs are compared with independent counts of the files read and written"
RULE = "a case counts as distinct when the (program, options, formats) triple is new"
ASSUMPTIONS = ["PICO-8's documented counting: commas, periods, colons, semicolons, closing brackets, end and local are free, and so is a sign right before a numeral unless it follows a value",
               "signs after nil, true, false, ..., ; or end, whose counting isn't documented, are not generated"]
FREE = {",", ".", ":", ";", "::", ")", "]", "}", "end", "local"}


class Unclear(Exception):
    pass


def count_tokens(code):
    toks = [t for t in plua.lex(code) if t.t != "eof"]
    n = 0
    for i, t in enumerate(toks):
        if t.s in FREE and t.t in ("op", "kw", "name"):
            continue
        if t.t == "op" and t.s in "-~" and i + 1 < len(toks) and toks[i + 1].t == "num" and toks[i + 1].a == t.b and i:
            p = toks[i - 1]
            if p.s in ("nil", "true", "false", "...", "end", ";"):
                raise Unclear()
            if not (p.t in ("name", "num", "str") or p.s in (")", "]", "}")):
                continue
        n += 1
    return n


def signs(rng, src):
    """adds signed numerals with various spacing"""
    toks = [t for t in plua.lex(src) if t.t != "eof"]
    out, last = [], 0
    for i, t in enumerate(toks):
        if t.t == "num" and i and rng.random() < 0.35 and toks[i - 1].s not in ("nil", "true", "false", "...", "end", "[", "for") and toks[i - 1].t in ("op", "kw") and toks[i - 1].s not in ("-", "~", "..", "in"):
            s = rng.choice(["-", "- ", "~", "~ ", "-", "- -", "-~", "not -", "x-", "x -", "x- "])
            out.append(src[last:t.a] + " " + s)
            last = t.a
    return "".join(out) + src[last:]


def parse_counts(out, parsable):
    res = {}
    for l in out.split("\n"):
        if parsable:
            m = re.fullmatch(r"count:(None|\w+)?:(\w+):(\d+):(\d+)", l)
            if m:
                key = ("input " if m[1] == "input" else "") + m[2]
                if key in res:
                    return None, f"{key} printed twice"
                res[key] = (int(m[3]), int(m[4]))
        else:
            m = re.fullmatch(r"((?:input )?(?:tokens|chars|compressed)): (\d+) (\d+(?:\.\d+)?)%", l)
            if m:
                if m[1] in res:
                    return None, f"{m[1]} printed twice"
                res[m[1]] = (int(m[2]), float(m[3]))
    return res, None


LIMITS = {"tokens": 8192, "chars": 65535, "compressed": 15616}


def used_size(data, tiny=False):
    return (carts.read_tiny(data) if tiny else carts.read_png(data) if data[:4] == b"\x89PNG" else carts.read_rom(data)).used


def counts(rng, rec):
    k = rng.random()
    src = soup.soup(rng) if k < 0.5 else luagen.program(rng, mode="safe", size=rng.choice([10, 30, 80]))
    if rng.random() < 0.6:
        new = signs(rng, src)
        try:
            plua.parse(new)
            src = new
        except plua.LuaErr:
            pass
    if rng.random() < 0.1:
        src = rng.choice(["", "x=1", "--hi", "?1", "::a::goto a", "a=[[x]]..'y'", "print'x'", "a={-1,~1,- 1}", "return", ";;", "x=a.b:c()"])
    src = src.replace("\r", " ").rstrip("\n")
    fin = rng.choice(["p8", "p8", "p8", "png", "rom", "lua"])
    fout = rng.choice([None, "p8", "p8", "png", "rom", "tiny_rom", "lua"])
    args = []
    mode = rng.random()
    if mode < 0.6:
        args += mini.rand_config(rng, rng.random() < 0.2)
    elif mode < 0.7:
        args.append("--unminify")
    which = rng.choice(["both", "count", "count", "input"])
    if fout is None and which == "input" and mode < 0.7:
        which = "both"
    if which != "input":
        args.append("--count")
    if which != "count":
        args.append("--input-count")
    parsable = rng.random() < 0.5
    if parsable:
        args.append("--parsable-count")
    nocomp, notok = rng.random() < 0.1, rng.random() < 0.1
    if nocomp:
        args.append("--no-count-compress")
    if notok:
        args.append("--no-count-tokenize")
    if rng.random() < 0.2:
        args.append("--fast-compression")
    if rng.random() < 0.15:
        args.append("--old-compression")
    with Scratch() as s:
        p8 = s.write("src.p8", mini.p8_text(src))
        inp = p8
        in_used = None
        if fin in ("png", "rom"):
            inp = s.path("in." + fin)
            r = cli([p8, inp, "--force-compression"])
            if r.rc != 0:
                rec.skip("too big")
                return
            in_used = used_size(s.read("in." + fin))
        elif fin == "lua":
            inp = s.write("in.lua", p8_to_uni(src))
        cmd = [inp] + ([s.path("out." + fout), "--format", fout] if fout else []) + args
        r = cli(cmd)
        if r.crashed or (fout and not s.exists("out." + fout)) or r.rc != 0:
            if "cart is too large" in r.err or "too long" in r.err or "isn't large enough" in r.err or "compressed" in r.err:
                rec.skip("too big")
                return
            rec.violation("tool-crash" if r.crashed else "rejected", f"{cmd[1:]} failed", src=src, args=cmd[1:], **r.brief())
            return
        got, bad = parse_counts(r.out, parsable)
        if bad:
            rec.violation("format", bad, src=src, args=args, out=r.out[-500:])
            return
        # what was really written
        out_code, out_used = None, None
        if fout is None:
            if mode < 0.7:
                cmd2 = [a for a in cmd if a not in ("--count", "--input-count", "--parsable-count", "--no-count-compress", "--no-count-tokenize")] + [s.path("ref.p8")]
                r2 = cli(cmd2)
                out_code = mini.p8_code(s.read("ref.p8").decode("utf8"))
            else:
                out_code = src
        elif fout == "p8":
            out_code = mini.p8_code(s.read("out.p8").decode("utf8"))
        elif fout == "lua":
            out_code = None
            out_code = uni_to_p8(s.read("out.lua").decode("utf8"))
        else:
            data = s.read("out." + fout)
            c = carts.read_tiny(data) if fout == "tiny_rom" else carts.read_png(data) if fout == "png" else carts.read_rom(data)
            out_code = c.code
            if not (fout == "tiny_rom" and data[:4] not in (b"\0pxa", b":c:\0")):   # (tiny roms aren't compressed when that doesn't help)
                out_used = c.used
        want = {}
        try:
            if which != "count":
                src_in = src if fin != "lua" else re.sub(r"\n\Z", "", src)
                want["input chars"] = len(src_in)
                if mode < 0.7 or not notok:
                    want["input tokens"] = count_tokens(src)
                if in_used is not None:
                    want["input compressed"] = in_used
            if which != "input":
                want["chars"] = len(out_code)
                if mode < 0.7 or not notok:
                    want["tokens"] = count_tokens(out_code)
                if out_used is not None:
                    want["compressed"] = out_used
                elif not nocomp or fout == "tiny_rom":
                    s.write("o2.p8", mini.p8_text(out_code))
                    r3 = cli([s.path("o2.p8"), s.path("o2.rom"), "--force-compression"] + [a for a in args if a in ("--fast-compression", "--old-compression")])
                    if r3.rc != 0:
                        rec.skip("too big")
                        return
                    want["compressed"] = used_size(s.read("o2.rom"))
        except Unclear:
            rec.skip("unclear token count")
            return
        if set(got) != set(want):
            rec.violation("printed", f"printed {sorted(got)} instead of {sorted(want)} for {fin} > {fout} {' '.join(args)}", src=src, args=cmd[1:], out=r.out[-400:])
            return
        for kk, v in want.items():
            n, x = got[kk]
            lim = LIMITS[kk.split()[-1]]
            rec.event("counted " + kk)
            if n != v:
                rec.violation("count", f"{kk}: {n} reported, {v} counted, for {fin} > {fout} {' '.join(args)}", src=src, args=cmd[1:], output=out_code, out=r.out[-400:])
                return
            if parsable and x != lim:
                rec.violation("limit", f"{kk}: limit {x} reported instead of {lim}", args=args)
            if not parsable and abs(x - 100 * v / lim) > (0.51 if v / lim < 0.95 else 0.0051):
                rec.violation("percent", f"{kk}: {x}% reported instead of {100 * v / lim:.2f}%", args=args)
    rec.eval((src, tuple(args), fin, fout))
    rec.sample([fin, fout, args, r.out[-200:]])


FAMILIES = [Family("counts", counts, 1600, 50000, need=["counted " + p + x for p in ("", "input ") for x in LIMITS])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
