"""Runs the tool's code transformations on one program, through the command line."""
import re
from .tool import cli, Scratch, p8_to_uni, uni_to_p8

HEAD = "pico-8 cartridge // http://www.pico-8.com\nversion %d\n"


def p8_text(code, version=43, sections=""):
    return HEAD % version + "__lua__\n" + p8_to_uni(code) + "\n" + sections


_SECT = re.compile(r"^__[a-z0-9:_]*__\s*$", re.M)


def p8_code(text):
    """the code section of a .p8 file, as a p8 string (None if there is none)"""
    m = re.search(r"^__lua__[ \t]*\r?\n", text, re.M)
    if not m:
        return None
    rest = text[m.end():]
    e = re.search(r"^__(?:gfx|map|gff|sfx|music|label|meta:[^\n]*)__[ \t]*$", rest, re.M)
    if e:
        rest = rest[:e.start()]
    if rest.endswith("\n"):
        rest = rest[:-1]
    return uni_to_p8(rest)


class Tool:
    """a scratch folder in which one program gets transformed in many ways"""

    def __init__(m, src, version=43):
        m.src, m.version = src, version

    def __enter__(m):
        m.s = Scratch().__enter__()
        m.inp = m.s.write("in.p8", p8_text(m.src, m.version))
        m.n = 0
        return m

    def __exit__(m, *a):
        m.s.__exit__(*a)

    def run(m, *args, out=True):
        """-> (Result, code|None)"""
        m.n += 1
        outp = m.s.path(f"o{m.n}.p8")
        r = cli([m.inp] + ([outp] if out else []) + [str(a) for a in args])
        code = None
        if out and m.s.exists(f"o{m.n}.p8"):
            code = p8_code(m.s.read(f"o{m.n}.p8").decode("utf8"))
        return r, code


def transform(src, args, version=43):
    with Tool(src, version) as t:
        return t.run(*args)


FOCI = [[], ["--focus-tokens"], ["--focus-chars"], ["--focus-compressed"], ["--focus-tokens", "--focus-chars"],
        ["--focus-tokens", "--focus-compressed"], ["--focus-chars", "--focus-compressed"]]
NOS = ["rename", "consts", "spaces", "lines", "comments", "tokens", "reorder", "transform"]


def rand_config(rng, safe):
    """a random supported minification configuration"""
    args = ["--minify-safe-only"] if safe else ["--minify"]
    args += rng.choice(FOCI)
    if rng.random() < 0.45:
        for no in rng.sample(NOS, rng.choice([1, 1, 2, 3])):
            args.append("--no-minify-" + no)
            if no == "comments":
                args.append("--no-minify-spaces")
    if not safe:
        for f in ["--rename-safe-only", "--reorder-safe-only", "--builtins-safe-only", "--rename-members-as-globals"]:
            if rng.random() < 0.1:
                args.append(f)
    return list(dict.fromkeys(args))
