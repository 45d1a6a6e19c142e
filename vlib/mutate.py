"""Mutations of programs, at the level of tokens and characters."""
from . import plua

PIECES = ["(", ")", "{", "}", "[", "]", ",", ";", ".", ":", "::", "..", "...", "=", "==", "~=", "!=", "+", "-", "*", "/", "\\", "%", "^", "^^", "#", "~", "@", "$", "?", "<<", ">>", ">>>", "<<>", ">><", "&", "|",
          "+=", "-=", "..=", "\\=", "^^=", ">>>=", "and", "or", "not", "if", "then", "else", "elseif", "end", "do", "while", "for", "in", "repeat", "until", "function", "local", "return", "break", "goto",
          "nil", "true", "false", "x", "a.b", "_ENV", "f()", "1", "0x1.8", "'s'", "[[l]]", "\n", " ", "--c\n", "//c\n", "--[[b]]", "--[=[b\n]=]", "if(x)", "if (x) y=1\n", "while(x)", "::l::", "goto l", "a,b=1,2", "local function g() end",
          "function t.a.b:c(...)", "{x=1,[2]=3;4}", "x:m'a'", "f{}", "?1,2\n", "self", "\x80", "0b1.1", "1..2", ".5", "5.", "0x", "0b", "3x", "0x.8", "1e5", "\"\\z  \n\"", "'\\065\\x41'"]
CHARS = "()[]{}.,;:=+-*/\\%^#~@$?<>&|!'\"`_ \n\tax01e\x00\x01\x1e\x80\xff"


def mutate(rng, src):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        try:
            toks = [t for t in plua.lex(src) if t.t != "eof"]
        except plua.LuaErr:
            toks = []
        k = rng.random()
        if not toks or k < 0.12:
            i = rng.randrange(len(src) + 1)
            q = rng.random()
            src = src[:i] + (rng.choice(CHARS) if q < 0.6 else "") + src[i + (q > 0.4):]
            continue
        a = rng.randrange(len(toks))
        t = toks[a]
        if k < 0.3:
            src = src[:t.a] + " " * (rng.random() < 0.8) + src[t.b:]
        elif k < 0.5:
            src = src[:t.a] + " " + rng.choice(PIECES) + " " + src[t.b:]
        elif k < 0.72:
            i = rng.choice([t.a, t.b])
            src = src[:i] + " " + rng.choice(PIECES) + " " + src[i:]
        elif k < 0.8:
            u = rng.choice(toks)
            src = src[:t.a] + " " + src[u.a:u.b] + " " + src[t.b:]
        elif k < 0.87:
            # line structure
            b = toks[a - 1].b if a else 0
            src = src[:b] + rng.choice(["\n", " ", "\n\n", "--c\n", " --[[\n]] ", ";"]) + src[t.a:]
        elif k < 0.93:
            b = min(len(toks) - 1, a + rng.choice([1, 2, 5]))
            src = src[:t.a] + src[toks[b].a:]
        elif k < 0.97:
            b = min(len(toks) - 1, a + rng.choice([1, 2, 5]))
            src = src[:toks[b].a] + src[t.a:toks[b].a] + src[toks[b].a:]
        else:
            src = src[:rng.randrange(len(src) + 1)]
    return src
