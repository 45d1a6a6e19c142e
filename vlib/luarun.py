"""Executes PICO-8 Lua in lupaz8 (the z8lua VM: real PICO-8 Lua semantics) and records the trace
of everything the program does that the outside world can see."""
import re
from lupaz8 import luaz8

# functions PICO-8 offers that the bare VM lacks: stubbed with deterministic, traced stand-ins
STUBS = ("btn btnp camera circ circfill clip cls color cursor dget dset fget fillp flip fset line map "
         "memcpy_ menuitem mget mset music oval ovalfill pal palt pget pset rect rectfill reload "
         "sfx sget spr srand sset sspr stat tline time t rnd run extcmd cartdata cstore printh print serial ls "
         "stop reset holdframe tostring").split()

PRELUDE = r"""
local log, n, cap = {}, 0, 4000
local tostr, type, select, rawget, next, rawequal = tostr, type, select, rawget, next, rawequal
local error, setmetatable, sub, ord, chr = error, setmetatable, sub, ord, chr
local function val(v)
  local ty = type(v)
  if ty == "number" then return tostr(v, 1) end
  if ty == "string" then return "\"" .. v .. "\"" end
  if ty == "table" or ty == "function" or ty == "thread" or ty == "userdata" then return ty end
  return tostr(v)
end
local function emit(s) if n < cap then n = n + 1; log[n] = s end end
local function tracer(name, k)
  return function(...)
    local s = name
    for i = 1, select("#", ...) do s = s .. " " .. val((select(i, ...))) end
    emit(s)
    if k then return k(...) end
  end
end
local function pseudo(a, b) return ((type(a) == "number" and a or 3) * 7 + (type(b) == "number" and b or 5)) % 31 end
__LOG = function() return log end
print = tracer("print", function(s) return 4 end)
printh = tracer("printh")
for _, nm in ipairs(__STUBS) do
  if nm ~= "print" and nm ~= "printh" then _ENV[nm] = tracer(nm, pseudo) end
end
local seed = 12345
rnd = function(x)
  seed = (seed * 1103 + 12347) & 0x7fff
  if type(x) == "table" then return x[1 + seed % #x] end
  return (seed / 0x7fff) * (x or 1)
end
stop = function(...) emit("stop") error({}) end
for i = 0x80, 0x99 do _ENV[chr(i)] = i * 257 + 0.5 end
__STUBS, dofile, loadfile, io, os, package, python, require, load, collectgarbage, module = nil
"""

# PICO-8 runs programs inside a chunk that has copied these builtins to locals (so they stay reachable
# when the program replaces _ENV)
LOCALS = ("time sub chr ord tostr tonum add del deli clip color pal palt fillp pget pset sget sset fget fset "
          "circ circfill rect rectfill oval ovalfill line spr sspr mget mset tline peek poke peek2 poke2 peek4 "
          "poke4 memcpy memset max min mid flr ceil cos sin atan2 srand band bor bxor bnot shl shr lshr rotl rotr").split()
LOCALS_LINE = "local " + ",".join(LOCALS) + "=" + ",".join(LOCALS) + "\n"

_ERRLOC = re.compile(r'\[string "[^"]*"\]:\d+:\s*')
_ERRNAME = re.compile(r" ?\((?:local|global|field|upvalue|method|constant|for iterator|string|metamethod) '[^']*'\)| ?(?:local|global|field|upvalue|method|constant) '[^']*'")
STEPS = 50  # units of 10000 VM instructions


class Run:
    __slots__ = ("status", "trace", "err", "globals")

    def __init__(m, status, trace, err):
        m.status, m.trace, m.err = status, trace, err

    def same(m, o):
        return m.status == o.status and m.trace == o.trace and m.err == o.err

    def diff(m, o):
        if m.status != o.status:
            return f"status {m.status} ({m.err}) vs {o.status} ({o.err})"
        for i, (a, b) in enumerate(zip(m.trace, o.trace)):
            if a != b:
                return f"event {i}: {a!r} vs {b!r}"
        if len(m.trace) != len(o.trace):
            return f"trace length {len(m.trace)} vs {len(o.trace)}"
        if m.err != o.err:
            return f"error {m.err!r} vs {o.err!r}"
        return None


def _runtime():
    return luaz8.LuaRuntime(encoding="latin-1", source_encoding="latin-1", overflow_handler=True,
                            unpack_returned_tuples=True)


_local_stubs = None


def norm_err(s):
    s = s.split("\nstack traceback")[0]
    s = _ERRLOC.sub("", s)
    s = _ERRNAME.sub("", s)
    s = re.sub(r"\((a \w+ value)\)", r"\1", s)
    return s


def run(code, steps=STEPS, post=None, pre=None):
    """-> Run(status in ok|error|syntax|limit, trace, err)"""
    rt = _runtime()
    g = rt.globals()
    g["__STUBS"] = rt.table_from(list(STUBS))
    sethook = rt.eval("debug.sethook")
    rt.execute(PRELUDE)
    getlog = g["__LOG"]
    g["__LOG"] = None
    g["debug"] = None
    if pre:
        rt.execute(pre)
    try:
        fn = rt.compile(LOCALS_LINE + code)
    except luaz8.LuaSyntaxError as e:
        return Run("syntax", [], str(e)[:200])
    except luaz8.LuaError as e:
        return Run("syntax", [], str(e)[:200])
    g["__SH"] = sethook
    mk = rt.execute(HOOKED)
    g["__SH"] = None
    try:
        res = mk(fn, steps)
    except luaz8.LuaError as e:
        res = (False, False, str(e))
    except UnicodeError as e:
        res = (False, False, "unicode")
    ok, hit, err = (tuple(res) + (None, None, None))[:3] if isinstance(res, tuple) else (res, None, None)
    log = getlog()
    trace = [log[i] for i in range(1, len(log) + 1)]
    # error messages (as seen through coresume) mention line numbers and variable names
    trace = [norm_err(e) if "attempt to" in e or "[string " in e else e for e in trace]
    if hit or (isinstance(err, str) and "not enough memory" in err):
        return Run("limit", trace, None)
    if ok:
        r = Run("ok", trace, None)
        if post:
            post(rt, r)
        return r
    e = err if isinstance(err, str) else ("<" + type(err).__name__ + ">" if err is not None else "nil")
    return Run("error", trace, norm_err(e))


HOOKED = r"""
local sethook, xpcall, error, cc, co_tab, tostr, type = __SH, xpcall, error, cocreate, coroutine, tostr, type
_ENV.pcall, _ENV.xpcall, _ENV.error = nil
return function(fn, steps)
  local hit = false
  local K = {}
  local left = steps
  local hook = function() left = left - 1 if left <= 0 then hit = true error(K, 0) end end
  local mkco = function(f) local co = cc(f) sethook(co, hook, "", 10000) return co end
  cocreate = mkco
  coroutine = nil
  sethook(hook, "", 10000)
  local ok, err = xpcall(fn, function(e) return e end)
  sethook()
  if type(err) == "table" then err = "<table>" end
  if type(err) == "function" then err = "<function>" end
  if type(err) == "thread" then err = "<thread>" end
  if type(err) == "number" or type(err) == "boolean" then err = "<" .. tostr(err) .. ">" end
  return ok, hit, err
end
"""
