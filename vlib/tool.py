"""Drives the real shrinko code from /repo's working tree, in-process, through its command line."""
import io, os, sys, traceback, shutil, tempfile
from .core import REPO

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for k in ("PICO8_VERSION_ID", "PICO8_PLATFORM_CHAR", "PICO8_VERSION_LATEST_IS_DEFAULT",
          "PICOTRON_RUNTIME_VERSION_ID", "PICO8_EXPORT_REPRO_TIME"):
    os.environ.pop(k, None)
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import shrinko8, shrinkotron  # noqa: E402  (the real tool)


class Result:
    def __init__(m, rc, out, err, exc, outb=b""):
        m.rc, m.out, m.err, m.exc, m.outb = rc, out, err, exc, outb

    @property
    def crashed(m):
        return m.exc is not None

    def brief(m):
        return dict(rc=m.rc, out=m.out[-600:], err=m.err[-600:], exc=m.exc and m.exc[-900:])


class _Out(io.TextIOWrapper):
    def __init__(m):
        m.raw_io = io.BytesIO()
        super().__init__(m.raw_io, encoding="utf8", errors="surrogateescape", newline="\n", write_through=True)

    def close(m):
        pass


def cli(args, stdin=b"", lang="pico8"):
    """run the tool's main() with args, capturing everything. returns Result"""
    mainf = (shrinkotron if lang == "picotron" else shrinko8).main
    so, se, si = sys.stdout, sys.stderr, sys.stdin
    out, err = _Out(), _Out()
    sys.stdout, sys.stderr = out, err
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding="utf8")
    rc, exc = None, None
    cwd = os.getcwd()
    try:
        rc = mainf([str(a) for a in args])
        rc = rc or 0
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        if not isinstance(e.code, (int, type(None))):
            err.write(str(e.code))
    except Exception:
        exc = traceback.format_exc()
        rc = -1
    finally:
        sys.stdout, sys.stderr, sys.stdin = so, se, si
        try:
            if os.getcwd() != cwd:
                os.chdir(cwd)
        except OSError:
            os.chdir(cwd)
    rc = int(rc)
    outb = out.raw_io.getvalue()
    return Result(rc, outb.decode("utf8", "replace"), err.raw_io.getvalue().decode("utf8", "replace"), exc, outb)


class Scratch:
    """a scratch directory, created and removed by the check"""
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None

    def __enter__(m):
        m.dir = tempfile.mkdtemp(prefix="vshrinko-", dir=m.base)
        return m

    def __exit__(m, *_):
        shutil.rmtree(m.dir, ignore_errors=True)

    def path(m, *names):
        return os.path.join(m.dir, *names)

    def write(m, name, data):
        p = m.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf8"))
        return p

    def read(m, name):
        with open(m.path(name), "rb") as f:
            return f.read()

    def exists(m, name):
        return os.path.exists(m.path(name))


# p8 strings: one python char (0..255) per PICO-8 char. conversions through the real tool are
# themselves under test (P24), so here is the independent copy of the published charset.
P8_HIGH = "█▒🐱⬇️░✽●♥☉웃⌂⬅️😐♪🅾️◆…➡️★⧗⬆️ˇ∧❎▤▥あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをんっゃゅょアイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワヲンッャュョ◜◝"
P8_LOW = "\0¹²³⁴⁵⁶⁷⁸\t\nᵇᶜ\rᵉᶠ▮■□⁙⁘‖◀▶「」¥•、。゛゜"


def _charset():
    tab = list(P8_LOW)
    tab += [chr(i) for i in range(0x20, 0x7f)] + ["○"]
    i = 0
    while i < len(P8_HIGH):
        c = P8_HIGH[i]
        i += 1
        if i < len(P8_HIGH) and P8_HIGH[i] == "\ufe0f":
            c += "\ufe0f"
            i += 1
        tab.append(c)
    assert len(tab) == 256, len(tab)
    return tab


CHARSET = _charset()
_REV = {}
for _i, _c in enumerate(CHARSET):
    _REV[_c] = _i


def p8_to_uni(s):
    """p8 string (latin-1 style) -> unicode text as stored in a .p8/.lua file"""
    return "".join(CHARSET[ord(c)] for c in s)


def uni_to_p8(u):
    out = []
    i = 0
    while i < len(u):
        c = u[i]
        i += 1
        if i < len(u) and u[i] == "\ufe0f":
            c += "\ufe0f"
            i += 1
        v = _REV.get(c)
        if v is None:
            v = _REV.get(c.rstrip("\ufe0f"))
        if v is None and ord(c[0]) < 256:
            v = ord(c[0])
        if v is None:
            raise ValueError(f"char {c!r} not in charset")
        out.append(chr(v))
    return "".join(out)
