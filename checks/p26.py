"""C26: Picotron cart conversions keep every file."""
import fnmatch, io, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, p64, carts
from vlib.core import Family
from vlib.tool import cli, Scratch

PROP = "C26"
LEVEL = "exploration"
LEVEL_NOTE = "chains of up to 4 conversions over sampled file trees, with filters, insertions, merges and extractions in between"
TECHNIQUE = "runtime monitoring: carts written by the real tool are decoded by independent p64/rom/png/directory readers and compared with a model of the file tree"
RULE = "a case counts as distinct when the (files, formats, operations) tuple is new and at least one conversion was carried out"
ASSUMPTIONS = ["--keep-pod-compression is given whenever the cart holds pods (re-encoded pods belong to C27)", "writing a png removes the label files unless --keep-label, reading one without a label file adds label.qoi (as documented)",
               "paths hold no line breaks, and no white space at the ends of a path", "converting to a directory also creates the directories that files need"]
PARTS = ["main", "a", "gfx", "sfx", "lib", "src", "x y", "1", "日本", "é", "data", "UP", "a.b", "_t", ".info", "z-1", "[x]", "{n}", "!no", "q,r"]
EXTS = ["lua", "gfx", "sfx", "pod", "txt", "bin", "map", "", "lua.bak", "PNG"]
LABELS = ("label.png", "label.qoi")


def content(rng):
    k = rng.random()
    if k < 0.25:
        t = "\n".join(rng.choice(["x=1", "print(\"hi\")", "", "  y += 2", "-- é", "::lbl::", ":: no", "[[eoc]]", "b64$abcd", "\tend"]) for _ in range(rng.choice([0, 1, 3, 10])))
        return (t + rng.choice(["", "\n", "\n\n", "\n\n\n"])).encode()
    if k < 0.35:
        return rng.choice([b"b64$", b"b64$AAAA", b"b64$aGk=\nmore", b"b64:AAAA", b":: x\n", b":: [eoc]\n", b"a\n:: [eoc]", b"::", b" :: x", b"picotron cartridge // www.picotron.net\n", b"version 3\n", b"version 3"])
    if k < 0.5:
        return rng.choice([b"a\r\nb\r\n", b"a\rb", b"\r", b"\n", b"\r\n", b"\n\r", b"a\x0bb\x0cc", b"a\x1cb\x1db\x1e", "a\x85b\u2028c\u2029".encode(), b"\x85", b"\xff\xfe", b"\0", b"\x7f", b" ", b"\t", b" x ", b"\n\n", b""])
    if k < 0.7:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 10, 100, 253, 254, 255, 256, 257, 300, 1000])))
    if k < 0.85:
        return (rng.choice([b"--[[pod,modified=\"2024-01-01\",revision=3]]", b"--[[pod]]", b"--[[pod_format=\"raw\",x=1]]"]) + rng.choice([b"{a=1}", b"{1,2,3}", b"", b"x=1\n", b"\xffraw\0"]))
    p = bytes(rng.choice(b"abc \n") for _ in range(rng.choice([4, 20])))
    return p * rng.choice([1, 13, 60, 300])


def name(rng):
    e = rng.choice(EXTS)
    return rng.choice(PARTS) + ("." + e if e else "")


def tree(rng, dirs=True):
    files = {}
    ds = [""]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        d = rng.choice(ds) + rng.choice(PARTS) + "/"
        if d[:-1] not in files:
            ds.append(d)
            files[d] = None
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        f = rng.choice(ds) + name(rng)
        if f + "/" not in files:
            files[f] = content(rng)
    if rng.random() < 0.8:
        files["main.lua"] = rng.choice([b"x=1\n", b"function _draw() cls() end", b"-- hi\nprint(1)\n", b""])
    if rng.random() < 0.15:
        files[".info.pod"] = b'--[[pod,title="t",author="me",version="1",icon=userdata("u8",2,2,"01020304"),created="x"]]'
    if rng.random() < 0.15:
        files[rng.choice(LABELS)] = label(rng)
    if not dirs:
        files = {n: d for n, d in files.items() if d is not None or rng.random() < 0.5}
    return files


_labels = []


def label(rng):
    if not _labels:
        from PIL import Image
        for c in [(8, 16, 24), (240, 80, 0)]:
            f = io.BytesIO()
            Image.new("RGB", (480, 270), c).save(f, "png")
            _labels.append(f.getvalue())
    return rng.choice(_labels)


def parents(files):
    out = dict(files)
    for n in files:
        parts = n.rstrip("/").split("/")
        for i in range(1, len(parts)):
            out.setdefault("/".join(parts[:i]) + "/", None)
    return out


def glob(pats, n):
    """the documented filters: patterns with wildcards, ! excludes"""
    return any(fnmatch.fnmatchcase(n, p) for p in pats if not p.startswith("!")) and not any(fnmatch.fnmatchcase(n, p[1:]) for p in pats if p.startswith("!"))


def rand_filter(rng, files):
    pats = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if k < 0.3:
            p = rng.choice(["*", "*.lua", "*/", "*.pod", "[a-z]*", "?ain.*"])
        elif k < 0.8 and files:
            n = rng.choice(sorted(files))
            p = n if k < 0.5 else n.rstrip("/").split("/")[0] + "/*" if k < 0.65 else "*" + n[len(n) // 2:]
        else:
            p = "nothing*"
        p = re.sub(r"[,; ]", "?", p)
        pats.append(("!" if rng.random() < 0.3 else "") + p)
    if all(p.startswith("!") for p in pats):
        pats.insert(0, "*")
    return pats


def clash(files, add):
    """would a path be both a file and a directory?"""
    a = parents({**files, **add})
    return any(n + "/" in a for n in a if a[n] is not None)


def put(rng, s, files, fmt, nm, version):
    """-> path"""
    if fmt == "p64":
        return s.write(nm + ".p64", p64.write_p64(files, rng, version))
    if fmt == "rom":
        return s.write(nm + ".p64.rom", p64.write_rom(files, rng, version))
    if fmt == "png":
        return s.write(nm + ".p64.png", p64.write_png(files, rng, version))
    path = s.path(nm)
    p64.write_dir(files, path)
    return path


def diff(want, got):
    miss, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
    if miss:
        return "lost-file", f"{miss[:4]} got lost"
    if extra:
        return "extra-file", f"{extra[:4]} were added"
    for n in sorted(want):
        if want[n] != "any" and want[n] != got[n]:
            return "file-contents", f"{n!r} was changed from {want[n]!r:.120} to {got[n]!r:.120}"
    return None


def conv(rng, rec):
    files = tree(rng, rng.random() < 0.8)
    src = rng.choice(["p64", "p64", "rom", "dir"] + (["png"] if rng.random() < 0.3 else []))
    version = rng.choice([1, 2, 2])
    start = dict(files)
    with Scratch() as s:
        path = put(rng, s, files, src, "in", version)
        fmt, key = src, []
        if src == "dir":
            files, version = parents(files), None
        for step in range(rng.choice([1, 2, 2, 3])):
            to = rng.choice(["p64", "p64", "rom", "rom", "dir", "dir"] + (["png"] if rng.random() < 0.25 else []))
            if fmt == "png" and not any(l in files for l in LABELS):
                files["label.qoi"] = "any"
            out = s.path(f"out{step}" + {"p64": ".p64", "rom": ".p64.rom", "png": ".p64.png", "dir": ""}[to])
            args = [path, out] + (["-f", "dir"] if to == "dir" else ["-f", to] if rng.random() < 0.3 else [])
            if fmt == "dir" and rng.random() < 0.3:
                args += ["--input-format", "dir"]
            args.append("--keep-pod-compression")
            op = rng.choice(["", "", "filter", "insert", "insertdir", "merge", "list"])
            what = f"{fmt} > {to} {op}"
            if op == "list":
                r = cli([path, "--list"], lang="picotron")
                if r.crashed or r.rc or sorted(r.outb.decode("utf8", "surrogateescape").split("\n")[:-1]) != sorted(files):
                    rec.violation("list", f"{what}: --list doesn't show the files", args=[path, "--list"], files=sorted(files), **r.brief())
                    return
                rec.event("list")
            elif op == "insert":
                d = content(rng)
                base = name(rng)
                ip = s.write(f"ins{step}/{base}", d)
                if rng.random() < 0.3:
                    at, args = base, args + ["--insert", ip]
                elif rng.random() < 0.4:
                    dn = "/".join(rng.sample(PARTS, 1)) + "/"
                    at, args = dn + base, args + ["--insert", ip, dn]
                else:
                    at = rng.choice(["", "q/", "gfx/", "n/m/"]) + name(rng)
                    args = args + ["--insert", ip, at]
                if at + "/" in parents(files) or any(n in files for n in [at[:i] for i in range(len(at)) if at[i] == "/"]):
                    continue
                add = parents({at: d})
                for n in add:
                    if n == at or n not in files:
                        files[n] = add[n]
            elif op == "insertdir":
                sub = parents(tree(rng))
                p64.write_dir(sub, s.path(f"insd{step}"))
                at = rng.choice(["ins", "ins/deep", "gfx", ".", "/", "insx/"])
                pre = "" if at in "./" else at.rstrip("/") + "/"
                add = {pre + n: d for n, d in sub.items()}
                if pre:
                    add[pre] = None
                args += ["--insert", s.path(f"insd{step}"), at]
                if rng.random() < 0.4:
                    pats = rand_filter(rng, add)
                    args.append(",".join(pats))
                    add = {n: d for n, d in add.items() if glob(pats, n)}
                add = parents(add)
                if clash(files, add):
                    continue
                files.update(add)
            elif op == "merge":
                other = tree(rng)
                of = rng.choice(["p64", "rom", "dir"])
                op_ = put(rng, s, other, of, f"other{step}", 2)
                if of == "dir":
                    other = parents(other)
                args += ["--merge", op_]
                if rng.random() < 0.8:
                    pats = rand_filter(rng, other)
                    args.append(",".join(pats))
                    if rng.random() < 0.3:
                        args.append(of)
                    other = {n: d for n, d in other.items() if glob(pats, n)}
                other = parents(other)
                if clash(files, other):
                    continue
                files.update(other)
            elif op == "filter":
                pats = rand_filter(rng, files)
                args += ["--filter", ",".join(pats)]
                files = {n: d for n, d in files.items() if glob(pats, n)}
            if op and op != "list":
                rec.event(op)
            dele = to == "png"
            if rng.random() < 0.3:
                dele = rng.random() < 0.5
                args.append("--delete-label" if dele else "--keep-label")
            if dele:
                files = {n: d for n, d in files.items() if n not in LABELS}
            if to != "png" and rng.random() < 0.1:
                args.append("--avoid-base64")
            if to in ("rom", "png") and rng.random() < 0.3:
                args.append("--fast-compression")
            r = cli(args, lang="picotron")
            if r.crashed or r.rc or not os.path.exists(out):
                rec.violation("tool-crash" if r.crashed else "rejected", f"{what} failed", args=args, files=repr(files)[:1500], **r.brief())
                return
            ver = version
            try:
                if to == "dir":
                    got, ver = p64.read_dir(out), None
                    files = parents(files)
                else:
                    data = s.read(os.path.basename(out))
                    if to == "p64":
                        got, ver = p64.read_p64(data)
                    elif to == "rom":
                        got, ver, _ = p64.read_rom(data)
                    else:
                        got, ver = p64.read_png(data)
            except carts.BadFormat as e:
                rec.violation("format", f"{what}: the written cart is malformed: {e}", args=args, files=repr(files)[:1500])
                return
            if version is not None and ver is not None and ver != version:
                rec.violation("version", f"{what}: file version {version} became {ver}", args=args)
                return
            bad = diff(files, got)
            if bad:
                rec.violation(bad[0], f"{what}: {bad[1]}", args=args, start=repr(start)[:1500])
                return
            version = ver
            rec.event(f"{fmt} > {to}")
            files, path, fmt = dict(got), out, to
            key.append((to, op))
            rec.event("to " + to)
            rec.event("files", len(files))
        rec.eval((src, tuple(key), hash(tuple(sorted(start.items(), key=lambda x: x[0])))))
        rec.sample([src, key, sorted(start)])


def extract(rng, rec):
    files = tree(rng)
    if not files:
        return
    fmt = rng.choice(["p64", "rom", "dir"])
    if fmt == "dir":
        files = parents(files)
    with Scratch() as s:
        path = put(rng, s, files, fmt, "in", 2)
        cwd = s.path("work")
        os.makedirs(cwd)
        n = rng.choice(sorted(files))
        isdir = files[n] is None
        sub = {m[len(n):]: d for m, d in files.items() if m.startswith(n) and m != n} if isdir else None
        out = "o" + rng.choice(["x", "x.bin", "x.d"])
        into = rng.random() < 0.2 and not isdir
        if into:
            os.makedirs(os.path.join(cwd, out))
        args = [path, "--keep-pod-compression", "--extract", n] + ([os.path.join(cwd, out)] if into or rng.random() < 0.7 else [])
        missing = rng.random() < 0.1
        if missing:
            args[3] = "no/such.file"
        old = os.getcwd()
        os.chdir(cwd)
        try:
            r = cli(args, lang="picotron")
        finally:
            os.chdir(old)
        if missing:
            if r.crashed or r.rc == 0:
                rec.violation("tool-crash" if r.crashed else "extract-missing", f"extracting a missing file wasn't refused (exit code {r.rc})", args=args, **r.brief())
            rec.event("extract missing")
            return
        if r.crashed or r.rc:
            rec.violation("tool-crash" if r.crashed else "rejected", f"extracting {n!r} failed", args=args, **r.brief())
            return
        dest = out if len(args) > 4 else os.path.basename(n.rstrip("/"))
        if into:
            dest = os.path.join(out, os.path.basename(n))
        full = os.path.join(cwd, dest)
        got = p64.read_dir(cwd)
        if isdir:
            want = {dest + "/": None}
            want.update({dest + "/" + m: d for m, d in parents(sub).items()})
        else:
            want = parents({dest: files[n]})
        bad = diff(want, got)
        if bad:
            rec.violation("extract-" + bad[0], f"extracting {n!r}: {bad[1]}", args=args, files=sorted(files))
            return
        rec.event("extract dir" if isdir else "extract file")
        rec.eval((fmt, n, into, hash(str(files))))
        rec.sample([fmt, n])


def contain(rng, rec):
    """carts with hostile paths: whatever happens stays inside of the output directory (all within our scratch directory)"""
    files = tree(rng)
    with Scratch() as s:
        home = s.path("home", "deep")
        os.makedirs(home)
        evil = rng.choice(["../evil.txt", "../../evil.txt", "a/../../evil.txt", "../home2/evil", s.path("abs.txt"), "x/../../deep2/e", "../outx/evil.txt", "sub/../../evil"])
        d = os.path.dirname(evil)
        fs = {**files, evil: b"evil"}
        if rng.random() < 0.7:
            fs.setdefault(d + "/", None)
            for i in range(len(d)):
                if d[i] == "/" and d[:i]:
                    fs.setdefault(d[:i + 1], None)
        path = s.write("in.p64", p64.write_p64(fs, rng))
        out = os.path.join(home, "out")
        mode = rng.choice(["dir", "extract"])
        args = [path, out, "-f", "dir"] if mode == "dir" else [path, "--extract", evil.split("/")[0] + "/" if rng.random() < 0.5 else "/", out]
        before = p64.read_dir(s.dir)
        r = cli(args + ["--keep-pod-compression"], lang="picotron")
        after = p64.read_dir(s.dir)
        esc = [n for n in after if n not in before and not n.startswith("home/deep/out")] + [n for n in after if n.startswith("home/deep/out") and not (n + "/").startswith("home/deep/out/")]
        if esc:
            rec.violation("escape", f"a cart with the path {evil!r} wrote {esc[:3]} outside of the output directory", args=args, **r.brief())
        elif r.crashed:
            rec.violation("tool-crash", f"writing a cart with the path {evil!r} crashed", args=args, **r.brief())
        rec.event("hostile refused" if r.rc else "hostile path ignored")
        rec.eval((evil, mode, hash(str(fs))))


FAMILIES = [Family("convert", conv, 1700, 50000, need=["to p64", "to rom", "to png", "to dir", "filter", "insert", "insertdir", "merge", "list"]),
            Family("extract", extract, 500, 15000, need=["extract dir", "extract file"]),
            Family("contain", contain, 200, 6000, need=["hostile refused"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
