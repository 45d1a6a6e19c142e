"""C28: merging and section filters copy exactly the named sections."""
import os, re, sys, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, carts
from vlib.core import Family
from vlib.tool import cli, Scratch
import p21

PROP = "C28"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: carts written by real merges are decoded by independent readers and compared with a section-wise model"
RULE = "a case counts as distinct when the (carts, merges, options) tuple is new and at least one section differs between the carts"
ASSUMPTIONS = ["the shared gfx/map area belongs to the gfx section, as in p8 files", "a merged meta section that the other cart lacks is removed, like a lacking label"]
AREAS = {"gfx": (0, 0x2000), "map": (0x2000, 0x3000), "gff": (0x3000, 0x3100), "music": (0x3100, 0x3200), "sfx": (0x3200, 0x4300)}
METAS = ["title", "foo", "cart_info", "x:y", "x"]
SECTS = ["lua", "gfx", "map", "gff", "sfx", "music", "label"]


def rand_cart(rng, fmt, tag):
    m = p21.Model()
    m.code = p21.rand_code(rng, True) if rng.random() < 0.7 else f"x{tag}=1\n"
    m.rom = carts.rand_rom(rng)
    m.version = 43
    if fmt in ("p8", "png"):
        if rng.random() < 0.7:
            m.label = carts.rand_label(rng)
        m.version = rng.choice([43, 42, 36, 18, 8])
    if fmt == "png":
        m.parts, m.platform = (0, 2, 6, 2), rng.choice("wlm")
    if fmt == "p8":
        for k in rng.sample(METAS, rng.choice([0, 1, 2, 3])):
            m.meta[k] = [f"{tag}{k}{i} \u2665" for i in range(rng.choice([1, 2]))]
    return m


def image(rows):
    return carts.png_encode([[carts.PALETTE[v] + (255,) for v in r] for r in rows])


def put(rng, s, m, fmt, name):
    """writes a cart under a name (the writers of p21 use fixed ones). -> (path, what a reader sees in it)"""
    d = copy.deepcopy(m)
    if fmt in ("label", "spritesheet"):
        rows = [[rng.randrange(32 if fmt == "label" and rng.random() < 0.3 else 16) for _ in range(128)] for _ in range(128)]
        path = s.write(name + ".png", image(rows))
        d = p21.Model()
        if fmt == "label":
            d.label = rows
        else:
            rom = bytearray(d.rom)
            for y in range(128):
                for x in range(64):
                    rom[y * 64 + x] = rows[y][2 * x] | rows[y][2 * x + 1] << 4
            d.rom = bytes(rom)
        return path, d
    path = p21.first_file(rng, s, m, fmt)
    new = os.path.join(os.path.dirname(path), name + os.path.basename(path)[3:])
    os.rename(path, new)
    if fmt != "p8":
        d.meta = {}
    if fmt in ("rom", "lua"):
        d.label = None
        d.version = None
    if fmt == "lua":
        d.rom = carts.default_rom()
    return new, d


def merged(dst, src, sections):
    for x in sections:
        if x == "lua":
            dst.code = src.code
        elif x == "label":
            dst.label = src.label
        elif x in AREAS:
            a, b = AREAS[x]
            dst.rom = dst.rom[:a] + src.rom[a:b] + dst.rom[b:]
        else:
            dst.meta = {k: v for k, v in dst.meta.items() if k != x[5:]}
            if x[5:] in src.meta:
                dst.meta[x[5:]] = src.meta[x[5:]]


def merge(rng, rec):
    fmt = rng.choice(["p8", "p8", "png", "rom"])
    a = rand_cart(rng, fmt, "A")
    with Scratch() as s:
        pa, model = put(rng, s, a, fmt, "a")
        args, key = [pa], []
        refused, label = False, None
        for i in range(rng.choice([1, 1, 2, 3])):
            f = rng.choice(["p8", "p8", "p8", "png", "rom", "lua", "label", "spritesheet"])
            b = rand_cart(rng, f, "BCD"[i])
            pb, mb = put(rng, s, b, f, "bcd"[i])
            sects = rng.sample(SECTS, rng.choice([1, 1, 2, 4, 7]))
            if f == "label":
                sects = ["label"]
            elif f == "spritesheet":
                sects = ["gfx"]
            elif f == "p8" and fmt == "p8" and rng.random() < 0.5:
                sects += ["meta:" + k for k in rng.sample(METAS, rng.choice([1, 2]))]
            if rng.random() < 0.03 and f in ("p8", "png"):
                sects.append(rng.choice(["gfx2", "code", "lable", "", "Lua", "meta"]))
                refused = True
            sep = rng.choice([",", ",", ", "])
            if f == "label" and label is None and rng.random() < 0.5:
                label = mb  # (applied after all merges)
                args += ["--label", pb]
            else:
                args += ["--merge", pb, sep.join(sects)] + ([f] if f in ("label", "spritesheet") or rng.random() < 0.3 else [])
            key.append((f, tuple(sects)))
            for x in sects:
                rec.event("merged " + x.split(":")[0])
            if not refused and mb is not label:
                merged(model, mb, sects)
        to = rng.choice(["p8", "p8", "png", "rom"])
        if label is not None:
            model.label = label.label
        out = s.path("out" + p21.EXT[to])
        osec = None
        args.insert(1, out)
        if to == "p8" and rng.random() < 0.35:
            osec = rng.sample(SECTS + ["meta:" + k for k in METAS], rng.choice([1, 2, 4, 8]))
            args += ["--output-sections", ",".join(osec)]
        if rng.random() < 0.3:
            args.append("--keep-compression")  # (code that was merged was never compressed: nothing to keep)
            rec.event("keep_compression")
        r = cli(args)
        name = os.path.basename(out)
        if refused:
            rec.event("refused")
            if r.crashed or r.rc == 0 or s.exists(name):
                rec.violation("unknown-section", f"merge of {key} wasn't refused cleanly (exit code {r.rc})", args=args, **r.brief())
            return
        if r.crashed or r.rc != 0 or not s.exists(name):
            rec.violation("tool-crash" if r.crashed else "rejected", f"merge of {key} into {fmt} > {to} failed", args=args, **r.brief())
            return
        data = s.read(name)
        try:
            if to == "p8":
                c = carts.read_p8(data.decode("utf8"))
                fields = ["code", "rom", "label", "meta"] + (["version"] if model.version is not None else [])
            elif to == "png":
                c = carts.read_png(data)
                fields = ["code", "rom", "version"]
                if model.version is None:
                    fields.remove("version")
            else:
                c = carts.read_rom(data)
                fields = ["code", "rom"]
        except carts.BadFormat as e:
            rec.violation("format", f"the written {to} is malformed: {e}", args=args)
            return
        if osec is not None:
            bad = set(c.sections) - set(osec)
            if bad:
                rec.violation("output-sections", f"sections {sorted(bad)} were written though only {osec} were asked for", args=args)
                return
            d = carts.default_rom()
            if "lua" not in osec:
                model.code = ""
            if "label" not in osec:
                model.label = None
            for x, (lo, hi) in AREAS.items():
                if x not in osec:
                    model.rom = model.rom[:lo] + d[lo:hi] + model.rom[hi:]
            model.meta = {k: v for k, v in model.meta.items() if "meta:" + k in osec}
            rec.event("output_sections")
        bad = p21.diff(model, c, fields)
        if bad:
            rec.violation("sections", f"{bad}, after merging {key} into {fmt} > {to}{' with output sections ' + str(osec) if osec else ''}"[:400], args=args)
        rec.eval((hash((model.code, model.rom)), tuple(key), to, tuple(osec or ())))
        rec.sample([key, fmt, to, osec])


FAMILIES = [Family("merge", merge, 2200, 60000, need=["merged " + x for x in SECTS + ["meta"]] + ["output_sections", "refused", "keep_compression"])]

if __name__ == "__main__":
    sys.exit(core.main(sys.modules[__name__]))
