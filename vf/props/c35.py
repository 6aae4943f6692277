import os
import random
import shutil
import struct
import subprocess

from hypothesis import strategies as st

from .. import core, disk

LOADERS = ("apple2-loader", "apple2-reboot")
PLAIN = ("apple2",)
DOS = ("apple2-dos33",)
TYPES = {"txt": 4, "bin": 6, "bas": 0xfc, "sys": 0xff}
LETTERS = "abcdefghijklmnopqrstuvwxyz"


def data(size, seed, text=False):
    r = random.Random(seed)
    if text:
        return "".join(r.choice("abc XYZ.\n") for _ in range(size)).encode()
    b = bytearray(r.randrange(256) for _ in range(size))
    # blocks of zeros, such as a sparse file leaves out
    for _ in range(r.randrange(3)):
        i = r.randrange(size + 1) & ~511
        b[i:i + 512] = bytes(len(b[i:i + 512]))
    return bytes(b)


SIZE = st.one_of(st.integers(1, 1500), st.sampled_from(
    [1, 2, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]))


@st.composite
def program(draw, start):
    """Sizes of the parts, with their random contents' seeds."""
    low = draw(st.one_of(SIZE, st.integers(1, 0x2000 - start)))
    hgr = draw(st.sampled_from([0, 0, 1, 300, 0x2000]))
    code = draw(st.one_of(st.just(0), SIZE, st.integers(1, 0x7a00),
                          st.sampled_from([0x7aff, 0x7b00])))
    return {"low": [min(low, 0x2000 - start), draw(st.integers(0, 10 ** 6))],
            "hgr": [hgr, draw(st.integers(0, 10 ** 6))],
            "code": [code, draw(st.integers(0, 10 ** 6))]}


@st.composite
def tree(draw, machine):
    """Further files: [path in the tree, size, seed]."""
    out = []
    dirs = [""] if machine in DOS else ["", "", "sub/", "b.dir/", "sub/two/"]
    ext = [".B", ".T", ""] if machine in DOS else \
        ["", ".txt", ".bin", ".bas", ".sys", ".as"]
    room = 30000
    for i in range(draw(st.integers(0, 5))):
        n = min(room, draw(st.one_of(SIZE, st.integers(1, 9000))))
        if n < 1:
            break
        room -= n + 1200
        stem = draw(st.text(LETTERS + "0123456789", max_size=6)) + draw(
            st.sampled_from(["", "", ".v1"]))
        out.append([draw(st.sampled_from(dirs)) + "f%d%s" % (i, stem) +
                    draw(st.sampled_from(ext)), n,
                    draw(st.integers(0, 10 ** 6))])
    return out


@st.composite
def case(draw):
    machine = draw(st.sampled_from(LOADERS[:1] * 4 + LOADERS + PLAIN * 2 +
                                   DOS))
    start = draw(st.sampled_from([0x800, 0x800, 0x803, 0x900, 0xc00, 0x1000,
                                  0x1abc, 0x1f00]))
    return {"machine": machine,
            "start": ("%04X" if draw(st.booleans()) else "%x") % start,
            "name": draw(st.one_of(st.just("iivision"), st.text(
                LETTERS, min_size=1, max_size=18))),
            "builds": draw(st.lists(program(start), min_size=1, max_size=2)),
            "files": draw(tree(machine))}


def source(prog):
    s = []
    for part, seg in (("low", "LOWCODE"), ("hgr", "HGR"), ("code", "CODE")):
        n, seed = prog[part]
        if n:
            s.append('.segment "%s"' % seg)
            d = data(n, seed)
            for i in range(0, n, 64):
                s.append(" .byte " + ",".join(map(str, d[i:i + 64])))
    return "\n".join(s) + "\n"


def image(prog, start):
    """What belongs at `start`."""
    out = data(*prog["low"])
    for part, at in (("hgr", 0x2000), ("code", 0x4000)):
        n, seed = prog[part]
        if n:
            out += bytes(at - start - len(out)) + data(n, seed)
    # the last part begins at $4000 even if it is empty
    return out + bytes(max(0, 0x4000 - start - len(out)))


def applesingle(body, kind, aux):
    info = struct.pack(">HHI", 0xc3, kind, aux)
    return struct.pack(">IIIIIIH", 0x51600, 0x20000, 0, 0, 0, 0, 2) + \
        struct.pack(">III", 11, 50, len(info)) + \
        struct.pack(">III", 1, 50 + len(info), len(body)) + info + body


class C35(core.Prop):
    id = "C35"
    profile = "disk"
    technique = ("generated programmes, names and file trees built into disk "
                 "images, read by independent ProDOS and DOS 3.3 readers; the "
                 "disk's loader is run on a 6502 model")
    rule = ("the player itself, and assembly sources with random contents in "
            "the three parts of memory it uses, up to the last byte below the "
            "system's buffer, built and built again for the machine types and "
            "start addresses of the Makefile, with up to 5 further files in "
            "directories; non-trivial: the programme or a file was longer "
            "than one block")
    budget = {"quick": (30, 50, 8), "thorough": (600, 500, 8)}
    assumptions = (
        "the installed cc65 and Java run the Makefile's tools",
        "ProDOS' calls are modelled: GET_FILE_INFO, OPEN, READ, CLOSE and the "
        "memory in use")

    def enumerate(self, tier):
        for m in LOADERS[:1] + PLAIN + DOS:
            yield {"machine": m, "start": "800", "name": "iivision",
                   "builds": [None], "files": []}
        p = {"low": [0x1800, 1], "hgr": [0x2000, 2], "code": [0x7b00, 3]}
        q = {"low": [100, 4], "hgr": [0, 2], "code": [0, 3]}
        for m in LOADERS:
            yield {"machine": m, "start": "800", "name": "iivision",
                   "builds": [p, q, p], "files": [["a.dir/x", 700, 7]]}
        for n in ("abcdefgh", "abcdefghi"):
            yield {"machine": LOADERS[0], "start": "800", "name": n,
                   "builds": [q], "files": []}
        for n in (15, 16):
            yield {"machine": PLAIN[0], "start": "800",
                   "name": LETTERS[:n], "builds": [q], "files": []}

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        ctx.data["n"] = ctx.data.get("n", 0) + 1
        d = os.path.join(ctx.scratch, "disk%d.%d" % (os.getpid(),
                                                     ctx.data["n"]))
        shutil.copytree(os.path.join(core.REPO, "player"), d,
                        ignore=shutil.ignore_patterns(
                            "*.o", "*.lst", "iivision.*", "iivision", "*.map"))
        try:
            return self.judge(case, ctx, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge(self, case, ctx, d):
        machine, name = case["machine"], case["name"]
        start = int(case["start"], 16)
        for path, size, seed in case["files"]:
            p = os.path.join(d, "extra", path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            body = data(size, seed, path[-4:] in (".txt", ".bas") or
                        path.endswith(".T"))
            if path.endswith(".as"):
                body = applesingle(body, 6, 0x1000 + size)
            with open(p, "wb") as f:
                f.write(body)
        most = 30 if machine in DOS else 15
        fits = len(name) + (7 if machine in LOADERS else 0) <= most
        out = os.path.join(d, name + ".dsk")
        big = False
        tags = {machine}
        for prog in case["builds"]:
            if prog is not None:
                with open(os.path.join(d, "main.s"), "w") as f:
                    f.write(source(prog))
            r = subprocess.run(
                ["make", "PGM=" + name, "MACHINE=" + machine,
                 "START_ADDR=" + case["start"], "CC65_BIN=/usr/bin",
                 "CC65_HOME=/usr/share/cc65", "COPYDIRS=" + (
                     "extra" if case["files"] else "")], cwd=d,
                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, timeout=300,
                env=dict(os.environ, HOME=d, JAVA_TOOL_OPTIONS="-Xshare:auto "
                         "-XX:TieredStopAtLevel=1 -XX:+UseSerialGC"))
            said = r.stdout.decode("latin1")[-1500:]
            if not fits:
                core.check(r.returncode and not os.path.exists(out), "a name "
                           "of %d characters is not refused: %s" % (
                               len(name), said), "long-name")
                return dict(nontrivial=False, tags=tags | {"refused"}, n=1)
            core.check(r.returncode == 0 and os.path.exists(out), "the image "
                       "is not built: " + said, "not-built")
            with open(out, "rb") as f:
                img = f.read()
            if prog is None:
                # what the linker put behind the AppleSingle header
                with open(os.path.join(d, name), "rb") as f:
                    want = f.read()[0x3a:]
                tags.add("player")
            else:
                want = image(prog, start)
            big = big or len(want) > 512
            if machine in DOS:
                self.dos(case, img, name, start, want)
            else:
                self.prodos(case, ctx, img, name, start, want)
        return dict(nontrivial=big or any(f[1] > 512 for f in case["files"]),
                    tags=tags, n=len(case["builds"]))

    def same(self, got, want, what):
        core.check(len(got) == len(want), "%s has %d bytes on the disk instead "
                   "of %d" % (what, len(got), len(want)), "contents")
        for i in range(len(want)):
            core.check(got[i] == want[i], "byte %d of %s is $%02x on the disk "
                       "instead of $%02x" % (i, what, got[i], want[i]),
                       "contents")

    def expected(self, case):
        """{path in capitals: (type, aux, data)} of the further files."""
        out = {}
        for path, size, seed in case["files"]:
            stem, ext = path, ""
            for e in list(TYPES) + ["as", "B", "T"]:
                if path.endswith("." + e):
                    stem, ext = path[:-len(e) - 1], e
            body = data(size, seed, ext in ("txt", "bas", "T"))
            if ext in ("txt", "T"):
                body = body.replace(b"\n", b"\r")
            if ext == "as":
                out[stem.upper()] = (6, 0x1000 + size, body)
            else:
                out[stem.upper()] = (ext or "bin", None, body)
        return out

    def prodos(self, case, ctx, img, name, start, want):
        v = disk.Prodos(img)
        with open(os.path.join(core.REPO, "player", "make",
                               "prodos_template.dsk"), "rb") as f:
            blank = disk.Prodos(f.read())
        have = {}
        for path, kind, aux, body in v.files:
            core.check(path not in have, "%s is on the disk twice" % path,
                       "twice")
            have[path] = (kind, aux, body)
        core.check(all(v.block(b) == blank.block(b) for b in (0, 1)),
                   "the boot blocks are not ProDOS's", "boot")
        old = {f[0]: f[1:] for f in blank.files}
        loader = case["machine"] in LOADERS
        up = name.upper()
        rest = dict(have)
        for n in ["PRODOS"] + ([] if loader else ["BASIC.SYSTEM"]):
            core.check(rest.pop(n, None) == old[n], n + " is not intact",
                       "system")
        f = rest.pop(up, None)
        core.check(f is not None, "the programme is not on the disk: %r" %
                   sorted(have), "missing")
        core.check(f[:2] == (6, start), "the programme has the type $%02x and "
                   "load address $%04x" % f[:2], "load-address")
        self.same(f[2], want, "the programme")
        first = [p for p, k, _, _ in v.files
                 if k == 255 and p.endswith(".SYSTEM") and "/" not in p]
        if loader:
            n = up + ".SYSTEM"
            g = rest.pop(n, None)
            core.check(g is not None and g[0] == 255, "no loader: %r" %
                       sorted(have), "loader")
            core.check(first[0] == n, "the disk starts %s" % first[0], "first")
        else:
            core.check(first[0] == "BASIC.SYSTEM", "the disk starts %s" %
                       first[0], "first")
        for p, (kind, aux, body) in self.expected(case).items():
            g = rest.pop(p, None)
            core.check(g is not None, "%s is not on the disk: %r" % (
                p, sorted(have)), "missing")
            kind = TYPES.get(kind, kind)
            core.check(g[0] == kind and aux in (None, g[1]), "%s has the type "
                       "$%02x and aux type $%04x" % (p, g[0], g[1]), "type")
            self.same(g[2], body, p)
            while "/" in p:
                p = p.rpartition("/")[0]
                if p in rest:
                    core.check(rest.pop(p)[0] == 15, p + " is no directory",
                               "type")
        core.check(not rest, "further files on the disk: %r" % sorted(rest),
                   "further")
        if loader:
            why, pc, text, calls, mem = ctx.call(
                "run", name=up + ".SYSTEM", code=have[up + ".SYSTEM"][2],
                files={p: f for p, f in have.items() if f[2] is not None})
            core.check(why == "left" and pc == start, "the loader does not "
                       "start the programme of %d bytes: %s at $%04x, says %r"
                       ", calls %r" % (len(want), why, pc, "".join(
                           map(chr, text)), calls), "boot")
            self.same(mem[start:start + len(want)], want,
                      "the loaded programme")

    def dos(self, case, img, name, start, want):
        v = disk.Dos33(img)
        with open(os.path.join(core.REPO, "player", "make",
                               "dos33_template.dsk"), "rb") as f:
            blank = disk.Dos33(f.read())
        have = {}
        for p, kind, raw in v.files:
            core.check(p not in have, p + " is on the disk twice", "twice")
            have[p] = (kind, raw)
        for p, kind, raw in blank.files:
            core.check(have.pop(p, None) == (kind, raw), p + " is not intact",
                       "system")
        f = have.pop(name.upper(), None)
        core.check(f is not None and f[0] == "B", "the programme is not on "
                   "the disk: %r" % sorted(have), "missing")
        core.check(disk.word(f[1], 0) == start, "the programme's load address "
                   "is $%04x" % disk.word(f[1], 0), "load-address")
        self.same(f[1][4:4 + disk.word(f[1], 2)], want, "the programme")
        for p, (kind, aux, body) in self.expected(case).items():
            g = have.pop(p, None)
            core.check(g is not None, p + " is not on the disk: %r" %
                       sorted(have), "missing")
            core.check(g[0] == {"bin": "B"}.get(kind, kind), "%s has the "
                       "type %s" % (p, g[0]), "type")
            raw = g[1]
            if g[0] == "B":
                raw = raw[4:4 + disk.word(raw, 2)]
            else:
                raw = bytes(c & 127 for c in raw).rstrip(b"\0")
            self.same(raw, body, p)
        core.check(not have, "further files on the disk: %r" % sorted(have),
                   "further")


PROP = C35()
