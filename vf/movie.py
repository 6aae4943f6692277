"""Output streams of the transcoder: reading them, generating inputs."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from . import core, enc, player, ref, tables

FRAME = 2048
TICKS = player.TICKS
PAGES = player.PAGES


def symbols():
    """{entry point name: address} of the player the tree ships."""
    out = {}
    p = os.path.join(core.REPO, "player", "iivision.dbg")
    for line in open(p):
        if line.startswith("sym"):
            d = dict(kv.split("=", 1) for kv in
                     re.findall(r'\w+=(?:"[^"]*"|[^,\s]*)', line))
            name = d.get("name", "").strip('"')
            if name.startswith("op_") and "val" in d:
                out[name] = int(d["val"], 16)
    return out


def entries():
    """{address: operation}, which must be one to one."""
    sym = symbols()
    out = {}
    want = [("op_%s" % k, (k,)) for k in ("ack", "nop", "terminate")] + [
        ("op_tick_%d_page_%d" % (t, p), ("tick", t, p))
        for t in TICKS for p in PAGES]
    for name, op in want:
        core.check(name in sym, "the player's symbols lack " + name,
                   "missing")
        a = sym[name]
        core.check(a not in out, "%r and %r share the entry address $%04x" % (
            op, out.get(a), a), "shared")
        out[a] = op
    return out


class Stream:
    """A decoded output stream."""

    def __init__(self, data, entry):
        self.data = data
        core.check(len(data) >= 7, "no header: %r" % data[:20], "header")
        self.header = data[:7]
        self.ops = []           # (position, op)
        pos = 7
        while True:
            core.check(pos + 2 <= len(data), "the stream ends without "
                       "TERMINATE, after %d bytes" % len(data), "no-end")
            a = data[pos] << 8 | data[pos + 1]
            op = entry.get(a)
            core.check(op is not None, "no operation has the address $%04x "
                       "emitted at %d" % (a, pos), "address")
            if op[0] == "tick":
                core.check(pos + 7 <= len(data), "truncated", "no-end")
                op = op + (data[pos + 2], list(data[pos + 3:pos + 7]))
                n = 7
            elif op[0] == "ack":
                core.check(pos + 4 <= len(data), "truncated", "no-end")
                v = data[pos + 2]
                core.check(v in (0x54, 0x55), "ACK at %d selects $%02x" % (
                    pos, v), "ack-bank")
                op = op + (v & 1,)
                n = 4
            else:
                n = 2
            self.ops.append((pos, op))
            pos += n
            if op[0] == "terminate":
                break
        self.end = pos

    @property
    def ticks(self):
        return [op for _, op in self.ops if op[0] == "tick"]

    @property
    def acks(self):
        return [(p, op[1]) for p, op in self.ops if op[0] == "ack"]

    def framed(self):
        """Checks the 2 KB framing and the padding."""
        n = len(self.data)
        core.check(n % FRAME == 0, "%d bytes are not whole frames" % n,
                   "whole")
        core.check(n == (self.end + FRAME - 1) // FRAME * FRAME,
                   "%d bytes for an end at %d" % (n, self.end), "padding")
        core.check(not any(self.data[self.end:]), "padding is not zero",
                   "padding")
        at = [p for p, _ in self.acks]
        want = list(range(FRAME - 4, self.end, FRAME))
        core.check(at == want, "ACKs at %r, should be at %r" % (at, want),
                   "acks")
        for (a, op), (b, _) in zip(self.ops, self.ops[1:]):
            core.check(a // FRAME == (b - 1) // FRAME, "%r at %d straddles "
                       "frames" % (op, a), "straddle")
        core.check(sum(op[0] in ("nop", "terminate") for _, op in self.ops)
                   == 1, "unexpected operations", "extra")

    def replay(self, mode):
        """Screen memory of both banks after all operations."""
        mem = [np.zeros((32, 256), dtype=np.uint8) for _ in range(2)]
        bank = 0
        for _, op in self.ops:
            if op[0] == "ack":
                bank = op[1] if mode == "DHGR" else 0
            elif op[0] == "tick":
                for o in op[4]:
                    mem[bank][op[2] - 32, o] = op[3]
        return mem


class MovieProp(core.Prop):
    profile = "movie"
    tables = ()
    assumptions = ()

    def prepare(self, ctx):
        if self.tables:
            tables.build(ctx, list(self.tables))

    def entry(self, ctx):
        if "entry" not in ctx.data:
            ctx.data["entry"] = entries()
        return ctx.data["entry"]


# ------------------------------------------------------------------- op lists
@st.composite
def op_list(draw, max_items=6, near=True):
    """Tick operations, compactly; the total is often near a multiple of
    what fits into a frame."""
    items = []
    for _ in range(draw(st.integers(0, max_items))):
        items.append(draw(st.one_of(
            player.op_st(), player.seg_st(40), st.tuples(
                st.just("rep"), st.one_of(st.integers(1, 5),
                                          st.integers(1, 700)),
                player.op_st()).map(list))))
    if draw(st.booleans()):
        k = draw(st.integers(0, 6)) * 292 + draw(st.integers(-3, 3))
        n = sum(1 if i[0] == "op" else i[1] for i in items)
        if k > n:
            items.append(["seg", k - n, TICKS, PAGES,
                          draw(st.integers(0, 10 ** 6))])
    elif draw(st.booleans()):
        items.append(["seg", draw(st.integers(1, 1500)), TICKS, PAGES,
                      draw(st.integers(0, 10 ** 6))])
    return items


# ---------------------------------------------------------------- whole films
FPS = ["30/1", "25/1", "24/1", "30000/1001", "24000/1001", "60/1", "15/1",
       "50/1", "60000/1001", "12/1", "10/1", "2997/100", "1/1", "7/3",
       "1000/33", "16/1"]


@st.composite
def film(draw, max_ticks=500, blank=False, limit=False, mode=None):
    from fractions import Fraction
    mode = mode or draw(st.sampled_from(["DHGR", "DHGR", "HGR"]))
    fps = draw(st.one_of(st.sampled_from(FPS), st.builds(
        lambda a, b: "%d/%d" % (max(a, b), min(a, b)),
        st.integers(1, 60), st.integers(1, 20))))
    f = Fraction(fps)
    tpf = draw(st.one_of(
        st.floats(1.05, 4), st.floats(4, 40), st.floats(20, 120),
        st.floats(100, 600), st.sampled_from([2, 10, 16, 64, 490])))
    rate = max(int(f) + 1, round(float(f) * tpf))
    if draw(st.integers(0, 3)) == 0 and f.denominator == 1:
        # switches at exact samples
        rate = int(f) * max(2, round(tpf))
    tpf = Fraction(rate) / f
    n = draw(st.one_of(st.integers(0, max_ticks),
                       st.integers(max_ticks // 2, max_ticks)))
    enough = int(n / tpf) + 2
    k = draw(st.one_of(st.just(enough), st.integers(0, enough + 2)))
    if draw(st.integers(0, 5)) == 0:
        # sound and picture end (nearly) together
        n = max(0, int(k * tpf) + draw(st.integers(-2, 2)))
        n = min(n, max_ticks * 2)
    c = {
        "mode": mode, "pal": draw(st.sampled_from(["NTSC", "IIGS"])),
        "fps": fps, "rate": rate, "every": draw(st.sampled_from(
            [1, 1, 1, 2, 2, 3, 5])),
        "n": n, "frames": k, "seed": draw(st.integers(0, 10 ** 6)),
        "pages": draw(st.one_of(st.integers(1, 8), st.just(32))),
        "vary": draw(st.booleans()), "limit": None,
    }
    if limit and draw(st.booleans()):
        c["limit"] = draw(st.integers(1, max(1, n * 7)))
    return c


def wav_of(au):
    """16 bit samples that the duty cycles au come from exactly."""
    au = np.asarray(au, dtype=np.int64)
    return (au * 1024 + np.sign(au) * 256).astype("<i2").tobytes()


def sound(case):
    return np.random.RandomState(case["seed"]).randint(-15, 17, case["n"])


def pictures(case):
    """Frames in which every byte differs between neighbouring frames and
    between the banks."""
    r = np.random.RandomState(case["seed"] + 1)
    dh = case["mode"] == "DHGR"
    # bit patterns of quite different colours
    if dh:
        vals = r.permutation(np.arange(1, 128))
    else:
        v = np.arange(1, 256)
        vals = r.permutation(v[v != 0x80])
    out = []
    rows = r.permutation(32)[:case["pages"]]
    for i in range(case["frames"]):
        pair = []
        for b in (0, 1):
            m = np.zeros((32, 256), dtype=np.uint8)
            for j, p in enumerate(rows):
                x = (2 * i + b) * 3 + (j if case["vary"] else 0)
                m[p] = vals[x % len(vals)]
            m[ref.HOLES] = 0
            pair.append(m)
        out.append((pair[0], pair[1] if dh else None))
    return out


def shoot(case, ctx, frames, **kw):
    raw = [(m.tobytes(), None if a is None else a.tobytes())
           for m, a in frames]
    au = sound(case)
    return au, ctx.call("transcode", mode=case["mode"], pal=case["pal"],
                        every=case["every"], rate=case["rate"],
                        wav=wav_of(au), fps=case["fps"], frames=raw,
                        limit=case["limit"], rng=case["seed"], **kw)


def believed(case, entry, s, belief, last, nops):
    """Playing the stream s gives the screen the encoder believes in."""
    mode = case["mode"]
    dh = mode == "DHGR"
    mem = s.replay(mode)
    want = [np.frombuffer(x, dtype=np.uint8).reshape(32, 256)
            for x in belief if x is not None]
    options = [mem[:len(want)]]
    if case["limit"]:
        # the encoder may have made one operation which was not sent
        m = [x.copy() for x in mem]
        op = entry.get(last[0] << 8 | last[1]) \
            if len(last) > 1 else None
        if op and op[0] == "tick" and nops - 1 > len(s.ticks):
            bank = s.acks[-1][1] if s.acks and dh else 0
            for o in last[3:7]:
                m[bank][op[2] - 32, o] = last[2]
            options.append(m[:len(want)])
    if not any(all((a == b).all() for a, b in zip(want, m))
               for m in options):
        for k, (a, b) in enumerate(zip(want, mem)):
            d = np.argwhere(a != b)
            if len(d):
                p, o = d[0].tolist()
                raise core.Violation(
                    "%d bytes of bank %d differ after playing; at page "
                    "%d offset %d the encoder believes $%02x, playing "
                    "gives $%02x" % (len(d), k, p + 32, o, a[p, o],
                                     b[p, o]), "belief")
    return mem


@st.composite
def still(draw, steps):
    """A film of the frames of an encoder history, the last one held."""
    h = draw(steps)
    if draw(st.integers(0, 2)) == 0:
        # slides, during each of which the banks change many times
        return {"film": {
            "mode": h["mode"], "pal": h["pal"], "frames": h["frames"],
            "lead": [[i, 1] for i in draw(st.lists(st.integers(
                0, len(h["frames"]) - 1), max_size=2))],
            "every": 1, "tpf": draw(st.sampled_from([1500, 5000, 20000])),
            "seed": draw(st.integers(0, 10 ** 6))}}
    return {"film": {
        "mode": h["mode"], "pal": h["pal"], "frames": h["frames"],
        "lead": [[draw(st.integers(0, len(h["frames"]) - 1)),
                  draw(st.integers(1, 4))] for _ in range(
                      draw(st.integers(0, 4)))],
        "every": draw(st.sampled_from([1, 1, 2, 3])),
        "tpf": draw(st.sampled_from([7, 16, 50, 146, 292, 293, 490])),
        "seed": draw(st.integers(0, 10 ** 6))}}


@st.composite
def held(draw, steps):
    """Such a film, and for how many samples the last frame is held."""
    c = draw(still(steps))
    c["hold"] = draw(st.sampled_from([300, 900, 2500]))
    if c["film"]["tpf"] > 1500:
        c["film"]["tpf"] = 3000
        del c["film"]["lead"][1:]
    return c


def held_films(tier):
    """Dense pictures in every mode and palette, with and without skipping."""
    for i in range(8 if tier == "quick" else 48):
        mode, pal = ("HGR", "DHGR")[i % 2], ("IIGS", "NTSC")[i // 2 % 2]
        f = enc.full_screen(mode, pal, 40 + i, [])["frames"]
        yield {"film": {
            "mode": mode, "pal": pal, "frames": f, "seed": i,
            "lead": [[0, 1], [1, 1], [0, 2], [2, 1]],
            "every": (1, 3)[i // 4 % 2], "tpf": (40, 293, 97)[i % 3]},
            "hold": 600}


def shown(film, hold):
    """Indexes of a film's frames."""
    show = []
    for i, k in film["lead"]:
        show += [i] * (k * film["every"])
    n = len(show) * film["tpf"] + hold
    return n, show + [len(film["frames"]) - 1] * (hold // film["tpf"] + 2)


def shoot_still(film, ctx, hold):
    """Runs it with the last frame held for so many samples."""
    pics = enc.arrays(enc.render(film))
    n, show = shown(film, hold)
    case = {"mode": film["mode"], "pal": film["pal"], "fps": "10/1",
            "rate": 10 * film["tpf"], "every": film["every"], "n": n,
            "limit": None, "seed": film["seed"]}
    frames = [pics[i] for i in show]
    return case, pics[-1], shoot(case, ctx, frames)


def encodings(film, hold, s):
    """[(frame index, bank, operations)] of a stream: a new encoding starts
    with each frame that is not skipped and each change of banks."""
    _, show = shown(film, hold)
    out = []
    bank = 0
    fresh = True
    n = 0
    for _, op in s.ops:
        if op[0] == "ack" and film["mode"] == "DHGR":
            fresh = fresh or op[1] != bank
            bank = op[1]
        if op[0] != "tick":
            continue
        # frame k is due at sample k * tpf, the first one at sample 1
        n += 1
        k = n // film["tpf"]
        if n % film["tpf"] == 0 and k % film["every"] == 0:
            fresh = True
        if fresh:
            f = k // film["every"] * film["every"]
            out.append((show[f], bank, []))
            fresh = False
        out[-1][2].append((op[2], op[3], op[4]))
    return out


class Clock:
    """At which samples (counted from 1) each frame is due."""

    def __init__(self, case):
        from fractions import Fraction
        f = Fraction(case["fps"])
        a, b = map(int, case["fps"].split("/"))
        self.tpf = Fraction(case["rate"]) / f
        ff = float(a) / float(b)
        self.exact = Fraction(ff) == f and \
            Fraction(case["rate"] / ff) == self.tpf and \
            self.tpf.denominator <= 1 << 16

    def due(self, k):
        """[earliest, latest] sample number for frame k."""
        if k == 0:
            return 1, 1
        t = k * self.tpf
        i = -((-t.numerator) // t.denominator)
        # a frame due exactly at a sample may slip by rounding
        slip = t.denominator == 1 and not self.exact
        return i, i + (1 if slip else 0)
