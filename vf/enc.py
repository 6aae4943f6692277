"""Encoder histories: generation, execution, and the trace model.

A case: {"mode", "pal", "rng", "frames": [paint op lists], "steps": [...]}.
"""
import numpy as np
from hypothesis import strategies as st

from . import core, ref, tables

HOLE_PAGES = sorted({p for p, o in np.argwhere(ref.HOLES).tolist()})
VAL = [0x00, 0x7f, 0x2a, 0x55, 0x01, 0x40, 0x08, 0x11, 0x22, 0x44, 0x33, 0x66,
       0x19, 0x4c, 0x70, 0x0f, 0x60, 0x03]


def value(mode):
    if mode == "HGR":
        return st.one_of(
            st.sampled_from(VAL + [v | 0x80 for v in VAL]),
            st.integers(0, 255))
    return st.one_of(st.sampled_from(VAL), st.integers(0, 127))


# ---------------------------------------------------------------- painting
class Canvas:
    def __init__(self, mode):
        self.mode = mode
        self.m = [np.zeros((32, 256), dtype=np.uint8) for _ in range(2)]

    def copy(self):
        c = Canvas(self.mode)
        c.m = [x.copy() for x in self.m]
        return c

    def apply(self, op, holes=False):
        k, bank = op[0], op[1]
        m = self.m[bank if self.mode == "DHGR" else 0]
        if k == "clear":
            m[:] = 0
        elif k == "full":
            m[:] = op[2]
        elif k == "fullpat":
            m.reshape(-1)[:] = np.resize(np.array(op[2], dtype=np.uint8), 8192)
        elif k == "set":
            m[op[2], op[3]] = op[4]
        elif k == "flip":
            m[op[2], op[3]] ^= op[4]
        elif k == "run":
            _, _, p, o, n, vals = op
            n = min(n, 256 - o)
            m[p, o:o + n] = np.resize(np.array(vals, dtype=np.uint8), n)
        elif k == "noise":
            _, _, p, o, n, seed = op
            n = min(n, 256 - o)
            r = np.random.RandomState(seed)
            m[p, o:o + n] = r.randint(0, 256, n)
        elif k == "hnoise":       # the whole screen, sparse
            _, _, count, seed = op
            r = np.random.RandomState(seed)
            ps, os_ = r.randint(0, 32, count), r.randint(0, 256, count)
            m[ps, os_] = r.randint(0, 256, count)
        if self.mode == "DHGR":
            m &= 0x7f
        if not holes:
            m[ref.HOLES] = 0

    def raw(self):
        return (self.m[0].tobytes(),
                self.m[1].tobytes() if self.mode == "DHGR" else None)


def page_st():
    return st.one_of(st.sampled_from([0, 0, 1, 3, 4, 7, 12, 20, 30, 31]),
                     st.integers(0, 31))


EDGE_OFF = [0, 1, 2, 38, 39, 40, 41, 79, 80, 118, 119, 127, 128, 129, 167, 168,
            208, 246, 247, 248, 255, 254]


BIT = st.integers(0, 7).map(lambda b: 1 << b)


def paint(mode, pages):
    v = value(mode)
    bank = st.integers(0, 1 if mode == "DHGR" else 0)
    off = st.one_of(st.sampled_from(EDGE_OFF), st.integers(0, 255))
    p = st.sampled_from(pages)
    return st.one_of(
        st.tuples(st.just("set"), bank, p, off, v),
        st.tuples(st.just("flip"), bank, p, off, BIT),
        st.tuples(st.just("run"), bank, p, off, st.integers(1, 48),
                  st.lists(v, min_size=1, max_size=4)),
        st.tuples(st.just("run"), bank, p, off, st.integers(1, 200),
                  st.lists(v, min_size=1, max_size=2)),
        st.tuples(st.just("noise"), bank, p, off, st.integers(1, 40),
                  st.integers(0, 2 ** 20)),
        st.tuples(st.just("hnoise"), bank, st.integers(1, 60),
                  st.integers(0, 2 ** 20)),
        st.tuples(st.just("clear"), bank),
    ).map(list)


@st.composite
def history(draw, mode=None, max_frames=5, max_steps=8, max_ops=60,
            converge=False, junk=False, pals=("NTSC", "IIGS")):
    mode = mode or draw(st.sampled_from(["DHGR", "HGR"]))
    pal = draw(st.sampled_from(pals))
    pages = draw(st.lists(page_st(), min_size=1, max_size=3))
    po = paint(mode, pages)
    nf = draw(st.integers(1, max_frames))
    frames = []
    for i in range(nf):
        ops = draw(st.lists(po, min_size=0 if i else 1, max_size=5))
        if draw(st.integers(0, 15)) == 0:
            ops.insert(0, draw(st.one_of(
                st.tuples(st.just("full"),
                          st.integers(0, 1 if mode == "DHGR" else 0),
                          value(mode)),
                st.tuples(st.just("fullpat"),
                          st.integers(0, 1 if mode == "DHGR" else 0),
                          st.lists(value(mode), min_size=2, max_size=4))
            ).map(list)))
        frames.append(ops)
    steps = []
    f = 0
    bank = 0
    ns = draw(st.integers(1, max_steps))
    for i in range(ns):
        if i and f + 1 < nf and draw(st.booleans()):
            f += 1
        if mode == "DHGR":
            bank = draw(st.integers(0, 1))
        n = draw(st.one_of(st.integers(0, 4), st.integers(0, max_ops),
                           st.just(-1)))
        steps.append([f, bank, n])
    case = {"mode": mode, "pal": pal, "rng": draw(st.integers(0, 10 ** 6)),
            "frames": frames, "steps": steps}
    if junk:
        case["junk"] = draw(st.one_of(
            st.none(), st.lists(po, min_size=1, max_size=3)))
    return case


@st.composite
def slight(draw, max_steps=4):
    """A converged screen, then a frame that differs from it by dots only."""
    mode = draw(st.sampled_from(["DHGR", "HGR"]))
    pages = draw(st.lists(page_st(), min_size=1, max_size=2))
    po = paint(mode, pages)
    banks = [0, 1] if mode == "DHGR" else [0]
    bank = st.sampled_from(banks)
    off = st.one_of(st.sampled_from(EDGE_OFF), st.integers(0, 255))
    flip = st.tuples(st.just("flip"), bank, st.sampled_from(pages), off,
                     BIT).map(list)
    frames = [draw(st.lists(po, max_size=3))]
    steps = [[0, b, -1] for b in banks] * 2
    for f in range(1, 1 + draw(st.integers(1, 3))):
        if f > 1 and draw(st.booleans()):
            frames.append(list(frames[-1]))     # and back again
        else:
            frames.append(draw(st.lists(flip, min_size=1, max_size=3)))
        for _ in range(draw(st.integers(1, max_steps))):
            steps.append([f, draw(bank), draw(st.sampled_from(
                [0, 1, 1, 2, 5, -1]))])
    if steps[-1][2] < 0:
        steps[-1][2] = 1
    return {"mode": mode, "pal": draw(st.sampled_from(["NTSC", "IIGS"])),
            "rng": draw(st.integers(0, 10 ** 6)), "frames": frames,
            "steps": steps}


def long_history(mode, pal, seed, steps, take, change, bank=None,
                 full=False):
    """A history of many encodings of which only a few operations are taken;
    the picture changes at every change-th."""
    import random
    r = random.Random(seed)
    frames = [[["hnoise", b, 60, seed + b] for b in
               ((0, 1) if mode == "DHGR" else (0,))] +
              [["fullpat", b, [127, 64, 42, 112, 1, 85, 30]] for b in
               ((0, 1) if mode == "DHGR" else (0,)) if full]]
    top = 127 if mode == "DHGR" else 255
    st_ = []
    for i in range(steps):
        b = 0 if mode == "HGR" else i % 2 if bank is None else bank
        if i and i % change == 0:
            frames.append([["set", r.randrange(2) if mode == "DHGR" else 0,
                            r.randrange(32), r.randrange(256),
                            r.randint(0, top)] for _ in range(3)])
        st_.append([len(frames) - 1, b, take if isinstance(take, int)
                    else r.choice(take)])
    # what has piled up is served in the end
    st_ += [[len(frames) - 1, b, 70] for b in
            ((0, 1) if mode == "DHGR" else (0, 0))]
    return {"mode": mode, "pal": pal, "rng": seed, "frames": frames,
            "steps": st_}


def long_histories(tier):
    k = 1 if tier == "quick" else 8
    for mode in ("DHGR", "HGR"):
        # priorities pile up beyond 16 bits
        yield long_history(mode, "NTSC", 1, 250 * k, 1, 10 ** 6, full=True)
        yield long_history(mode, "IIGS", 2, 150 * k, [0, 1, 1, 2], 7)
        yield long_history(mode, "NTSC", 3, 60 * k, [0, 5, 40, -1], 2)
    yield long_history("DHGR", "NTSC", 4, 150 * k, 1, 10 ** 6, 1,
                       True)


def many_encodings(tier):
    """More than a thousand encodings, hardly served."""
    n = 1100 if tier == "quick" else 8000
    yield long_history("HGR", "IIGS", 5, n, 1, 9, full=True)
    yield long_history("DHGR", "NTSC", 6, n, 1, 11, full=True)


def idle_histories(tier):
    """Encodings continued long after they ran out of work."""
    n = 20000 if tier == "quick" else 100000
    for mode in ("DHGR", "HGR"):
        banks = (0, 1) if mode == "DHGR" else (0,)
        pic = [["set", b, 0, o, 9 * o + 5 + b] for b in banks
               for o in range(12)] + [["hnoise", b, 20, 3 + b] for b in banks]
        yield {"mode": mode, "pal": "NTSC", "rng": 7,
               "frames": [pic, pic[2:] + [["set", 0, 0, 0, 64]]],
               "steps": [[f, b, n] for f in (0, 1) for b in banks]}


def full_screen(mode, pal, seed, steps):
    """Two dense pictures with no two neighbouring bytes alike, and a third
    that differs from the second here and there."""
    import random
    r = random.Random(seed)
    banks = (0, 1) if mode == "DHGR" else (0,)
    top = 127 if mode == "DHGR" else 255
    frames = [[["fullpat", b, [r.randint(0, top) for _ in range(251)]]
               for b in banks] for _ in range(2)]
    frames.append([["hnoise", b, 900, seed + b] for b in banks])
    return {"mode": mode, "pal": pal, "rng": seed, "frames": frames,
            "steps": steps}


def full_screens(tier):
    """Screens on which nearly everything differs, encoded at length."""
    yield full_screen("HGR", "NTSC", 11, [[0, 0, 2600], [1, 0, 2600],
                                          [2, 0, -1]])
    yield full_screen("DHGR", "NTSC", 12, [[0, 1, 2600], [0, 0, 900],
                                           [1, 1, 300], [2, 0, 2600]])
    if tier == "thorough":
        for seed in range(20, 36):
            d = seed % 2
            yield full_screen(
                "DHGR" if d else "HGR", "NTSC" if seed % 4 < 2 else "IIGS",
                seed, [[f, b, n] for f, n in
                       ((0, -1), (1, 1500 + 400 * (seed % 5)), (2, -1))
                       for b in ((seed // 4 % 2, 1 - seed // 4 % 2) if d
                                 else (0,))])


def render(case):
    """Frames as raw screens."""
    c = Canvas(case["mode"])
    out = []
    for ops in case["frames"]:
        c = c.copy()
        for op in ops:
            c.apply(op)
        if case.get("high"):
            # the unused bit of DHGR bytes
            j = c.copy()
            for bank, page, off in case["high"]:
                if not ref.HOLES[page, off]:
                    j.m[bank][page, off] |= 0x80
            out.append(j.raw())
        elif case.get("junk"):
            # junk in the screen holes of the target only
            j = c.copy()
            for op in case["junk"]:
                j.apply(op, holes=True)
            for k in range(2):
                j.m[k][~ref.HOLES] = c.m[k][~ref.HOLES]
            out.append(j.raw())
        else:
            out.append(c.raw())
    return out


def arrays(raws):
    return [tuple(None if r is None else
                  np.frombuffer(r, dtype=np.uint8).reshape(32, 256)
                  for r in pair) for pair in raws]


def execute(case, ctx, steps=None, want_packed=False, **kw):
    raws = render(case)
    res = ctx.call("encode", mode=case["mode"], pal=case["pal"],
                   rng=case["rng"], frames=raws,
                   steps=[tuple(s) for s in (steps or case["steps"])],
                   want_packed=want_packed, **kw)
    return arrays(raws), res


def apply_store(screen, bank, op):
    page, content, offsets = op
    for o in offsets:
        screen[bank][page - 32, o] = content


def well_formed(op):
    core.check(op is not None, "the encoding stopped yielding operations",
               "stopped")
    page, content, offsets = op
    core.check(32 <= page < 64, "page out of range", "range", op=op)
    core.check(0 <= content < 256, "content out of range", "range", op=op)
    core.check(len(offsets) == 4, "not four offsets", "range", op=op)
    core.check(all(0 <= o < 256 for o in offsets), "offset out of range",
               "range", op=op)


class Dist:
    def __init__(self, ctx, case):
        self.mode = case["mode"]
        self.t = tables.load(ctx, self.mode, case["pal"])
        self.bits = ref.BITS[self.mode]

    def screen(self, cur, target, bank):
        """32x256 distances between two screens around each byte of bank."""
        a = ref.windows(self.mode, cur[0], cur[1], bank)
        b = ref.windows(self.mode, target[0], target[1], bank)
        out = np.zeros((32, 256), dtype=np.int64)
        for par in (0, 1):
            o = ref.byte_offset(self.mode, par, bank)
            out[:, par::2] = self.t[o][(a[:, par::2] << self.bits) +
                                       b[:, par::2]]
        out[ref.HOLES] = 0
        return out

    def store(self, target, bank, page, off, content):
        """Distance to the target of the target with content stored."""
        a = ref.window_at(self.mode, target[0], target[1], bank, page, off,
                          content)
        b = ref.window_at(self.mode, target[0], target[1], bank, page, off)
        return int(self.t[ref.byte_offset(self.mode, off, bank)]
                   [(a << self.bits) + b])

    def store_page(self, target, bank, page, content):
        m = target[0][page:page + 1].copy(), \
            None if target[1] is None else target[1][page:page + 1].copy()
        b = ref.windows(self.mode, m[0], m[1], bank)[0]
        res = np.zeros(256, dtype=np.int64)
        # own byte replaced at every offset, neighbours as in the target
        main = target[0].astype(np.int64)[page]
        aux = None if target[1] is None else target[1].astype(np.int64)[page]
        z = np.zeros(1, dtype=np.int64)
        c = np.full(256, content, dtype=np.int64)
        if self.mode == "HGR":
            prev, nxt = np.hstack([z, main[:-1]]), np.hstack([main[1:], z])
            odd = np.arange(256) % 2 == 1
            a = np.where(odd, ref.hgr_masked(prev, c, nxt, True),
                         ref.hgr_masked(prev, c, nxt, False))
        elif bank:
            prev = np.hstack([z, main[:-1]]) & 0x7f
            a = (prev >> 4) | ((c & 0x7f) << 3) | ((main & 7) << 10)
        else:
            nxt = np.hstack([aux[1:], z])
            a = ((aux & 0x7f) >> 4) | ((c & 0x7f) << 3) | ((nxt & 7) << 10)
        for par in (0, 1):
            o = ref.byte_offset(self.mode, par, bank)
            res[par::2] = self.t[o][(a[par::2] << self.bits) + b[par::2]]
        return res


ALL_TABLES = [("DHGR", "NTSC"), ("DHGR", "IIGS"), ("HGR", "NTSC"),
              ("HGR", "IIGS")]


class EncProp(core.Prop):
    profile = "encoder"
    assumptions = (
        "distance tables computed by the reference model stand in for "
        "transcoder/data (C19/C20 decide that the code's own agree)",
        "target frames have zero screen holes and, in DHGR, clear high bits, "
        "as the image converter produces",
    )

    def prepare(self, ctx):
        tables.build(ctx, ALL_TABLES)
