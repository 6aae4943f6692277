"""Building and driving the player; reading its event log."""
import os
import shutil
import subprocess
import zlib

import numpy as np
from hypothesis import strategies as st

from . import core

OP, TICK, RX, SCREEN, WRITE, REGW, REGR, SWITCH, COUT, KBD, STROBE, KEY, MLI, \
    BRK, ROM, HGR0, WPTR, WMODE, RESET = range(19)
TICKS = list(range(4, 68, 2))
PAGES = list(range(32, 64))
FRAME = 2048
PER_FRAME = 292


def build(ctx):
    """Assembles the player in a scratch copy of its sources."""
    d = os.path.join(ctx.scratch, "build")
    shutil.copytree(os.path.join(core.REPO, "player"), d,
                    ignore=shutil.ignore_patterns(
                        "*.o", "*.lst", "*.dsk", "*.map", "iivision"))
    p = subprocess.run(["make", "iivision", "CC65_BIN=/usr/bin",
                        "CC65_HOME=/usr/share/cc65"], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode or not os.path.exists(os.path.join(d, "iivision")):
        raise core.HarnessError("player does not build:\n" +
                                p.stdout.decode("latin1")[-3000:])
    ctx.env["VERIF_PLAYER"] = d


def info(ctx):
    if "player" not in ctx.data:
        ctx.data["player"] = ctx.call("info")
    return ctx.data["player"]


@st.composite
def schedule(draw, max_chunks=12):
    """Gaps and sizes of arriving network data.  A size -d-1 stands for
    everything up to d bytes short of the end of the current frame."""
    gap = st.one_of(st.integers(0, 300), st.integers(0, 5000),
                    st.integers(0, 40000), st.integers(20000, 90000))
    short = st.one_of(st.sampled_from([0, 1, 2, 4, 255, 256, 257, 2047]),
                      st.integers(0, 600)).map(lambda d: -d - 1)
    size = st.one_of(st.sampled_from([1, 255, 256, 257, 2047, 2048, 2049,
                                      4096, 8191, 8192, 8193]),
                     short, short, st.integers(1, 3000))
    out = draw(st.lists(st.tuples(gap, size).map(list), max_size=max_chunks))
    if out and draw(st.booleans()):
        # the player clears the screen for a long time once it has 256 bytes;
        # the rest of the schedule begins when it is done
        out = [[draw(gap), draw(st.integers(256, 2500))],
               [draw(st.integers(120000, 420000)), draw(size)]] + out
    return out


class Run:
    """Event log of one run."""

    def __init__(self, r):
        self.r = r
        self.why = r["why"]
        self.ev = np.frombuffer(r["events"], dtype="<i8").reshape(-1, 4)

    def __getattr__(self, k):
        return self.r[k]

    def of(self, *kinds):
        return self.ev[np.isin(self.ev[:, 1], kinds)]


# ---------------------------------------------------------------- programmes
def op_st():
    off = st.one_of(st.integers(0, 255), st.sampled_from(
        [0, 1, 0x27, 0x28, 0x77, 0x78, 0x7f, 0x80, 0xf7, 0xf8, 0xff]))
    return st.tuples(
        st.just("op"), st.sampled_from(TICKS), st.sampled_from(PAGES),
        st.integers(0, 255),
        st.one_of(st.lists(off, min_size=4, max_size=4),
                  off.map(lambda o: [o] * 4))).map(list)


def seg_st(max_n):
    """n pseudo-random operations over some widths and pages."""
    return st.tuples(
        st.just("seg"), st.integers(1, max_n),
        st.one_of(st.just(TICKS), st.lists(st.sampled_from(TICKS), min_size=1,
                                           max_size=4)),
        st.one_of(st.just(PAGES), st.lists(st.sampled_from(PAGES), min_size=1,
                                           max_size=3)),
        st.integers(0, 10 ** 6)).map(list)


@st.composite
def programme(draw, max_seg=400, max_items=8, nops=False, mode=None,
              pad=True):
    """Operations of a stream, compactly."""
    item = st.one_of(op_st(), seg_st(max_seg)) if not nops else \
        st.one_of(op_st(), seg_st(max_seg), st.just(["nops"]))
    return {
        "mode": draw(st.sampled_from(["HGR", "DHGR"])) if mode is None
        else mode,
        "items": draw(st.lists(item, min_size=1, max_size=max_items)),
        # bank announced by each ACK, repeated
        "banks": draw(st.one_of(
            st.just([1, 0]), st.lists(st.integers(0, 1), min_size=1,
                                      max_size=5))),
        "dummy": draw(st.sampled_from([0xff, 0xff, 0, 0x54, 0x80])),
    }


def operations(case):
    """[(kind, width, page, content, offsets)], in order, without ACKs."""
    import random
    out = []
    for it in case["items"]:
        if it[0] == "op":
            out.append(("tick", it[1], it[2], it[3], list(it[4])))
        elif it[0] == "nops":
            out.append(("nops",))
        elif it[0] == "rep":        # n times the same operation
            o = it[2]
            out += [("tick", o[1], o[2], o[3], list(o[4]))] * it[1]
        else:
            r = random.Random(it[4])
            for _ in range(it[1]):
                out.append(("tick", r.choice(it[2]), r.choice(it[3]),
                            r.randrange(256),
                            [r.randrange(256) for _ in range(4)]))
    return out


def place(ops, banks):
    """Puts ACKs at the frame boundaries; None ops are skipped.  Yields
    (index in stream, op)."""
    pos = 7
    k = 0
    out = []
    for op in ops:
        if op[0] == "nops":
            # 7 NOPs take the room of two operations
            if pos % FRAME > FRAME - 4 - 14:
                continue
            for _ in range(7):
                out.append((pos, ("nop",)))
                pos += 2
        else:
            out.append((pos, op))
            pos += 7
        if pos % FRAME == FRAME - 4:
            out.append((pos, ("ack", banks[k % len(banks)])))
            k += 1
            pos += 4
    out.append((pos, ("terminate",)))
    return out


HEADER = {"HGR": bytes([255] * 6 + [0]), "DHGR": bytes([255] * 6 + [1])}


def encode(placed, addr, header, dummy=0xff):
    """Bytes of a placed programme; addr: op -> entry address."""
    s = bytearray(header)
    for pos, op in placed:
        assert pos == len(s), (pos, len(s))
        a = addr(op)
        s += bytes([a >> 8, a & 255])
        if op[0] == "tick":
            s += bytes([op[3]] + op[4])
        elif op[0] == "ack":
            s += bytes([0x55 if op[1] else 0x54, dummy])
    s += bytes(FRAME - len(s) % FRAME)
    return bytes(s)


def by_symbols(sym):
    def addr(op):
        n = ("op_tick_%d_page_%d" % (op[1], op[2]) if op[0] == "tick"
             else "op_" + op[0])
        if n not in sym:
            raise core.Violation("the player has no routine %s" % n,
                                 "missing")
        return sym[n]
    return addr


def stream_of(case, ctx):
    """(stream, placed operations, watch addresses)."""
    n, sym = info(ctx)
    placed = place(operations(case), case["banks"])
    addr = by_symbols(sym)
    s = encode(placed, addr, HEADER[case["mode"]], case.get("dummy", 0xff))
    watch = {addr(op) for _, op in placed} | {addr(("nop",))}
    return s, placed, sorted(watch), addr


def arrivals(draws, total):
    """[[gap in cycles, bytes], ...] -> [(cycle, bytes so far)]; the rest
    arrives at once at the end."""
    t = n = 0
    out = []
    for dt, k in draws:
        t += dt
        if k < 0:
            k = max(0, (n // FRAME + 1) * FRAME + k + 1 - n)
        n = min(total, n + k)
        out.append((t, n))
        if n == total:
            break
    if n < total:
        out.append((t + 1000, total))
    return out


def play(ctx, case, s, watch, **kw):
    frames = len(s) // FRAME
    kw.setdefault("arrivals", [(0, len(s))])
    kw.setdefault("after_polls", 40)
    # registers and low memory before the start
    kw.setdefault("init", zlib.crc32(repr(case).encode()))
    budget = kw.pop("max_cycles", 600000 + frames * 30000 +
                    kw["arrivals"][-1][0])
    return Run(ctx.call("play", stream=s, max_cycles=budget, watch=watch,
                        **kw))


class Trace:
    """Operation by operation view of a run."""

    def __init__(self, run, placed, addr):
        self.run = run
        self.placed = [(p, op) for p, op in placed if op[0] != "nop"]
        ev = run.ev
        self.ev = ev
        nop = addr(("nop",))
        starts = ev[:, 1] == OP
        self.all = np.append(np.flatnonzero(starts), len(ev))
        # the slow path may pass through NOP as well
        idx = np.flatnonzero(starts & (ev[:, 2] != nop))
        want = [addr(op) for _, op in self.placed]
        got = ev[idx, 2].tolist()
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want))
                      if a != b), min(len(got), len(want)))
            raise core.Violation(
                "operation %d executed is at %s, should be %r at $%04x "
                "(run ended by %s at $%04x, %d of %d operations)" % (
                    i, "$%04x" % got[i] if i < len(got) else "none",
                    self.placed[i][1] if i < len(want) else None,
                    want[i] if i < len(want) else 0, run.why, run.pc,
                    len(got), len(want)), "sequence")
        self.idx = idx.tolist() + [len(ev)]

    def __len__(self):
        return len(self.placed)

    def op(self, i):
        return self.placed[i][1]

    def slice(self, i):
        """Events of operation i; of an ACK, including its slow path."""
        a = self.idx[i]
        if self.placed[i][1][0] == "ack":
            return self.ev[a:self.idx[i + 1]]
        return self.ev[a:self.all[np.searchsorted(self.all, a, "right")]]


class PlayerProp(core.Prop):
    profile = "player"
    assumptions = (
        "py65's 6502 instruction semantics and cycle counts",
        "the Apple II and W5100 model of worker/apple.py (soft switches, "
        "ROM page clear, receive buffer auto-wrap) stands in for the "
        "hardware",
    )

    def prepare(self, ctx):
        build(ctx)


def screen_ok(trace, i, mode, bank):
    """The stores and operands of tick operation i."""
    op = trace.op(i)
    _, width, page, content, offs = op
    sl = trace.slice(i)
    k = sl[:, 1]
    st_ = sl[k == SCREEN]
    core.check(int(sl[0, 3]) == 0, "index register is $%02x at the start of "
               "operation %d %r" % (sl[0, 3], i, op), "x-register")
    core.check((st_[:, 3] & 0xff == content).all(), "operation %d %r stores "
               "%r" % (i, op, [hex(v) for v in st_[:, 3].tolist()]),
               "content")
    core.check((st_[:, 3] >> 8 == bank).all(), "operation %d %r stores to "
               "the wrong bank" % (i, op), "bank")
    got = st_[:, 2].tolist()
    want = [page * 256 + o for o in offs]
    core.check(set(got) == set(want), "operation %d %r stores to %r" % (
        i, op, [hex(v) for v in got]), "stores")
    for w in sl[k == WRITE]:
        a = int(w[2])
        core.check(a >= 0xc000 or 6 <= a <= 9, "operation %d %r writes to "
                   "$%04x" % (i, op, a), "stray")
    core.check((k == RX).sum() == 7, "operation %d %r consumes %d bytes" % (
        i, op, (k == RX).sum()), "consumes")
    bad = sl[np.isin(k, [REGR, REGW, SWITCH, COUT, MLI, ROM, HGR0, WMODE])]
    core.check(len(bad) == 0, "operation %d %r does something else: %r" % (
        i, op, bad.tolist()), "other")


def pulse_ok(trace, i, next_toggle):
    op = trace.op(i)
    width = op[1]
    sl = trace.slice(i)
    t = sl[sl[:, 1] == TICK][:, 0].tolist()
    core.check(len(t) == 2, "operation %d %r toggles the speaker %d times" % (
        i, op, len(t)), "toggles")
    want = width - 1 if width in (22, 40) else width
    core.check(t[1] - t[0] == want, "operation %d %r: pulse of %d cycles" % (
        i, op, t[1] - t[0]), "pulse")
    if next_toggle is not None:
        core.check(next_toggle - t[0] == 73, "operation %d %r takes %d "
                   "cycles" % (i, op, next_toggle - t[0]), "period")


def first_toggle(trace, i):
    sl = trace.slice(i)
    t = sl[sl[:, 1] == TICK]
    return int(t[0, 0]) if len(t) else None


def rx_ok(run, stream):
    """Every byte consumed in order and only once received."""
    rx = run.of(RX)
    n = len(rx)
    core.check(n <= len(stream), "more bytes consumed than sent", "overrun")
    off = rx[:, 2] & 0xffff
    sent = rx[:, 2] >> 16
    i = np.arange(n)
    bad = np.flatnonzero(off != i % 8192)
    if len(bad):
        j = int(bad[0])
        raise core.Violation("read %d of the receive buffer is at +$%04x, "
                             "the next byte is at +$%04x" % (
                                 j, off[j], j % 8192), "order")
    bad = np.flatnonzero(sent <= i)
    if len(bad):
        j = int(bad[0])
        raise core.Violation("byte %d read when only %d had arrived" % (
            j, sent[j]), "early")
    return n
