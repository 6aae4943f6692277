import numpy as np
from hypothesis import strategies as st

from .. import core, player
from ..player import REGR, REGW, RX, SWITCH, WPTR

RD, CR, RSR = 0x428, 0x401, 0x426


@st.composite
def case(draw):
    c = draw(player.programme(nops=True))
    c["arrive"] = draw(player.schedule())
    return c


class C06(player.PlayerProp):
    id = "C06"
    technique = ("stateful property-based testing: generated programmes and "
                 "network arrival schedules on the assembled player with a "
                 "W5100 model")
    rule = ("programmes of up to about 10 frames (one of 36 frames, wrapping "
            "the 16-bit receive pointer) under generated arrival schedules; "
            "non-trivial: a frame boundary was crossed")
    budget = {"quick": (900, 40, 8), "thorough": (20000, 420, 8)}

    def enumerate(self, tier):
        for mode in ("HGR", "DHGR"):
            yield {"mode": mode, "banks": [1, 0], "arrive": [],
                   "items": [["seg", 292 * 36 + 5, player.TICKS,
                              player.PAGES, 1]]}
            yield {"mode": mode, "banks": [1, 0, 0],
                   "arrive": [[900 * i % 4001, 1460] for i in range(60)],
                   "items": [["seg", 292 * 34, player.TICKS, player.PAGES,
                              2]]}
        for n in range(288, 296):
            yield {"mode": "HGR", "banks": [0], "arrive": [[0, 255], [99, 1],
                                                           [5000, 1791],
                                                           [777, 1]],
                   "items": [["seg", n, player.TICKS, player.PAGES, 3]]}

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        s, placed, watch, addr = player.stream_of(case, ctx)
        arr = player.arrivals(case["arrive"], len(s))
        run = player.play(ctx, case, s, watch, arrivals=arr,
                          max_cycles=600000 + len(s) * 15 + arr[-1][0])
        n = player.rx_ok(run, s)
        tr = player.Trace(run, placed, addr)
        core.check(n == placed[-1][0] + 2, "%d bytes consumed up to "
                   "TERMINATE, should be %d" % (n, placed[-1][0] + 2),
                   "consumed")
        # waits for whole frames
        rx = run.of(RX)
        sent = rx[:, 2] >> 16
        core.check(sent[0] >= 256, "header read when only %d bytes had "
                   "arrived" % sent[0], "impatient")
        for f in range((n - 1) // 2048 + 1):
            i = max(7, f * 2048)
            if i < n:
                core.check(sent[i] >= (f + 1) * 2048, "frame %d read when "
                           "only %d bytes had arrived" % (f, sent[i]),
                           "impatient")
        # acknowledgements
        ev = run.ev
        frames = 0
        hi = lo = 0
        for c, k, a, b in run.of(REGW).tolist():
            if a == RD:
                hi = b
            elif a == RD + 1:
                lo = b
            elif a == CR and b == 0x40:
                frames += 1
                core.check((hi << 8 | lo) == frames * 2048 % 65536,
                           "RECEIVE %d with the receive pointer at $%04x" % (
                               frames, hi << 8 | lo), "pointer")
            elif a == CR:
                core.check(b in (1, 4) and frames == 0, "command $%02x during "
                           "playback" % b, "command")
        want = [op for _, op in placed if op[0] == "ack"]
        core.check(frames == len(want), "%d RECEIVE commands for %d frames" %
                   (frames, len(want)), "recv")
        core.check(run.acked == 2048 * frames, "acknowledged %d bytes" %
                   run.acked, "acked")
        waits = 0
        for i in range(len(tr)):
            op = tr.op(i)
            sl = tr.slice(i)
            sw = sl[sl[:, 1] == SWITCH][:, 2].tolist()
            cmd = sl[(sl[:, 1] == REGW) & (sl[:, 2] == CR)]
            if op[0] == "ack":
                core.check(sw == [0x55 if op[1] else 0x54], "%r touches "
                           "switches %r" % (op, sw), "switch")
                core.check(len(cmd) == 1, "%d commands in a frame boundary" %
                           len(cmd), "recv")
                polls = sl[(sl[:, 1] == REGR) & (sl[:, 2] == RSR)]
                waits += len(polls) > 1
            else:
                core.check(not sw and not len(cmd), "%r touches switches %r, "
                           "commands %d" % (op, sw, len(cmd)), "switch")
        tags = [case["mode"]]
        if waits:
            tags.append("waited")
        if frames >= 4:
            tags.append("buffer-wrap")
        if frames >= 32:
            tags.append("pointer-wrap")
        return dict(nontrivial=frames > 0, n=frames, tags=tags)


PROP = C06()
