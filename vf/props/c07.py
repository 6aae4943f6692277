import numpy as np
from hypothesis import strategies as st

from .. import core, player
from ..player import REGR, TICK

RSR = 0x426


@st.composite
def case(draw):
    c = draw(player.programme())
    c["arrive"] = draw(st.one_of(st.just([]), player.schedule(6)))
    return c


class C07(player.PlayerProp):
    id = "C07"
    technique = ("cycle stamps of speaker accesses on the assembled player "
                 "in a 6502 model, over generated programmes and arrival "
                 "schedules")
    rule = ("programmes of up to about 10 frames with data at hand or "
            "arriving late, all widths on both sides of the boundary; "
            "non-trivial: a frame boundary with data at hand")
    budget = {"quick": (900, 40, 8), "thorough": (20000, 420, 8)}
    # the speaker may rest no longer than this while waiting
    REST = 100

    def enumerate(self, tier):
        for j, t in enumerate(player.TICKS):
            # each width before and after a boundary
            yield {"mode": "DHGR", "banks": [1, 0, 0, 1], "arrive": [],
                   "items": [["seg", 291, player.TICKS, player.PAGES, j],
                             ["op", t, 32 + j, 7, [0, 255, 0, 255]],
                             ["op", t, 63 - j, 7, [0, 255, 0, 255]],
                             ["seg", 292 * 4, [t], player.PAGES, j]]}

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        s, placed, watch, addr = player.stream_of(case, ctx)
        arr = player.arrivals(case["arrive"], len(s))
        run = player.play(ctx, case, s, watch, arrivals=arr,
                          max_cycles=600000 + len(s) * 15 + arr[-1][0])
        tr = player.Trace(run, placed, addr)
        fast = waited = 0
        for i in range(len(tr) - 1):
            op = tr.op(i)
            if op[0] != "ack":
                continue
            sl = tr.slice(i)
            t = sl[sl[:, 1] == TICK][:, 0].tolist()
            core.check(t, "%r does not toggle the speaker" % (op,), "silent")
            nxt = player.first_toggle(tr, i + 1)
            whole = t + ([nxt] if nxt is not None else [])
            gaps = np.diff(whole).tolist()
            polls = sl[(sl[:, 1] == REGR) & (sl[:, 2] == RSR)]
            core.check(len(polls) > 0, "no wait for data at a boundary",
                       "poll")
            if int(polls[0, 3]) >= 8:
                fast += 1
                core.check(all(34 <= g <= 39 for g in gaps), "boundary %d: "
                           "speaker toggled after %r cycles" % (i, gaps),
                           "cadence")
                if nxt is not None:
                    core.check(nxt - t[0] == 146, "boundary %d takes %d "
                               "cycles" % (i, nxt - t[0]), "period")
            else:
                waited += 1
                core.check(max(gaps, default=0) <= self.REST, "boundary %d: "
                           "speaker left for %d cycles while waiting" % (
                               i, max(gaps, default=0)), "rest")
        return dict(nontrivial=fast > 0, n=fast + waited, tags=[
            k for k, v in (("fast", fast), ("waited", waited)) if v])


PROP = C07()
