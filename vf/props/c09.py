import numpy as np
from hypothesis import strategies as st

from .. import core, player
from ..player import KBD, KEY, MLI, OP, RESET, RX, STROBE, TICK

RESUME = 1000


@st.composite
def case(draw):
    c = draw(player.programme(max_seg=500))
    kind = draw(st.sampled_from(["keys", "keys", "keys", "none", "reset"]))
    c["kind"] = kind
    span = 600000
    if kind == "keys":
        near = st.tuples(st.integers(0, 20), st.integers(-400, 400)).map(
            lambda t: max(1, 215000 + t[0] * 21462 + t[1]))
        c["keys"] = sorted(draw(st.lists(st.one_of(
            near, near, st.integers(0, span)), min_size=1, max_size=8)))
        # later keys end every pause and the wait after TERMINATE
        c["every"] = draw(st.integers(400000, 900000))
        c["arrive"] = draw(st.one_of(st.just([]), st.just([]),
                                     player.schedule(6)))
    elif kind == "reset":
        c["reset"] = draw(st.one_of(st.integers(150, 3000),
                                    st.integers(100, span)))
        c["keys"] = draw(st.lists(st.integers(0, span), max_size=2))
    return c


class C09(player.PlayerProp):
    id = "C09"
    technique = ("stateful property-based testing: generated programmes, key "
                 "presses and resets on the assembled player in a 6502 model, "
                 "compared with the undisturbed programme")
    rule = ("up to 8 key presses at any cycle, concentrated around frame "
            "boundaries; resets at any cycle; no key at all; non-trivial: a "
            "pause took place or the run was reset")
    budget = {"quick": (600, 40, 8), "thorough": (10000, 420, 8)}

    def enumerate(self, tier):
        base = {"mode": "DHGR", "banks": [1, 0], "items": [
            ["seg", 292 * 2 + 10, player.TICKS, player.PAGES, 5]]}
        yield dict(base, kind="none")
        for k in range(40):
            yield dict(base, kind="keys", every=400000,
                       keys=[236000 + k * 160, 300000 + k * 7])
        for t in (200, 1000, 3000, 190000, 230000, 250000):
            yield dict(base, kind="reset", reset=t, keys=[])

    def strategy(self, tier):
        return case()

    @staticmethod
    def quit(run):
        core.check(run.why == "mli", "the player ends with %s at $%04x" % (
            run.why, run.pc), "end")
        call, parm = run.of(MLI)[-1, 2:].tolist()
        core.check(call == 0x65, "ProDOS call $%02x" % call, "call")
        p = run.main[parm:parm + 7]
        core.check(p == bytes([4, 0, 0, 0, 0, 0, 0]), "QUIT parameters %r" % (
            list(p),), "parameters")
        core.check(run.main[0x3f4] != run.main[0x3f3] ^ 0xa5,
                   "power-up byte left valid", "power-up")

    def run(self, case, ctx):
        s, placed, watch, addr = player.stream_of(case, ctx)
        kw = dict(after_polls=0, keys=case.get("keys", ()),
                  key_every=case.get("every", 0))
        kind = case["kind"]
        frames = sum(op[0] == "ack" for _, op in placed)
        if kind == "reset":
            run = player.play(ctx, case, s, watch, reset_at=case["reset"],
                              **kw)
            rs = run.of(RESET)
            core.check(len(rs) == 1, "no reset", "reset")
            if not run.reset:
                # before the vector is installed there is nothing to check
                core.check(case["reset"] < 150, "the reset vector is not "
                           "valid: $%04x, power-up byte $%02x" % (
                               rs[0, 2], rs[0, 3]), "vector")
                return dict(nontrivial=False)
            self.quit(run)
            i = int(np.flatnonzero(run.ev[:, 1] == RESET)[0])
            late = run.ev[i:]
            core.check(not np.isin(late[:, 1], [OP, RX, TICK]).any(),
                       "playing on after a reset", "reset-plays")
            return dict(nontrivial=True, n=1, tags=["reset"])
        if case.get("arrive"):
            kw["arrivals"] = player.arrivals(case["arrive"], len(s))
        budget = 900000 + kw.get("arrivals", [(0, 0)])[-1][0] + frames * 30000 + \
            (len(case.get("keys", ())) + frames + 4) * case.get("every", 0)
        run = player.play(ctx, case, s, watch, max_cycles=budget, **kw)
        tr = player.Trace(run, placed, addr)
        n = player.rx_ok(run, s)
        core.check(n == placed[-1][0] + 2, "%d bytes consumed, should be %d"
                   % (n, placed[-1][0] + 2), "consumed")
        bank = 0
        pauses = 0
        ev = run.ev
        # the wait for the first frame is a boundary, too
        since = (-1, -1, 0)
        boot = ev[:tr.idx[0]]
        strobes = boot[boot[:, 1] == STROBE][:, 0].tolist()
        if strobes:
            keys = boot[boot[:, 1] == KEY][:, 0].tolist()
            core.check(any(k <= strobes[0] for k in keys), "pausing without "
                       "a key", "stale")
            second = [k for k in keys if k > strobes[0]]
            core.check(second, "playback starts although a key was pressed",
                       "no-pause")
            since = (second[0], int(ev[tr.idx[0], 0]), 1)
        last = len(tr) - 1
        for i in range(len(tr)):
            op = tr.op(i)
            if op[0] == "tick":
                player.screen_ok(tr, i, case["mode"], bank)
                if i + 1 < last:
                    player.pulse_ok(tr, i, player.first_toggle(tr, i + 1))
                continue
            if op[0] == "terminate":
                continue
            if case["mode"] == "DHGR":
                bank = op[1]
            since = self.boundary(ev, tr, i, not case.get("arrive"), since)
            pauses = since[2]
        start = ev[tr.idx[last]]
        tail = ev[tr.idx[last]:]
        core.check(not np.isin(tail[:, 1], [RX, TICK]).any(),
                   "the player goes on after TERMINATE", "goes-on")
        if kind == "none":
            core.check(run.why == "limit", "the player ends with %s without a "
                       "key" % run.why, "no-wait")
        else:
            self.quit(run)
            keys = tail[(tail[:, 1] == KEY) & (tail[:, 0] >= start[0])]
            core.check(len(keys) > 0, "the player does not wait for a key "
                       "after TERMINATE", "no-wait")
        return dict(nontrivial=pauses > 0, n=len(tr), tags=[kind] + (
            ["paused"] if pauses else []))

    @staticmethod
    def boundary(ev, tr, i, at_hand, since):
        """Judges the pause, if any, at the boundary of ACK i.  since: cycle
        of the key that ended the last pause, cycle at which playback went on
        after it, and number of pauses so far."""
        a, b = tr.idx[i], tr.idx[i + 1]
        t0, t1 = int(ev[a, 0]), int(ev[b, 0]) if b < len(ev) else None
        sl = ev[a:b]
        every = ev[:b][ev[:b, 1] == KEY][:, 0].tolist()
        keys = sl[sl[:, 1] == KEY][:, 0].tolist()
        # (no key that ended a pause may cause another one; those pressed
        # while playback was resuming may or may not)
        must = any(since[1] < k < t0 for k in every)
        may = any(since[0] < k for k in every)
        latch = False
        for k in ev[:a, 1][np.isin(ev[:a, 1], [KEY, STROBE])].tolist():
            latch = k == KEY
        must = must or (may and (latch or any(k < t0 for k in keys)))
        # a key pressed during the boundary may or may not be in time
        if must or (sl[:, 1] == STROBE).any():
            seen = sl[(sl[:, 1] == KBD) & (sl[:, 3] == 0)][:, 0].tolist()
            core.check(seen, "a key pressed before the boundary is not "
                       "noticed", "ignored")
            core.check(any(since[0] < k <= seen[0] for k in every),
                       "boundary %d: pausing without a new key" % i, "stale")
            second = [k for k in keys if k >= seen[0]]
            core.check(second, "boundary %d: playback goes on at cycle %r "
                       "although a key was pressed" % (i, t1), "no-pause")
            core.check(second[0] < t1 <= second[-1] + RESUME, "boundary %d: "
                       "second key at %r, playback goes on at %r" % (
                           i, second, t1), "resume")
            return second[0], t1, since[2] + 1
        if not keys and at_hand:
            core.check(t1 - t0 <= 2 * 146, "boundary %d takes %d cycles "
                       "without a key" % (i, t1 - t0), "spurious")
        return since


PROP = C09()
