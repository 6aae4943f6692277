from hypothesis import strategies as st

from .. import core, player
from ..player import (COUT, HGR0, OP, REGR, REGW, RX, SCREEN, SWITCH, WMODE)

STATUS = [0, 0x14, 0x15, 0x16, 0x18, 0x1a, 0x1b, 0x1c, 0x1d, 0x22, 0xff]
# register, value
CONFIG = {
    "MAC address": (0x09, [0x00, 0x08, 0xdc, 1, 2, 3]),
    "IP address": (0x0f, [10, 0, 65, 2]),
    "receive buffer size": (0x1a, [3]),
    "transmit buffer size": (0x1b, [3]),
    "socket mode": (0x400, [0x21]),
    "local port": (0x404, [0xc0, 0x00]),
    "peer address": (0x40c, [10, 0, 0, 1]),
    "peer port": (0x410, [1977 >> 8, 1977 & 255]),
}


@st.composite
def case(draw):
    nref = draw(st.one_of(st.integers(0, 7), st.sampled_from([0, 0, 1, 5,
                                                              6])))
    polls = st.one_of(st.just(0), st.integers(0, 40))
    con = [[draw(polls), 0x13, 0] for _ in range(nref)]
    last = [draw(polls), 0x13, 0x17]
    if draw(st.integers(0, 4)) == 0:
        # the socket cannot be opened, this or some later time
        last[1] = draw(st.sampled_from(STATUS))
    con.append(last)
    size = st.one_of(st.sampled_from([1, 6, 7, 255, 256, 257, 2047, 2048]),
                     st.integers(1, 600))
    return {
        "con": con,
        "mode": draw(st.one_of(st.just(0), st.just(1), st.integers(2, 255))),
        "pad": draw(st.lists(st.integers(0, 255), min_size=6, max_size=6)),
        "aux_fill": draw(st.sampled_from([0, 0xff, 0x55, 0xa0])),
        "op": draw(player.op_st()),
        "n": draw(st.integers(1, 5)),
        "sp": draw(st.sampled_from([0xff, 0xf0, 0x40, 0x80])),
        "arrive": draw(st.lists(st.tuples(
            st.integers(0, 4000), size).map(list), max_size=5)),
    }


class C08(player.PlayerProp):
    id = "C08"
    technique = ("property-based testing: generated connection outcomes, "
                 "header contents, prior memory and arrival schedules, cold "
                 "start of the assembled player against a W5100 model")
    rule = ("0-7 refused connections with any delay, unopenable sockets, all "
            "mode bytes, split headers; non-trivial: a retry, a failure or a "
            "mode other than 0")
    budget = {"quick": (2000, 40, 8), "thorough": (30000, 420, 8)}

    def enumerate(self, tier):
        for n in range(8):
            for mode in (0, 1, 2, 128, 255):
                yield {"con": [[i, 0x13, 0] for i in range(n)] +
                       [[3, 0x13, 0x17]], "mode": mode, "pad": [255] * 6,
                       "aux_fill": 0xa5, "op": ["op", 36, 40, 9,
                                                [1, 2, 3, 4]],
                       "n": 2, "sp": 255, "arrive": []}

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        n, sym = player.info(ctx)
        addr = player.by_symbols(sym)
        o = case["op"]
        placed = player.place([("tick", o[1], o[2], o[3], list(o[4]))] *
                              case["n"], [0])
        hdr = bytes(case["pad"]) + bytes([case["mode"]])
        s = player.encode(placed, addr, hdr)
        watch = sorted({addr(op) for _, op in placed} | {addr(("nop",))})
        arr = player.arrivals(case["arrive"], len(s))
        run = player.play(ctx, case, s, watch, arrivals=arr,
                          connects=[tuple(c) for c in case["con"]],
                          aux_fill=case["aux_fill"], sp=case["sp"],
                          max_cycles=900000 + arr[-1][0])
        # what should happen
        attempts = []
        end = "play"
        for k, (polls, opened, answer) in enumerate(case["con"]):
            attempts.append(opened == 0x13)
            if opened != 0x13:
                end = "unopenable"
                break
            if answer == 0x17:
                break
            if k == 5:
                end = "refused"
                break
        ev = run.ev.tolist()
        reg = {}
        opens = connects = resets = 0
        auto = False
        said = []
        init_seen = False
        for c, k, a, b in ev:
            if k == WMODE:
                if a & 0x80:
                    reg = {}
                    resets += 1
                    auto = False
                else:
                    auto = a & 3 == 3
            elif k == REGW:
                reg[a] = b
                if a == 0x401 and b == 1:
                    opens += 1
                    core.check(resets >= opens, "socket opened without "
                               "resetting the card", "reset")
                    core.check(auto, "card not in auto-increment mode",
                               "card-mode")
                    for what, (r, vals) in CONFIG.items():
                        got = [reg.get(r + i) for i in range(len(vals))]
                        core.check(got == vals, "%s is %r when the socket is "
                                   "opened" % (what, got), "config")
                    init_seen = False
                elif a == 0x401 and b == 4:
                    connects += 1
                    core.check(opens >= connects and init_seen,
                               "CONNECT without an open socket", "connect")
            elif k == REGR and a == 0x403:
                init_seen = init_seen or b == 0x13
            elif k == COUT:
                said.append(chr(a & 0x7f))
        said = "".join(said)
        core.check(opens == len(attempts), "%d sockets opened, should be %d" %
                   (opens, len(attempts)), "opens")
        core.check(connects == sum(attempts), "%d connections tried, should "
                   "be %d" % (connects, sum(attempts)), "connects")
        ops = run.of(OP)
        tags = [end]
        if end != "play":
            core.check(run.why == "brk", "the player ends with %s at $%04x "
                       "after failing to connect" % (run.why, run.pc),
                       "stop")
            want = ("COULD NOT OPEN SOCKET" if end == "unopenable" else
                    "COULD NOT CONNECT")
            core.check(want in said, "message %r" % said, "message")
            core.check(said.count(".") == len(attempts) - 1, "%d retries "
                       "announced in %r" % (said.count("."), said),
                       "announce")
            core.check(len(ops) == 0 and len(run.of(RX)) == 0,
                       "playing without a connection", "stop")
            return dict(nontrivial=True, tags=tags, n=1)
        core.check(said == "." * (len(attempts) - 1), "said %r after %d "
                   "refused connections" % (said, len(attempts) - 1),
                   "announce")
        tr = player.Trace(run, placed, addr)
        rx = run.of(RX)
        core.check((rx[0, 2] >> 16) >= 256, "header read when only %d bytes "
                   "had arrived" % (rx[0, 2] >> 16), "impatient")
        player.rx_ok(run, s)
        # display when the first operation starts
        sw = {}
        clears = set()
        to_aux = []
        for c, k, a, b in ev[:tr.idx[0]]:
            if k == SWITCH:
                sw[a & 0xfe] = a & 1
            elif k == HGR0:
                clears.add((a, b))
        dbl = case["mode"] != 0
        core.check(sw.get(0x50) == 0, "text mode left on", "text")
        core.check(sw.get(0x52) == 0, "mixed mode left on", "mixed")
        core.check(sw.get(0x56) == 1, "hi-res not on", "hires")
        core.check(sw.get(0x54, 0) == 0, "PAGE2 left on", "page2")
        core.check(sw.get(0x00, 0) == int(dbl), "80STORE is %r in mode %d" % (
            sw.get(0x00, 0), case["mode"]), "80store")
        core.check(sw.get(0x0c, 0) == int(dbl), "80-column display is %r in "
                   "mode %d" % (sw.get(0x0c, 0), case["mode"]), "80col")
        # AN3: even address turns double resolution on
        core.check((sw.get(0x5e) == 0) == dbl, "double hi-res is %r in mode "
                   "%d" % (sw.get(0x5e), case["mode"]), "dhires")
        # memory at the end: cleared, plus what the operations stored
        want = bytearray(8192)
        for x in o[4]:
            want[o[2] * 256 + x - 0x2000] = o[3]
        core.check(run.main[0x2000:0x4000] == bytes(want),
                   "main screen memory not cleared", "clear")
        core.check(run.aux[0x2000:0x4000] == (
            bytes(8192) if dbl else bytes([case["aux_fill"]]) * 8192),
            "auxiliary screen memory not %s" % (
                "cleared" if dbl else "left alone"), "clear-aux")
        return dict(nontrivial=dbl or len(attempts) > 1, n=1, tags=tags + [
            "mode0" if not dbl else "mode1+"])


PROP = C08()
