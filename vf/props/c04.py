from hypothesis import strategies as st

from .. import core, player


class C04(player.PlayerProp):
    id = "C04"
    technique = ("stateful property-based testing of generated operation "
                 "sequences on the assembled player in a 6502 model")
    rule = ("programmes of up to about 9 frames with both modes, bank "
            "switches, NOPs and edge offsets; non-trivial: 4 or more distinct "
            "operations, executed")
    budget = {"quick": (700, 40, 8), "thorough": (20000, 400, 8)}

    def enumerate(self, tier):
        # every operation after one of each kind of predecessor
        for j, t in enumerate(player.TICKS):
            yield {"mode": "DHGR", "banks": [1, 0], "items": [
                ["op", u, p, (u + p * j) & 255,
                 [(p * k + u * 3 + j) & 255 for k in (1, 5, 11, 29)]]
                for p in player.PAGES for u in (t, player.TICKS[
                    (p * 5 + j) % 32])]}

    def strategy(self, tier):
        return player.programme(nops=True)

    def run(self, case, ctx):
        s, placed, watch, addr = player.stream_of(case, ctx)
        run = player.play(ctx, case, s, watch)
        tr = player.Trace(run, placed, addr)
        bank = 0
        model = [bytearray(8192), bytearray(8192)]
        kinds = set()
        for i in range(len(tr)):
            op = tr.op(i)
            if op[0] == "tick":
                kinds.add(op[1:3])
                player.screen_ok(tr, i, case["mode"], bank)
                for o in op[4]:
                    model[bank][op[2] * 256 + o - 0x2000] = op[3]
            else:
                sl = tr.slice(i)
                core.check(not (sl[:, 1] == player.SCREEN).any(),
                           "%r stores to the screen" % (op,), "stores")
                for w in sl[sl[:, 1] == player.WRITE]:
                    a = int(w[2])
                    core.check(a >= 0xc000 or 6 <= a <= 9 or
                               0x100 <= a < 0x200 or op[0] == "terminate",
                               "%r writes to $%04x" % (op, a), "stray")
                if op[0] == "ack" and case["mode"] == "DHGR":
                    bank = op[1]
        player.rx_ok(run, s)
        core.check(run.main[0x2000:0x4000] == bytes(model[0]),
                   "main screen memory differs at the end", "final")
        if case["mode"] == "DHGR":
            core.check(run.aux[0x2000:0x4000] == bytes(model[1]),
                       "auxiliary screen memory differs at the end", "final")
        return dict(nontrivial=len(kinds) >= 4, n=len(placed),
                    tags=[case["mode"]])


PROP = C04()
