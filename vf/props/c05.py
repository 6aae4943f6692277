from hypothesis import strategies as st

from .. import core, player


class C05(player.PlayerProp):
    id = "C05"
    technique = ("cycle stamps of speaker accesses on the assembled player "
                 "in a 6502 model, over enumerated operation pairs and "
                 "generated programmes")
    rule = ("every operation once, every ordered pair of widths, generated "
            "programmes with edge operands; thorough: every ordered pair of "
            "the 1024 operations; non-trivial: 4 or more distinct operations")
    budget = {"quick": (900, 40, 8), "thorough": (20000, 400, 8)}

    def enumerate(self, tier):
        for j in range(8):
            yield {"mode": "HGR", "banks": [0], "items": [
                ["op", t, p, 255 * (j & 1), [255, 0, 0x80 + j, t]]
                for p in player.PAGES[j * 4:j * 4 + 4]
                for t in player.TICKS]}
        for i, t in enumerate(player.TICKS):
            items = []
            for j, u in enumerate(player.TICKS):
                p, q = 32 + (i * 7 + j) % 32, 32 + (i + j * 5) % 32
                items += [["op", t, p, i, [j, 255, i, 0]],
                          ["op", u, q, j, [255, j, 255, 255]]]
            yield {"mode": "DHGR", "banks": [1, 0], "items": items}
        if tier == "thorough":
            for t in player.TICKS:
                for p in player.PAGES:
                    yield {"mode": "HGR", "banks": [0], "pairs": [t, p],
                           "items": []}

    def strategy(self, tier):
        return player.programme()

    def run(self, case, ctx):
        if case.get("pairs"):
            t, p = case["pairs"]
            case = dict(case, items=[x for u in player.TICKS
                                     for q in player.PAGES for x in
                                     (["op", t, p, u, [q, u, t, 255]],
                                      ["op", u, q, q, [t, u, q, p]])])
        s, placed, watch, addr = player.stream_of(case, ctx)
        run = player.play(ctx, case, s, watch)
        tr = player.Trace(run, placed, addr)
        kinds = set()
        n = 0
        nxt = None
        for i in reversed(range(len(tr))):
            op = tr.op(i)
            if op[0] == "tick":
                kinds.add(op[1:3])
                player.pulse_ok(tr, i, nxt)
                n += 1
            nxt = player.first_toggle(tr, i)
        return dict(nontrivial=len(kinds) >= 4, n=n, tags=[case["mode"]])


PROP = C05()
