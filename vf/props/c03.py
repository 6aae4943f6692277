from hypothesis import strategies as st

from .. import core, player


class C03(player.PlayerProp):
    id = "C03"
    technique = ("all operations enumerated, plus generated programmes, "
                 "emitted by the transcoder and executed on the player "
                 "assembled from source in a 6502 model")
    rule = ("every operation (width x page) with varied operands, ACK, NOP, "
            "TERMINATE, and generated programmes; addresses as the "
            "transcoder emits them; non-trivial: 8 or more distinct "
            "operations executed")
    budget = {"quick": (350, 40, 8), "thorough": (4000, 300, 8)}

    def prepare(self, ctx):
        super().prepare(ctx)
        ctx.env["VERIF_OPCODES"] = "1"

    def enumerate(self, tier):
        for mode in ("HGR", "DHGR"):
            for j in range(4):
                yield {"mode": mode, "banks": [1, 0], "items": [
                    ["op", t, p, (t * 7 + p + j) & 0xff,
                     [(t + p * k + 50 * j + 61 * k) & 255 for k in range(4)]]
                    for p in player.PAGES[j * 8:j * 8 + 8]
                    for t in player.TICKS]}

    def strategy(self, tier):
        return player.programme(max_seg=300, nops=True)

    def run(self, case, ctx):
        placed = player.place(player.operations(case), case["banks"])
        ops = [("header", case["mode"])] + [op for _, op in placed]
        parts = ctx.call("emit", ops=ops)
        s = b"".join(parts)
        lens = {"header": 7, "tick": 7, "ack": 4, "nop": 2, "terminate": 2}
        for op, b in zip(ops, parts):
            core.check(len(b) == lens[op[0]], "%r is emitted as %r" % (op, b),
                       "length")
        s += bytes(2048 - len(s) % 2048)
        entry = {}
        for op, b in zip(ops[1:], parts[1:]):
            a = b[0] << 8 | b[1]
            key = op[:3] if op[0] == "tick" else op[:1]
            core.check(entry.setdefault(key, a) == a, "two entry addresses "
                       "for %r" % (op,), "entry")
            core.check(not 0x2000 <= a < 0x4000, "%r is at $%04x, in the "
                       "memory erased at start-up" % (op, a), "erased")
        n, sym = player.info(ctx)
        for key, a in entry.items():
            name = ("op_tick_%d_page_%d" % key[1:] if key[0] == "tick"
                    else "op_" + key[0])
            if name in sym:
                core.check(sym[name] == a, "%s is at $%04x in the built "
                           "player, the transcoder emits $%04x" % (
                               name, sym[name], a), "symbol")

        def addr(op):
            return entry[op[:3] if op[0] == "tick" else op[:1]]
        entry.setdefault(("nop",), sym.get("op_nop", 0xffff))
        watch = sorted({addr(op) for _, op in placed} | {addr(("nop",))})
        run = player.play(ctx, case, s, watch)
        tr = player.Trace(run, placed, addr)
        core.check(run.why == "mli", "the player did not reach its end: %s at "
                   "$%04x" % (run.why, run.pc), "end")
        bank = 0
        for i in range(len(tr)):
            op = tr.op(i)
            if op[0] == "tick":
                player.screen_ok(tr, i, case["mode"], bank)
                player.pulse_ok(tr, i, None)
            elif op[0] == "ack":
                sw = tr.slice(i)
                sw = sw[sw[:, 1] == player.SWITCH]
                core.check(sw[:, 2].tolist() == [0x55 if op[1] else 0x54],
                           "ACK %r touches switches %r" % (
                               op, sw[:, 2].tolist()), "ack-switch")
                if case["mode"] == "DHGR":
                    bank = op[1]
        n = player.rx_ok(run, s)
        core.check(n == placed[-1][0] + 2, "%d bytes consumed up to "
                   "TERMINATE, should be %d" % (n, placed[-1][0] + 2),
                   "consumed")
        frames = sum(op[0] == "ack" for _, op in placed)
        core.check(run.acked == frames * 2048, "%d bytes acknowledged after "
                   "%d frames" % (run.acked, frames), "acked")
        return dict(nontrivial=len(entry) >= 8, n=len(placed), tags=[
            case["mode"]] + (["ack"] if frames else []))


PROP = C03()
