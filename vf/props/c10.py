import numpy as np
from hypothesis import strategies as st

from .. import core, enc, movie


class C10(enc.EncProp):
    id = "C10"
    profile = "movie"
    technique = "property-based testing: encoder histories vs. replay model"
    rule = ("histories of target frames, bank choices and numbers of "
            "operations taken per encoding, frames painted by generated "
            "strokes on 1-3 focus pages, a quarter of them converging and then "
            "differing by a few dots only; an eighth are run as whole films, "
            "with bank switches and frame skipping, and the output stream "
            "is replayed; "
            "enumerated: 7 histories of 60-250 encodings (thorough: 8 times as "
            "many) with priorities beyond 16 bits, 2 (18) on which nearly all bytes differ, "
            "and 2 continued for 20000 (100000) idle operations; "
            "non-trivial: at least two encodings "
            "together emitted 5 or more operations that changed the screen")
    budget = {"quick": (60, 40, 8), "thorough": (4000, 500, 8)}

    def enumerate(self, tier):
        yield from enc.long_histories(tier)
        yield from enc.full_screens(tier)
        yield from enc.idle_histories(tier)

    def strategy(self, tier):
        h = enc.history(max_steps=8 if tier == "quick" else 16)
        e = st.one_of(h, h, h, enc.slight(6))
        return st.one_of(*[e] * 7, movie.still(st.one_of(
            enc.history(max_steps=3), enc.slight(1))).flatmap(
                lambda c: st.sampled_from([0, 100, 300, 900]).map(
                    lambda n: dict(c, hold=n))))

    def run(self, case, ctx):
        if "film" in case:
            return self.film(case, ctx)
        frames, res = enc.execute(case, ctx, want_packed=True)
        scr = [np.zeros((32, 256), dtype=np.uint8) for _ in range(2)]
        changed = 0
        total = 0
        tags = set([case["mode"]])
        for i, (step, r) in enumerate(zip(case["steps"], res)):
            bank = step[1]
            ops, main, aux, packed, scratch = r
            for op in ops:
                enc.well_formed(op)
                before = [scr[bank][op[0] - 32, o] for o in op[2]]
                changed += any(b != op[1] for b in before)
                enc.apply_store(scr, bank, op)
            total += len(ops)
            if step[2] == -1:
                tags.add("exhausted")
            elif ops and i + 1 < len(res):
                tags.add("abandoned")
            for name, k, raw in (("main", 0, main), ("aux", 1, aux)):
                if raw is None:
                    continue
                got = np.frombuffer(raw, dtype=np.uint8).reshape(32, 256)
                if not np.array_equal(got, scr[k]):
                    p, o = np.argwhere(got != scr[k])[0]
                    raise core.Violation(
                        "after encoding %d (%s) %s byte (%d, %d): stores give "
                        "$%02x, encoder believes $%02x" % (
                            i, step, name, p, o, scr[k][p, o], got[p, o]),
                        "belief")
            core.check(packed == scratch, "after encoding %d the packed "
                       "bitmap differs from the believed memory" % i,
                       "packed")
        return dict(nontrivial=changed >= 5 and len(res) >= 2, n=total,
                    tags=tags)

    def film(self, case, ctx):
        if "entry" not in ctx.data:
            ctx.data["entry"] = movie.entries()
        entry = ctx.data["entry"]
        film, _, (_, (data, belief, last, nops, _)) = movie.shoot_still(
            case["film"], ctx, case["hold"])
        s = movie.Stream(data, entry)
        mem = movie.believed(film, entry, s, belief, last, nops)
        return dict(nontrivial=any(m.any() for m in mem) and len(s.acks) > 0,
                    n=len(s.ticks), tags=["film", film["mode"]])


PROP = C10()
