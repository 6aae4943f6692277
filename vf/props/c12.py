import numpy as np
from hypothesis import strategies as st

from .. import core, enc, movie


class C12(enc.EncProp):
    id = "C12"
    profile = "movie"
    technique = ("property-based testing: convergence of still pictures, "
                 "judged by reference distances")
    rule = ("a generated encoder history, then the last frame held while "
            "passes over the bank(s) run until idle; two thirds of the "
            "histories converge and then differ by a few dots only; "
            "a tenth are whole films ending in a still picture, judged by "
            "their output stream; enumerated: 7 histories of 60-250 encodings (thorough: 8 times as "
            "many) with priorities beyond 16 bits, and 2 (18) on which nearly all bytes differ; "
            "non-trivial: when the "
            "frame starts being held some byte differs perceptibly from it")
    budget = {"quick": (40, 45, 8), "thorough": (3000, 540, 8)}
    # more passes than any line-long run of equivalent greys can need
    PASSES = (5, 40, 300)

    def enumerate(self, tier):
        yield from enc.long_histories(tier)
        yield from enc.full_screens(tier)

    # samples for which films hold their last frame
    HOLD = (2400, 20000, 60000)

    def strategy(self, tier):
        h = enc.history(max_steps=5 if tier == "quick" else 10)
        e = st.one_of(h, enc.slight(), enc.slight())
        return st.one_of(*[e] * 9, movie.still(st.one_of(
            enc.history(max_steps=3), enc.slight(1))))

    def run(self, case, ctx):
        if "film" in case:
            return self.film(case["film"], ctx)
        mode = case["mode"]
        banks = (0, 1) if mode == "DHGR" else (0,)
        f = case["steps"][-1][0]
        if case["steps"][-1][1] and mode == "DHGR":
            banks = (1, 0)
        nhist = len(case["steps"])
        for passes in self.PASSES:
            steps = case["steps"] + [[f, b, -1] for _ in range(passes)
                                     for b in banks]
            frames, res = enc.execute(case, ctx, steps=steps)
            ok, info = self.judge(case, ctx, steps, frames, res, nhist, banks)
            if ok:
                return info
        raise core.Violation("still differs from the held frame after %d "
                             "passes" % self.PASSES[-1], "no-convergence")

    def judge(self, case, ctx, steps, frames, res, nhist, banks):
        dist = enc.Dist(ctx, case)
        scr = [np.zeros((32, 256), dtype=np.uint8) for _ in range(2)]
        target = frames[steps[-1][0]]
        converged = False
        start_diff = None
        tags = {case["mode"], case["pal"]}
        npass = 0
        nops = 0
        for i, (step, r) in enumerate(zip(steps, res)):
            bank = step[1]
            if i == nhist:
                start_diff = sum(int((dist.screen(scr, target, b) > 0).sum())
                                 for b in banks)
            hold = i >= nhist
            if hold and not converged:
                converged = not any(dist.screen(scr, target, b).any()
                                    for b in banks)
                npass += 1
            d0 = int((dist.screen(scr, target, bank) > 0).sum()) if hold \
                else 0
            for k, op in enumerate(r[0]):
                enc.well_formed(op)
                changes = any(scr[bank][op[0] - 32, o] != op[1]
                              for o in op[2])
                if hold and changes:
                    core.check(not converged, "a converged screen was "
                               "changed by %r" % (op,), "disturbed")
                    core.check(k < d0, "operation %d of a pass over %d "
                               "differing bytes still changes the screen" % (
                                   k + 1, d0), "too-many")
                enc.apply_store(scr, bank, op)
            nops += len(r[0])
            if hold:
                core.check(len(r[0]) < 8192, "a pass never ran out of work",
                           "endless")
        if not converged:
            converged = not any(dist.screen(scr, target, b).any()
                                for b in banks)
            npass += 1
        tags.add("passes<=%d" % (npass // len(banks)) if npass < 8 else
                 "passes>=8")
        return converged, dict(nontrivial=start_diff >= 1, tags=tags, n=nops)

    def film(self, film, ctx):
        if "entry" not in ctx.data:
            ctx.data["entry"] = movie.entries()
        dist = enc.Dist(ctx, film)
        banks = (0, 1) if film["mode"] == "DHGR" else (0,)
        blank = [np.zeros((32, 256), dtype=np.uint8) for _ in range(2)]
        for hold in self.HOLD:
            c, target, (_, (data, _, _, _, _)) = movie.shoot_still(
                film, ctx, hold)
            s = movie.Stream(data, ctx.data["entry"])
            scr = s.replay(film["mode"])
            left = [int((dist.screen(scr, target, b) > 0).sum())
                    for b in banks]
            if not any(left):
                break
        else:
            raise core.Violation("%s bytes still differ after a film held its "
                                 "last frame for %d samples" % (left, hold),
                                 "film-no-convergence")
        return dict(nontrivial=any(dist.screen(blank, target, b).any()
                                   for b in banks),
                    n=len(s.ticks), tags=["film", film["mode"],
                                          "held for %d" % hold])


PROP = C12()
