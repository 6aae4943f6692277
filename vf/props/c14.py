from hypothesis import strategies as st

from .. import enc, movie, trace


class C14(enc.EncProp):
    id = "C14"
    profile = "movie"
    technique = ("property-based testing: order of service vs. a reference "
                 "priority ledger per bank")
    rule = ("encoder histories over several frames, a third of them "
            "converging and then differing by a few dots only; "
            "a seventh are whole films, judged by their output stream; "
            "enumerated: 7 histories of 60-250 encodings (thorough: 8 times as "
            "many) with priorities beyond 16 bits, and 2 (18) on which nearly all bytes differ, "
            "2 of 1100 (8000) encodings, 8 (48) films of dense pictures in each "
            "mode and palette; "
            "non-trivial: 10 or more "
            "operations and priority carried over between encodings of the "
            "same bank")
    budget = {"quick": (60, 45, 8), "thorough": (4000, 540, 8)}

    def enumerate(self, tier):
        yield from enc.long_histories(tier)
        yield from enc.full_screens(tier)
        yield from enc.many_encodings(tier)
        yield from movie.held_films(tier)

    def strategy(self, tier):
        h = enc.history(max_frames=6, max_steps=10 if tier == "quick" else 20)
        e = enc.slight(8)
        return st.one_of(h, h, e, h, h, e, movie.held(st.one_of(
            enc.history(max_steps=3), enc.slight(2))))

    def run(self, case, ctx):
        m = trace.judge(case, ctx, "order")
        s = m.stats
        return dict(nontrivial=s["ops"] >= 10 and s["carried"] > 0,
                    n=s["ops"], tags=["film"] if "film" in case else
                    [case["mode"], case["pal"]])


PROP = C14()
