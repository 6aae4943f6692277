from hypothesis import strategies as st

from .. import enc, movie, trace


class C13(enc.EncProp):
    id = "C13"
    profile = "movie"
    technique = ("property-based testing: every emitted operation judged "
                 "against a reference model of candidate stores")
    rule = ("encoder histories, half of them converging and then differing by "
            "a few dots only; "
            "a seventh are whole films, judged by their output stream; "
            "enumerated: 7 histories of 60-250 encodings (thorough: 8 times as "
            "many) with priorities beyond 16 bits, and 2 (18) on which nearly all bytes differ, "
            "8 (48) films of dense pictures in each mode and palette; "
            "non-trivial: 10 or more operations, of which "
            "some used and some did not use all extra offsets")
    budget = {"quick": (60, 45, 8), "thorough": (4000, 540, 8)}

    def enumerate(self, tier):
        yield from enc.long_histories(tier)
        yield from enc.full_screens(tier)
        yield from movie.held_films(tier)

    def strategy(self, tier):
        h = enc.history(max_steps=6 if tier == "quick" else 12)
        e = enc.slight(8)
        return st.one_of(h, e, h, e, h, e, movie.held(st.one_of(
            enc.history(max_steps=3), enc.slight(2))))

    def run(self, case, ctx):
        m = trace.judge(case, ctx, "exact")
        s = m.stats
        return dict(nontrivial=s["ops"] >= 10 and s["full"] and
                    s["extras"] < 3 * s["ops"], n=s["ops"],
                    tags=["film"] if "film" in case else
                    [case["mode"], case["pal"]])


PROP = C13()
