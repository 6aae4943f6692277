import numpy as np
from hypothesis import strategies as st

from .. import core, enc, ref


@st.composite
def high(draw):
    """DHGR frames some bytes of which have the unused bit set."""
    case = draw(enc.history(mode="DHGR", max_steps=4))
    case["high"] = draw(st.lists(st.tuples(
        st.integers(0, 1), enc.page_st(),
        st.one_of(st.sampled_from(enc.EDGE_OFF), st.integers(0, 255))).map(
            list), min_size=1, max_size=6))
    for s in case["steps"]:
        if draw(st.booleans()):
            s[2] = -1
    return case


class C11(enc.EncProp):
    id = "C11"
    technique = "property-based testing: range and screen-hole invariants"
    rule = ("encoder histories, half of them with target frames carrying junk "
            "in the screen holes, some DHGR frames with the unused high bit set "
            "here and there (which the encoder may refuse, but not store); "
            "enumerated: 7 histories of 60-250 encodings (thorough: 8 times as "
            "many) with priorities beyond 16 bits, 2 (18) on which nearly all bytes differ, "
            "and 2 continued for 20000 (100000) idle operations; "
            "non-trivial: 5 or more operations on pages "
            "having screen holes")
    budget = {"quick": (60, 40, 8), "thorough": (4000, 500, 8)}
    assumptions = enc.EncProp.assumptions[:1]

    def enumerate(self, tier):
        yield from enc.long_histories(tier)
        yield from enc.full_screens(tier)
        yield from enc.idle_histories(tier)
        for bank in (0, 1):
            for page, off, v in ((0, 0, 0x7f), (4, 10, 0x2a), (31, 247, 0)):
                yield {"mode": "DHGR", "pal": "NTSC", "rng": 1,
                       "frames": [[["set", bank, page, off, v],
                                   ["set", bank, page, off ^ 1, 0x11]]],
                       "steps": [[0, 0, 40], [0, 1, 40], [0, 0, 40]],
                       "high": [[bank, page, off]]}

    def strategy(self, tier):
        h = enc.history(max_steps=6 if tier == "quick" else 12, junk=True)
        return st.one_of(h, h, h, high())

    def run(self, case, ctx):
        frames, res = enc.execute(case, ctx, reject="high" in case)
        n = 0
        for s, (ops, main, aux) in zip(case["steps"], res):
            for op in ops:
                enc.well_formed(op)
                page, content, offsets = op
                for o in offsets:
                    core.check(not ref.HOLES[page - 32, o],
                               "store into a screen hole", "hole", op=op)
                if case["mode"] == "DHGR":
                    core.check(content < 0x80, "DHGR content has bit 7 set",
                               "bit7", op=op)
                n += bool(ref.HOLES[page - 32].any())
            for raw in (main, aux):
                if raw is not None:
                    a = np.frombuffer(raw, dtype=np.uint8).reshape(32, 256)
                    core.check(not a[ref.HOLES].any(),
                               "believed screen holes are not zero", "belief")
        if "high" in case:
            return dict(nontrivial=n >= 1, n=sum(len(r[0]) for r in res),
                        tags=["DHGR", "high bits"])
        return dict(nontrivial=n >= 5, n=sum(len(r[0]) for r in res),
                    tags=[case["mode"], "junk" if case.get("junk")
                          else "clean"])


PROP = C11()
