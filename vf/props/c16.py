import numpy as np
from hypothesis import strategies as st

from .. import core, enc, ref
from .c15 import screens


def expected(mode, m, p, o, bank):
    """Dots around byte (p, o) of a screen, and the clock phase."""
    def at(k, q):
        return int(m[k][p, q]) if 0 <= q < 256 else 0
    if mode == "HGR":
        d, t0 = ref.hgr_window(at(0, o - 1), at(0, o), at(0, o + 1), o)
        return sum(b << i for i, b in enumerate(d)), t0 % 4
    # i-th displayed byte: aux then main of each column
    i = 2 * o + (0 if bank else 1)

    def byte(j):
        return (at(1, j // 2) if j % 2 == 0 else at(0, j // 2)) & 0x7f
    t0 = 7 * i - 3
    return sum(ref.dhgr_dot(byte, t) << k
               for k, t in enumerate(range(t0, t0 + 13))), t0 % 4


@st.composite
def case(draw):
    mode = draw(st.sampled_from(["HGR", "DHGR"]))
    pages = draw(st.lists(enc.page_st(), min_size=1, max_size=2))
    init = draw(screens(mode, pages))
    centre = draw(st.one_of(st.sampled_from(enc.EDGE_OFF),
                            st.integers(0, 255)))
    lo, hi = max(0, centre - 4), min(255, centre + 4)
    vals = draw(st.lists(st.one_of(
        st.sampled_from([0, 0x7f, 0x80, 0xff, 0xe0, 0x60, 0x83, 3]),
        st.integers(0, 255)), min_size=9, max_size=9))
    stores = draw(st.lists(st.tuples(
        st.just(pages[0]), st.integers(lo, hi),
        st.integers(0, 1 if mode == "DHGR" else 0), st.integers(0, 255)
    ).map(list), max_size=4))
    return {"mode": mode, "init": init, "page": pages[0], "lo": lo, "hi": hi,
            "vals": vals, "stores": stores}


class C16(core.Prop):
    id = "C16"
    profile = "encoder"
    technique = ("property-based testing against a dot-level display model; "
                 "all masked values enumerated")
    rule = ("all masked neighbourhood values of every byte offset (in chunks "
            "of 1024), and generated screens judged at clusters of "
            "neighbouring bytes before and after stores; non-trivial: the "
            "cluster shows at least one lit dot, or the chunk")
    budget = {"quick": (250, 35, 8), "thorough": (20000, 300, 8)}
    assumptions = ("neighbours of a byte are the adjacent bytes of its "
                   "256-byte page, nothing beyond the page's ends (the "
                   "screen model's documented approximation at row ends)",)

    def enumerate(self, tier):
        for mode in ref.MODES:
            for o in range(ref.NOFF[mode]):
                for lo in range(0, 1 << ref.BITS[mode], 1024):
                    yield {"mode": mode, "all": [o, lo, lo + 1024]}

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        mode = case["mode"]
        if "all" in case:
            o, lo, hi = case["all"]
            got = ctx.call("to_dots_range", mode=mode, o=o, lo=lo, hi=hi)
            ph = ctx.call("phases", mode=mode)
            for v, g in zip(range(lo, hi), got):
                e, n, t0 = ref.masked_dots(mode, o, v)
                core.check(g == e, "dots of neighbourhood value %s at offset "
                           "%d are %s, should be %s" % (
                               bin(v), o, bin(g), bin(e)), "to_dots")
                core.check(ph["phases"][o] == t0, "clock phase of offset %d "
                           "is %d, should be %d" % (o, ph["phases"][o], t0),
                           "phase")
            return dict(nontrivial=True, n=hi - lo, tags=["enumerated"])
        c = enc.Canvas(mode)
        for op in case["init"]:
            c.apply(op, holes=True)
        p, lo, hi = case["page"], case["lo"], case["hi"]
        for i, o in enumerate(range(lo, hi + 1)):
            c.m[0][p, o] = case["vals"][i]
            c.m[1][p, o] = case["vals"][-1 - i]
        main, aux = c.raw()
        banks = (0, 1) if mode == "DHGR" else (0,)
        places = [(p, o, b) for o in range(max(0, lo - 1), min(255, hi + 1) + 1)
                  for b in banks]
        stores = [tuple(s) for s in case["stores"]]
        first, res = ctx.call("dots_of", mode=mode, pal="NTSC", main=main,
                              aux=aux, places=places, stores=stores)
        m = [x.copy() for x in c.m]
        lit = 0

        def judge(got, what):
            nonlocal lit
            for pl, g in zip(places, got):
                e = expected(mode, m, *pl)
                core.check(tuple(g) == e, "%s: dots around %r are %s phase "
                           "%d, should be %s phase %d" % (
                               what, pl, bin(g[0]), g[1], bin(e[0]), e[1]),
                           "dots")
                lit += e[0] != 0
        judge(first, "packed")
        for s, (one, many, after) in zip(stores, res):
            m[s[2]][s[0], s[1]] = s[3]
            e = expected(mode, m, *s[:3])
            core.check(tuple(one) == e and tuple(many) == e,
                       "storing %r changes the dots there to %r / %r, should "
                       "be %r" % (s, one, many, e), "masked_update")
            judge(after, "after storing %r" % (s,))
        return dict(nontrivial=lit > 0, n=len(places) * (1 + len(stores)),
                    tags=[mode] + (["stores"] if stores else []))


PROP = C16()
