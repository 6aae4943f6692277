import numpy as np
from hypothesis import strategies as st

from .. import core, enc, ref


@st.composite
def case(draw):
    mode = draw(st.sampled_from(["HGR", "DHGR"]))
    pal = draw(st.sampled_from(["NTSC", "IIGS"]))
    pages = draw(st.lists(enc.page_st(), min_size=1, max_size=2))
    po = enc.paint(mode, pages)
    cur = draw(st.lists(po, max_size=5))
    tgt = draw(st.lists(po, max_size=5))
    p = st.sampled_from(pages)
    off = st.one_of(st.sampled_from(enc.EDGE_OFF), st.integers(0, 255))
    bank = st.integers(0, 1 if mode == "DHGR" else 0)
    store = st.tuples(st.integers(0, 1), p, off, bank,
                      enc.value(mode)).map(list)
    return {"mode": mode, "pal": pal, "cur": cur, "tgt": tgt,
            "derive": draw(st.booleans()), "bank": draw(bank),
            "pages": draw(st.lists(st.tuples(p, enc.value(mode)).map(list),
                                   max_size=4)),
            "singles": draw(st.lists(st.tuples(
                p, off, enc.value(mode)).map(list), max_size=6)),
            "rounds": draw(st.lists(st.lists(store, min_size=1, max_size=4),
                                    max_size=2))}


class C18(enc.EncProp):
    id = "C18"
    technique = ("property-based testing: vectorised weights vs. scalar "
                 "reference distances of the displays")
    rule = ("pairs of generated screens, a bank, pages with content bytes and "
            "single stores; half of them again after stores into either "
            "screen; non-trivial: 4 or more visible bytes have a "
            "non-zero reference distance")
    budget = {"quick": (150, 40, 8), "thorough": (20000, 400, 8)}
    assumptions = (
        "distance tables computed by the reference model stand in for "
        "transcoder/data (C19/C20 decide that the code's own agree)",
        "neighbours are the adjacent bytes of the page")

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        mode, bank = case["mode"], case["bank"]
        a = enc.Canvas(mode)
        for op in case["cur"]:
            a.apply(op)
        b = a.copy() if case["derive"] else enc.Canvas(mode)
        for op in case["tgt"]:
            b.apply(op)
        rounds = [[x for x in stores if not ref.HOLES[x[1], x[2]]]
                  for stores in case.get("rounds", ())]
        rs = ctx.call("diffs", mode=mode, pal=case["pal"], cur=a.raw(),
                      target=b.raw(), bank=bank,
                      pages=[tuple(x) for x in case["pages"]],
                      singles=[tuple(x) for x in case["singles"]],
                      rounds=[[tuple(x) for x in s] for s in rounds])
        d = enc.Dist(ctx, case)
        most = n = 0
        for stores, r in zip([()] + rounds, rs):
            for which, p, o, k, val in stores:
                (a, b)[which].apply(["set", k, p, o, val])
            most = max(most, self.judge(case, d, a, b, bank, r))
            n += int((~ref.HOLES).sum()) + 256 * len(case["pages"])
        return dict(nontrivial=most >= 4, tags=[
            mode, case["pal"], "bank%d" % bank, "rounds%d" % len(rounds)],
            n=n)

    def judge(self, case, d, a, b, bank, r):
        (cm, ca), (tm, ta) = enc.arrays([a.raw(), b.raw()])
        W = d.screen((cm, ca), (tm, ta), bank)
        got = np.frombuffer(r["weights"], dtype="<i8").reshape(32, 256)
        vis = ~ref.HOLES
        bad = np.argwhere((got != W) & vis)
        if len(bad):
            p, o = bad[0]
            raise core.Violation("weight of byte (%d, %d) bank %d is %d, "
                                 "distance of the displays is %d" % (
                                     p, o, bank, got[p, o], W[p, o]),
                                 "weight")
        for (p, content), g in zip(case["pages"], r["gains"]):
            g = np.frombuffer(g, dtype="<i8")
            e = d.store_page((tm, ta), bank, p, content) - got[p]
            bad = np.flatnonzero((g != e) & vis[p])
            if len(bad):
                o = bad[0]
                raise core.Violation(
                    "gain of storing $%02x at (%d, %d) bank %d is %d, should "
                    "be %d" % (content, p, o, bank, g[o], e[o]), "gain")
        for (p, o, content), g in zip(case["singles"], r["singles"]):
            # from the target's own display to the one with content stored
            e = d.store((tm, ta), bank, p, o, content)
            core.check(g == e, "distance of storing $%02x at (%d, %d) bank "
                       "%d is %d, should be %d" % (content, p, o, bank, g, e),
                       "single")
        core.check(r["same"], "weights differ when computed again", "again")
        core.check(r["unchanged"], "computing weights changed a screen",
                   "changed")
        return int((W > 0).sum())


PROP = C18()
