from hypothesis import strategies as st

from .. import core, ref
from .c19 import by_colour


@st.composite
def case(draw, maxbits):
    bits = draw(st.integers(1, maxbits))

    def sel(mode):
        top = (1 << ref.BITS[mode]) - 1
        return [draw(st.lists(st.integers(0, top), min_size=1 << bits,
                              max_size=1 << bits))
                for _ in range(ref.NOFF[mode])]
    return {"bits": bits, "hgr": sel("HGR"), "dhgr": sel("DHGR")}


class C20(core.Prop):
    id = "C20"
    profile = "model"
    technique = ("property-based testing: generate/save/load round trip on "
                 "generated display models vs. direct pairwise distances")
    rule = ("display models showing 2-16 generated values per byte offset, "
            "both modes and palettes at once, through the generator's main "
            "and the encoder's loader; non-trivial: 4 or more values")
    budget = {"quick": (60, 45, 8), "thorough": (10000, 420, 8)}
    assumptions = ("table size enters only through the number of masked bits, "
                   "so small selections exercise the indexing, storage and "
                   "completion of the full tables",)

    def prepare(self, ctx):
        ctx.env["VERIF_MDT"] = "1"

    def strategy(self, tier):
        return case(3 if tier == "quick" else 4)

    @staticmethod
    def differs(mode, sel, table, bits, cost):
        n = 1 << bits
        for o in range(ref.NOFF[mode]):
            px = [ref.masked_pixels(mode, o, v) for v in sel[o]]
            for a in range(n):
                for b in range(n):
                    t = table[o][(a << bits) + b]
                    e = ref.edit(px[a], px[b], cost)
                    if t != e:
                        return ("offset %d entry (%d, %d) is %d, distance is "
                                "%d" % (o, a, b, t, e))
        return None

    def run(self, case, ctx):
        bits = case["bits"]
        n = 1 << bits
        if "costs" not in ctx.data:
            ctx.data["costs"] = {
                p: g["matrix"] for p, g in ctx.call("palettes").items()}
        costs = ctx.data["costs"]
        files, got = ctx.call("generate", bits=bits, hgr=case["hgr"],
                              dhgr=case["dhgr"])
        want = sorted("%s_palette_%d_edit_distance.npz" % (m, p)
                      for m in ref.MODES for p in ref.PALETTE_ID.values())
        core.check(files == want, "generated files are %r" % files, "files")
        core.check(len(got) == 4, "tables: %r" % sorted(got), "tables")
        for (mode, pal), g in got.items():
            core.check(g["shape"] == [ref.NOFF[mode], n * n],
                       "%s/%s table has shape %r" % (mode, pal, g["shape"]),
                       "shape")
            sel = case["hgr"] if mode == "HGR" else case["dhgr"]
            # either indexing of the costs (C19 decides which is right)
            cands = [by_colour(mode, costs[pal])]
            if mode == "DHGR":
                cands.append(costs[pal])
            bad = None
            for cost in cands:
                bad = self.differs(mode, sel, g["table"], bits, cost)
                if bad is None:
                    break
            core.check(bad is None, "%s/%s table %s" % (mode, pal, bad),
                       "entry")
        return dict(nontrivial=n >= 4, n=n * n * 12, tags=["bits%d" % bits])


PROP = C20()
