from hypothesis import strategies as st

from .. import core, ref


class C21(core.Prop):
    id = "C21"
    profile = "model"
    technique = ("exhaustive enumeration of all rows, columns, pages and "
                 "table entries plus generated query orders, vs. the hardware "
                 "interleave formula")
    rule = ("all entries of all tables in one case; generated sequences of "
            "(row, page) queries; non-trivial: the enumeration, or 2 or more "
            "distinct rows")
    budget = {"quick": (300, 30, 2), "thorough": (20000, 120, 4)}

    def enumerate(self, tier):
        yield {"kind": "tables"}
        yield {"kind": "addr", "q": [[y, p] for y in range(192)
                                     for p in (0, 1)]}

    def strategy(self, tier):
        q = st.tuples(st.integers(0, 191),
                      st.sampled_from([None, 0, 1])).map(list)
        return st.lists(q, min_size=1, max_size=30).map(
            lambda q: {"kind": "addr", "q": q})

    def run(self, case, ctx):
        if case["kind"] == "addr":
            got = ctx.call("base_addr", jobs=[tuple(x) for x in case["q"]])
            for (y, p), a in zip(case["q"], got):
                e = ref.addr_of(y, 0, (p or 0) + 1)
                core.check(a == e, "row %d page %r starts at $%04x, should "
                           "be $%04x" % (y, p, a, e), "base")
            return dict(nontrivial=len({y for y, _ in case["q"]}) > 1,
                        n=len(got))
        t = ctx.call("layout")
        core.check(len(t["base"]) == 2 and all(
            len(r) == 192 for r in t["base"]), "base address table shape",
            "base")
        core.check(len(t["xpage"]) == 192 and len(t["xoff"]) == 192,
                   "row/column table shape", "shape")
        seen = {}
        for p in (0, 1):
            for y in range(192):
                e = ref.addr_of(y, 0, p + 1)
                core.check(t["base"][p][y] == e, "row %d page %d starts at "
                           "$%04x, should be $%04x" % (y, p, t["base"][p][y],
                                                       e), "base")
                for x in range(40):
                    seen[ref.addr_of(y, x, p + 1)] = [p, y, x]
        got = dict((k, v) for k, v in t["coords"])
        core.check(len(got) == len(t["coords"]) and got == seen,
                   "address to coordinate table differs: %r" % [
                       (hex(a), got.get(a), seen.get(a))
                       for a in sorted(set(got) | set(seen))
                       if got.get(a) != seen.get(a)][:5], "coords")
        for y in range(192):
            for x in range(40):
                a = ref.addr_of(y, x) - 0x2000
                pg, o = a >> 8, a & 255
                core.check(t["xpage"][y][x] == pg and t["xoff"][y][x] == o,
                           "(%d, %d) maps to page %r offset %r" % (
                               y, x, t["xpage"][y][x], t["xoff"][y][x]),
                           "to-page")
                core.check(t["py"][pg][o] == y and t["px"][pg][o] == x,
                           "page %d offset %d maps to row %r column %r" % (
                               pg, o, t["py"][pg][o], t["px"][pg][o]),
                           "to-xy")
        core.check(t["holes"] == ref.HOLES.tolist(), "screen holes differ",
                   "holes")
        return dict(nontrivial=True, n=2 * 192 * 40 * 3 + 8192)


PROP = C21()
