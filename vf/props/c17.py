from hypothesis import strategies as st

from .. import core, ref


@st.composite
def case(draw):
    enum = draw(st.sampled_from(["HGRColours", "DHGRColours"]))
    n = draw(st.integers(0, 40))
    ph = draw(st.one_of(st.none(), st.integers(0, 3), st.integers(0, 13)))
    dots = draw(st.integers(0, 2 ** (n + 3) - 1))
    return {"enum": enum, "n": n, "phase": ph, "dots": dots,
            "high": draw(st.integers(0, 15)),
            "cuts": draw(st.lists(st.integers(0, n), max_size=4)),
            "rot": draw(st.lists(st.tuples(
                st.integers(0, 15), st.integers(0, 40)).map(list),
                max_size=4))}


class C17(core.Prop):
    id = "C17"
    profile = "model"
    technique = ("property-based testing: window model and metamorphic "
                 "split/shift relations; nibbles enumerated")
    rule = ("dot strings of 0-40 pixels, any start phase, both enumerations, "
            "cut at generated places; all 12-dot strings at all phases are "
            "enumerated in chunks; non-trivial: two or more different colours "
            "expected")
    budget = {"quick": (700, 25, 8), "thorough": (50000, 300, 8)}

    def enumerate(self, tier):
        for enum in ("HGRColours", "DHGRColours"):
            for ph in range(8):
                for lo in range(0, 1 << 11, 256):
                    yield {"enum": enum, "phase": ph, "range": [8, lo,
                                                                lo + 256]}
        yield {"rotall": 17}

    def strategy(self, tier):
        return case()

    def rot(self, ctx, jobs):
        for (v, n), (l, r) in zip(jobs, ctx.call("rotate", jobs=jobs)):
            e = v
            for _ in range(n % 4):
                e = (e << 1 | e >> 3) & 15
            core.check(l == e, "rol(%d, %d) = %d, should be %d" % (v, n, l, e),
                       "rol")
            e = v
            for _ in range(n % 4):
                e = (e >> 1 | e << 3) & 15
            core.check(r == e, "ror(%d, %d) = %d, should be %d" % (v, n, r, e),
                       "ror")

    def run(self, case, ctx):
        if "rotall" in case:
            self.rot(ctx, [(v, n) for v in range(16)
                           for n in range(case["rotall"])])
            return dict(nontrivial=True, tags=["rotations"],
                        n=16 * case["rotall"])
        enum = case["enum"]
        nib = ref.HGR_NIBBLE if enum == "HGRColours" else ref.DHGR_NIBBLE
        name = {v: k for k, v in nib.items()}
        ph = case["phase"]
        p0 = 1 if ph is None else ph
        if "range" in case:
            n, lo, hi = case["range"]
            jobs = [(n, d, ph) for d in range(lo, hi)]
        else:
            n, d = case["n"], case["dots"]
            jobs = [(n, d, ph),
                    # dots beyond the last window have no influence
                    (n, d | case["high"] << (n + 3), ph)]
            # a split or shifted string, with the phase adjusted
            for c in case["cuts"]:
                jobs.append((n - c, d >> c, (p0 + c) % 4))
                jobs.append((n - c, d >> c, p0 + c))
                jobs.append((c, d & ((1 << (c + 3)) - 1), ph))
        got = ctx.call("pixels", enum=enum, jobs=jobs)
        seen = 0
        for (n, d, ph), (names, v1, v2) in zip(jobs, got):
            e = ref.pixels_of(d, n, 1 if ph is None else ph)
            core.check(v1 == e, "%d dots %s phase %r give %r, should be %r" % (
                n, bin(d), ph, v1, e), "window")
            core.check(v2 == e, "value form of %d dots %s phase %r gives %r, "
                       "should be %r" % (n, bin(d), ph, v2, e), "values")
            core.check(names == [name[x] for x in e], "colour names of dots "
                       "%s phase %r are %r" % (bin(d), ph, names), "names")
            seen = max(seen, len(set(e)))
        if case.get("rot"):
            self.rot(ctx, [tuple(x) for x in case["rot"]])
        return dict(nontrivial=seen >= 2, n=len(jobs), tags=[enum])


PROP = C17()
