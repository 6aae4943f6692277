from hypothesis import strategies as st

from .. import core, ref


def by_colour(mode, cost):
    """Costs (by HGR colour value) re-indexed by the mode's own values."""
    right = [[0] * 16 for _ in range(16)]
    nib = ref.HGR_NIBBLE if mode == "HGR" else ref.DHGR_NIBBLE
    for a in ref.NAMES:
        for b in ref.NAMES:
            right[nib[a]][nib[b]] = cost[ref.HGR_NIBBLE[a]][ref.HGR_NIBBLE[b]]
    return right


@st.composite
def strings(draw):
    pal = draw(st.sampled_from(["NTSC", "IIGS"]))
    pairs = []
    for _ in range(draw(st.integers(1, 6))):
        n = draw(st.one_of(st.just(10), st.just(18), st.integers(1, 20)))
        k = draw(st.integers(1, 16))
        alpha = draw(st.lists(st.integers(0, 15), min_size=1, max_size=k))
        a = draw(st.lists(st.sampled_from(alpha), min_size=n, max_size=n))
        b = list(a)
        # edits of the kind the distance knows, or an unrelated string
        if draw(st.booleans()):
            for _ in range(draw(st.integers(0, 5))):
                i = draw(st.integers(0, n - 1))
                if draw(st.booleans()) and i + 1 < n:
                    b[i], b[i + 1] = b[i + 1], b[i]
                else:
                    b[i] = draw(st.integers(0, 15))
        else:
            b = draw(st.lists(st.sampled_from(alpha), min_size=n, max_size=n))
        pairs.append([a, b])
    return {"kind": "strings", "pal": pal, "pairs": pairs}


@st.composite
def masked(draw):
    """Selections of masked values, some differing in few bits."""
    mode = draw(st.sampled_from(["HGR", "DHGR"]))
    top = (1 << ref.BITS[mode]) - 1
    jobs = []
    for o in range(ref.NOFF[mode]):
        base = draw(st.integers(0, top))
        jobs.append([o, draw(st.lists(st.one_of(
            st.integers(0, top),
            st.integers(0, ref.BITS[mode] - 1).map(
                lambda b, base=base: base ^ (1 << b)),
            st.integers(0, top).map(
                lambda x, base=base: base ^ (x & 0x3f8))),
            min_size=2, max_size=8))])
    return {"kind": "masked", "mode": mode,
            "pal": draw(st.sampled_from(["NTSC", "IIGS"])), "jobs": jobs}


class C19(core.Prop):
    id = "C19"
    profile = "model"
    technique = ("property-based testing vs. an independent dynamic program "
                 "and CIEDE2000 implementation")
    rule = ("pairs of colour sequences (related by swaps/substitutions or "
            "not) in both palettes, selections of masked neighbourhoods of "
            "every byte offset in both modes and palettes, and all 2x256 palette colour pairs; non-trivial: some "
            "pair has a distance below its substitution cost or (masked) "
            "any case")
    budget = {"quick": (120, 45, 8), "thorough": (20000, 420, 8)}
    assumptions = ("colour differences are truncated to integers; where the "
                   "exact difference is within 1e-3 of an integer either "
                   "neighbour is accepted",)

    def prepare(self, ctx):
        ctx.env["VERIF_MDT"] = "1"

    def enumerate(self, tier):
        yield {"kind": "palettes"}

    def strategy(self, tier):
        return st.one_of(strings(), masked())

    def costs(self, ctx, pal):
        """Integer costs the code uses, verified against CIE2000."""
        key = "costs"
        if key not in ctx.data:
            ctx.data[key] = ctx.call("palettes")
        return ctx.data[key][pal]["matrix"]

    def run(self, case, ctx):
        if case["kind"] == "palettes":
            return self.palettes(ctx)
        if case["kind"] == "strings":
            return self.strings(case, ctx)
        return self.masked(case, ctx)

    def palettes(self, ctx):
        got = ctx.call("palettes")
        core.check(set(got) == set(ref.RGB), "palettes are %r" % sorted(got),
                   "palettes")
        for pal, g in got.items():
            core.check(g["id"] == pal and g["number"] == ref.PALETTE_ID[pal],
                       "palette %s has id %s number %d" % (
                           pal, g["id"], g["number"]), "palette-id")
            core.check({k: tuple(v) for k, v in g["rgb"].items()} ==
                       ref.RGB[pal], "colours of palette %s are %r" % (
                           pal, g["rgb"]), "rgb")
            d = ref.delta_matrix(pal)
            for i in range(16):
                for j in range(16):
                    v = g["matrix"][i][j]
                    ok = int(max(0, d[i][j] - 1e-3)) <= v <= int(
                        d[i][j] + 1e-3)
                    core.check(ok, "%s: cost of colours %d/%d is %r, CIE2000 "
                               "difference is %f" % (pal, i, j, v, d[i][j]),
                               "cost")
                    core.check(v == g["matrix"][j][i], "%s: cost of colours "
                               "%d/%d is not symmetric" % (pal, i, j), "cost")
        return dict(nontrivial=True, n=512, tags=["palettes"])

    def strings(self, case, ctx):
        cost = self.costs(ctx, case["pal"])
        got = ctx.call("distances", pal=case["pal"], pairs=case["pairs"])
        tags = {case["pal"]}
        nt = False
        for (a, b), (x, y) in zip(case["pairs"], got):
            e = ref.edit(a, b, cost)
            sub = sum(cost[p][q] for p, q in zip(a, b))
            core.check(x == e, "distance of %r and %r is %r, should be %r" % (
                a, b, x, e), "distance")
            core.check(x == y, "distance of %r and %r is %r one way, %r the "
                       "other" % (a, b, x, y), "symmetry")
            core.check(0 <= x < 65536 and x <= sub, "distance out of bounds",
                       "bounds")
            if e < sub:
                nt = True
                tags.add("swap")
        return dict(nontrivial=nt, tags=tags, n=len(got))

    def masked(self, case, ctx):
        mode, pal = case["mode"], case["pal"]
        got = ctx.call("masked", mode=mode, pal=pal,
                       jobs=[tuple(j) for j in case["jobs"]])
        cost = self.costs(ctx, pal)
        right = by_colour(mode, cost)
        known = None
        n = 0
        for (o, vals), g in zip(case["jobs"], got):
            px = [ref.masked_pixels(mode, o, v) for v in vals]
            k = 0
            for i, a in enumerate(px):
                for j, b in enumerate(px):
                    x = g[k]
                    k += 1
                    n += 1
                    e = ref.edit(a, b, right)
                    if x == e:
                        continue
                    msg = ("%s/%s offset %d: distance of displays %s and %s "
                           "is %r, should be %r" % (
                               mode, pal, o, bin(vals[i]), bin(vals[j]), x,
                               e))
                    if mode == "DHGR" and x == ref.edit(a, b, cost):
                        # the listed finding; go on looking for others
                        known = msg
                        continue
                    raise core.Violation(msg, "masked")
        info = dict(nontrivial=True, tags=["masked", mode + "-" + pal], n=n)
        if known:
            raise core.Violation(known, "dhgr-costs-indexed-by-hgr-value",
                                 info)
        return info


PROP = C19()
