from hypothesis import strategies as st

from .. import core, movie, player


def off_st():
    return st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 127, 128,
                                                           255]))


@st.composite
def one(draw, kinds=("tick", "tickl", "ack", "nop", "terminate", "header")):
    k = draw(st.sampled_from(kinds))
    if k in ("tick", "tickl"):
        return [k, draw(st.sampled_from(player.TICKS)),
                draw(st.sampled_from(player.PAGES)), draw(st.integers(0, 255)),
                [draw(off_st()) for _ in range(4)]]
    if k == "ack":
        return [k, draw(st.integers(0, 1))]
    if k == "header":
        return [k, draw(st.sampled_from(["HGR", "DHGR"]))]
    return [k]


@st.composite
def pool(draw):
    """Operations many of which are equal or nearly so."""
    base = draw(st.lists(one(("tick",)), min_size=1, max_size=3))
    out = list(base)
    for _ in range(draw(st.integers(0, 12))):
        o = draw(st.sampled_from(base))
        o = [o[0], o[1], o[2], o[3], list(o[4])]
        w = draw(st.sampled_from(["same", "width", "page", "content",
                                  "offset", "swap"]))
        if w == "width":
            o[1] = draw(st.sampled_from(player.TICKS))
        elif w == "page":
            o[2] = draw(st.sampled_from(player.PAGES))
        elif w == "content":
            o[3] = draw(st.one_of(st.integers(0, 255),
                                  st.just(o[3] ^ 0x80)))
        elif w == "offset":
            o[4][draw(st.integers(0, 3))] = draw(off_st())
        elif w == "swap":
            i, j = draw(st.integers(0, 3)), draw(st.integers(0, 3))
            o[4][i], o[4][j] = o[4][j], o[4][i]
        out.append(o)
    out += draw(st.lists(one(("ack", "nop", "terminate", "header")),
                         max_size=6))
    # the encoder gives offsets as lists; nothing mixes the two
    k = draw(st.sampled_from(["tick", "tickl", "tickn"]))
    return [[k] + o[1:] if o[0] == "tick" else o for o in out]


class C02(movie.MovieProp):
    id = "C02"
    technique = ("round trip of generated operations through the emitted "
                 "bytes, decoded by an independent reader of the player's "
                 "symbols; equality against equality of bytes")
    rule = ("every width and page; generated streams up to several frames; "
            "pools of equal and nearly equal operations compared pairwise; "
            "numbers and sequences of the types the encoder gives; "
            "non-trivial: three or more different operations")
    budget = {"quick": (500, 30, 8), "thorough": (10000, 420, 8)}

    def enumerate(self, tier):
        for j in range(4):
            items = [["op", t, p, (t * 11 + p + j) & 255,
                      [(t + 3 * p + 77 * i + j) & 255 for i in range(4)]]
                     for p in player.PAGES[j::4] for t in player.TICKS]
            yield {"mode": "DHGR", "items": items, "limit": None,
                   "np": j % 2 == 1}
        # each kind of operation against each
        ops = [["tick", t, p, 1, [1, 2, 3, 4]] for t in player.TICKS[::5]
               for p in player.PAGES[::5]]
        yield {"pool": ops + [["ack", 0], ["ack", 1], ["nop"], ["terminate"],
                              ["header", "HGR"], ["header", "DHGR"]]}

    def strategy(self, tier):
        return st.one_of(
            st.builds(lambda m, i, np: {"mode": m, "items": i, "limit": None,
                                        "np": np},
                      st.sampled_from(["HGR", "DHGR"]), movie.op_list(),
                      st.booleans()),
            pool().map(lambda p: {"pool": p}))

    def run(self, case, ctx):
        if "pool" in case:
            return self.pool(case["pool"], ctx)
        ops = player.operations(case)
        data = ctx.call("emit_stream", mode=case["mode"], limit=None,
                        ops=[("header", case["mode"])] + [
                            ("tickn",) + o[1:] if case.get("np") and
                            o[0] == "tick" else o for o in ops])
        s = movie.Stream(data, self.entry(ctx))
        want = [(o[0], o[1], o[2], o[3], list(o[4])) for o in ops]
        got = s.ticks
        for i, (a, b) in enumerate(zip(want, got)):
            core.check(a == b, "operation %d %r reads back as %r" % (i, a, b),
                       "round-trip")
        core.check(len(want) == len(got), "%d operations became %d" % (
            len(want), len(got)), "count")
        core.check(s.header[6] == (case["mode"] == "DHGR"), "header %r for "
                   "%s" % (s.header, case["mode"]), "header")
        return dict(nontrivial=len(set(map(str, want))) > 2, n=len(want),
                    tags=["stream"])

    def pool(self, ops, ctx):
        eq, ne, data = ctx.call("equal", ops=ops)
        entry = self.entry(ctx)
        for o, b in zip(ops, data):
            if o[0] == "header":
                core.check(len(b) == 7, "header is %r" % b, "header")
                continue
            k = entry.get(b[0] << 8 | b[1])
            want = tuple(o[:3] if o[0].startswith("tick") else o[:1])
            core.check(k == (("tick",) + want[1:] if len(want) > 1 else want),
                       "%r is emitted with the address of %r" % (o, k),
                       "address")
            if len(want) > 1:
                core.check(list(b[2:]) == [o[3]] + o[4], "%r is emitted as "
                           "%r" % (o, b), "operands")
        for i in range(len(ops)):
            for j in range(len(ops)):
                same = data[i] == data[j]
                core.check(eq[i][j] == same, "%r %s %r but they are encoded "
                           "%s" % (ops[i], "==" if eq[i][j] else "!=",
                                   ops[j], "alike" if same else
                                   "differently"), "equality")
                core.check(ne[i][j] != eq[i][j], "%r and %r are neither == "
                           "nor !=, or both" % (ops[i], ops[j]), "equality")
        return dict(nontrivial=len(set(data)) > 2, n=len(ops) ** 2,
                    tags=["pool"])


PROP = C02()
