from hypothesis import strategies as st

from .. import core

# region of the simulated Apple II, where they are beyond doubt
ROM = (0xd000, 0xffff)
APPLE = [("zp", 0, 0xff, True), ("stack", 0x100, 0x1ff, True),
         ("text", 0x400, 0x7ff, True), ("hgr", 0x2000, 0x2fff, True),
         ("hgr2", 0x4000, 0x4fff, False)] + [
    ("slot%d" % i, 0xc000 + i * 256, 0xc0ff + i * 256, False)
    for i in range(1, 8)] + [("rom", 0xd000, 0xffff, False)]
ENTRY = {0xf3e2: "HGR", 0xfca8: "Waiting", 0xfded: "COUT",
         0xfe89: "Select the keyboard"}


def region(a):
    for i, (n, x, y, w) in enumerate(APPLE):
        if x <= a <= y:
            return i
    return None


@st.composite
def layout(draw):
    n = draw(st.integers(1, 6))
    cuts = sorted(set(draw(st.lists(st.one_of(
        st.integers(0, 0xffff), st.sampled_from(
            [0, 0xff, 0x100, 0x400, 0x2000, 0xc000, 0xffff])),
        min_size=2 * n, max_size=2 * n))))
    rs = []
    i = 0
    while i + 1 < len(cuts):
        a, b = cuts[i], cuts[i + 1]
        if draw(st.integers(0, 3)) == 0:
            b = a       # a single byte
            i += 1
        else:
            i += 2
        # adjoining regions as well
        if i < len(cuts) and draw(st.integers(0, 3)) == 0 and \
                b + 1 < cuts[i]:
            cuts[i] = b + 1
        ent = draw(st.lists(st.integers(a, b), max_size=3, unique=True))
        ri, wi = draw(st.booleans()), draw(st.booleans())
        rs.append(["r%d" % len(rs), a, b, draw(st.booleans()), ri, wi,
                   draw(st.one_of(st.none(), st.integers(0, 255)))
                   if ri else None, ent])
    # names need not tell them apart
    k = draw(st.sampled_from([1, 2, 9, 9]))
    for r in rs:
        r[0] = "r%d" % (int(r[0][1:]) % k)
    order = draw(st.permutations(range(len(rs))))
    return [rs[k] for k in order]


@st.composite
def mem_case(draw):
    lay = draw(layout())
    if not lay:
        lay = [["r0", 5, 9, False, False, False, None, [7]]]
    near = sorted({(x + d) & 0xffff for r in lay for x in (r[1], r[2])
                   for d in (-1, 0, 1)} | {e for r in lay for e in r[7]})
    addr = st.one_of(st.sampled_from(near), st.sampled_from(near),
                     st.integers(0, 0xffff))
    op = st.one_of(
        st.tuples(st.just("r"), addr),
        st.tuples(st.just("w"), addr, st.integers(0, 255)),
        st.tuples(st.just("w"), addr, st.integers(0, 255)),
        st.tuples(st.just("x"), addr, addr),
        st.tuples(st.just("x"), addr, st.sampled_from(
            [e for r in lay for e in r[7]] or near))).map(list)
    fill = draw(st.lists(st.tuples(addr, st.lists(st.one_of(
        st.just(0x60), st.integers(0, 255)), min_size=1, max_size=4)).map(
            list), max_size=4))
    fill = [[a, v[:0x10000 - a]] for a, v in fill]
    return {"layout": lay, "fill": fill,
            "ops": draw(st.lists(op, min_size=1, max_size=40))}


PLACES = [0x0800, 0x0c00, 0x1000, 0x1f00, 0x6000, 0x6100, 0x7000, 0x8000,
          0x9000, 0xa000, 0xb000, 0xc880, 0xcf00, 0x0320]
REGIONED = [0x2000, 0x2800, 0x2f00, 0x4000, 0x4800, 0xc120, 0xc640, 0xd000,
            0xe000, 0xf000, 0xff00, 0x0080, 0x0500] + sorted(ENTRY)
SPOTS = [0x10, 0x110, 0x400, 0x7ff, 0x800, 0x2000, 0x2fff, 0x4000, 0x4fff,
         0x7fff, 0xbfff, 0xc100, 0xc7ff, 0xd000, 0xf3e2, 0xffff, 0xc800]


@st.composite
def program(draw):
    """Subroutines at various places; instructions: nop, rts, jsr/jmp place,
    sta address."""
    places = draw(st.lists(st.one_of(
        st.sampled_from(PLACES), st.sampled_from(sorted(ENTRY)),
        st.sampled_from(REGIONED)), min_size=1, max_size=6, unique=True))
    blocks = {}
    calm = draw(st.booleans())
    for i, p in enumerate([0x6800] + places):
        body = []
        later = places[i:] if i else places
        for _ in range(draw(st.integers(0, 4 if i else 6))):
            k = draw(st.sampled_from(["jsr", "jsr", "nop", "sta"]))
            if k == "jsr" and later:
                t = draw(st.sampled_from(later))
                if calm and region(t) is not None and t not in ENTRY:
                    continue
                if t == p:
                    continue
                body.append(["jsr", t])
            elif k == "sta":
                # on fresh places, away from the code
                a = draw(st.sampled_from(SPOTS))
                if calm and region(a) is not None and \
                        not APPLE[region(a)][3]:
                    continue
                body.append(["sta", a, draw(st.integers(0, 255))])
            else:
                body.append(["nop"])
        if i == 0:
            body.append(["stop"])
        elif not calm and draw(st.integers(0, 5)) == 0:
            body.append(["jmp", 0x6800 if draw(st.booleans()) else
                         draw(st.sampled_from(places))])
        else:
            body.append(["rts"])
        blocks[str(p)] = body
    return {"blocks": blocks}


SIZE = {"jsr": 3, "jmp": 3, "nop": 1, "rts": 1, "sta": 5, "stop": 3}


class C33(core.Prop):
    id = "C33"
    profile = "sim"
    technique = ("generated memory layouts and access sequences against a "
                 "model of regions, and generated machine code run in the "
                 "simulated Apple II against a model of its calls")
    rule = ("up to 6 regions, also adjoining and of one byte, with all "
            "combinations of protection, interceptors and entry points, "
            "accesses biased to their edges; programmes of up to 7 "
            "subroutines in and out of ROM; non-trivial: an access was "
            "refused or intercepted, or a region was entered")
    budget = {"quick": (500, 30, 8), "thorough": (12000, 300, 8)}
    assumptions = ("regions do not overlap",)

    def enumerate(self, tier):
        # the simulated Apple II's own layout, every address
        for lo in range(0, 0x10000, 0x2000):
            yield {"apple": [[a, 1 + a % 255, False]
                             for a in range(lo, lo + 0x2000)]}
        edges = sorted({x + d for _, a, b, _ in APPLE for x in (a, b)
                        for d in (-1, 0, 1)} & set(range(0x10000)))
        yield {"apple": [[a, 0x77, True] for a in edges]}
        for e in ENTRY:
            yield {"blocks": {"26624": [["jsr", e], ["jsr", e], ["stop"]],
                              str(e): [["rts"]]}}
            yield {"blocks": {"26624": [["jsr", e], ["stop"]],
                              str(e): [["jmp", 0x6000]],
                              "24576": [["rts"]]}}
        for t in REGIONED:
            yield {"blocks": {"26624": [["nop"], ["jsr", t], ["stop"]],
                              str(t): [["rts"]]}}
        for a in SPOTS:
            yield {"blocks": {"26624": [["sta", a, 0x5a], ["stop"]]}}

    def strategy(self, tier):
        return st.one_of(mem_case(), mem_case(), program())

    def run(self, case, ctx):
        if "blocks" in case:
            return self.program(case, ctx)
        if "apple" in case:
            return self.apple(case, ctx)
        lay = case["layout"]
        ops = [tuple(o) for o in case["ops"]]
        out, final = ctx.call(
            "regions", layout=[tuple(r) for r in lay],
            fill=[(a, bytes(v)) for a, v in case["fill"]], ops=ops)
        mem = bytearray(65536)
        for a, v in case["fill"]:
            mem[a:a + len(v)] = bytes(v)

        def where(a):
            for i, r in enumerate(lay):
                if r[1] <= a <= r[2]:
                    return i
            return None
        hit = False
        for j, (op, (r, log, now)) in enumerate(zip(ops, out)):
            a = op[1]
            i = where(a)
            reg = lay[i] if i is not None else None
            what = "access %d %r%s" % (j, op, " in %r" % (reg,) if reg
                                       else "")
            log = [tuple(x) for x in log]
            if op[0] == "r":
                want = mem[a]
                if reg and reg[4]:
                    core.check(log == [("r", i, a)], "%s: interceptors saw "
                               "%r" % (what, log), "interceptor")
                    hit = True
                    if reg[6] is not None:
                        want = reg[6]
                else:
                    core.check(not log, "%s: interceptors saw %r" % (
                        what, log), "interceptor")
                core.check(r == ["ok", want], "%s gives %r, should be %r" % (
                    what, r, want), "read")
            elif op[0] == "w":
                v = op[2]
                if reg and not reg[3]:
                    hit = True
                    core.check(r[0] == "protected", "%s is not refused: %r" %
                               (what, r), "not-refused")
                    core.check(r[1:4] == [a, v, reg[0]], "%s: refusal says "
                               "%r" % (what, r), "refusal")
                    core.check(all(x == ("w", i, a, v) for x in log),
                               "%s: interceptors saw %r" % (what, log),
                               "interceptor")
                else:
                    core.check(r[0] == "ok", "%s gives %r" % (what, r),
                               "refused")
                    mem[a] = v
                    want = [("w", i, a, v)] if reg and reg[5] else []
                    hit = hit or bool(want)
                    core.check(log == want, "%s: interceptors saw %r" % (
                        what, log), "interceptor")
                core.check(now == mem[a], "%s: memory then holds $%02x, "
                           "should be $%02x" % (what, now, mem[a]), "memory")
            else:
                to = op[2]
                t = where(to)
                seen = [x for x in log if x[0] == "x"]
                want = [("x", k, to) for k, q in enumerate(lay)
                        if to in q[7]]
                core.check(sorted(seen) == sorted(want), "%s: entry "
                           "handlers run %r, should be %r" % (
                               what, seen, want), "handlers")
                opcode = mem[a]
                if reg and reg[4] and reg[6] is not None:
                    opcode = None       # what is executed is not plain
                if i != t and not want:
                    hit = True
                    if opcode is None:
                        continue
                    if opcode == 0x60:
                        core.check(r[0] == "ok", "%s: a return is reported: "
                                   "%r" % (what, r), "return")
                    else:
                        core.check(r[0] == "entry" and r[1:3] == [a, to],
                                   "%s from region %r to %r: %r" % (
                                       what, i, t, r), "entry")
                else:
                    core.check(r[0] == "ok", "%s from region %r to %r: %r" %
                               (what, i, t, r), "entry")
        core.check(final == bytes(mem), "memory differs at the end at $%04x"
                   % next((k for k in range(65536) if final[k] != mem[k]),
                          0), "memory")
        return dict(nontrivial=hit, n=len(ops), tags=["layout"])

    def apple(self, case, ctx):
        # the I/O page is C31's; the processor runs from $0300
        ops = [tuple(o) for o in case["apple"]
               if not 0xc000 <= o[0] <= 0xc0ff and not (
                   o[2] and 0x2ff < o[0] < 0x310)]
        out = ctx.call("apple_map", ops=ops)
        n = 0
        for (a, v, cpu), (r, now) in zip(ops, out):
            k = region(a)
            if k is not None and not APPLE[k][3]:
                n += 1
                core.check(r == ["protected", a, v], "writing $%02x to $%04x "
                           "(%s) gives %r" % (v, a, APPLE[k][0], r),
                           "not-refused")
                core.check(now == 0, "$%04x (%s) was changed" % (
                    a, APPLE[k][0]), "memory")
            else:
                core.check(r[0] == "ok", "writing $%02x to $%04x gives %r" % (
                    v, a, r), "refused")
                core.check(now == v, "$%04x holds $%02x after writing $%02x"
                           % (a, now, v), "memory")
        return dict(nontrivial=n > 0, n=len(ops), tags=["Apple II layout"])

    # ------------------------------------------------------------ programmes
    def program(self, case, ctx):
        code = {}           # address -> instruction
        raw = []
        for p, body in sorted(case["blocks"].items()):
            a = int(p)
            buf = []
            start = a
            for ins in body:
                code[a] = ins
                k = ins[0]
                if k in ("jsr", "jmp"):
                    buf += [0x20 if k == "jsr" else 0x4c, ins[1] & 255,
                            ins[1] >> 8]
                elif k == "stop":
                    buf += [0x4c, a & 255, a >> 8]
                elif k == "nop":
                    buf += [0xea]
                elif k == "rts":
                    buf += [0x60]
                else:
                    code[a] = ["lda", ins[2]]
                    code[a + 2] = ["sta", ins[1], ins[2]]
                    buf += [0xa9, ins[2], 0x8d, ins[1] & 255, ins[1] >> 8]
                a += SIZE[k]
            raw.append((start, bytes(buf)))
        # blocks that overlap or store over code mean nothing
        taken = {}
        for s, b in raw:
            for k in range(s, s + len(b)):
                if k in taken or k > 0xffff:
                    return dict(nontrivial=False, tags=["overlap"])
                taken[k] = True
        stored = {ins[1] for ins in code.values() if ins[0] == "sta"}
        if any(k in taken for k in stored):
            return dict(nontrivial=False, tags=["overlap"])
        # model
        pc, stack, trail, events = 0x6800, [], [], []
        want = None
        mem = {}
        old = pc
        limit = 300
        while True:
            handled = pc in ENTRY
            if region(old) != region(pc) and not handled and \
                    code[old][0] != "rts":
                want = ["entry", old, pc]
                break
            if handled:
                events.append(pc)
            if len(trail) >= limit:
                return dict(nontrivial=False, tags=["endless"])
            if pc not in code:
                return dict(nontrivial=False, tags=["astray"])
            trail.append(pc)
            old = pc
            ins = code[pc]
            if ins[0] == "jsr":
                stack.append(pc + 3)
                pc = ins[1]
            elif ins[0] == "jmp":
                pc = ins[1]
            elif ins[0] == "rts":
                if not stack:
                    return dict(nontrivial=False, tags=["astray"])
                pc = stack.pop()
            elif ins[0] == "nop":
                pc += 1
            elif ins[0] == "lda":
                pc += 2
            elif ins[0] == "sta":
                r = region(ins[1])
                if r is not None and not APPLE[r][3]:
                    want = ["protected", ins[1], ins[2]]
                    break
                mem[ins[1]] = ins[2]
                pc += 3
            if pc == old:
                break
        watch = sorted(stored)
        r, got, text, vals = ctx.call("program", code=raw, at=0x6800,
                                      limit=2 * limit, watch=watch)
        core.check(got == trail, "%d instructions are executed, should be "
                   "%d; first difference at %s" % (
                       len(got), len(trail), next(
                           ("%d: $%04x" % (k, x) for k, (x, y) in
                            enumerate(zip(got, trail)) if x != y), "the end")
                   ) + "; ended by %r" % (r,), "trail")
        if want is None:
            core.check(r[0] == "ok", "the programme ends by %r" % (r,),
                       "outcome")
        else:
            core.check(r[:3] == want, "the programme ends by %r, should be "
                       "%r" % (r, want), "outcome")
        for e, name in ENTRY.items():
            core.check(text.count(name) == events.count(e), "arrived at "
                       "$%04x %d times, its handler ran %d times" % (
                           e, events.count(e), text.count(name)),
                       "handlers")
        for a, v in zip(watch, vals):
            core.check(v == mem.get(a, 0), "$%04x holds $%02x at the end, "
                       "should be $%02x" % (a, v, mem.get(a, 0)), "memory")
        return dict(nontrivial=want is not None or bool(events),
                    n=len(trail), tags=["programme", want[0] if want else
                                        "ran to the end"])


PROP = C33()
