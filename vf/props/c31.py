from hypothesis import strategies as st

from .. import core

# clear, set and status address; operated by reads as well?
SW = {
    "80Store": (0xc000, 0xc001, 0xc018, False),
    "RamRd": (0xc002, 0xc003, 0xc013, False),
    "RamWrt": (0xc004, 0xc005, 0xc014, False),
    "IntCxROM": (0xc006, 0xc007, 0xc015, False),
    "AltZP": (0xc008, 0xc009, 0xc016, False),
    "SlotC3ROM": (0xc00a, 0xc00b, 0xc017, False),
    "80Col": (0xc00c, 0xc00d, 0xc01f, False),
    "AltCharSet": (0xc00e, 0xc00f, 0xc01e, False),
    "Text": (0xc050, 0xc051, 0xc01a, True),
    "Mixed": (0xc052, 0xc053, 0xc01b, True),
    "Page2": (0xc054, 0xc055, 0xc01c, True),
    "Hires": (0xc056, 0xc057, 0xc01d, True),
}
ORDER = list(SW)
# their effect on memory is not modelled by the simulator
UNIMPL = {"80Store", "RamRd", "RamWrt", "IntCxROM", "AltZP", "SlotC3ROM"}
ACT = {}
for _n, (_c, _s, _t, _rw) in SW.items():
    for _a, _v in ((_c, False), (_s, True)):
        ACT[_a, "w"] = (_n, _v)
        if _rw:
            ACT[_a, "r"] = (_n, _v)
    ACT[_t, "r"] = (_n, None)
for _k in "rw":
    ACT[0xc030, _k] = (None, None)
# of the card's registers only what cannot work matters here
ACT[0xc095, "w"] = ACT[0xc096, "w"] = (None, None)
OTHER = {(0xc094, "r"), (0xc094, "w"), (0xc097, "r"), (0xc097, "w")}
USED = sorted({a for a, _ in ACT})


def op_st():
    a = st.one_of(st.sampled_from(USED), st.sampled_from(USED),
                  st.sampled_from(list(range(0xc000, 0xc020)) +
                                  list(range(0xc050, 0xc060))),
                  st.integers(0xc000, 0xc0ff))
    return st.tuples(st.sampled_from("rw"), a, st.one_of(
        st.just(0), st.integers(0, 127), st.sampled_from([0, 0x80, 255])),
        st.booleans()).map(list).filter(
            lambda o: (o[1], o[0]) not in OTHER and
            not (o[1] == 0xc095 and o[2] > 127))


class C31(core.Prop):
    id = "C31"
    profile = "sim"
    technique = ("stateful property-based testing of generated access "
                 "sequences to the I/O page, directly and by executed "
                 "instructions, against a table of the Apple II's switches")
    rule = ("sequences of up to 80 accesses over all of $C000-$C0FF, biased "
            "to mapped addresses; all statuses read after each; every "
            "address in both modes enumerated; non-trivial: two switches "
            "changed")
    budget = {"quick": (600, 30, 8), "thorough": (20000, 300, 8)}
    assumptions = (
        "switches whose memory banking the simulator does not model report "
        "NotImplementedError, after changing state",
    )

    def enumerate(self, tier):
        on = [["w", s, 0, False] for c, s, t, rw in SW.values()]
        off = [["w", c, 0, False] for c, s, t, rw in SW.values()]
        for v in (0, 0x55, 255):
            for cpu in (False, True):
                ops = []
                for a in range(0xc000, 0xc100):
                    for k in "rw":
                        if (a, k) not in OTHER and not (
                                a == 0xc095 and v > 127):
                            ops.append([k, a, v, cpu])
                yield {"ops": ops}
                yield {"ops": on + ops}
        for n, (c, s, t, rw) in SW.items():
            yield {"ops": on + [["w", c, 1, True]] + off +
                   [["w", s, 1, True]]}

    def strategy(self, tier):
        return st.one_of(
            st.lists(op_st(), min_size=1, max_size=20),
            st.lists(op_st(), min_size=20, max_size=80)).map(
                lambda o: {"ops": o})

    def run(self, case, ctx):
        ops = [tuple(o) for o in case["ops"]]
        first, out = ctx.call("switches", ops=ops)
        state = {n: False for n in SW}
        changed = set()
        self.status(first, state, "at the start")
        for i, (op, (r, status)) in enumerate(zip(ops, out)):
            k, a, v, cpu = op
            what = "access %d, %s $%04x" % (
                i, "read" if k == "r" else "write $%02x to" % v, a)
            act = ACT.get((a, k))
            if act is None:
                core.check(r[0] == "trap", "%s is not trapped: %r" % (
                    what, r), "not-trapped")
                core.check(r[1] == a, "%s: the trap reports %r" % (
                    what, r[1:]), "trap-address")
                said = (r[2] + " " + r[3]).lower()
                rd = "read" in said
                wr = "writ" in said or "wrote" in said
                core.check(rd == (k == "r") and wr == (k == "w"),
                           "%s: the trap says %r" % (what, r[2:]),
                           "trap-kind")
            else:
                n, val = act
                if val is not None:
                    if state[n] != val:
                        changed.add(n)
                    state[n] = val
                ok = r[0] == "ok" or (r[0] == "unimplemented" and
                                      val is not None and n in UNIMPL)
                core.check(ok, "%s gives %r" % (what, r), "refused")
                if k == "r" and n and val is None:
                    core.check(bool(r[1] & 0x80) == state[n], "%s gives "
                               "$%02x, %s is %s" % (
                                   what, r[1], n, "on" if state[n] else
                                   "off"), "value")
            self.status(status, state, "after " + what)
        return dict(nontrivial=len(changed) > 1, n=len(ops))

    def status(self, status, state, when):
        for n, r in zip(ORDER, status):
            core.check(r[0] == "ok", "reading the status of %s %s gives %r" %
                       (n, when, r), "status")
            core.check(bool(r[1] & 0x80) == state[n], "%s should be %s %s, "
                       "its status is $%02x" % (
                           n, "on" if state[n] else "off", when, r[1]),
                       "state")


PROP = C31()
