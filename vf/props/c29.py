import string

from hypothesis import strategies as st

from .. import core

ID0 = string.ascii_letters + "_@"
ID = ID0 + string.digits
NAMES = ["op_ack", "op_tick_4", "op_tick_66_page_63", "op_nop", "op_header",
         "op_terminate", "sym", "name", "id", "val", "_", "@1", "@D", "exit",
         "csym", "line", "version", "info", "x"]


def name():
    return st.one_of(
        st.sampled_from(NAMES),
        st.tuples(st.sampled_from(ID0), st.text(ID, max_size=20)).map(
            "".join),
        st.tuples(st.integers(4, 66), st.integers(32, 63)).map(
            lambda t: "op_tick_%d_page_%d" % t))


def ref_():
    return st.lists(st.integers(0, 20000), min_size=1, max_size=4).map(
        lambda l: "+".join(map(str, l)))


ATTRS = {
    "id": st.integers(0, 9999).map(str),
    "addrsize": st.sampled_from(["absolute", "zeropage", "far", "long"]),
    "size": st.integers(1, 999).map(str),
    "scope": st.integers(0, 20).map(str),
    "parent": st.integers(0, 99).map(str),
    "def": ref_(), "ref": ref_(),
    "val": st.integers(-70000, 0xffffff).map(
        lambda v: "0x%X" % (v & 0xffffffff)),
    "seg": st.integers(0, 20).map(str),
    "exp": st.integers(0, 20).map(str),
    "type": st.sampled_from(["lab", "equ", "imp"]),
}
ORDER = ["id", "name", "addrsize", "size", "scope", "parent", "def", "ref",
         "val", "seg", "exp", "type"]


@st.composite
def sym(draw, names):
    nm = draw(st.one_of(name(), st.sampled_from(names)) if names else name())
    names.append(nm)
    keys = ["name"] + draw(st.lists(st.sampled_from(sorted(ATTRS)),
                                    unique=True, max_size=11))
    if draw(st.booleans()):
        keys.sort(key=ORDER.index)
    else:
        keys = draw(st.permutations(keys))
    return ["sym", [[k, '"%s"' % nm if k == "name" else draw(ATTRS[k])]
                    for k in keys]]


FILENAME = st.one_of(
    st.sampled_from(["main.s", "a b.s", "sym.s", "x,y=1.s",
                     "sym\tid=0,name=\"no\"".replace('"', "'"),
                     "/usr/share/cc65/asminc/apple2.inc", "syms"]),
    st.text(string.ascii_letters + " .,=/+-_", min_size=1, max_size=20))


@st.composite
def other(draw):
    k = draw(st.sampled_from(["version", "info", "file", "lib", "line", "mod",
                              "scope", "seg", "span", "type", "csym"]))
    n = draw(st.integers(0, 20000))
    body = {
        "version": [["major", "2"], ["minor", "0"]],
        "info": [["csym", "0"], ["file", str(n)], ["sym", str(n)]],
        "csym": [["id", str(n)], ["name", '"%s"' % draw(name())],
                 ["scope", "1"], ["type", "0"], ["sc", "ext"],
                 ["sym", "1"]],
        "scope": [["id", str(n)], ["name", '"%s"' % draw(name())],
                  ["mod", "0"], ["size", str(n)]],
        "seg": [["id", str(n)], ["name", '"%s"' % draw(name())],
                ["start", "0x%06X" % n], ["val", "0x%X" % n]],
    }.get(k)
    if body is None:
        body = [["id", str(n)]]
        if k in ("file", "lib", "mod"):
            body.append(["name", '"%s"' % draw(FILENAME)])
        body += [["size", str(n)], ["val", "0x%X" % n]]
    return [k, body]


@st.composite
def case(draw):
    lines = []
    names = []
    for _ in range(draw(st.integers(0, 25))):
        r = draw(st.integers(0, 9))
        if r < 6:
            lines.append(draw(sym(names)))
        elif r < 9:
            lines.append(draw(other()))
        else:
            lines.append(["", []])
    return {"lines": lines, "final": draw(st.booleans()),
            "sep": draw(st.sampled_from(["\t", "\t", " ", "    ", " \t"]))}


def text(case):
    out = []
    for k, body in case["lines"]:
        out.append(k and k + case["sep"] + ",".join(
            "%s=%s" % (a, b) for a, b in body))
    return "\n".join(out) + ("\n" if case["final"] else "")


class C29(core.Prop):
    id = "C29"
    profile = "model"
    technique = ("property-based testing: generated cc65 debug files, "
                 "round trip of the symbols they were made from")
    rule = ("files of up to 25 lines of all record types, symbol attributes "
            "in any subset and order; non-trivial: a symbol together with "
            "other records or other symbols")
    budget = {"quick": (500, 40, 8), "thorough": (100000, 300, 8)}
    assumptions = (
        "record types are those ld65 writes; symbol names and values contain "
        "no blank, comma or '='",
        "where a name occurs on several lines (local labels) the result may "
        "be any one of those lines' attributes, whole")

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        a, b = ctx.call("parse", text=text(case))
        want = {}
        for k, body in case["lines"]:
            if k == "sym":
                d = dict(body)
                want.setdefault(d["name"], []).append(d)
        core.check(a == b, "parsing a stream and a file differ", "file")
        core.check(set(a) == set(want), "symbols found %r, in file %r" % (
            sorted(a), sorted(want)), "names")
        for k, v in a.items():
            core.check(v in want[k], "symbol %s has attributes %r, file says "
                       "%r" % (k, v, want[k]), "attrs")
        dup = any(len(v) > 1 for v in want.values())
        return dict(nontrivial=bool(want) and len(case["lines"]) > 1,
                    n=len(want), tags=["duplicate"] if dup else [])


PROP = C29()
