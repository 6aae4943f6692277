import hashlib

from hypothesis import strategies as st

from .. import core, movie

NAMES = ["in.mov", "other.mov", "my.film.v2.mp4", "sub/in.mov"]
SIZES = [[40, 30], [280, 192], [320, 200], [16, 16], [64, 200], [640, 480],
         [281, 193]]
PAL = {"NTSC": "P5", "IIGS": "P0"}
MARK = (40, 90, 140, 190)


def content(key, bank):
    return hashlib.sha256(repr((key, bank)).encode()).digest() * 256


def digests(r, i, rev):
    key = (r["name"], r["mode"], r["pal"], i, rev)
    return tuple(
        hashlib.sha256(content(key, b)).hexdigest()
        if b == 0 or r["mode"] == "DHGR" else None for b in (0, 1))


def count():
    return st.one_of(st.integers(0, 4), st.integers(5, 40), st.sampled_from(
        [9, 10, 11, 12, 13, 22]))


@st.composite
def run_st(draw, names, rev):
    n = draw(count())
    return {
        "name": draw(st.sampled_from(names)),
        "mode": draw(st.sampled_from(["HGR", "DHGR"])),
        "pal": draw(st.sampled_from(["NTSC", "IIGS"])),
        "n": n, "rev": rev, "size": draw(st.sampled_from(SIZES)),
        "rate": draw(st.sampled_from(movie.FPS)),
        "take": draw(st.one_of(st.none(), st.none(), st.integers(0, n + 1))),
        "pace": draw(st.one_of(st.just([0]), st.lists(
            st.sampled_from([0, 0, 1, 3, 8]), min_size=1, max_size=4))),
        "delay": {str(i): draw(st.integers(1, 15)) for i in draw(
            st.lists(st.integers(0, 40), max_size=3))},
        "drop": draw(st.lists(st.tuples(
            st.integers(0, 20), st.integers(0, 1)).map(list), max_size=3)),
    }


@st.composite
def case(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2,
                          unique=True))
    return {"runs": [draw(run_st(names, rev))
                     for rev in range(draw(st.integers(1, 5)))]}


class C27(movie.MovieProp):
    id = "C27"
    technique = ("histories of runs over generated inputs, modes, palettes, "
                 "paces and damaged caches, against a model of the cache; "
                 "the converter is a recording stand-in")
    rule = ("1 to 5 runs of 0 to 40 frames in one directory, some abandoned "
            "part way; each conversion carries its input, mode, palette, "
            "index and run in its bytes; non-trivial: a run of more than 10 "
            "frames or one that finds a cache")
    budget = {"quick": (200, 40, 8), "thorough": (5000, 420, 8)}
    assumptions = (
        "stand-ins for ffmpeg's frame reader and bmp2dhr",
        "inputs whose names differ only in the last extension share a cache "
        "by design; such pairs are not generated",
    )

    def enumerate(self, tier):
        b = {"name": "in.mov", "n": 12, "size": [40, 30], "take": None}
        runs = []
        for rev, (m, p) in enumerate([
                ("HGR", "NTSC"), ("HGR", "IIGS"), ("DHGR", "NTSC"),
                ("DHGR", "IIGS"), ("HGR", "NTSC"), ("DHGR", "NTSC")]):
            runs.append(dict(b, mode=m, pal=p, rev=rev))
        yield {"runs": runs}
        for m in ("HGR", "DHGR"):
            yield {"runs": [dict(b, mode=m, pal="NTSC", rev=0, n=300)]}
            yield {"runs": [
                dict(b, mode=m, pal="NTSC", rev=0, take=3),
                dict(b, mode=m, pal="NTSC", rev=1, n=30, drop=[[2, 0]]),
                dict(b, mode=m, pal="NTSC", rev=2, n=30,
                     drop=[[4, 1], [29, 0]])]}

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        res = ctx.call("grab", runs=case["runs"], timeout=60)
        cache = {}
        hit = False
        for r, got in zip(case["runs"], res):
            have = cache.setdefault((r["name"], r["mode"], r["pal"]), {})
            for i, _ in r.get("drop", ()):
                have.pop(i, None)
            what = "run %d (%s %s %s)" % (r["rev"], r["name"], r["mode"],
                                          r["pal"])
            core.check(got["exc"] is None, "%s raised %s" % (
                what, got["exc"]), "raised")
            want = r["n"] if r["take"] is None else min(r["n"], r["take"])
            core.check(len(got["frames"]) == want, "%s: %d frames of %d "
                       "(asked for %s)" % (what, len(got["frames"]), r["n"],
                                           r["take"]), "count")
            a, b = map(int, r.get("rate", "30/1").split("/"))
            core.check(abs(got["rate"] - a / b) < 1e-9 * a / b,
                       "%s: frame rate %r of %s" % (
                           what, got["rate"], r.get("rate")), "rate")
            for i, f in enumerate(got["frames"]):
                rev = have.get(i, r["rev"])
                w = digests(r, i, rev)
                if tuple(f) != w:
                    raise core.Violation(
                        "%s: frame %d is %s, should be the conversion of "
                        "run %d" % (what, i, self.who(case, f), rev),
                        "frame")
            seen = set()
            for args, size, i, px in got["calls"]:
                core.check(i < r["n"], "%s: the converter is given no frame "
                           "of the input" % what, "image")
                core.check(i not in have, "%s: frame %d was converted again"
                           % (what, i), "again")
                core.check(i not in seen, "%s: frame %d was converted twice"
                           % (what, i), "twice")
                seen.add(i)
                core.check(list(size) == [280, 192], "%s: frame %d was "
                           "given as %r" % (what, i, size), "size")
                core.check(all(abs(p[2] - m) <= 4 for p, m in
                               zip(px, MARK)), "%s: frame %d was given as "
                           "another picture %r" % (what, i, px), "image")
                core.check(args[0] == "bmp2dhr" and
                           args[1] == r["mode"].lower() and
                           PAL[r["pal"]] in args[2:] and
                           (r["mode"] == "HGR" or "A" in args[2:]),
                           "%s: converter called with %r" % (what, args),
                           "arguments")
            if want == r["n"] and r["take"] is None:
                core.check(not got["left"], "%s leaves %r" % (
                    what, got["left"]), "temporary")
                need = set(range(r["n"])) - set(have)
                core.check(seen == need, "%s: converted %r, needed %r" % (
                    what, sorted(seen), sorted(need)), "converted")
            hit = hit or any(i in have for i in range(want))
            for i in got["there"]:
                have.setdefault(i, r["rev"])
        return dict(nontrivial=hit or any(r["n"] > 10 for r in case["runs"]),
                    n=sum(len(g["frames"]) for g in res),
                    tags=["cache used"] * hit + ["%d runs" % len(res)])

    @staticmethod
    def who(case, f):
        for r in case["runs"]:
            for rev in range(len(case["runs"])):
                for i in range(r["n"]):
                    if digests(r, i, rev) == tuple(f):
                        return "frame %d of %s %s %s, run %d" % (
                            i, r["name"], r["mode"], r["pal"], rev)
        return "something else"


PROP = C27()
