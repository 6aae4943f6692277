import warnings
from fractions import Fraction

import numpy as np
import scipy.signal
from hypothesis import strategies as st

from .. import core, movie

KINDS = ["silence", "const", "sine", "noise", "impulses", "ramp", "square",
         "burst", "tiny", "two-level"]


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(1, 40), st.integers(1, 4000),
                       st.sampled_from([1023, 1024, 1025, 2048, 5000])))
    rate = draw(st.sampled_from([14700, 44100, 22050, 48000, 8000, 11025,
                                 96000, 22500, 14364]))
    bit = draw(st.one_of(st.just(rate), st.just(rate), st.sampled_from(
        [14700, 22500, 44100, 8000, 14364]), st.integers(1000, 30000)))
    big = draw(st.integers(0, 11)) == 0
    if big:
        n = draw(st.sampled_from([131071, 131072, 131073, 140000, 262144,
                                  262150]))
    return {
        "n": n, "rate": rate, "bitrate": bit,
        "channels": draw(st.sampled_from([1, 1, 2, 2, 3, 4, 6])),
        "film": draw(st.booleans()),
        "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=1,
                               max_size=4)),
        "level": draw(st.one_of(st.integers(1, 32767), st.sampled_from(
            [1, 100, 16383, 16384, 16385, 32767]))),
        "norm": draw(st.one_of(st.none(), st.none(), st.sampled_from(
            [1.0, 0.5, 2.0, 3.7, 50.0, 0.01]), st.floats(
                0.01, 20).map(lambda x: round(x, 4)))),
        "seed": draw(st.integers(0, 10 ** 6)),
    }


def signal(kind, n, level, r):
    t = np.arange(n)
    if kind == "silence":
        x = np.zeros(n)
    elif kind == "const":
        x = np.full(n, level * (1 if r.randint(2) else -1))
    elif kind == "sine":
        x = level * np.sin(t * (0.001 + r.rand() * 0.5) + r.rand())
    elif kind == "noise":
        x = r.randint(-level - 1, level + 1, n)
    elif kind == "impulses":
        x = np.zeros(n)
        x[r.randint(0, n, 1 + n // 300)] = level
    elif kind == "ramp":
        x = np.linspace(-level, level, n)
    elif kind == "square":
        x = np.where(t // (1 + r.randint(30)) % 2, level, -level - 1)
    elif kind == "burst":
        x = np.where(t < n // 3, 0, level * np.sin(t))
    elif kind == "tiny":
        x = r.randint(-1, 2, n)
    else:
        x = np.where(r.rand(n) < 0.02, level, level // 50)
    return np.clip(x, -32768, 32767).astype(np.int16)


def samples(case):
    r = np.random.RandomState(case["seed"])
    ch = [signal(case["kinds"][c % len(case["kinds"])], case["n"],
                 case["level"], r) for c in range(case["channels"])]
    return np.stack(ch)


class C23(movie.MovieProp):
    id = "C23"
    technique = ("generated sound files through the real audio libraries, "
                 "against a reference resampling and scaling in double "
                 "precision")
    rule = ("1 to 6 channels, 1 to 260000 (enumerated: 970000) samples, from a sound file or a "
            "film, 10 signal shapes at generated levels, same and different "
            "rates, given (at the same rate judged to single precision) and "
            "automatic normalisation; non-trivial: three or more different "
            "duty cycles come out, or silence")
    budget = {"quick": (300, 35, 8), "thorough": (8000, 420, 8)}
    assumptions = (
        "16-bit WAV input, read through audioread's own reader, or what "
        "a stand-in ffmpeg decodes, through audioread; the "
        "libraries' numba kernels, not used here, are stubbed",
        "sounds beyond 131072 samples at a different rate are compared "
        "only on average (they are resampled block by block, which distorts the "
        "block's ends), and only if they vary slowly",
        "automatic normalisation uses the first 10 MB; longer files do not "
        "change character",
    )

    def enumerate(self, tier):
        b = {"n": 600, "rate": 14700, "bitrate": 14700, "channels": 1,
             "level": 20000, "norm": None, "seed": 1}
        for k in KINDS:
            yield dict(b, kinds=[k])
            yield dict(b, kinds=[k], bitrate=4900, channels=2)
            yield dict(b, kinds=[k], bitrate=4900, channels=6, n=3000,
                       film=True)
            yield dict(b, kinds=[k], bitrate=4900, channels=1, n=30000,
                       film=True)
            yield dict(b, kinds=[k, "ramp"], channels=2, norm=1.0)
        # more than the first 10 MB, with which normalisation is content
        for film in (False, True):
            yield dict(b, kinds=["noise"], n=900000 + 70000 * film,
                       channels=6, film=film)
        # every 16-bit level
        yield dict(b, kinds=["ramp"], n=65536, level=32767, norm=1.0)
        yield dict(b, kinds=["ramp"], n=65536, level=32767, norm=1.3)
        for c in (2, 4, 6):
            for k in (0.5, 2.0, 0.7):
                yield dict(b, kinds=["ramp", "noise", "square"], n=65536,
                           level=32767, norm=k, channels=c)

    def strategy(self, tier):
        return case()

    def run(self, case, ctx):
        x = samples(case)
        n = case["n"]
        out, rate, norm = ctx.call(
            "audio", wav=x.T.astype("<i2").tobytes(), rate=case["rate"],
            channels=case["channels"], bitrate=case["bitrate"],
            norm=case["norm"], film=case.get("film", False))
        core.check(rate == case["bitrate"], "sample rate is %r" % rate,
                   "rate")
        mono = x.astype(np.float64).mean(axis=0)
        ratio = Fraction(case["bitrate"], case["rate"])
        same = ratio == 1
        blocks = -(-n // 131072)
        want_n = n * ratio
        lo = -(-want_n.numerator // want_n.denominator)
        slip = 1 if want_n.denominator == 1 and not same else 0
        hi = lo + slip
        if not same:
            hi += 2 * (blocks - 1)
        core.check(lo <= len(out) <= hi, "%d duty cycles, should be %s" % (
            len(out), lo if lo == hi else (lo, hi)), "count")
        got = np.array(out)
        core.check(((got >= -15) & (got <= 16)).all(), "duty cycle out of "
                   "range: %d to %d" % (got.min(), got.max()), "range")
        if not mono.any():
            core.check(not got.any(), "silence gives %r" % sorted(set(out)),
                       "silence")

        def resampled(length):
            if same:
                return mono
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return scipy.signal.resample(mono, length) / np.sqrt(
                    float(ratio))
        y = resampled(len(out))
        amp = np.abs(mono).max() / np.sqrt(float(ratio))
        if case["norm"] is None:
            k = self.automatic(norm, amp, [
                resampled(i) for i in ([len(out)] if blocks == 1 else
                                       sorted({lo, lo + slip}))],
                same and n * case["channels"] * 2 <= 10 << 20)
            if same and k is not None:
                k = norm
        else:
            k = case["norm"]
        if k is not None:
            v = y / 16384 * k * 16
            if same or blocks == 1:
                tol = 1e-3 + 2e-5 * np.abs(v).max()
                if same:
                    # nothing but single precision, and with powers of two
                    # not even that
                    exact = Fraction(k).numerator & (
                        Fraction(k).numerator - 1) == 0 and \
                        Fraction(k).denominator < 1024 and \
                        case["channels"] in (1, 2, 4)
                    tol = 0 if exact else 1e-6 * np.abs(v) + \
                        3e-6 * k * np.abs(x).max() / 1024.
                else:
                    tol += 1e-6 * amp / 1024 * k
                    if case["norm"] is None:
                        tol += 1e-3 * np.abs(np.clip(v, -17, 17))
                a = np.clip(np.trunc(v - tol), -15, 16)
                b = np.clip(np.trunc(v + tol), -15, 16)
                bad = np.flatnonzero((got < a) | (got > b))
                if len(bad):
                    i = int(bad[0])
                    raise core.Violation(
                        "output sample %d is %d, amplitude %g times "
                        "normalisation %g gives %g (%d of %d wrong)" % (
                            i, got[i], y[i], k, v[i], len(bad), len(got)),
                        "value")
            elif set(case["kinds"]) <= {"const", "ramp"}:
                e = np.abs(got - np.clip(v, -15, 16)).mean()
                core.check(e < 2.0, "on average %g off" % e, "value")
        return dict(nontrivial=len(set(out)) > 2 or not mono.any(),
                    n=len(out), tags=[
                        "same rate" if same else "resampled",
                        "auto" if case["norm"] is None else "given",
                        "%d channels" % case["channels"],
                        "long" if blocks > 1 else "short"])

    def automatic(self, norm, amp, options, close):
        """The normalisation, if it is well determined: that of the whole
        file, resampled to one of the lengths that are right."""
        if not amp:
            return 1.0
        core.check(norm > 0, "normalisation %r" % norm, "normalisation")
        got = 16384. / norm
        near = []
        for z in options:
            # sound beyond the output's range is filtered out, but its
            # rounding is not
            top = max(1.0, np.abs(z).max(), amp)
            bulk = np.max(np.abs(np.percentile(z, [0.5, 99.5])))
            if bulk <= 1e-4 * top:
                return None     # rounding decides
            near.append((abs(got - bulk) - (1e-5 if close else 1e-3) * bulk -
                         1e-6 * top, bulk))
        off, bulk = min(near)
        core.check(off <= 0, "normalisation %r, should be %r" % (
            norm, 16384. / bulk), "normalisation")
        return 16384. / bulk


PROP = C23()
