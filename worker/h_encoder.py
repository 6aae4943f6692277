"""Runs the encoder (video.Video) and the screen models."""
import os
import random

from common import REPO, SCRATCH, CodeFault, ints, use_transcoder

_tables = {}


def _table(mode, pal):
    """Reference distance table, see vf/tables.py."""
    import numpy as np
    k = (mode, pal)
    if k not in _tables:
        p = os.path.join(os.environ["VERIF_TABLES"], "%s_%s.u16" % k)
        noff = 2 if mode == "HGR" else 4
        _tables[k] = np.asarray(
            np.memmap(p, dtype=np.uint16, mode="r")).reshape(noff, -1)
    return _tables[k]


def install_tables():
    import screen

    def edit_distances(cls, palette_id):
        return _table(cls.NAME, palette_id.name)
    screen.Bitmap.edit_distances = classmethod(edit_distances)
    for c in (screen.HGRBitmap, screen.DHGRBitmap):
        if "edit_distances" in c.__dict__:
            c.edit_distances = classmethod(edit_distances)


def preload():
    use_transcoder()
    import numpy
    import screen
    import video
    import palette
    import video_mode
    import frame_grabber
    if os.environ.get("VERIF_TABLES"):
        install_tables()
        for f in os.listdir(os.environ["VERIF_TABLES"]):
            _table(*f[:-4].split("_"))


def fresh():
    import screen
    f = getattr(screen.Bitmap.byte_pair_difference, "cache_clear", None)
    if f:
        f()


def memory(raw):
    import numpy as np
    import screen
    a = np.frombuffer(bytearray(raw), dtype=np.uint8)
    return screen.FlatMemoryMap(screen_page=1, data=a).to_memory_map()


def bitmap(mode, pal, main, aux):
    import palette
    import screen
    if mode == "DHGR":
        return screen.DHGRBitmap(
            main_memory=main, aux_memory=aux, palette=palette.Palette[pal])
    return screen.HGRBitmap(main_memory=main, palette=palette.Palette[pal])


def raw_of(mm):
    return mm.page_offset.astype("uint8").tobytes()


def encode(mode, pal, rng, frames, steps, want_packed=False,
           reject=False):
    """frames: [(main bytes, aux bytes or None)].
    steps: [(frame index, bank, number of ops, -1: until out of work + 3)].
    Each step makes a new encoding and takes that many operations from it.
    With reject, the encoder may refuse a frame, which ends the history."""
    import numpy as np
    import frame_grabber
    import palette
    import video
    import video_mode
    fresh()
    random.seed(rng)
    np.random.seed(rng & 0xffffffff)
    vm = video_mode.VideoMode[mode]
    v = video.Video(frame_grabber.FrameGrabber(vm), ticks_per_second=14700.,
                    mode=vm, palette=palette.Palette[pal])
    res = []
    cur, target = None, None
    for f, bank, n in steps:
        if f != cur:
            main, aux = frames[f]
            target = bitmap(mode, pal, memory(main),
                            memory(aux) if mode == "DHGR" else None)
            cur = f
        bank = bool(bank)
        gen = v.encode_frame(target, is_aux=bank)
        v.out_of_work = {True: False, False: False}
        ops = []
        while len(ops) != n:
            if n < 0 and len(ops) > 8192 + 64:
                break
            try:
                page, content, offsets = next(gen)
            except StopIteration:
                ops.append(None)
                break
            except (AssertionError, ValueError):
                if not reject:
                    raise
                res.append([ops, None, None])
                return res
            ops.append((int(page), int(content), ints(offsets)))
            if n < 0:
                if n == -1:
                    # a cheap upper bound on the work there is: the encoder
                    # says so itself, or the tail does nothing new any more
                    if len(ops) > 6 and all(
                            o == ops[-1] for o in ops[-5:]):
                        break
        st = [ops, raw_of(v.memory_map),
              raw_of(v.aux_memory_map) if mode == "DHGR" else None]
        if want_packed:
            st.append(v.pixelmap.packed.astype("<u8").tobytes())
            st.append(bitmap(mode, pal, v.memory_map,
                             v.aux_memory_map if mode == "DHGR" else None)
                      .packed.astype("<u8").tobytes())
        res.append(st)
    return res


def packed_raw(b):
    return b.packed.astype("<u8").tobytes()


def bitmap_updates(mode, pal, main, aux, updates, every):
    """Applies (page, offset, bank, value) updates to a bitmap.  After every
    `every` updates, and at the end: is the packed form the one made from
    scratch?  Returns [(index, packed, packed from scratch, main, aux)]."""
    import numpy as np
    mm, am = memory(main), (memory(aux) if mode == "DHGR" else None)
    b = bitmap(mode, pal, mm, am)
    out = []
    for i, (p, o, k, val) in enumerate(updates):
        b.apply(p, o, bool(k), np.uint8(val))
        if (i + 1) % every == 0 or i + 1 == len(updates):
            m2 = raw_of(mm)
            a2 = raw_of(am) if am is not None else None
            s = bitmap(mode, pal, memory(m2),
                       memory(a2) if a2 is not None else None)
            out.append((i, packed_raw(b), packed_raw(s), m2, a2))
    return out


def phases(mode):
    import screen
    c = getattr(screen, mode + "Bitmap")
    return dict(phases=ints(c.PHASES), dots=int(c.MASKED_DOTS),
                bits=int(c.MASKED_BITS))


def dots_of(mode, pal, main, aux, places, stores=()):
    """Dots of the neighbourhood of each (page, offset, bank); then for each
    (page, offset, bank, value): dots there with the value stored by
    masked_update, and dots at all given places after really storing it."""
    import numpy as np
    mm, am = memory(main), (memory(aux) if mode == "DHGR" else None)
    b = bitmap(mode, pal, mm, am)

    def dots(packed, o, bank):
        bo = b.byte_offset(o, bool(bank))
        v = int(b.mask_and_shift_data(packed, bo))
        return int(b.to_dots(v, bo)), int(b.PHASES[bo])

    def survey():
        return [dots(b.packed[p, o // 2], o, bank) for p, o, bank in places]
    first = survey()
    res = []
    for p, o, bank, val in stores:
        bo = b.byte_offset(o, bool(bank))
        one = dots(b.masked_update(bo, b.packed[p, o // 2], np.uint8(val)), o,
                   bank)
        row = b.masked_update(bo, b.packed[p:p + 1, :], np.uint8(val))
        many = dots(row[0, o // 2], o, bank)
        b.apply(p, o, bool(bank), np.uint8(val))
        res.append((one, many, survey()))
    return first, res


def to_dots_range(mode, o, lo, hi):
    import screen
    c = getattr(screen, mode + "Bitmap")
    return [int(c.to_dots(v, o)) for v in range(lo, hi)]


def diffs(mode, pal, cur, target, bank, pages, singles, rounds=()):
    """Weights of cur against target; page gains for [(page, content)]; single
    store distances for [(page, offset, content)] on the target.  Again after
    each of the rounds: [(0: cur, 1: target; page, offset, bank, content)]."""
    import numpy as np
    fresh()
    bank = bool(bank)

    def mk(x):
        return bitmap(mode, pal, memory(x[0]),
                      memory(x[1]) if mode == "DHGR" else None)

    def snap(b):
        return (packed_raw(b), raw_of(b.main_memory),
                raw_of(b.aux_memory) if b.aux_memory is not None else None)
    s, t = mk(cur), mk(target)
    res = []
    for stores in [()] + list(rounds):
        for which, p, o, k, val in stores:
            (s, t)[which].apply(p, o, bool(k), np.uint8(val))
        before = snap(s), snap(t)
        w = t.diff_weights(s, bank)
        out = dict(weights=np.asarray(w).astype("<i8").tobytes(), gains=[],
                   singles=[])
        for p, content in pages:
            g = t.compute_delta_page(p, np.uint8(content), w[p, :], bank)
            out["gains"].append(
                np.asarray(g).astype("<i8").reshape(-1).tobytes())
        for p, o, content in singles:
            out["singles"].append(int(t.byte_pair_difference(
                t.byte_offset(o, bank), t.packed[p, o // 2],
                np.uint8(content))))
        w2 = t.diff_weights(s, bank)
        out["same"] = bool((np.asarray(w) == np.asarray(w2)).all())
        out["unchanged"] = before == (snap(s), snap(t))
        res.append(out)
    return res


HANDLERS = dict(encode=encode, bitmap_updates=bitmap_updates, phases=phases,
                dots_of=dots_of, to_dots_range=to_dots_range, diffs=diffs)
