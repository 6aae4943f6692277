"""Colours, distance tables, screen layout, symbol files."""
import io
import os
import shutil
import tempfile

from common import REPO, SCRATCH, CodeFault, ints, use_transcoder


def preload():
    use_transcoder()
    import numpy
    import colours
    import screen
    import palette
    import symbol_table
    if os.environ.get("VERIF_MDT"):
        import make_data_tables


# ---------------------------------------------------------------- colours
def pixels(enum, jobs):
    """jobs: [(num_bits, dots, phase or None)]."""
    import colours
    cls = getattr(colours, enum)
    out = []
    for n, dots, ph in jobs:
        kw = {} if ph is None else {"init_phase": ph}
        a = colours.dots_to_nominal_colour_pixels(n, dots, cls, **kw)
        b = colours.dots_to_nominal_colour_pixel_values(n, dots, cls, **kw)
        out.append(([x.name for x in a], [int(x.value) for x in a], ints(b)))
    return out


def rotate(jobs):
    import colours
    return [(int(colours.rol(v, n)), int(colours.ror(v, n)))
            for v, n in jobs]


# ---------------------------------------------------------------- distance
def palettes():
    """What each palette says its colours are, and its costs."""
    import make_data_tables as mdt
    import palette
    out = {}
    for k, p in palette.PALETTES.items():
        rgb = {}
        for c, v in p.RGB.items():
            rgb[c.name] = tuple(
                int(round(x * 255)) for x in (v.rgb_r, v.rgb_g, v.rgb_b))
        out[k.name] = dict(
            id=p.ID.name, number=int(k.value), rgb=rgb,
            matrix=[ints(r) for r in mdt.compute_diff_matrix(p)])
    return out


def distances(pal, pairs):
    """Edit distances of pairs of pixel value lists, both ways."""
    import make_data_tables as mdt
    import palette
    edp = mdt.compute_substitute_costs(palette.PALETTES[palette.Palette[pal]])
    out = []
    for a, b in pairs:
        x, y = mdt.pixel_string(tuple(a)), mdt.pixel_string(tuple(b))
        out.append((float(mdt.edit_distance(edp, x, y, error=False)),
                    float(mdt.edit_distance(edp, y, x, error=False))))
    return out


def masked(mode, pal, jobs):
    """Distances of displays of masked values: jobs [(offset, values)]; all
    ordered pairs each."""
    import colours
    import make_data_tables as mdt
    import palette
    import screen
    r = getattr(screen, mode + "Bitmap")
    enum = getattr(colours, mode + "Colours")
    edp = mdt.compute_substitute_costs(palette.PALETTES[palette.Palette[pal]])
    out = []
    for o, vals in jobs:
        s = [mdt.pixel_string(colours.dots_to_nominal_colour_pixel_values(
            int(r.MASKED_DOTS), r.to_dots(v, o), enum,
            init_phase=r.PHASES[o])) for v in vals]
        out.append([float(mdt.edit_distance(edp, a, b, error=False))
                    for a in s for b in s])
    return out


def _sub(real, bits, select):
    """A display model showing a selection of the real model's values."""
    import numpy as np

    class Sub(real):
        MASKED_BITS = np.uint64(bits)

        @classmethod
        def to_dots(cls, masked_val, byte_offset):
            return real.to_dots(select[byte_offset][int(masked_val)],
                                byte_offset)
    Sub.__name__ = real.__name__
    return Sub


def generate(bits, hgr, dhgr):
    """Runs the table generator's main() in a scratch directory on small
    selections of both display models, and loads the tables it wrote the way
    the encoder does."""
    import make_data_tables as mdt
    import palette
    import screen
    real = screen.HGRBitmap, screen.DHGRBitmap
    d = tempfile.mkdtemp(dir=SCRATCH)
    os.makedirs(os.path.join(d, "transcoder"))
    old = os.getcwd()
    out = {}
    try:
        os.chdir(d)
        subs = [_sub(real[0], bits, hgr), _sub(real[1], bits, dhgr)]
        screen.HGRBitmap, screen.DHGRBitmap = subs
        mdt.main()
        files = sorted(os.listdir("transcoder/data"))
        for sub, r in zip(subs, real):
            for pal in palette.PALETTES:
                t = sub.edit_distances(pal)
                out[r.NAME, pal.name] = dict(
                    shape=ints(t.shape),
                    table=[ints(row) for row in t])
    finally:
        screen.HGRBitmap, screen.DHGRBitmap = real
        os.chdir(old)
        shutil.rmtree(d)
    return files, out


# ---------------------------------------------------------------- layout
def layout():
    import screen
    return dict(
        base=[[int(x) for x in row] for row in screen.Y_TO_BASE_ADDR],
        px=screen.PAGE_OFFSET_TO_X.tolist(),
        py=screen.PAGE_OFFSET_TO_Y.tolist(),
        xpage=screen.X_Y_TO_PAGE.tolist(),
        xoff=screen.X_Y_TO_OFFSET.tolist(),
        holes=screen.SCREEN_HOLES.tolist(),
        coords=[(int(k), ints(v)) for k, v in screen.ADDR_TO_COORDS.items()])


def base_addr(jobs):
    import screen
    return [int(screen.y_to_base_addr(y, p) if p is not None else
                screen.y_to_base_addr(y)) for y, p in jobs]


def views(ops):
    """Runs a history over memory views.  Each op makes or uses views kept in
    slots; returns per op the outcome and the contents of all views."""
    import numpy as np
    import screen
    slots = {}
    out = []
    for op in ops:
        k = op[0]
        try:
            if k == "flat":
                _, s, page, raw, shape = op
                data = None
                if raw is not None:
                    data = np.frombuffer(bytearray(raw), dtype=np.uint8)
                    if shape:
                        data = data.reshape(shape)
                slots[s] = screen.FlatMemoryMap(page, data)
            elif k == "paged":
                _, s, page, raw, shape = op
                data = None
                if raw is not None:
                    data = np.frombuffer(bytearray(raw), dtype=np.uint8)
                    if shape:
                        data = data.reshape(shape)
                slots[s] = screen.MemoryMap(page, data)
            elif k == "toflat":
                slots[op[2]] = slots[op[1]].to_flat_memory_map()
            elif k == "topaged":
                slots[op[2]] = slots[op[1]].to_memory_map()
            elif k == "write":
                slots[op[1]].write(*op[2:])
            r = "ok"
        except ValueError as e:
            r = "ValueError"
        except Exception as e:
            r = type(e).__name__
        st = {}
        for s, v in slots.items():
            a = v.data if hasattr(v, "data") else v.page_offset
            st[s] = (type(v).__name__, int(v.screen_page), list(a.shape),
                     a.astype("uint8").tobytes())
        out.append((r, st))
    return out


# ---------------------------------------------------------------- symbols
def parse(text):
    import symbol_table
    a = symbol_table.SymbolTable().parse(io.StringIO(text))
    p = os.path.join(SCRATCH, "sym-%d.dbg" % os.getpid())
    with open(p, "w") as f:
        f.write(text)
    try:
        b = symbol_table.SymbolTable(p).parse()
    finally:
        os.remove(p)
    return ({k: dict(v) for k, v in a.items()},
            {k: dict(v) for k, v in b.items()})


HANDLERS = dict(pixels=pixels, rotate=rotate, palettes=palettes,
                distances=distances, masked=masked, generate=generate, layout=layout,
                base_addr=base_addr, views=views, parse=parse)
