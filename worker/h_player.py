"""The player built from source, running in the Apple II model."""
import os
import re

from common import REPO, SCRATCH, CodeFault, ints, use_transcoder

_built = {}


def built():
    """(image, {symbol: address}) of the player built from source."""
    if not _built:
        d = os.environ["VERIF_PLAYER"]
        raw = open(os.path.join(d, "iivision"), "rb").read()
        _built["image"] = raw[0x3a:]
        _built["sym"] = symbols(os.path.join(d, "iivision.dbg"))
    return _built["image"], _built["sym"]


def symbols(path):
    out = {}
    for line in open(path):
        m = re.match(r'sym\t.*?name="(op_\w+|exit|SRCADDR|exit_parmtable)"'
                     r'.*?,val=0x([0-9A-F]+)', line)
        if m:
            out[m.group(1)] = int(m.group(2), 16)
    return out


def preload():
    import apple
    import py65.devices.mpu6502
    if os.environ.get("VERIF_OPCODES"):
        try:
            use_transcoder()
            import opcodes
        except Exception:
            pass        # `emit` reports it
    built()
    # compile the interpreter loop once, before forking
    image, sym = built()
    p = [0x24, 0x10, 1, 2, 3, 4]
    a = sym.get("op_tick_36_page_36", 0x4000)
    op = [a >> 8, a & 255, 1, 2, 3, 4, 5]
    m = apple.Apple(image, bytes(7) + bytes(op * 600), [(0, 8192)],
                    watch=[a])
    m.run(400000)


def info():
    image, sym = built()
    return len(image), sym


def play(stream, max_cycles, **kw):
    import apple
    image, sym = built()
    m = apple.Apple(image, stream, **kw)
    why = m.run(max_cycles)
    return dict(why=why, events=m.events.tobytes(), cycles=m.cpu.processorCycles,
                pc=m.cpu.pc, main=bytes(m.ram), aux=bytes(m.aux[:0x4000]),
                sw=m.sw, acked=m.card.acked, sent=m.card.sent,
                reg=bytes(m.card.reg), sp=m.cpu.sp,
                reset=m.reset_done, ncon=m.card.ncon)


def emit(ops):
    """Bytes the transcoder emits for [(name, args...)]."""
    use_transcoder()
    import machine
    import opcodes
    import video_mode
    st = machine.Machine()
    out = []
    for op in ops:
        k = op[0]
        if k == "tick":
            o = opcodes.TICK_OPCODES[(op[1], op[2])](op[3], tuple(op[4]))
        elif k == "ack":
            o = opcodes.Ack(bool(op[1]))
        elif k == "nop":
            o = opcodes.Nop()
        elif k == "terminate":
            o = opcodes.Terminate()
        elif k == "header":
            o = opcodes.Header(video_mode.VideoMode[op[1]])
        out.append(bytes(ints(st.emit(o))))
    return out


HANDLERS = dict(info=info, play=play, emit=emit)
