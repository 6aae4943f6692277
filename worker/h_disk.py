"""A system file started by ProDOS, with ProDOS' calls answered from files."""
from py65.devices.mpu6502 import MPU

PAGES = set([0, 1, 4, 5, 6, 7, 0xbf])       # in use


def preload():
    run("A.SYSTEM", b"\x4c\x00\x20", {}, 10)


def run(name, code, files, limit=2000000):
    """Runs system file `name`; files: {name: (type, aux, data)}.  Returns why
    it ended, where, what was printed, the calls, and memory."""
    cpu = MPU()
    mem = cpu.memory = [0] * 65536
    for i, b in enumerate(code):
        mem[0x2000 + i] = b
    mem[0x280:0x281 + len(name)] = [len(name)] + [ord(c) for c in name]
    cpu.pc = 0x2000
    used = set(PAGES)
    text, calls = [], []
    opened = {}

    def word(a):
        return mem[a] | mem[a + 1] << 8

    def rts():
        cpu.pc = (cpu.stPopWord() + 1) & 0xffff

    def path(a):
        p = word(a)
        return "".join(chr(c & 127) for c in
                       mem[p + 1:p + 1 + mem[p]]).upper()

    def mli(cmd, p):
        if cmd == 0xc4:
            f = files.get(path(p + 1))
            if f is None:
                return 0x46
            mem[p + 3] = 0xc3
            mem[p + 4] = f[0]
            mem[p + 5], mem[p + 6] = f[1] & 255, f[1] >> 8
            mem[p + 7] = 1
            return 0
        if cmd == 0xc8:
            f = files.get(path(p + 1))
            b = word(p + 3)
            if f is None:
                return 0x46
            pages = set(range(b >> 8, (b >> 8) + 4))
            if b & 255 or pages & used:
                return 0x56
            used.update(pages)
            opened[1] = [f[2], 0, pages]
            mem[p + 5] = 1
            return 0
        if cmd == 0xca:
            f = opened.get(mem[p + 1])
            if f is None:
                return 0x43
            a, n = word(p + 2), word(p + 4)
            d = f[0][f[1]:f[1] + n]
            if n and not d:
                return 0x4c
            if a + len(d) > 0x10000 or set(
                    range(a >> 8, (a + len(d) - 1 >> 8) + 1)) & used:
                return 0x56
            mem[a:a + len(d)] = list(d)
            f[1] += len(d)
            mem[p + 6], mem[p + 7] = len(d) & 255, len(d) >> 8
            return 0
        if cmd == 0xcc:
            f = opened.pop(mem[p + 1], None)
            if f is None and mem[p + 1]:
                return 0x43
            if f:
                used.difference_update(f[2])
            return 0
        if cmd == 0xc7:                     # prefix
            b = word(p + 1)
            mem[b] = 0
            return 0
        return 0x01

    for _ in range(limit):
        pc = cpu.pc
        if pc == 0xbf00:
            ret = (cpu.stPopWord() + 1) & 0xffff
            cmd, p = mem[ret], word(ret + 1)
            if cmd == 0x65:
                return "quit", ret, text, calls, bytes(mem)
            err = mli(cmd, p)
            calls.append((cmd, err))
            cpu.a = err
            cpu.p = cpu.p & ~(cpu.CARRY | cpu.ZERO) | (
                cpu.CARRY if err else cpu.ZERO)
            cpu.pc = ret + 3
            continue
        if pc >= 0xc000:
            if pc == 0xfded:
                text.append(cpu.a & 127)
            elif pc in (0xfd0c, 0xfd1b, 0xfd35):
                return "key", pc, text, calls, bytes(mem)
            rts()
            continue
        if not (0x300 <= pc < 0x400 or 0x2000 <= pc < 0x2000 + len(code)):
            return "left", pc, text, calls, bytes(mem)
        cpu.step()
    return "endless", cpu.pc, text, calls, bytes(mem)


HANDLERS = dict(run=run)
