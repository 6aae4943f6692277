"""The simulator: I/O page, network card, memory manager."""
import os
import sys

from common import REPO, SCRATCH, CodeFault


def preload():
    p = os.path.join(REPO, "simulator")
    if p not in sys.path:
        sys.path.insert(0, p)
    import apple2
    import memory
    import uthernet


def outcome(f):
    """[kind, value or details]."""
    try:
        return ["ok", f()]
    except NotImplementedError:
        return ["unimplemented", None]
    except AssertionError as e:
        return ["assertion", str(e)]
    except Exception as e:
        n = type(e).__name__
        if n == "TrapException":
            return ["trap", num(e, "address"), said(getattr(e, "msg", "")),
                    said(e)]
        if n == "WriteProtectedException":
            return ["protected", num(e, "addr"), num(e, "value"),
                    said(getattr(e, "name", "")), said(e)]
        if n == "UndefinedEntryPointException":
            return ["entry", num(e, "prev_addr"), num(e, "addr"),
                    said(getattr(getattr(e, "region", ""), "name", "")),
                    said(e)]
        raise


def num(e, name):
    try:
        return int(getattr(e, name))
    except Exception:
        return None


def said(x):
    try:
        return str(x)
    except Exception as e:
        return "<%r>" % (e,)


def new(stream=b""):
    preload()
    import apple2
    import uthernet
    return apple2.AppleII(uthernet.Uthernet(stream))


def poke(a2, addr, v, cpu):
    """A write by the processor or directly."""
    if not cpu:
        a2.memory[addr] = v
        return
    a2.memory.write(0x300, [0xa9, v, 0x8d, addr & 255, addr >> 8])
    a2.cpu.pc = 0x300
    a2.cpu.step()
    a2.cpu.step()


def peek(a2, addr, cpu):
    if not cpu:
        return int(a2.memory[addr])
    a2.memory.write(0x300, [0xad, addr & 255, addr >> 8])
    a2.cpu.pc = 0x300
    a2.cpu.step()
    return int(a2.cpu.a)


STATUS = [0xc018, 0xc013, 0xc014, 0xc015, 0xc016, 0xc017, 0xc01f, 0xc01e,
          0xc01a, 0xc01b, 0xc01c, 0xc01d]


def switches(ops):
    """[("r"/"w", address, value, by the processor)] on the I/O page.
    Returns each outcome with the status of all switches afterwards."""
    a2 = new()
    a2.memory_manager.enable()
    out = []

    def status():
        return [outcome(lambda a=a: int(a2.memory[a])) for a in STATUS]
    res = [status()]
    for k, addr, v, cpu in ops:
        if k == "r":
            r = outcome(lambda: peek(a2, addr, cpu))
        else:
            r = outcome(lambda: poke(a2, addr, v, cpu))
        out.append((r, status()))
    return res[0], out


def card(ops):
    """[(register, value or None, by the processor)]: accesses to the card's
    four registers."""
    a2 = new()
    a2.memory_manager.enable()
    out = []
    for reg, v, cpu in ops:
        a = 0xc094 + reg
        if v is None:
            out.append(outcome(lambda: peek(a2, a, cpu)))
        else:
            out.append(outcome(lambda: poke(a2, a, v, cpu)))
    return out


class Cpu:
    def __init__(self, pc=0):
        self.pc = pc


def regions(layout, fill, ops):
    """Memory manager with generated regions.
    layout: [name, start, end, writable, read interceptor?, write
    interceptor?, constant the read interceptor gives or None,
    [entry points]]; fill: [(address, bytes)] loaded before."""
    preload()
    import memory
    log = []
    rs = []
    for i, (name, a, b, wr, ri, wi, const, entries) in enumerate(layout):
        def read(addr, i=i, const=const):
            log.append(("r", i, int(addr)))
            return const

        def write(addr, v, i=i):
            log.append(("w", i, int(addr), int(v)))

        def entered(cpu, i=i):
            log.append(("x", i, int(cpu.pc)))
        kw = dict(writable=wr)
        if ri:
            kw["read_interceptor"] = read
        if wi:
            kw["write_interceptor"] = write
        if entries:
            kw["entrypoints"] = {e: entered for e in entries}
        rs.append(memory.MemoryRegion(name, a, b, **kw))
    mm = memory.MemoryManager(rs)
    for a, data in fill:
        mm.memory.write(a, list(data))
    mm.enable()
    # the backing store, seen without interceptors
    raw = mm.memory._subject
    out = []
    for op in ops:
        del log[:]
        if op[0] == "r":
            r = outcome(lambda: int(mm.memory[op[1]]))
        elif op[0] == "w":
            def w():
                mm.memory[op[1]] = op[2]
            r = outcome(w)
        else:
            r = outcome(lambda: mm.MaybeInterceptExecution(
                Cpu(op[2]), op[1]))
        out.append((r, list(log), int(raw[op[1]])))
    return out, bytes(raw[i] for i in range(65536))


class Limit(Exception):
    pass


def program(code, at, limit, watch):
    """Runs machine code in the simulated Apple II.
    code: [(address, bytes)].  Returns the outcome, the instruction addresses
    executed and the text of events."""
    import io
    a2 = new()
    for a, b in code:
        a2.memory.write(a, list(b))
    a2.memory_manager.enable()
    trail = []
    step = a2.cpu.step

    def counted():
        trail.append(int(a2.cpu.pc))
        if len(trail) > limit:
            raise Limit
        return step()
    a2.cpu.step = counted
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        try:
            r = outcome(lambda: a2.Run(at))
        except Limit:
            r = ["limit", None]
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    raw = a2.memory._subject
    return r, trail, text, [int(raw[a]) for a in watch]


def apple_map(ops):
    """[(address, value, by the processor)]: writes to the simulated Apple
    II's memory, each followed by what the byte then holds."""
    a2 = new()
    a2.memory_manager.enable()
    raw = a2.memory._subject
    out = []
    for addr, v, cpu in ops:
        r = outcome(lambda: poke(a2, addr, v, cpu))
        out.append((r[:3], int(raw[addr])))
    return out


class Extractor:
    """AppleCommander, and nothing else: writes what it extracts."""
    code = b""
    fail = 0
    stale = False
    calls = ()

    def __init__(self, args, *a, **k):
        if isinstance(args, str):
            import shlex
            args = shlex.split(args)
        self.args = args = [os.fspath(x) for x in args]
        Extractor.calls += (args,)
        self.stdout = self.stderr = self.stdin = None
        self.pid = 999999
        self.returncode = Extractor.fail
        p = os.path.realpath(args[-1])
        if not Extractor.fail or Extractor.stale:
            if not p.startswith(os.path.realpath(SCRATCH) + os.sep):
                raise CodeFault("extracts to %s" % p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(Extractor.code)

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def communicate(self, input=None, timeout=None):
        return None, None

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def boot(rom, stream, code, fail, stale, left, limit):
    """The simulator's own main program, in a directory with a ROM image, a
    stream and what an earlier run left (the programme it extracted, or None).
    fail is the status of the extraction, which leaves a file in that case
    only if stale.  Returns the outcome, the instructions executed and the
    memory at the end (None if there was no machine)."""
    import io
    import runpy
    import shutil
    import subprocess
    import tempfile
    preload()
    import apple2
    made, trail = [], []
    init = apple2.AppleII.__init__

    def note(self, *a, **k):
        init(self, *a, **k)
        made.append(self)
        step = self.cpu.step

        def counted():
            trail.append(int(self.cpu.pc))
            if len(trail) > limit:
                raise Limit
            return step()
        self.cpu.step = counted
    Extractor.code, Extractor.fail, Extractor.calls = code, fail, ()
    Extractor.stale = stale
    d = tempfile.mkdtemp(dir=SCRATCH)
    cwd, out, popen, argv = os.getcwd(), sys.stdout, subprocess.Popen, sys.argv
    try:
        os.makedirs(os.path.join(d, "simulator"))
        with open(os.path.join(d, "out.bin"), "wb") as f:
            f.write(stream)
        with open(os.path.join(d, "simulator", "APPLE2E.ROM"), "wb") as f:
            f.write(rom)
        if left is not None:
            e = os.path.join(d, "ethernet", "ethernet")
            os.makedirs(e)
            with open(os.path.join(e, "ethernet.bin"), "wb") as f:
                f.write(left)
        os.chdir(d)
        sys.stdout = io.StringIO()
        subprocess.Popen = Extractor
        apple2.AppleII.__init__ = note
        sys.argv = ["simulator.py"]

        def go():
            try:
                runpy.run_path(os.path.join(REPO, "simulator",
                                            "simulator.py"),
                               run_name="__main__")
            except subprocess.CalledProcessError:
                return "exit", 1
            except SystemExit as e:
                return "exit", e.code if isinstance(e.code, int) else \
                    0 if e.code is None else 1
            except Limit:
                return "limit", None
            return "end", None
        r = outcome(go)
    finally:
        apple2.AppleII.__init__ = init
        subprocess.Popen = popen
        sys.stdout, sys.argv = out, argv
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    if len(made) > 1:
        raise CodeFault("%d machines" % len(made))
    mem = None
    if made:
        raw = made[0].memory._subject
        mem = bytes(int(raw[a]) for a in range(65536))
    return r, trail, mem, [a for c in Extractor.calls for a in c]


HANDLERS = dict(apple_map=apple_map, switches=switches, card=card,
                regions=regions, program=program, boot=boot)
