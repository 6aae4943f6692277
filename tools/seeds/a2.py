"""An Apple II with an Uthernet II in slot 1, as far as the player uses them.

Runs a program from a cold start against a scripted network, keyboard and
connection; reports every observable event with its cycle.  Judges nothing.
"""
from array import array

from py65.devices.mpu6502 import MPU

# event kinds: (cycle, kind, a, b)
OP, TICK, RX, SCREEN, WRITE, REGW, REGR, SWITCH, COUT, KBD, STROBE, KEY, MLI, \
    BRK, ROM, HGR0, WPTR, WMODE, RESET = range(19)

RXBASE, RXSIZE = 0x6000, 0x2000
S0MR, S0CR, S0SR, RSR, RD = 0x400, 0x401, 0x403, 0x426, 0x428
# stores with an extra read of the same address one cycle earlier
FALSE_READ = (0x9D, 0x99, 0x91)


class Stop(Exception):
    pass


class Card:
    """W5100 behind an indirect, auto-incrementing bus."""

    def __init__(self, apple, stream, arrivals, connects, rd0):
        self.a = apple
        self.stream = stream
        self.arrivals = list(arrivals)      # (cycle, total bytes so far)
        self.ai = 0
        self.connects = list(connects)      # (polls until answer, answer)
        self.ncon = 0
        self.pending = None
        self.mode = 0
        self.ptr = 0
        self.sent = 0       # bytes placed in the receive buffer
        self.acked = 0      # bytes released by RECV
        self.t0 = None      # connected at
        self.rd0 = rd0
        self.rd_seen = rd0
        self.reset()

    def reset(self):
        self.reg = bytearray(0x8000)
        self.mode = 0
        self.ptr = 0

    def pump(self):
        """Network data received by now."""
        if self.t0 is None:
            return
        now = self.a.cpu.processorCycles - self.t0
        while self.ai < len(self.arrivals) and \
                self.arrivals[self.ai][0] <= now:
            self.ai += 1
        have = self.arrivals[self.ai - 1][1] if self.ai else 0
        n = min(have, self.acked + RXSIZE, len(self.stream))
        reg = self.reg
        for i in range(self.sent, n):
            reg[RXBASE + (i & 0x1fff)] = self.stream[i]
        if n > self.sent:
            self.sent = n

    def step_ptr(self):
        if not self.mode & 2:
            return
        p = self.ptr
        if p == 0x7fff:
            p = 0x6000          # end of the receive buffer
        elif p == 0x5fff:
            p = 0x4000          # end of the transmit buffer
        else:
            p = (p + 1) & 0xffff
        self.ptr = p

    def read(self, r):
        log = self.a.log
        if r == 0x94:
            return self.mode
        if r == 0x95:
            return self.ptr >> 8
        if r == 0x96:
            return self.ptr & 0xff
        p = self.ptr
        self.pump()
        if p >= RXBASE and p < 0x8000:
            v = self.reg[p]
            log(RX, p - RXBASE | self.sent << 16, v)
        else:
            if p == S0SR:
                v = self.status()
            elif p in (RSR, RSR + 1):
                n = self.sent - self.acked
                v = (n >> 8) if p == RSR else n & 255
            else:
                v = self.reg[p & 0x7fff]
            log(REGR, p, v)
        self.step_ptr()
        return v

    def status(self):
        if self.pending is not None:
            polls, answer = self.pending
            if polls > 0:
                self.pending = (polls - 1, answer)
                return self.reg[S0SR]
            self.pending = None
            self.reg[S0SR] = answer
            if answer == 0x17:
                self.t0 = self.a.cpu.processorCycles
                self.reg[RD] = self.rd0 >> 8
                self.reg[RD + 1] = self.rd0 & 255
                self.rd_seen = self.rd0
        return self.reg[S0SR]

    def write(self, r, v):
        log = self.a.log
        if r == 0x94:
            log(WMODE, v, 0)
            if v & 0x80:
                self.reset()
            else:
                self.mode = v
            return
        if r == 0x95:
            self.ptr = (v << 8) | (self.ptr & 0xff)
            log(WPTR, self.ptr, 1)
            return
        if r == 0x96:
            self.ptr = (self.ptr & 0xff00) | v
            log(WPTR, self.ptr, 0)
            return
        p = self.ptr
        log(REGW, p, v)
        self.reg[p & 0x7fff] = v
        if p == S0CR:
            self.command(v)
        self.step_ptr()

    def command(self, v):
        self.reg[S0CR] = 0
        if v == 1:              # OPEN
            polls, opened, answer = self.connects[
                min(self.ncon, len(self.connects) - 1)]
            self.reg[S0SR] = opened
        elif v == 4:            # CONNECT
            polls, opened, answer = self.connects[
                min(self.ncon, len(self.connects) - 1)]
            self.ncon += 1
            self.reg[S0SR] = 0x15       # SYN sent
            self.pending = (polls, answer)
        elif v == 0x40:         # RECV
            rd = (self.reg[RD] << 8) | self.reg[RD + 1]
            self.pump()
            self.acked += (rd - self.rd_seen) & 0xffff
            self.rd_seen = rd


class Apple:
    def __init__(self, image, stream=b"", arrivals=(), connects=((0, 0x13,
                 0x17),), keys=(), key_every=0, rd0=0, aux_fill=0,
                 main_fill=0, watch=(), after_polls=0, reset_at=None, sp=0xff):
        self.ram = bytearray(65536)
        self.aux = bytearray(65536)
        # what was on the machine before
        for i in range(0x2000, 0x4000):
            self.aux[i] = aux_fill
        self.ram[0x800:0x800 + len(image)] = image
        self.ram[0xfffe:] = b"\x40\xfa"      # ROM
        self.lo, self.hi = 0x800, 0x800 + len(image)
        self.events = array("q")
        self.cpu = MPU(memory=self, pc=0x800)
        self.cpu.sp = sp
        self.sw = {"80store": 0, "80col": 0, "text": 1, "mixed": 1,
                   "page2": 0, "hires": 0, "dhires": 0}
        self.card = Card(self, stream, arrivals, connects, rd0)
        self.latch = 0
        self.keys = sorted(keys)
        self.ki = 0
        self.key_every = key_every
        self.next_every = key_every or None
        self.polls = 0
        self.after_polls = after_polls
        self.watch = frozenset(watch)
        self.reset_at = reset_at
        self.reset_done = False
        self.op = 0
        self.last = 0
        self.to_aux = False
        self.screen_on = False

    # ---- events
    def log(self, kind, a, b):
        # memory is accessed in the last cycle of loads and stores
        self.events.extend((self.cpu.processorCycles + self.last, kind, a,
                            b))

    # ---- memory
    def __getitem__(self, addr):
        if addr.__class__ is slice:
            return self.ram[addr]
        addr &= 0xffff
        if (addr >> 8) == 0xc0:
            return self.io(addr & 0xff, None)
        if self.to_aux and (0x2000 <= addr < 0x4000 or 0x400 <= addr < 0x800):
            return self.aux[addr]
        return self.ram[addr]

    def __setitem__(self, addr, v):
        addr &= 0xffff
        if (addr >> 8) == 0xc0:
            if self.op in FALSE_READ:
                self.last -= 1
                self.io(addr & 0xff, None)
                self.last += 1
            self.io(addr & 0xff, v)
            return
        if addr >= 0xc000:
            self.log(WRITE, addr, v)
            return
        if 0x2000 <= addr < 0x4000:
            if self.to_aux:
                self.aux[addr] = v
                self.log(SCREEN, addr, v | 0x100)
            else:
                self.ram[addr] = v
                self.log(SCREEN, addr, v)
            return
        if not (self.lo <= addr < self.hi):
            self.log(WRITE, addr, v)
        if self.to_aux and 0x400 <= addr < 0x800:
            self.aux[addr] = v
        else:
            self.ram[addr] = v

    def keyboard(self):
        now = self.cpu.processorCycles
        while self.ki < len(self.keys) and self.keys[self.ki] <= now:
            self.latch = 0x8d
            self.events.extend((self.keys[self.ki], KEY, 0, 0))
            self.ki += 1
        if self.next_every is not None and self.next_every <= now:
            self.latch = 0x8d
            self.log(KEY, 0, 0)
            while self.next_every <= now:
                self.next_every += self.key_every

    def io(self, r, v):
        if r == 0x30:
            self.log(TICK, 0, 0)
            return 0xa0
        if 0x90 <= r <= 0x9f:
            # the card decodes two address bits
            r = 0x94 | (r & 3)
            if v is None:
                return self.card.read(r)
            self.card.write(r, v)
            return 0
        self.keyboard()
        if r <= 0x0f and v is None:
            if r == 0:
                self.polls += 1
                if self.after_polls and self.polls >= self.after_polls:
                    self.polls = 0
                    self.latch = 0x8d
                    self.log(KEY, 0, 0)
            if self.latch & 0x80:
                self.polls = 0
                self.log(KBD, self.latch, r)
            return self.latch
        if r == 0x10:
            self.latch &= 0x7f
            self.log(STROBE, 0, 0)
            return self.latch
        self.log(SWITCH, r, 1 if v is not None else 0)
        s = self.sw
        if r in (0x00, 0x01):
            s["80store"] = r
        elif r in (0x0c, 0x0d):
            s["80col"] = r & 1
        elif r in (0x50, 0x51):
            s["text"] = r & 1
        elif r in (0x52, 0x53):
            s["mixed"] = r & 1
        elif r in (0x54, 0x55):
            s["page2"] = r & 1
        elif r in (0x56, 0x57):
            s["hires"] = r & 1
        elif r in (0x5e, 0x5f):
            s["dhires"] = 1 - (r & 1)
        # $2000-$3FFF goes to auxiliary memory
        self.to_aux = bool(s["80store"] and s["page2"] and s["hires"])
        return 0xa0

    # ---- running
    def rts(self):
        c = self.cpu
        c.sp = (c.sp + 1) & 0xff
        lo = self.ram[0x100 + c.sp]
        c.sp = (c.sp + 1) & 0xff
        hi = self.ram[0x100 + c.sp]
        c.pc = ((hi << 8 | lo) + 1) & 0xffff

    def rom(self):
        c = self.cpu
        pc = c.pc
        if pc == 0xF3F2:                    # clear hi-res page
            page = self.ram[0xE6]
            mem = self.aux if self.to_aux else self.ram
            base = page << 8
            end = (base & 0xe000) + 0x2000
            mem[base:end] = bytes(end - base)
            self.log(HGR0, page, int(self.to_aux))
            self.ram[0x1A] = 0
            self.ram[0x1B] = end >> 8
            self.ram[0x1C] = 0
            c.a = 0
            c.y = 0
            c.p = (c.p | 2) & 0x7f
            c.processorCycles += 8192 * 21
            self.rts()
        elif pc == 0xFDED:
            self.log(COUT, c.a, 0)
            c.processorCycles += 200
            self.rts()
        elif pc == 0xBF00:
            c.sp = (c.sp + 1) & 0xff
            lo = self.ram[0x100 + c.sp]
            c.sp = (c.sp + 1) & 0xff
            hi = self.ram[0x100 + c.sp]
            p = ((hi << 8 | lo) + 1) & 0xffff
            call = self.ram[p]
            parm = self.ram[p + 1] | self.ram[p + 2] << 8
            self.log(MLI, call, parm)
            raise Stop("mli")
        else:
            self.log(ROM, pc, 0)
            raise Stop("rom")

    def reset(self):
        """What the monitor does on RESET."""
        m = self.ram
        self.sw.update({"80store": 0, "80col": 0, "text": 1, "page2": 0,
                        "hires": 0, "dhires": 0})
        self.to_aux = False
        self.log(RESET, m[0x3f2] | m[0x3f3] << 8, m[0x3f4])
        if m[0x3f4] != m[0x3f3] ^ 0xa5:
            return "cold start"
        self.cpu.pc = m[0x3f2] | m[0x3f3] << 8

    def run(self, max_cycles):
        """Returns why it stopped."""
        if self.reset_at is not None and self.reset_at < max_cycles:
            why = self.run_until(self.reset_at)
            if why != "limit":
                return why
            why = self.reset()
            if why:
                return why
            self.reset_done = True
            max_cycles = self.cpu.processorCycles + 100000
        return self.run_until(max_cycles)

    def run_until(self, max_cycles):
        c = self.cpu
        ram = self.ram
        watch = self.watch
        times = c.cycletime
        try:
            while c.processorCycles < max_cycles:
                pc = c.pc
                self.last = 0
                if pc in watch:
                    self.log(OP, pc, c.x)
                if pc >= 0xbf00:
                    self.rom()
                    continue
                op = ram[pc]
                if op == 0:
                    self.log(BRK, pc, 0)
                    return "brk"
                self.op = op
                self.last = times[op] - 1
                if self.last < 0:
                    self.last = 0
                    self.log(ROM, pc, op)
                    return "illegal"
                c.step()
        except Stop as e:
            return e.args[0]
        return "limit"
