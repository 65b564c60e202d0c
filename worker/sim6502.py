"""A small 6502, enough to execute boot loaders.  No cycle counts, no
interrupts; decimal mode is not used by the loaders.

mem is a bytearray of 64K.  `hooks` maps an address to a function called with
the cpu when the program counter gets there; it returns True to go on at the
pc it left behind.  `inside(pc)` tells whether the pc is still in the loader;
run() returns the pc at which it left.
"""


class Trap(Exception):
    pass


class CPU:
    def __init__(self, mem):
        self.mem = mem
        self.a = self.x = self.y = 0
        self.sp = 0xff
        self.pc = 0
        self.c = self.z = self.v = self.n = False
        self.hooks = {}
        self.on_io = None
        self.io_lo, self.io_hi = 1, 0

    def rd(self, addr):
        if self.io_lo <= addr <= self.io_hi and self.on_io:
            self.on_io(addr)
        return self.mem[addr]

    def wr(self, addr, v):
        if self.io_lo <= addr <= self.io_hi and self.on_io:
            self.on_io(addr)
            return
        self.mem[addr] = v

    def push(self, v):
        self.mem[0x100 + self.sp] = v
        self.sp = (self.sp - 1) & 0xff

    def pop(self):
        self.sp = (self.sp + 1) & 0xff
        return self.mem[0x100 + self.sp]

    def rts(self):
        lo = self.pop()
        hi = self.pop()
        self.pc = ((hi << 8 | lo) + 1) & 0xffff

    def nz(self, v):
        self.n = v >= 0x80
        self.z = v == 0
        return v

    def word(self, a):
        return self.mem[a & 0xffff] | self.mem[(a + 1) & 0xffff] << 8

    # addressing: returns the effective address and advances the pc
    def ea(self, mode):
        m, pc = self.mem, self.pc
        if mode == "imm":
            self.pc = pc + 1
            return pc
        if mode == "zp":
            self.pc = pc + 1
            return m[pc]
        if mode == "zpx":
            self.pc = pc + 1
            return (m[pc] + self.x) & 0xff
        if mode == "zpy":
            self.pc = pc + 1
            return (m[pc] + self.y) & 0xff
        if mode == "abs":
            self.pc = pc + 2
            return m[pc] | m[pc + 1] << 8
        if mode == "abx":
            self.pc = pc + 2
            return ((m[pc] | m[pc + 1] << 8) + self.x) & 0xffff
        if mode == "aby":
            self.pc = pc + 2
            return ((m[pc] | m[pc + 1] << 8) + self.y) & 0xffff
        if mode == "inx":
            self.pc = pc + 1
            z = (m[pc] + self.x) & 0xff
            return m[z] | m[(z + 1) & 0xff] << 8
        if mode == "iny":
            self.pc = pc + 1
            z = m[pc]
            return ((m[z] | m[(z + 1) & 0xff] << 8) + self.y) & 0xffff
        raise Trap("mode %s" % mode)

    def adc(self, v):
        t = self.a + v + (1 if self.c else 0)
        self.v = bool(~(self.a ^ v) & (self.a ^ t) & 0x80)
        self.c = t > 0xff
        self.a = self.nz(t & 0xff)

    def cmp(self, r, v):
        t = r - v
        self.c = t >= 0
        self.nz(t & 0xff)

    def branch(self, cond):
        off = self.mem[self.pc]
        self.pc += 1
        if cond:
            self.pc = (self.pc + (off - 256 if off >= 128 else off)) & 0xffff

    def shift(self, op, v):
        if op == "asl":
            self.c = v >= 0x80
            return self.nz(v << 1 & 0xff)
        if op == "lsr":
            self.c = bool(v & 1)
            return self.nz(v >> 1)
        if op == "rol":
            t = v << 1 | (1 if self.c else 0)
            self.c = t > 0xff
            return self.nz(t & 0xff)
        t = v | (0x100 if self.c else 0)
        self.c = bool(t & 1)
        return self.nz(t >> 1)

    def run(self, inside, limit=20000000):
        steps = 0
        while True:
            pc = self.pc
            h = self.hooks.get(pc)
            if h is not None:
                if not h(self):
                    return pc
                continue
            if not inside(pc):
                return pc
            steps += 1
            if steps > limit:
                raise Trap("the loader does not finish")
            self.step()

    def step(self):
        op = self.mem[self.pc]
        self.pc = (self.pc + 1) & 0xffff
        try:
            name, mode = OPS[op]
        except KeyError:
            raise Trap("executes $%02X at $%04X" % (op, self.pc - 1))
        if name == "lda":
            self.a = self.nz(self.rd(self.ea(mode)))
        elif name == "ldx":
            self.x = self.nz(self.rd(self.ea(mode)))
        elif name == "ldy":
            self.y = self.nz(self.rd(self.ea(mode)))
        elif name == "sta":
            self.wr(self.ea(mode), self.a)
        elif name == "stx":
            self.wr(self.ea(mode), self.x)
        elif name == "sty":
            self.wr(self.ea(mode), self.y)
        elif name == "inc":
            a = self.ea(mode)
            self.wr(a, self.nz((self.rd(a) + 1) & 0xff))
        elif name == "dec":
            a = self.ea(mode)
            self.wr(a, self.nz((self.rd(a) - 1) & 0xff))
        elif name == "bne":
            self.branch(not self.z)
        elif name == "beq":
            self.branch(self.z)
        elif name == "bcc":
            self.branch(not self.c)
        elif name == "bcs":
            self.branch(self.c)
        elif name == "bpl":
            self.branch(not self.n)
        elif name == "bmi":
            self.branch(self.n)
        elif name == "bvc":
            self.branch(not self.v)
        elif name == "bvs":
            self.branch(self.v)
        elif name == "cmp":
            self.cmp(self.a, self.rd(self.ea(mode)))
        elif name == "cpx":
            self.cmp(self.x, self.rd(self.ea(mode)))
        elif name == "cpy":
            self.cmp(self.y, self.rd(self.ea(mode)))
        elif name == "and":
            self.a = self.nz(self.a & self.rd(self.ea(mode)))
        elif name == "ora":
            self.a = self.nz(self.a | self.rd(self.ea(mode)))
        elif name == "eor":
            self.a = self.nz(self.a ^ self.rd(self.ea(mode)))
        elif name == "adc":
            self.adc(self.rd(self.ea(mode)))
        elif name == "sbc":
            self.adc(self.rd(self.ea(mode)) ^ 0xff)
        elif name == "bit":
            v = self.rd(self.ea(mode))
            self.n = v >= 0x80
            self.v = bool(v & 0x40)
            self.z = (v & self.a) == 0
        elif name in ("asl", "lsr", "rol", "ror"):
            if mode == "acc":
                self.a = self.shift(name, self.a)
            else:
                a = self.ea(mode)
                self.wr(a, self.shift(name, self.rd(a)))
        elif name == "jsr":
            t = self.word(self.pc)
            r = self.pc + 1
            self.push(r >> 8)
            self.push(r & 0xff)
            self.pc = t
        elif name == "rts":
            self.rts()
        elif name == "jmp":
            self.pc = self.word(self.pc)
        elif name == "jmpi":
            p = self.word(self.pc)
            self.pc = self.mem[p] | self.mem[(p & 0xff00) | ((p + 1) & 0xff)] << 8
        elif name == "tax":
            self.x = self.nz(self.a)
        elif name == "tay":
            self.y = self.nz(self.a)
        elif name == "txa":
            self.a = self.nz(self.x)
        elif name == "tya":
            self.a = self.nz(self.y)
        elif name == "tsx":
            self.x = self.nz(self.sp)
        elif name == "txs":
            self.sp = self.x
        elif name == "inx":
            self.x = self.nz((self.x + 1) & 0xff)
        elif name == "iny":
            self.y = self.nz((self.y + 1) & 0xff)
        elif name == "dex":
            self.x = self.nz((self.x - 1) & 0xff)
        elif name == "dey":
            self.y = self.nz((self.y - 1) & 0xff)
        elif name == "pha":
            self.push(self.a)
        elif name == "pla":
            self.a = self.nz(self.pop())
        elif name == "clc":
            self.c = False
        elif name == "sec":
            self.c = True
        elif name == "php":
            self.push((0x80 if self.n else 0) | (0x40 if self.v else 0) | 0x30 | (2 if self.z else 0) | (1 if self.c else 0))
        elif name == "plp":
            p = self.pop()
            self.n, self.v, self.z, self.c = bool(p & 0x80), bool(p & 0x40), bool(p & 2), bool(p & 1)
        elif name in ("nop", "sei", "cli", "cld"):
            pass
        else:
            raise Trap("opcode %s" % name)


OPS = {}


def _group(base, name, modes):
    offs = {"inx": 0x01, "zp": 0x05, "imm": 0x09, "abs": 0x0d, "iny": 0x11, "zpx": 0x15, "aby": 0x19, "abx": 0x1d}
    for m in modes:
        OPS[base + offs[m]] = (name, m)


for _b, _n in ((0x00, "ora"), (0x20, "and"), (0x40, "eor"), (0x60, "adc"), (0xa0, "lda"), (0xc0, "cmp"), (0xe0, "sbc")):
    _group(_b, _n, ["inx", "zp", "imm", "abs", "iny", "zpx", "aby", "abx"])
_group(0x80, "sta", ["inx", "zp", "abs", "iny", "zpx", "aby", "abx"])
for _b, _n in ((0x00, "asl"), (0x20, "rol"), (0x40, "lsr"), (0x60, "ror")):
    OPS[_b + 0x06] = (_n, "zp")
    OPS[_b + 0x0a] = (_n, "acc")
    OPS[_b + 0x0e] = (_n, "abs")
    OPS[_b + 0x16] = (_n, "zpx")
    OPS[_b + 0x1e] = (_n, "abx")
for _b, _n in ((0xc0, "dec"), (0xe0, "inc")):
    OPS[_b + 0x06] = (_n, "zp")
    OPS[_b + 0x0e] = (_n, "abs")
    OPS[_b + 0x16] = (_n, "zpx")
    OPS[_b + 0x1e] = (_n, "abx")
OPS.update({
    0xa2: ("ldx", "imm"), 0xa6: ("ldx", "zp"), 0xb6: ("ldx", "zpy"), 0xae: ("ldx", "abs"), 0xbe: ("ldx", "aby"),
    0xa0: ("ldy", "imm"), 0xa4: ("ldy", "zp"), 0xb4: ("ldy", "zpx"), 0xac: ("ldy", "abs"), 0xbc: ("ldy", "abx"),
    0x86: ("stx", "zp"), 0x96: ("stx", "zpy"), 0x8e: ("stx", "abs"),
    0x84: ("sty", "zp"), 0x94: ("sty", "zpx"), 0x8c: ("sty", "abs"),
    0xe0: ("cpx", "imm"), 0xe4: ("cpx", "zp"), 0xec: ("cpx", "abs"),
    0xc0: ("cpy", "imm"), 0xc4: ("cpy", "zp"), 0xcc: ("cpy", "abs"),
    0x24: ("bit", "zp"), 0x2c: ("bit", "abs"),
    0x10: ("bpl", ""), 0x30: ("bmi", ""), 0x50: ("bvc", ""), 0x70: ("bvs", ""),
    0x90: ("bcc", ""), 0xb0: ("bcs", ""), 0xd0: ("bne", ""), 0xf0: ("beq", ""),
    0x20: ("jsr", ""), 0x60: ("rts", ""), 0x4c: ("jmp", ""), 0x6c: ("jmpi", ""),
    0xaa: ("tax", ""), 0xa8: ("tay", ""), 0x8a: ("txa", ""), 0x98: ("tya", ""), 0xba: ("tsx", ""), 0x9a: ("txs", ""),
    0xe8: ("inx", ""), 0xc8: ("iny", ""), 0xca: ("dex", ""), 0x88: ("dey", ""),
    0x48: ("pha", ""), 0x68: ("pla", ""), 0x08: ("php", ""), 0x28: ("plp", ""),
    0x18: ("clc", ""), 0x38: ("sec", ""), 0xea: ("nop", ""), 0x78: ("sei", ""), 0x58: ("cli", ""), 0xd8: ("cld", ""),
})
