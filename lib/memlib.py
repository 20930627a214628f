"""Scripts of random memory accesses (see spec/MemBytes.tla), shared by the memory checks."""
M = "mpact/sim/util/memory/"
G = "mpact/sim/generic/"
LIBS = [G + "data_buffer.cc", G + "instruction.cc", G + "arch_state.cc", G + "component.cc", G + "state_item_base.cc",
        G + "program_error.cc"]
GLOBS = ("mpact/sim/generic/*.cc", M + "*.cc")


class Acc:
    """Random accesses to units lo..hi-1 of a memory."""

    def __init__(self, r, lo, hi, unit=1, gran=0, lats=(0, 0, 1, 2, 3, 9), lens=(1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 32),
                 els=(1, 2, 4, 8), maxk=8):
        self.r, self.lo, self.hi, self.unit, self.gran, self.lats, self.maxk = r, lo, hi, unit, gran, lats, maxk
        self.lens = [x for x in lens if x % unit == 0 and x // unit <= hi - lo]
        self.els = [x for x in els if x % unit == 0 and x // unit <= hi - lo]

    def addr(self, units):
        top = self.hi - units
        if top <= self.lo:
            return self.lo
        if self.r.random() < 0.12:
            return self.r.choice([self.lo, top])
        return self.r.randint(self.lo, top)

    def late(self):
        return [self.r.choice(self.lats), self.r.choice([0, 1, 2, 3, 11, 12])]

    def vec(self):
        r = self.r
        el = r.choice(self.els)
        eu = el // self.unit
        k = r.choice([x for x in (1, 2, 3, 4, 5, 8) if x <= self.maxk])
        mask = [r.choice([0, 1, 1]) for _ in range(k)]
        if r.random() < 0.45 and k * eu <= self.hi - self.lo:
            return [[self.addr(k * eu)], mask, el]
        return [[self.addr(eu) for _ in range(k)], mask, el]

    def taddr(self, ng):
        """Mostly aligned tagged address (or None if it does not fit)."""
        r, gu = self.r, max(1, self.gran // self.unit)
        need = -(-ng * self.gran // self.unit)
        if need > self.hi - self.lo:
            return None
        a = self.addr(need)
        if r.random() < 0.92:
            a -= a % gu
            if a < self.lo:
                a += gu
            if a + need > self.hi:
                return None
        return a

    def op(self, o):
        r = self.r
        if o == "st":
            n = r.choice(self.lens)
            return ["st", self.addr(n // self.unit), n, r.randint(0, 255)]
        if o == "ld":
            n = r.choice(self.lens)
            return ["ld", self.addr(n // self.unit), n] + self.late()
        if o == "vst":
            return ["vst"] + self.vec() + [r.randint(0, 255)]
        if o == "vld":
            return ["vld"] + self.vec() + self.late()
        if o == "adv":
            return ["adv"]
        ng = r.choice([1, 1, 2, 3])
        a = self.taddr(ng)
        if a is None:
            return None
        if o == "tst":
            return ["tst", a, [r.choice([1, 1, 0, 255]) for _ in range(ng)], r.randint(0, 255)]
        return [o, a, ng] + self.late()
