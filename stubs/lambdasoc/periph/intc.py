from amaranth import Elaboratable, Module, Signal


class GenericInterruptController(Elaboratable):
    def __init__(self, *, width):
        self.width = width
        self.ip = Signal(width)
        self.lines = {}

    def add_irq(self, line, index):
        if not isinstance(index, int) or index not in range(self.width):
            raise ValueError("IRQ index must be an integer ranging from 0 to {}, not {!r}".format(self.width - 1, index))
        if index in self.lines:
            raise ValueError("IRQ index {} has already been mapped".format(index))
        self.lines[index] = line

    def elaborate(self, platform):
        m = Module()
        for i, l in self.lines.items():
            m.d.comb += self.ip[i].eq(l)
        return m
