"""Open-drain pad stand-ins exposing o/oe/i as plain signals."""
from amaranth import Signal


class _T:
    def __init__(self, name):
        self.o = Signal(name=name + "_o")
        self.oe = Signal(name=name + "_oe")
        self.i = Signal(name=name + "_i", reset=1)


class Pads:
    def __init__(self, prefix=""):
        self.scl_t = _T(prefix + "scl")
        self.sda_t = _T(prefix + "sda")

    def ports(self, p=""):
        ins = {p + "scl_i": self.scl_t.i, p + "sda_i": self.sda_t.i}
        outs = {p + "scl_o": self.scl_t.o, p + "scl_oe": self.scl_t.oe, p + "sda_o": self.sda_t.o, p + "sda_oe": self.sda_t.oe}
        return ins, outs
