from amaranth import Elaboratable, Module, Signal
from amaranth_soc import wishbone


class MinervaCPU(Elaboratable):
    """A processor without instructions: its buses and interrupt inputs are free."""
    def __init__(self, *, with_debug=False, **kwargs):
        F = {"err", "cti", "bte"}
        self.ibus = wishbone.Interface(addr_width=30, data_width=32, granularity=8, features=F, name="ibus")
        self.dbus = wishbone.Interface(addr_width=30, data_width=32, granularity=8, features=F, name="dbus")
        self.ip = Signal(32)

    def elaborate(self, platform):
        return Module()
